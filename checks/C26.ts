// deno-lint-ignore-file no-explicit-any
import { say } from "../lib/env.ts";
import { Check } from "../lib/core.ts";
import { advance, Feed, profile, run, Stuck } from "../lib/feed.ts";
import { Disk } from "../lib/disk.ts";

const ck = new Check("C26", {
  level: "exploration",
  rule: "A complete Client runs against a service whose update sequences are known exactly while pushes are lost, duplicated and delayed, connections drop and differences fail. Then the faults stop: what the handlers received must be the server's history, and the positions the client asks from must be the server's. A case is one history.",
  assumptions: ["A channel whose pushes are all lost is only noticed at its next update or too-long notice", "Updates the server declares skipped (differenceTooLong) are exempt"],
  quickSeconds: 60,
  thoroughSeconds: 600,
});

async function history(t: any, o: any, params: any) {
  const r = t.rng;
  const f = new Feed(t, o);
  const p = f.site.proc({
    disk: new Disk(),
    diskOptions: { slow: r.pick([0, 0, 2, 10]), serialize: r.bool() },
    params: { authString: f.site.authString(f.site.login(f.acc)), ...params },
    handler: o.slow ? async () => {
      const d = r.pick([0, 0, 1, 300]);
      if (d) await new Promise((f) => setTimeout(f, d));
    } : undefined,
  });
  const ctx = () => ({ script: f.script, options: o, params });
  const opened: bigint[] = [];
  try {
    await run(p.client.start(), 600000, "start()");
    await advance(20000);
    await f.introduce(o.channels ?? 0);
    // opened channels are polled
    for (const id of f.channels.filter(() => r.bool(0.2))) opened.push(id), await run(p.client.openChat(-1000000000000 - Number(id), { timeout: r.pick([5, 20, 60]) }), 600000, "openChat()"), t.count("channels polled");
    for (let i = r.pick([5, 15, 40]); i > 0; i--) {
      const d = f.step(p);
      if (d) await advance(d);
    }
    await f.settle();
    // the server falls quiet: the client looks for missed updates by itself
    await advance(20 * 60000);
    for (const id of opened) await run(p.client.closeChat(-1000000000000 - Number(id)), 600000, "closeChat()");
  } catch (e) {
    if (e instanceof Stuck) t.fail("stuck", e.message, ctx());
    throw e;
  }
  if (Deno.env.get("VERIF_DEBUG")) for (const c of f.site.server.calls) if (/State|Diff/.test(c.call._)) say(`${c.at} ${c.call._} ${c.call.pts}/${c.call.qts} ${c.call.date}`);
  t.sample({ options: o, script: f.script, delivered: f.tags(p).length, events: f.all.length, differences: f.diffs.length });
  t.state("history", f.script + "|" + f.tags(p).length + "|" + f.diffs.length);
  t.count("differences", f.diffs.length);
  if (Deno.env.get("VERIF_DEBUG")) say(p.got.map((u: any) => u.type + ":" + u.update?._), f.tags(p), f.all.map((e) => [e.tag, e.n, e.update._]));
  const late = f.missing(p, (b) => !b.startsWith("h") || opened.some((id) => b === "h" + id));
  const say1 = (l: any[]) => l.slice(0, 8).map((e) => `${e.update._} at ${e.n} of ${e.box}`).join(", ");
  t.ensure(!late.length, late[0]?.box + "-missing", () => `after the server fell quiet these were never delivered: ${say1(late)}`, ctx());
  // channels are noticed at their next update
  for (const id of f.channels) f.site.push(f.acc, f.acc.pack([f.acc.happen("message", id)], false));
  await advance(120000);
  const rest = f.missing(p);
  t.ensure(!rest.length, rest[0]?.box[0] + "-missing", () => `after the next update of every sequence these were never delivered: ${say1(rest)}`, ctx());
  // the recorded positions are the server's
  const before = f.diffs.length;
  f.site.push(f.acc, { _: "updatesTooLong" });
  for (const id of f.channels) f.site.push(f.acc, { _: "updates", updates: [{ _: "updateChannelTooLong", channel_id: id }], users: [], chats: [f.acc.chat(id)], date: f.acc.date, seq: 0 });
  await advance(120000);
  const asked = f.diffs.slice(before);
  const c = asked.filter((d) => d.box === "c");
  t.ensure(c.length && c[0].pts === f.acc.pts && c[0].qts === f.acc.qts, "position", () => `the server is at ${f.acc.pts}/${f.acc.qts}, the client asks from ${c.map((d) => d.pts + "/" + d.qts)}`, ctx());
  for (const id of f.channels) {
    const l = asked.filter((d) => d.box === "h" + id), at = f.acc.channel(id).pts;
    t.ensure(l.length && l[0].pts === at, "channel-position", () => `channel ${id} is at ${at}, the client asks from ${l.map((d) => d.pts)}`, ctx());
  }
  t.count("updates_delivered", f.tags(p).length);
  t.count("updates_recovered", f.all.length);
  t.sig(f.script);
  p.kill();
}

ck.part("account", { quick: 400, thorough: 20000, weight: 3 }, async (t) => {
  const r = t.rng;
  await history(t, profile(r), { guaranteeUpdateDelivery: r.bool(0.3), dropPendingUpdates: r.pick([undefined, undefined, true, false]), persistCache: r.bool(0.3) });
});

await ck.main();
