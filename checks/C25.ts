// deno-lint-ignore-file no-explicit-any
import { say } from "../lib/env.ts";
import { Check } from "../lib/core.ts";
import { advance, Feed, profile, run, Stuck } from "../lib/feed.ts";
import { Disk } from "../lib/disk.ts";

const ck = new Check("C25", {
  level: "exploration",
  rule: "A complete Client runs against a service whose update sequences are known exactly. Pushes are lost, duplicated, delayed and overlap with differences, request results, dropped connections and slow storage. Everything handlers receive is checked against the server's own numbering. A case is one history.",
  assumptions: ["Updates of one difference answer may be delivered messages first, as the answer does not order its two lists against each other", "Updates that take no place in a sequence (count 0) may repeat"],
  quickSeconds: 60,
  thoroughSeconds: 600,
});

ck.part("account", { quick: 400, thorough: 20000, weight: 3 }, async (t) => {
  const r = t.rng;
  const o = profile(r);
  const f = new Feed(t, o);
  const p = f.site.proc({
    disk: new Disk(),
    diskOptions: { slow: r.pick([0, 0, 2, 10]), serialize: r.bool() },
    params: { authString: f.site.authString(f.site.login(f.acc)), guaranteeUpdateDelivery: r.bool(0.3), dropPendingUpdates: r.pick([undefined, undefined, true, false]), persistCache: r.bool(0.3) },
    handler: o.slow ? async () => {
      const d = r.pick([0, 0, 1, 300]);
      if (d) await new Promise((f) => setTimeout(f, d));
    } : undefined,
  });
  try {
    if (r.bool(0.4)) {
      f.script += "!";
      for (let i = r.int(1, 6); i > 0; i--) setTimeout(() => f.burst(), r.pick([1, 10, 100, 1000]) * r.f());
    }
    await run(p.client.start(), 600000, "start()");
    await f.introduce(o.channels ?? 0);
    // channels can be polled at the same time
    const opened = f.channels.filter(() => r.bool(0.25)).map((id) => -1000000000000 - Number(id));
    for (const id of opened) await run(p.client.openChat(id, { timeout: r.pick([undefined, 0.2, 1, 5]) }), 600000, "openChat()"), t.count("channels polled");
    for (let i = r.pick([5, 15, 40]); i > 0; i--) {
      const d = f.step(p);
      if (d) await advance(d);
    }
    for (const id of opened) await run(p.client.closeChat(id), 600000, "closeChat()");
    await f.settle();
  } catch (e) {
    if (e instanceof Stuck) t.fail("stuck", e.message);
    throw e;
  }
  if (Deno.env.get("VERIF_DEBUG")) for (const c of f.site.server.calls) if (/State|Diff/.test(c.call._)) say(`${c.at} ${c.call._} ${c.call.pts}/${c.call.qts} ${c.call.date}`);
  const got = f.tags(p).length;
  t.count("updates_delivered", got);
  t.count("differences", f.diffs.length);
  t.sample({ options: o, script: f.script, delivered: got, events: f.all.length, differences: f.diffs.length });
  t.state("history", f.script + "|" + got);
  if (got && f.diffs.length) t.sig(f.script);
  const d = f.disorder(p);
  if (d) t.fail(d.key, d.msg, { script: f.script, options: o });
  const b = f.backwards(p);
  if (b) t.fail("backwards", b, { script: f.script, options: o });
  p.kill();
});

await ck.main();
