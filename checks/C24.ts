// deno-lint-ignore-file no-explicit-any
import "../lib/env.ts";
import { Check, show } from "../lib/core.ts";
import { advance, API, Feed, profile, run, Stuck, tagOf, TL, until, vclock } from "../lib/feed.ts";
import { Disk } from "../lib/disk.ts";
import { rleDecode } from "file:///repo/utilities/0_rle.ts";

const ck = new Check("C24", {
  level: "exploration",
  rule: "Complete Clients with delivery guarantees run one after another on one simulated disk, each cut off at a chosen storage write, inside a handler, at a random time or by disconnecting, with slow storage and failing handlers. Every write of the update store and every handler call is logged; a queue model judges them: only the oldest stored update of a box is ever handed out, it is removed only after its handlers completed, and nothing accepted stays undelivered. A case is one history of processes.",
  assumptions: ["Writes reach the disk in the order they were issued", "An update whose handlers keep failing blocks its own box until a later update of that box or a restart"],
  quickSeconds: 60,
  thoroughSeconds: 600,
});

/** the update store as the disk sees it, and the handler calls */
class Watch {
  boxes = new Map<string, { id: bigint; tag: number | null; at: number; name: string }[]>();
  /** handler attempts of the current process: key is the tag */
  attempts = new Map<number, { box: string; ok: boolean; calls: number; done: boolean }>();
  succeeded = new Set<number>();
  order: number[] = [];
  problem: { key: string; msg: string } | null = null;
  accepted = 0;
  removed = 0;
  replayed = 0;
  constructor(public f: Feed) {}
  fail(key: string, msg: string) {
    this.problem ??= { key, msg };
  }
  decode(v: any): any {
    return TL.decode(API, rleDecode(v[1]));
  }
  box(b: string) {
    let l = this.boxes.get(b);
    if (!l) this.boxes.set(b, l = []);
    return l;
  }
  write(k: readonly any[], v: any) {
    if (k[0] !== "updates.updates") return;
    const l = this.box(String(k[1])), id = k[2] as bigint;
    if (v === null) {
      const i = l.findIndex((e) => e.id === id);
      if (i < 0) return;
      const e = l[i];
      if (i !== 0) this.fail("removed-out-of-order", `${e.name} is removed from the store while older updates of its box remain`);
      if (e.tag !== null && !this.done(e.tag)) this.fail("removed-early", `${e.name} is removed from the store before its handlers completed`);
      l.splice(i, 1);
      this.removed++;
      return;
    }
    const u = this.decode(v);
    const tag = tagOf(u);
    const last = l.at(-1);
    if (last && id <= last.id) this.fail("order", `${u._} (${tag}) is stored under an id that is not after the one of the update accepted before it (${last.name})`);
    l.push({ id, tag, at: this.f.site.server.now(), name: `${u._} (${tag})` });
    l.sort((a, b) => a.id < b.id ? -1 : 1);
    this.accepted++;
  }
  /** did the latest attempt of this update complete? */
  done(tag: number) {
    const a = this.attempts.get(tag);
    return !!a && a.ok;
  }
  start(u: any) {
    const tag = tagOf(u);
    if (tag === null) return;
    const e = this.f.find(tag);
    if (!e) return this.fail("unknown", `${show(u)} was never made by the server`);
    const b = e.box.startsWith("h") ? e.box.slice(1) : "0";
    const head = this.box(b)[0];
    if (!head || head.tag !== tag) this.fail("not-head", `handlers receive ${u._} (${tag}), but the oldest stored update of its box is ${head?.name ?? "none"}`);
    this.attempts.set(tag, { box: b, ok: true, calls: 0, done: false });
    this.order.push(tag);
  }
  restart() {
    this.attempts.clear();
    for (const l of this.boxes.values()) this.replayed += l.length;
  }
}
const subject = (u: any): number | null => u.type === "update" ? tagOf(u.update) : u.message?.id ?? u.editedMessage?.id ?? null;

ck.part("processes", { quick: 300, thorough: 20000, weight: 3 }, async (t) => {
  const r = t.rng;
  const o: any = { ...profile(r), slow: false, skips: false };
  const f = new Feed(t, o);
  const w = new Watch(f);
  const disk = new Disk();
  const drop = r.pick([undefined, undefined, true, false]);
  const dropping = drop ?? !!o.bot;
  const failing = r.pick([0, 0, 0.1, 0.4]);
  const slow = r.pick([0, 0, 2, 8, 30]);
  const lazy = r.bool(0.4);
  const persistCache = r.bool(0.3);
  const clock = r.bool(0.15), calls = r.bool(0.4);
  let mayFail = true, stateSaved = false;
  const script: string[] = [];
  const make = (quiet: boolean) => {
    w.restart();
    const p: any = f.site.proc({
      disk,
      diskOptions: { slow, serialize: true },
      params: { authString: key, guaranteeUpdateDelivery: true, dropPendingUpdates: drop, persistCache },
      handler: async (u: any) => {
        if (u.type === "update") w.start(u.update);
        const tag = subject(u), a = tag === null ? undefined : w.attempts.get(tag);
        if (a) a.ok = false;
        if (cutIn.n > 0 && u.type === "update" && --cutIn.n === 0) return p.kill();
        const d = lazy ? r.pick([0, 0, 1, 300]) : 0;
        if (d) await new Promise((f) => setTimeout(f, d));
        // handlers make requests, so the server may push while stored updates are still handed out
        if (calls && r.bool(0.5)) {
          const q = p.client.invoke({ _: "users.getUsers", id: [{ _: "inputUserSelf" }] }).catch(() => {});
          if (r.bool()) await q;
        }
        if (a && mayFail && r.bool(failing)) {
          t.count("handler_failures");
          throw new Error("handler failed");
        }
        if (a) a.ok = true;
      },
    });
    const cutIn = { n: 0 };
    let cutAt = 0, cutKey = "", how: any = "cut";
    if (!quiet) {
      const m = r.pick(["write", "write", "write", "handler", "time", "disconnect"]);
      if (m === "write") {
        cutKey = r.pick(["updates.updates", "updates.updates", "updates.state", "", "channelPts"]);
        cutAt = r.int(1, 25);
        how = r.pick(["cut", "after"]);
        script.push(`[${cutKey || "any"}#${cutAt} ${how}]`);
      } else if (m === "handler") script.push(`[handler#${cutIn.n = r.int(1, 12)}]`);
      else if (m === "time") {
        const d = r.pick([100, 2000, 30000]) * r.f();
        script.push(`[${Math.round(d)} ms]`);
        setTimeout(() => p.kill(), d);
      } else script.push("[disconnect]");
    } else script.push("[end]");
    p.storage.onWrite = (k: any, v: any) => {
      const cut = cutAt > 0 && String(k[0]).startsWith(cutKey) && --cutAt === 0;
      if (cut && how === "cut") {
        t.count("cuts");
        return "cut";
      }
      w.write(k, v);
      if (k[0] === "updates.state" && !stateSaved) {
        // what happened before the position was first recorded is history to this installation
        stateSaved = true;
        for (const e of f.all) f.exempt.add(e.tag);
      }
      if (cut) {
        t.count("cuts");
        return "after";
      }
    };
    return p;
  };
  const key = f.site.authString(f.site.login(f.acc));
  const ctx = () => ({ script: f.script + " " + script.join(""), drop, failing, options: o });
  const note = () => {
    if (w.problem) t.fail(w.problem.key, w.problem.msg, ctx());
  };
  let first = true;
  const n = r.int(1, 4);
  for (let i = 0; i < n; i++) {
    const p = make(false);
    f.inError = 0;
    const started = p.client.start().then(() => true, (e: any) => {
      if (!p.dead) throw e;
    });
    started.catch(() => {});
    await until(() => p.dead, r.pick([10, 100, 2000]));
    let ready = false;
    started.then((v: any) => ready = !!v, () => {});
    await until(() => p.dead || ready, 600000);
    if (!p.dead && first && o.channels) {
      first = false;
      await f.introduce(o.channels);
    }
    if (!stateSaved) for (const e of f.all) f.exempt.add(e.tag);
    for (let j = r.pick([3, 10, 25]); j > 0 && !p.dead; j--) {
      const d = f.step(p);
      if (d) await until(() => p.dead, d);
    }
    if (!p.dead && r.bool(0.5)) await until(() => p.dead, 60000);
    if (!p.dead && script.at(-1) === "[disconnect]") {
      const q = p.client.disconnect().catch(() => {});
      if (r.bool()) await run(q, 600000, "disconnect()").catch((e) => {
        if (e instanceof Stuck && !p.dead) t.fail("stuck", e.message, ctx());
      });
      // a client that was closed goes on handing out what it accepted; the process ends later
      await advance(r.pick([0, 0, 1000]));
    }
    p.kill();
    note();
    // the world goes on while nobody listens
    f.script += "|";
    for (let j = r.pick([0, 0, 3]); j > 0; j--) f.burst();
    if (!stateSaved || dropping) for (const e of f.all) f.exempt.add(e.tag);
    if (clock && r.bool()) {
      script.push("<");
      // the clock was ahead and is corrected
      const back = r.pick([1000, 60000, 3600000]);
      vclock.step(-back);
      f.site.server.skew += back / 1000;
    }
    await advance(r.pick([0, 1000, 100000]));
  }
  // the last process runs undisturbed
  mayFail = false;
  f.inError = 0;
  f.o.loss = f.o.drops = f.o.errors = 0;
  const p = make(true);
  if (r.bool(0.4)) {
    // an update arrives right when the store was found empty
    let n = r.int(1, 3);
    p.storage.onRange = (k: any, found: number) => {
      if (k[0] !== "updates.updates" || k.length !== 2 || found || n <= 0) return 0;
      n--;
      f.push(k[1] === 0n ? undefined : k[1]);
      return r.int(1, 400);
    };
  }
  if (r.bool(0.7)) for (let i = r.int(1, 12); i > 0; i--) setTimeout(() => f.burst(), r.pick([3, 20, 200]) * r.f());
  try {
    await run(p.client.start(), 600000, "start()");
  } catch (e) {
    if (e instanceof Stuck) t.fail("stuck", e.message, ctx());
    throw e;
  }
  await f.settle();
  await advance(20 * 60000);
  note();
  for (const [b, l] of w.boxes) t.ensure(!l.length, "left", () => `${l.length} accepted updates of box ${b} are not handed out although the handlers no longer fail: ${l.slice(0, 5).map((e) => e.name)}`, ctx());
  for (const id of f.channels) f.site.push(f.acc, f.acc.pack([f.acc.happen("message", id)], false));
  f.site.push(f.acc, f.acc.pack([f.acc.happen("message")], false));
  await advance(120000);
  note();
  for (const [b, l] of w.boxes) t.ensure(!l.length, "left", () => `${l.length} accepted updates of box ${b} are never handed out: ${l.slice(0, 5).map((e) => e.name)}`, ctx());
  if (!dropping) {
    const got = new Set(w.order);
    const lost = f.all.filter((e) => !e.box.startsWith("h") && e.count && !got.has(e.tag) && !f.exempt.has(e.tag) && !f.acc.skipped.get(e.box)?.has(e.tag));
    t.ensure(!lost.length, "lost", () => `never handed out: ${lost.slice(0, 6).map((e) => `${e.update._} at ${e.n} of ${e.box}`)}`, ctx());
  }
  p.kill();
  t.count("updates_accepted", w.accepted);
  t.count("updates_removed", w.removed);
  t.count("updates_replayed", w.replayed);
  t.count("handler_calls", w.order.length);
  t.count("processes", n + 1);
  t.state("history", f.script + script.join(""));
  if (w.accepted && w.removed) t.sig(f.script + script.join(""));
  t.sample(ctx());
});
// What an earlier process stored is not handed out by one that runs without guarantees, nor after it.
ck.part("without", { quick: 100, thorough: 4000, weight: 1 }, async (t) => {
  const r = t.rng;
  const o: any = { ...profile(r), slow: false, skips: false, errors: 0, bot: r.bool() };
  const f = new Feed(t, o), disk = new Disk();
  const key = f.site.authString(f.site.login(f.acc));
  const slow = r.pick([0, 0, 3]), drop = r.pick([undefined, true, false]);
  const stored = () => [...disk.data.values()].filter(([k]) => k[0] === "updates.updates").length;
  const make = (guaranteeUpdateDelivery: boolean, fail: boolean) =>
    f.site.proc({
      disk,
      diskOptions: { slow, serialize: true },
      params: { authString: key, guaranteeUpdateDelivery, dropPendingUpdates: drop },
      handler: (u: any) => {
        if (fail && u.type === "update" && tagOf(u.update) !== null) throw new Error("handler failed");
      },
    });
  const go = async (p: any) => {
    await run(p.client.start(), 600000, "start()");
    if (!f.channels.length) await f.introduce(o.channels ?? 0);
    for (let i = r.int(3, 12); i > 0; i--) {
      const d = f.step(p);
      if (d) await advance(d);
    }
    await f.settle();
  };
  const a = make(true, true);
  await go(a);
  if (r.bool()) await run(a.client.disconnect(), 600000, "disconnect()");
  a.kill();
  const left = stored(), handled = new Set(f.tags(a));
  const state: any = [...disk.data.values()].find(([k]) => k[0] === "updates.state")?.[1];
  const at = state && TL.decode(API, rleDecode(state[1]));
  const old = f.all.map((e) => e);
  const b = make(false, false);
  await go(b);
  const again = f.tags(b).filter((tag) => {
    const e = old.find((e) => e.tag === tag);
    // what the saved position does not cover yet is fetched again
    return e && at && e.count && (e.box === "c" ? e.n <= at.pts : e.box === "q" ? e.n <= at.qts : false);
  });
  t.ensure(!again.length, "replayed-off", () => `a process without guarantees hands out ${again.length} updates from before its start (${left} were stored)`, { script: f.script });
  b.kill();
  t.ensure(stored() === 0, "kept-off", () => `a process without guarantees leaves ${stored()} stored updates behind`, { script: f.script });
  const c = make(true, false);
  const before = new Set(f.all.map((e) => e.tag));
  await go(c);
  const stale = f.tags(c).filter((tag) => handled.has(tag) && before.has(tag) && f.tags(b).includes(tag) && f.find(tag)!.count && !f.find(tag)!.box.startsWith("h"));
  t.ensure(!stale.length, "replayed-later", () => `updates ${stale} of two processes ago are handed out again`, { script: f.script });
  c.kill();
  t.count("stored_before", left);
  if (left) t.sig(f.script);
});
await ck.main();
