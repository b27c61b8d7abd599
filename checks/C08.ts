import "../lib/env.ts";
import { advance, until, vclock } from "../lib/vclock.ts";
import { Check, show } from "../lib/core.ts";
import { type A, type Chaos, chaos, World } from "../lib/traffic.ts";
const ck = new Check("C08", {
  level: "exploration",
  rule: "Every packet a real encrypted client sends is decrypted by a reference server, which checks the identifiers, sequence numbers and containers of each session in the order they were generated. A case is one schedule of concurrent requests, updates, rejections, clock steps, connection losses and reconnections.",
  assumptions: ["The transport delivers packets in order and intact (C15-C18)"],
  quickSeconds: 60,
  thoroughSeconds: 600,
});
function scenario(name: string, quick: number, o: Chaos, extra?: (w: World) => void) {
  ck.part(name, { quick, thorough: quick * 40 }, async (t) => {
    const r = t.rng;
    const w = new World(t, { salt: r.pick(["right", "wrong", "zero"]) });
    const sv = w.server;
    const lat = r.pick([0, 5, 50, 300]);
    sv.latency = () => r.int(1, lat + 1);
    sv.slowIo = r.pick([0, 0, 2, 10]);
    const dl = r.pick([0, 100, 3000]);
    w.delay = () => r.bool(0.4) ? 0 : r.int(0, dl);
    const b = r.pick([0, 0.3, 1]);
    sv.shape = { gzip: () => false, batch: () => r.bool(b) };
    extra?.(w);
    // fractional milliseconds of the clock
    vclock.step(r.int(0, 999));
    await w.start();
    const script = await chaos(w, o);
    await until(() => w.invs.every((i) => i.outcome), 300000);
    await advance(r.pick([0, 120000]));
    const a = sv.anomalies.find((a) => a.prop === "C08");
    t.ensure(!a, a?.key ?? "", () => `${a!.msg} (${script})`);
    // every session starts its sequence at zero, and identifiers tell the server's time
    for (const s of sv.sessions.values()) {
      t.count("messages", s.ids.size);
      const first = [...s.ids.entries()].sort((x, y) => x[0] < y[0] ? -1 : 1)[0];
      if (!sv.lossy && first) t.ensure(first[1].seqno <= 1, "first-seqno", () => `a session starts with the sequence number ${first[1].seqno} (${script})`);
      if (!o.clock && !o.bad) {
        for (const [id, m] of s.ids) {
          const off = Number(id >> 32n) - m.at;
          if (sv.skew === 0) t.ensure(off > -30 && off < 10, "time", () => `the identifier ${id} is ${off} s off the server's time (${script})`);
        }
      }
    }
    t.count("sessions", sv.sessions.size);
    t.count("containers", [...sv.sessions.values()].reduce((n, s) => n + [...s.ids.values()].filter((v) => !v.content).length, 0));
    t.sig(script + sv.links.length);
    t.state("shapes", show([sv.sessions.size, sv.links.length, sv.log.length, w.invs.length]));
    if (t.index < 2) t.sample({ script, sessions: [...sv.sessions.values()].map((s) => [...s.ids].slice(0, 6).map(([i, m]) => [String(i), m.seqno, m.content])) });
    await w.stop();
  });
}
scenario("calm", 130, { steps: [3, 40], updates: 2, burst: 2 });
scenario("rejections", 140, { steps: [3, 40], updates: 2, burst: 2, salts: 1, bad: 1, forget: 1 }, (w) => w.server.skew = w.r.bool(0.4) ? w.r.pick([-5000, -400, 20, 400, 86400]) : 0);
scenario("clock", 160, { steps: [3, 40], updates: 2, burst: 2, clock: 2, salts: 0.5 });
scenario("invalidations", 160, { steps: [3, 40], updates: 2, burst: 2, clock: 1, bad: 1, codes: [16, 17, 18, 19, 20, 32, 33, 34, 35, 48, 64] });
scenario("drops", 160, { steps: [3, 40], updates: 2, burst: 2, clock: 1, salts: 0.5, drops: 1, reconnect: 0.7 });
// one comparison of the clocks is enough, whichever way and however often they diverge
ck.part("compared", { quick: 60, thorough: 2400 }, async (t) => {
  const r = t.rng, w = new World(t, {}), sv = w.server;
  sv.latency = () => 5;
  sv.skew = r.pick([0, 0, 500, -500]);
  let rounds = 0, last = -1e9, script = "", ids = 0;
  const push = sv.push.bind(sv) as A;
  sv.push = ((...a: A[]) => {
    // rejections within a moment stem from one and the same state of the client
    if (a[3] === "bad_msg_notification") {
      if (vclock.mono > last + 8) rounds++;
      last = vclock.mono;
    }
    return push(...a);
  }) as A;
  await w.start();
  const first = w.invoke();
  await until(() => !!first.outcome, 60000);
  for (let n = r.int(2, 6); n > 0; n--) {
    const by = r.pick([-100000, -5000, -1000, -400, -200, -40, -20, 20, 40, 200, 290, 400, 1000, 5000, 100000]) + r.int(-9, 9);
    // only the client's clock changes
    vclock.step(by * 1000), sv.skew -= by, script += ` ${by}`;
    await advance(r.pick([0, 1, 600]));
    rounds = 0, last = -1e9;
    const inv = w.invoke();
    await until(() => !!inv.outcome, 300000);
    t.ensure(rounds <= 1, "comparisons", () => `after the clock changed by${script} s in turn, the server rejects the time of identifiers ${rounds} times`);
    t.count("rejections", rounds);
    await advance(r.pick([0, 1, 600, 2000]));
    rounds = 0, last = -1e9;
    const next = w.invoke();
    await until(() => !!next.outcome, 300000);
    t.ensure(!rounds, "compared", () => `after the clocks were compared (changes:${script}) the server still rejects the time of identifiers`);
    ids++;
  }
  t.count("compared", ids), t.sig(script);
  await w.stop();
});
await ck.main();
export type { A };
