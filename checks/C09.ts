import { rejections } from "../lib/env.ts";
import { advance, run, until, vclock } from "../lib/vclock.ts";
import { Check, deep, show } from "../lib/core.ts";
import { type A, API, World } from "../lib/traffic.ts";
import * as TL from "../lib/tl.ts";
const ck = new Check("C09", {
  level: "exploration",
  rule: "A real encrypted client over real TCP connection and transport classes talks to a reference server in virtual time; every invocation is tracked to its settlement and compared with what the server executed and answered. A case is one schedule of invocations, answers (delayed, reordered, batched, compressed, repeated, stray) and connection losses; its signature is the order of events.",
  assumptions: ["The transport delivers packets in order and intact (C15-C18)", "Reference TL codec (C01)"],
  quickSeconds: 70,
  thoroughSeconds: 600,
});
function setup(t: A, o: A = {}) {
  const r = t.rng;
  const w = new World(t, o);
  const lat = r.pick([0, 5, 50, 300]);
  w.server.latency = () => lat ? r.int(0, lat) : 0;
  w.server.slowIo = r.pick([0, 0, 1, 4, 30]);
  const dl = r.pick([0, 100, 3000]);
  w.delay = () => r.bool(0.3) ? 0 : r.int(0, dl);
  const g = r.pick([0, 0.3, 1]), b = r.pick([0, 0.3, 1]);
  w.server.shape = { gzip: () => r.bool(g), batch: () => r.bool(b) };
  return w;
}
const own = (t: A, w: World) => {
  const a = w.server.anomalies.find((a) => a.prop === "C09");
  t.ensure(!a, a?.key ?? "", () => a!.msg);
  t.ensure(!w.unknownCalls.length, "request-altered", () => `the server received ${show(w.unknownCalls[0], 300)}, which nobody invoked`);
};
ck.part("steady", { quick: 450, thorough: 30000, rejections: true, weight: 2 }, async (t) => {
  const r = t.rng;
  const w = setup(t);
  await w.start();
  let order = "";
  const n = t.index % 20 === 19 ? 400 : r.int(1, 40);
  for (let i = 0; i < n; i++) {
    w.invoke(r.bool(0.1) ? "ping" : undefined);
    if (r.bool(0.1)) w.stray();
    if (r.bool()) await advance(r.int(0, 400));
  }
  await until(() => w.invs.every((i) => i.outcome), 300000);
  await advance(1000);
  for (const i of w.invs) {
    const m = w.judge(i, false);
    t.ensure(!m, "outcome", () => m!);
    t.ensure(i.kind === "ping" || i.executed === 1, "executed", () => `${i.kind} ${i.tag} was executed ${i.executed} times`);
  }
  own(t, w);
  order = w.invs.slice().sort((a, b) => a.settledAt - b.settledAt).map((i) => w.invs.indexOf(i)).join();
  t.sig(order + w.server.links[0].packets);
  t.state("settlement-orders", order);
  t.count("invocations", n);
  t.count("answers", [...w.server.sessions.values()].reduce((a, s) => a + s.sent.size, 0));
  if (t.index < 2) t.sample({ invocations: w.invs.map((i) => [i.kind, i.startedAt, i.settledAt, i.error ?? "result"]), order });
  await w.stop();
});
ck.part("drops", { quick: 450, thorough: 30000, rejections: true, weight: 2 }, async (t) => {
  const r = t.rng;
  const w = setup(t);
  const fails = r.pick([0, 0, 0.3, 0.8]);
  let opens = 0;
  w.server.openHook = () => {
    if (opens++ && r.bool(fails)) throw new Error("connection refused");
  };
  await w.start();
  const cuts: number[] = [];
  let script = "";
  let off = false;
  for (let i = r.int(3, 40); i > 0; i--) {
    const k = r.int(0, 11);
    if (k < 7) w.invoke(r.bool(0.1) ? "ping" : undefined), script += "i";
    else if (k < 8) w.stray(), script += "s";
    else if (k < 9) {
      if (w.server.live.length) cuts.push(vclock.mono), script += "D";
      w.server.live.forEach((l) => l.drop(r.bool()));
      w.server.lossy = true;
    } else if (k === 9 && r.bool(0.2)) {
      if (!off) {
        cuts.push(vclock.mono);
        w.client.disconnect();
        off = true;
        script += "X";
      }
      else {
        try {
          await run(w.client.connect(), 600000, "connect()");
          off = false;
          script += "O";
        } catch { /* refused */ }
      }
    } else await advance(r.pick([0, 1, 10, 100, 1000, 4000])), script += ".";
  }
  if (off) {
    for (let i = 0; off && i < 60; i++) {
      try {
        await run(w.client.connect(), 600000, "connect()");
        off = false;
      } catch { /* refused */ }
    }
  }
  t.ensure(await until(() => w.invs.every((i) => i.outcome), 900000), "unsettled", () => {
    const u = w.invs.filter((i) => !i.outcome);
    return `${u.length} of ${w.invs.length} invocations never settle (first: ${u[0].kind} started at ${u[0].startedAt}, executed ${u[0].executed} times) after ${script}, cuts at ${cuts}`;
  });
  for (const i of w.invs) {
    const lost = cuts.some((c) => c >= i.startedAt - 1 && c <= i.settledAt) || w.client.isDisconnected || script.includes("X") || cuts.some((c) => c <= i.startedAt);
    const m = w.judge(i, lost);
    t.ensure(!m, "outcome", () => m!);
    if (i.outcome!.ok && i.kind !== "ping") t.ensure(i.executed >= 1, "never-executed", `${i.kind} resolves without having been executed`);
    t.ensure(i.executed <= 1, "executed", () => `${i.kind} ${i.tag} was executed ${i.executed} times although no rejection was sent`);
  }
  // and the connection works again
  const last = w.invoke("resolve");
  delete last.error;
  t.ensure(await until(() => !!last.outcome, 900000), "dead-after-drops", `an invocation after the drops never settles (${script})`);
  own(t, w);
  t.sig(script + w.invs.filter((i) => i.outcome?.ok).length);
  t.state("fates", w.invs.map((i) => i.outcome!.ok ? "r" : (i.outcome as A).e.name[0]).join(""));
  t.count("drops", cuts.length);
  t.count("lost", w.invs.filter((i) => !i.outcome!.ok && !i.error).length);
  t.count("invocations", w.invs.length);
  await w.stop();
});
const FUNCS = Object.keys(API.d).filter((n) => !(API.i[String(API.d[n][0])] === n || API.i[String(API.d[n][0] | 0)] === n) && API.d[n][1].every(([, ty]) => !ty.includes("!")) && API.d[n][2] !== "X");
const BUILDABLE = FUNCS.filter((n) => API.all.get(API.d[n][0] >>> 0) === n && !n.endsWith("Prefix") && (API.depth.get(n) ?? Infinity) < Infinity && n !== "auth.bindTempAuthKey");
ck.part("schema", { quick: 500, thorough: 40000, rejections: true }, async (t) => {
  const r = t.rng;
  const w = setup(t);
  await w.start();
  const pend: { call: A; want: A; name: string }[] = [];
  w.server.handler = (c) => {
    const p = pend.find((p) => deep(p.call, c.call));
    if (!p) {
      w.unknownCalls.push(c.call);
      return { error: [400, "X"] };
    }
    return { result: TL.encodeType(API, API.d[p.name][2], p.want) };
  };
  const ps: Promise<void>[] = [];
  for (let i = 0; i < 6; i++) {
    const name = BUILDABLE[(t.index * 6 + i) % BUILDABLE.length];
    const ty = API.d[name][2];
    let call: A, want: A;
    try {
      call = TL.randCtor(API, r, name, { depth: 3, optional: 0.4, vecMax: 2, budget: { n: 3000 } });
      want = TL.randType(API, r, ty, { depth: 3, optional: 0.4, vecMax: 2, budget: { n: 3000 } });
    } catch {
      continue;
    }
    const p = { call, want, name };
    pend.push(p);
    ps.push(w.client.invoke(call).finally(() => pend.splice(pend.indexOf(p), 1)).then((v: A) => t.ensure(deep(v, want), "result", () => `${name} resolves with ${show(v, 200)} instead of ${show(want, 200)}`)));
    t.state("functions", name);
  }
  const all = Promise.all(ps);
  try {
    await run(all, 120000, "invocations");
  } catch (e) {
    t.ensure((e as Error).name !== "Stuck", "unsettled", () => `invocations of ${pend.map((p) => p.name)} do not settle; anomalies ${show(w.server.anomalies)}`);
    throw e;
  }
  own(t, w);
  t.sig(String(t.index));
  t.count("invocations", ps.length);
  await w.stop();
});
await ck.main();
void rejections;
