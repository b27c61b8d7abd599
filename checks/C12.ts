import "../lib/env.ts";
import { advance, run, Stuck, until, vclock } from "../lib/vclock.ts";
import { Check, show } from "../lib/core.ts";
import { type A, World } from "../lib/traffic.ts";
const ck = new Check("C12", {
  level: "exploration",
  rule: "A real encrypted client is connected, disconnected, dropped and refused at random moments of virtual time while it sends requests. Monitors follow every opened connection, every state notification, every ping and the settlement of every call. A case is one script of those events.",
  assumptions: ["A lost connection becomes visible as a failing read or write", "A server closes a connection on which no ping arrived in the announced time"],
  quickSeconds: 70,
  thoroughSeconds: 600,
});
function setup(t: A, o: A = {}) {
  const r = t.rng;
  const w = new World(t, o);
  const lat = r.pick([0, 5, 50, 300]);
  w.server.latency = () => lat ? r.int(0, lat) : 0;
  w.server.slowIo = r.pick([0, 0, 1, 4]);
  const dl = r.pick([0, 100, 3000]);
  w.delay = () => r.bool(0.3) ? 0 : r.int(0, dl);
  return w;
}
interface Watch { states: [number, boolean][]; opens: number[] }
function watch(w: World): Watch {
  const o: Watch = { states: [], opens: [] };
  w.client.onConnectionStateChange = (c: boolean) => void o.states.push([vclock.mono, c]);
  return o;
}
function judgeStates(t: A, o: Watch, w: World, script: string) {
  for (let i = 0; i < o.states.length; i++) t.ensure(o.states[i][1] === (i % 2 === 0), "alternate", () => `the connection states reported are ${o.states.map((s) => s[1] ? "connected" : "not connected").join(", ")} (${script})`);
  const last = o.states.at(-1)?.[1] ?? false;
  t.ensure(last === w.client.isConnected, "last-state", () => `the last state reported is ${last}, the actual one ${w.client.isConnected} (${script})`);
}
ck.part("recovery", { quick: 500, thorough: 20000, rejections: true, weight: 2 }, async (t) => {
  const r = t.rng;
  const w = setup(t, { noKey: r.bool(0.1) });
  const sv = w.server;
  sv.lossy = true;
  let refuse = 0;
  const attempts: number[] = [];
  sv.openHook = async () => {
    attempts.push(vclock.mono);
    if (r.bool(0.3)) await new Promise((f) => setTimeout(f, r.int(1, 5000)));
    if (refuse > 0) {
      refuse--;
      throw new Error("connection refused");
    }
  };
  const o = watch(w);
  if (r.bool(0.3)) {
    // the wall clock is set while a ping is on its way
    sv.onPing = () => {
      if (r.bool(0.2)) vclock.step(r.pick([-3600, -20, -5, 5, 20, 3600]) * 1000);
      return false;
    };
  }
  await w.client.setAuthKey(w.key.key);
  w.client.serverSalt = w.key.salt;
  await run(w.client.connect(), 60000, "connect()");
  let script = "";
  for (let i = r.int(2, 25); i > 0; i--) {
    const k = r.int(0, 8);
    if (k < 3) w.invoke(r.bool(0.1) ? "ping" : undefined), script += "i";
    else if (k < 5) {
      if (r.bool(0.3)) refuse = r.int(1, 8);
      sv.live.forEach((l) => l.drop(r.bool()));
      script += "D" + (refuse || "");
    } else if (k === 5) {
      vclock.step(r.pick([-3600, -20, 20, 3600]) * 1000);
      script += "C";
    } else await advance(r.pick([0, 1, 100, 2999, 3000, 3001, 10000, 70000, 300000])), script += ".";
    t.ensure(sv.live.length <= 1, "two-connections", () => `${sv.live.length} connections are open at a time (${script})`);
  }
  // refusals are finite, so the client is connected again at some point: attempts go on at least every ten seconds
  const back = await until(() => w.client.isConnected, 300000);
  t.ensure(back, "gave-up", () => `not connected any more 300 s after ${script}, ${attempts.length} attempts, the last ${vclock.mono - (attempts.at(-1) ?? 0)} ms ago`);
  t.ensure(await until(() => w.invs.every((i) => i.outcome), 300000), "unsettled", () => `${w.invs.filter((i) => !i.outcome).length} of ${w.invs.length} requests never settle (${script})`);
  const i = w.invoke("resolve");
  t.ensure(await until(() => !!i.outcome, 300000), "dead", () => `a request after the recovery never settles (${script})`);
  t.ensure(!w.judge(i, false), "dead", () => `${w.judge(i, false)} (${script})`);
  await advance(10);
  t.ensure(sv.links.filter((l) => !l.conn.closed).length <= 1, "leak", () => `${sv.links.filter((l) => !l.conn.closed).length} of ${sv.links.length} connections were never closed by the client (${script})`);
  judgeStates(t, o, w, script);
  // pings: a server that waits for the announced delay never closes the connection
  const from = vclock.mono, link = sv.live[0];
  await advance(400000);
  if (link.open) {
    const ps = sv.pingsSeen.filter((p) => p.at > from);
    t.ensure(ps.length >= 4, "pings", () => `${ps.length} pings in 400 s (${script})`);
    t.ensure(ps.length <= 12, "pings-many", () => `${ps.length} pings in 400 s (${script})`);
    let last = from;
    for (const p of ps) {
      t.ensure(p.at - last <= (p.delay + 2) * 1000, "ping-gap", () => `${p.at - last} ms between pings that ask to be disconnected after ${p.delay} s (${script})`);
      last = p.at;
    }
    t.count("pings", ps.length);
  }
  t.sig(script + attempts.length);
  t.count("drops", sv.links.length - 1);
  t.count("attempts", attempts.length);
  t.state("states", show(o.states.map((s) => s[1])));
  if (t.index < 2) t.sample({ script, attempts, states: o.states });
  await w.stop();
  judgeStates(t, o, w, script + "X");
});
ck.part("explicit", { quick: 700, thorough: 30000, rejections: true, weight: 2 }, async (t) => {
  const r = t.rng;
  const w = setup(t);
  const sv = w.server;
  sv.lossy = true;
  let refuse = 0;
  const slow = r.bool();
  let opening = 0;
  sv.openHook = async () => {
    opening++;
    if (slow) await new Promise((f) => setTimeout(f, r.int(1, 4000)));
    if (refuse > 0) {
      refuse--;
      throw new Error("connection refused");
    }
  };
  const o = watch(w);
  await w.client.setAuthKey(w.key.key);
  w.client.serverSalt = w.key.salt;
  let script = "";
  let wanted = false;
  const connects: { done: boolean }[] = [];
  const connect = () => {
    const c = { done: false };
    connects.push(c);
    w.client.connect().then(() => c.done = true, () => c.done = true);
    wanted = true;
  };
  for (let i = r.int(2, 20); i > 0; i--) {
    const k = r.int(0, 11);
    if (k < 3) w.invoke(r.bool(0.1) ? "ping" : undefined), script += "i";
    else if (k < 6) {
      connect(), script += "O";
      if (r.bool(0.2)) connect(), script += "O";
    } else if (k < 8) w.client.disconnect(), script += "X", wanted = false;
    else if (k === 8) {
      if (r.bool(0.3)) refuse = r.int(1, 3), script += "R";
      sv.live.forEach((l) => l.drop(r.bool())), script += "D";
    } else await advance(r.pick([0, 0, 1, 10, 100, 2000, 3000, 5000, 20000])), script += ".";
  }
  // an explicit end
  w.client.disconnect();
  const mark = opening;
  script += "X";
  t.ensure(await until(() => w.invs.every((i) => i.outcome) && connects.every((c) => c.done), 120000), "unsettled", () => `${w.invs.filter((i) => !i.outcome).length} requests and ${connects.filter((c) => !c.done).length} connects never settle after an explicit disconnect (${script})`);
  await advance(60000);
  t.ensure(opening === mark, "opens-after-disconnect", () => `${opening - mark} connections are opened after an explicit disconnect (${script})`);
  t.ensure(!w.client.isConnected && !sv.live.length, "open-after-disconnect", () => `${sv.live.length} connections are open 60 s after an explicit disconnect, isConnected = ${w.client.isConnected} (${script})`);
  t.ensure(sv.links.every((l) => l.conn.closed), "leak", () => `${sv.links.filter((l) => !l.conn.closed).length} of ${sv.links.length} connections were never closed by the client (${script})`);
  judgeStates(t, o, w, script);
  for (const i of w.invs) {
    const m = w.judge(i, true);
    t.ensure(!m, "outcome", () => `${m} (${script})`);
  }
  // and it can be connected again, with one connection
  refuse = 0;
  const before = sv.links.length;
  const cs = Array.from({ length: r.int(1, 4) }, () => w.client.connect());
  try {
    await run(Promise.all(cs), 120000, "connect()");
  } catch (e) {
    t.fail("connect-again", `connecting again ${e instanceof Stuck ? "never ends" : "fails: " + e} (${script})`);
  }
  t.ensure(sv.links.length === before + 1, "one-connection", () => `${cs.length} concurrent connects open ${sv.links.length - before} connections (${script})`);
  const i = w.invoke("resolve");
  t.ensure(await until(() => !!i.outcome, 120000), "dead", () => `a request after connecting again never settles (${script})`);
  t.ensure(!w.judge(i, false), "dead", () => `${w.judge(i, false)} (${script})`);
  await advance(1000);
  judgeStates(t, o, w, script + "O");
  t.sig(script + sv.links.length);
  t.state("states", show(o.states.map((s) => s[1])));
  t.count("connects", connects.length);
  t.count("connections", sv.links.length);
  t.count("invocations", w.invs.length);
  void wanted;
  await w.stop();
});
await ck.main();
