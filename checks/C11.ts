import "../lib/env.ts";
import { advance, run, until } from "../lib/vclock.ts";
import { Check, show } from "../lib/core.ts";
import { type A, type Chaos, chaos, World } from "../lib/traffic.ts";
import * as TL from "../lib/tl.ts";
const ck = new Check("C11", {
  level: "exploration",
  rule: "A reference server records every message it delivers to a real encrypted client and every acknowledgement it gets back: nothing unknown or of a kind that needs none may be acknowledged, no list may exceed 8192 identifiers, and everything delivered on the current connection of the current session must be acknowledged once the client has sent something afterwards. A case is one schedule of messages, containers, announced answers, rejections and connection losses.",
  assumptions: ["The transport delivers packets in order and intact (C15-C18)", "Pongs may or may not be acknowledged"],
  quickSeconds: 60,
  thoroughSeconds: 600,
});
const MUST = new Set(["rpc_result", "update", "new_session_created", "announced"]);
function judge(t: A, w: World, script: string) {
  const a = w.server.anomalies.find((a) => a.prop === "C11");
  t.ensure(!a, a?.key ?? "", () => `${a!.msg} (${script})`);
}
/** everything delivered before is acknowledged once the next message of the client has been processed */
async function settleAcks(t: A, w: World, script: string) {
  // two quiet requests: the first carries what was collected, a rejected one is repeated with the second
  for (let i = 0; i < 2; i++) {
    await run(w.invoke("resolve").promise, 900000, "a request");
    await advance(5000);
  }
  const s = w.session()!;
  const due = [...s.sent].filter(([, m]) => m.delivered && m.link === s.link && MUST.has(m.kind));
  const rejected = w.server.log.length;
  await run(w.invoke("resolve").promise, 900000, "a request");
  if (w.session() !== s || w.server.log.length !== rejected) return;
  const miss = due.filter(([, m]) => !m.acked);
  t.ensure(!miss.length, "not-acknowledged", () => `${miss.length} of ${due.length} messages delivered to the client are not acknowledged by its next message, the first is a ${miss[0][1].kind} (${script})`);
  const many = due.filter(([, m]) => m.acked > 1 + w.server.log.length);
  t.ensure(!many.length, "repeated", () => `a ${many[0][1].kind} is acknowledged ${many[0][1].acked} times after ${w.server.log.length} rejections (${script})`);
  t.count("acknowledged", due.length);
}
function setup(t: A) {
  const r = t.rng;
  const w = new World(t, { salt: r.pick(["right", "wrong", "zero"]) });
  const sv = w.server;
  const lat = r.pick([0, 5, 50, 300]);
  sv.latency = () => r.int(1, lat + 1);
  sv.slowIo = r.pick([0, 0, 2, 10]);
  const dl = r.pick([0, 100, 3000]);
  w.delay = () => r.bool(0.4) ? 0 : r.int(0, dl);
  const b = r.pick([0, 0.3, 1]), g = r.pick([0, 0.3]);
  sv.shape = { gzip: () => r.bool(g), batch: () => r.bool(b) };
  return w;
}
const announce = (w: World) => {
  const s = w.session();
  if (!s?.link.open) return;
  const r = w.r;
  // an answer the server holds and only tells about
  const id = w.server.nextOut(s, true);
  const news = r.bool();
  const o = news ? { _: "msg_new_detailed_info", answer_msg_id: id, bytes: 100000, status: 0 } : { _: "msg_detailed_info", msg_id: [...s.ids.keys()][0] ?? 4n, answer_msg_id: id, bytes: 100000, status: 0 };
  w.server.push(s, TL.encode(TL.mtproto, o), false, o._);
  s.sent.set(id, { kind: "announced", delivered: true, acked: 0, link: s.link, at: 0, content: true });
};
function scenario(name: string, quick: number, o: Chaos) {
  ck.part(name, { quick, thorough: quick * 40 }, async (t) => {
    const w = setup(t);
    await w.start();
    let script = "";
    for (let i = t.rng.int(1, 4); i > 0; i--) {
      script += await chaos(w, o);
      for (let k = t.rng.int(0, 3); k > 0; k--) announce(w), script += "a";
    }
    await until(() => w.invs.every((i) => i.outcome), 600000);
    await settleAcks(t, w, script);
    judge(t, w, script);
    const kinds: Record<string, number> = {};
    for (const s of w.server.sessions.values()) for (const m of s.sent.values()) kinds[m.kind] = (kinds[m.kind] ?? 0) + 1;
    for (const [k, v] of Object.entries(kinds)) t.count("sent_" + k, v);
    t.count("acks", w.server.acksSeen.length);
    t.count("rejections", w.server.log.length);
    t.sig(script + w.server.acksSeen.length);
    t.state("mixes", show(kinds));
    if (t.index < 2) t.sample({ script, kinds });
    await w.stop();
  });
}
scenario("calm", 200, { steps: [3, 20], updates: 4, burst: 1 });
scenario("rejected", 250, { steps: [3, 20], updates: 4, burst: 1, salts: 1, bad: 1, forget: 0.5 });
scenario("drops", 250, { steps: [3, 20], updates: 4, burst: 1, salts: 0.5, drops: 1, reconnect: 0.5 });
ck.part("many", { quick: 6, thorough: 60 }, async (t) => {
  const w = setup(t);
  await w.start();
  await run(w.invoke("resolve").promise, 600000, "a request");
  const s = w.session()!;
  const n = t.rng.int(8000, 20000);
  w.server.shape.batch = () => true;
  for (let i = 0; i < n; i++) w.pushUpdate(s);
  w.server.flush();
  await advance(10000);
  for (let i = 0; i < 4; i++) await run(w.invoke("resolve").promise, 600000, "a request"), await advance(1000);
  const miss = [...s.sent].filter(([, m]) => m.kind === "update" && !m.acked).length;
  judge(t, w, `${n} updates`);
  t.ensure(!miss, "many-not-acknowledged", `${miss} of ${n} updates are not acknowledged after four more messages`);
  t.sig(String(n));
  t.count("updates", n);
  await w.stop();
});
await ck.main();
