import "../lib/env.ts";
import { advance, run, until, vclock } from "../lib/vclock.ts";
import { Check, show } from "../lib/core.ts";
import { type A, World } from "../lib/traffic.ts";
const ck = new Check("C10", {
  level: "exploration",
  rule: "A real encrypted client talks to a reference server that rejects messages: salts change at random moments, the client's clock steps so that identifiers become too low or too high, messages are answered with each code of bad_msg_notification, and connection initialisation is demanded again. Every request must settle with its own result while the connection stays up, every announced salt must be used and reported. A case is one schedule of requests and rejections.",
  assumptions: ["The transport delivers packets in order and intact (C15-C18)", "A server rejects a message at most a few times in a row"],
  quickSeconds: 70,
  thoroughSeconds: 600,
});
const CODES = [16, 17, 18, 19, 20, 32, 33, 34, 35, 48, 64];
function scenario(name: string, quick: number, gentle: boolean) {
  ck.part(name, { quick, thorough: quick * 40, rejections: true }, async (t) => {
    const r = t.rng;
    const w = new World(t, { salt: r.pick(["right", "wrong", "zero"]) });
    const sv = w.server;
    const lat = r.pick([0, 5, 50, 300]);
    sv.latency = () => r.int(1, lat + 1);
    sv.slowIo = r.pick([0, 0, 2, 10]);
    const dl = r.pick([0, 100, 3000]);
    w.delay = () => r.bool(0.4) ? 0 : r.int(0, dl);
    const b = r.pick([0, 0.3, 1]);
    sv.shape = { gzip: () => false, batch: () => r.bool(b) };
    sv.requireInit = r.bool(0.3);
    sv.skew = r.bool(0.4) ? r.pick([-5000, -400, -100, 100, 20, 400, 86400]) : 0;
    const counts: Record<string, number> = {};
    const bump = (k: string) => counts[k] = (counts[k] ?? 0) + 1;
    let inject = 0;
    sv.onMessage = (m, s) => {
      if (inject <= 0) return false;
      inject--;
      const code = gentle ? r.pick([16, 48]) : r.pick(CODES);
      bump("bad" + code);
      sv.notify(s, { _: "bad_msg_notification", bad_msg_id: m.id, bad_msg_seqno: m.seqno, error_code: code });
      return true;
    };
    if (gentle) sv.skew = Math.max(0, sv.skew);
    await w.start();
    let script = "";
    const rotate = () => {
      w.key.salt = BigInt.asIntN(64, BigInt(r.u32()) << 32n | BigInt(r.u32()));
      script += "S";
      bump("salt");
    };
    for (let i = r.int(3, 40); i > 0; i--) {
      const k = r.int(0, 13);
      if (k < 7) w.invoke(r.bool(0.1) ? "ping" : undefined), script += "i";
      else if (k === 7) rotate();
      else if (k === 8) inject += r.int(1, 3), script += "B";
      else if (k === 9 && !gentle) vclock.step(r.pick([-3600, -400, -20, 20, 40, 400, 3600]) * 1000), script += "C", bump("clock");
      else if (k === 10 && w.session()) w.pushUpdate(w.session()!), script += "u";
      else if (k === 11 && sv.requireInit) w.key.initialized = false, script += "N";
      else if (k === 12 && w.session()?.link.open && r.bool(0.5)) {
        // the server forgot the session
        w.key.salt += 1n;
        w.session()!.announced = false;
        script += "F";
      } else await advance(r.pick([0, 1, 10, 100, 1000, 60000])), script += ".";
    }
    const settled = await until(() => w.invs.every((i) => i.outcome), 600000);
    const tell = () => `after ${script} with ${show(counts)} (skew ${sv.skew} s, clock off by ${Math.round((vclock.now() - 1760000000000 - vclock.mono) / 1000)} s)`;
    t.ensure(settled, "unsettled", () => {
      const u = w.invs.filter((i) => !i.outcome);
      return `${u.length} of ${w.invs.length} requests never settle (first: ${u[0].kind}, executed ${u[0].executed} times) ${tell()}`;
    });
    for (const i of w.invs) {
      const m = w.judge(i, false);
      t.ensure(!m, "outcome", () => `${m} ${tell()}`);
      if (gentle && i.kind !== "ping") t.ensure(i.executed === 1, "executed", () => `${i.kind} is executed ${i.executed} times although the server rejected every other copy; ${tell()}`);
    }
    inject = 0;
    // the last salt is in use: after one more request nothing is rejected any more
    await run(w.invoke("resolve").promise, 600000, "a request");
    await advance(60000);
    const before = sv.log.length;
    const last = w.invoke("resolve");
    await run(last.promise, 600000, "a request");
    t.ensure(!w.judge(last, false), "outcome", () => `${w.judge(last, false)} ${tell()}`);
    t.ensure(sv.log.length === before, "still-rejected", () => `the server keeps rejecting messages: ${sv.log.slice(before)} ${tell()}`);
    t.ensure(w.client.serverSalt === w.key.salt, "salt-used", () => `the client uses the salt ${w.client.serverSalt}, the server's is ${w.key.salt} ${tell()}`);
    if (w.salts.length || w.client.serverSalt !== w.key.salt) t.ensure(w.salts.at(-1) === w.key.salt, "salt-reported", () => `the last salt reported is ${w.salts.at(-1)}, the server's is ${w.key.salt} ${tell()}`);
    else t.ensure(!counts.salt, "salt-not-reported", tell());
    t.sig(script + show(counts));
    t.state("rejections", sv.log.join());
    t.count("rejections", sv.log.length);
    t.count("invocations", w.invs.length);
    for (const [k, v] of Object.entries(counts)) t.count(k, v);
    await w.stop();
  });
}
scenario("gentle", 400, true);
scenario("harsh", 500, false);
await ck.main();
export type { A };
