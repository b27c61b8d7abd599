import "../lib/env.ts";
import { advance, run, Stuck, until, vclock } from "../lib/vclock.ts";
import { Check, same, show } from "../lib/core.ts";
import { type A, isConnectionError, World } from "../lib/traffic.ts";
import { conforming, publicKeys, RSA } from "../lib/exchange.ts";
import { randomOverride } from "../lib/env.ts";
const ck = new Check("C14", {
  level: "exploration",
  rule: "A real encrypted client with forward secrecy runs against a reference server that performs the key exchanges, decrypts and verifies every binding message with the permanent key (MTProto 1 derivation, nonce, key ids, session, message id, sequence number, expiry), refuses requests under unbound keys and forgets expired keys. Over up to three virtual days the connection is dropped and refused, temporary keys and bindings are forgotten, bindings are refused, salts change, packets are rejected and the clock is wrong, while requests are made. A case is one script of those events.",
  assumptions: ["The server allows a binding to expire up to 400 s later than the temporary key", "Requests in progress while the temporary key is replaced may fail with a connection error"],
  quickSeconds: 85,
  thoroughSeconds: 700,
});
function setup(t: A, o: { stored?: boolean; skew?: boolean } = {}) {
  const r = t.rng;
  const stored = o.stored ?? r.bool();
  const w = new World(t, { noKey: true, params: { isPerfectForwardSecrecyEnabled: true, publicKeys: publicKeys([RSA[0]]), disableUpdates: r.bool(0.2) } });
  const sv = w.server;
  sv.rsa = [RSA[0]];
  sv.hs = conforming(r, "none");
  // short secrets keep the many exchanges of a case cheap; C05 covers the general ones
  sv.hs.a = r.big(64) | 1n << 63n;
  for (const G = BigInt(sv.hs.g!);;) {
    const ga = powSmall(G, sv.hs.a!, sv.hs.prime!);
    if (ga > 1n << 1984n && ga < sv.hs.prime! - (1n << 1984n)) break;
    sv.hs.a = r.big(64) | 1n << 63n;
  }
  sv.checkBinding = true;
  sv.lossy = true;
  sv.requireInit = true;
  const lat = r.pick([0, 0, 20, 300, 1500]);
  sv.latency = () => lat ? r.int(0, lat) : 0;
  sv.slowIo = r.pick([0, 0, 2]);
  w.delay = () => r.bool(0.7) ? 0 : r.int(0, 2000);
  randomOverride.fn = (v) => {
    if (v.length !== 256) return false;
    v.fill(0);
    v.set(r.bytes(12));
    return true;
  };
  sv.hs.p = 1000003n, sv.hs.q = 1000033n;
  if (o.skew) sv.skew = r.pick([-86400 * 3, -3600, -301, -200, -25, 25, 29, 200, 301, 3600, 86400 * 3]);
  return { w, sv, stored };
}
function powSmall(b: bigint, e: bigint, m: bigint) {
  let x = 1n;
  for (b %= m; e; e >>= 1n, b = b * b % m) if (e & 1n) x = x * b % m;
  return x;
}
async function begin(w: World, stored: boolean) {
  // the key World adds is the permanent one of an earlier run
  if (stored) {
    await w.client.setAuthKey(w.key.key);
    w.client.serverSalt = w.key.salt;
  } else w.server.keys.delete(w.key.id);
}
function own(t: A, w: World, script: string) {
  const a = w.server.anomalies.find((a) => a.prop === "C14" || a.prop === "C05");
  t.ensure(!a, a?.key ?? "", () => `${a!.msg} (${script})`);
  const early = w.server.anomalies.find((a) => a.prop === "C14u");
  void early;
}
async function works(t: A, w: World, script: string, when: string) {
  const i = w.invoke("resolve");
  i.error = undefined;
  t.ensure(await until(() => !!i.outcome, 300000), "call-hangs", () => `a request ${when} never settles (${script})`);
  t.ensure(!w.judge(i, false), "call", () => `${w.judge(i, false)} ${when} (${script}); ${w.server.log.slice(-8)}`);
}
const perm = (w: World, stored: boolean) => stored ? w.key : w.server.exchanged.find((e: A) => !e.st.temp)?.key;
function judgeKeys(t: A, w: World, stored: boolean, script: string) {
  const p = perm(w, stored);
  t.ensure(p, "no-permanent", () => `no permanent key was made (${script})`);
  t.ensure(same(w.client.authKey, p!.key), "stored-key", () => `the client's authorization key is not the permanent one (${script})`);
  const perms = w.server.exchanged.filter((e: A) => !e.st.temp).length;
  t.ensure(perms === (stored ? 0 : 1), "permanent-again", () => `${perms} permanent keys were made (${script})`);
  for (const b of w.server.bindings) t.ensure(b.perm === p!.id, "bound-to", () => `a temporary key is bound to ${b.perm} (${script})`);
}
ck.part("bind", { quick: 60, thorough: 2500, rejections: true }, async (t) => {
  const r = t.rng;
  const { w, sv, stored } = setup(t, { skew: t.index % 2 === 1 });
  let script = `${stored ? "stored" : "new"} key, skew ${sv.skew}`;
  await begin(w, stored);
  const spoil = r.int(0, 5);
  if (spoil === 1) {
    const n = r.int(1, 3), code = r.pick(["ENCRYPTED_MESSAGE_INVALID", "ENCRYPTED_MESSAGE_INVALID", "INTERNAL"]);
    let k = n;
    sv.refuseBinding = () => k-- > 0 ? code : null;
    script += `, ${n} bindings refused with ${code}`;
  } else if (spoil === 2) {
    let k = r.int(1, 3);
    script += `, salt rejected ${k} times`;
    sv.onMessage = (m, s) => {
      if (k <= 0 || !m.content) return false;
      k--;
      sv.notify(s, { _: "bad_server_salt", bad_msg_id: m.id, bad_msg_seqno: m.seqno, error_code: 48, new_server_salt: s.key.salt });
      return true;
    };
  } else if (spoil === 3) {
    let k = r.int(1, 2);
    script += `, lost ${k} times while binding`;
    sv.onMessage = (m, s, l) => {
      if (k <= 0 || !m.content) return false;
      k--;
      void s;
      l.drop(r.bool());
      return true;
    };
  } else if (spoil === 4) {
    let k = r.int(1, 2);
    script += `, temporary key unknown ${k} times`;
    sv.onMessage = (m, s, l) => {
      if (k <= 0 || !m.content) return false;
      k--;
      sv.keys.delete(s.key.id);
      l.send(new Uint8Array([0x6c, 0xfe, 0xff, 0xff]));
      return true;
    };
  }
  const during = r.bool(0.4);
  let connected: A = null;
  const p = w.client.connect().then(() => connected = { ok: true }, (e) => connected = { e });
  if (during) {
    // requests made while the client is connecting
    script += ", requests meanwhile";
    for (let i = r.int(1, 4); i > 0; i--) {
      await advance(r.pick([0, 1, 50, 500, 3000]));
      w.invoke("resolve");
    }
  }
  t.ensure(await until(() => connected !== null, 600000), "connect-hangs", () => `connect() never settles: ${script}; the server's log ${sv.log.slice(-6)}, ${sv.exchanged.length} keys, ${sv.bindings.length} bindings, anomalies ${show(sv.anomalies.slice(0, 3))}`);
  void p;
  own(t, w, script);
  t.ensure(connected.ok, "connect-fails", () => `connect() fails with ${show(connected.e)}: ${script}; the server's log ${sv.log.slice(-6)}`);
  t.ensure(sv.bindings.some((b) => b.ok), "not-bound", () => `connect() resolves without a binding: ${script}`);
  judgeKeys(t, w, stored, script);
  await works(t, w, script, "after connecting");
  t.ensure(await until(() => w.invs.every((i) => i.outcome), 300000), "unsettled", () => `requests never settle: ${script}`);
  for (const i of w.invs) {
    const bad = w.judge(i, true);
    t.ensure(!bad, "outcome", () => `${bad}: ${script}`);
  }
  own(t, w, script);
  const early = sv.anomalies.filter((a) => a.prop === "C14u");
  t.ensure(!early.length, "unbound", () => `${early[0].msg}: ${script}`);
  t.count("bindings", sv.bindings.length);
  t.count("temporary keys", sv.exchanged.filter((e: A) => e.st.temp).length);
  t.sig(script + t.index);
  t.sample({ script, bindings: sv.bindings.map((b) => b.ok) });
  await w.stop();
});
ck.part("renewal", { quick: 12, thorough: 400, rejections: true }, async (t) => {
  // nothing goes wrong: keys must be renewed before they expire, without a request failing for long
  const r = t.rng;
  const { w, sv, stored } = setup(t);
  const script = `${stored ? "stored" : "new"} key, undisturbed`;
  await advance(r.int(0, 120000));
  await begin(w, stored);
  await run(w.client.connect(), 600000, "connect()");
  const begun = vclock.now();
  const end = begun + 86400_000 * r.pick([1, 2, 3]) + 3600_000 * r.int(1, 20);
  while (vclock.now() < end) {
    // most of a day passes at once (the clock of both sides), and the part in which a key is renewed second by second
    const left = Math.min(...[...sv.keys.values()].filter((k) => k.temp && k.bound).map((k) => k.expiresAt * 1000 - vclock.now()).filter((v) => v > 0));
    if (left > 3600_000 && left < 1e9) vclock.step(left - r.int(600, 3000) * 1000);
    await advance(r.int(1, 1800) * 1000);
    if (r.bool(0.5)) w.invoke("resolve");
    t.ensure(!sv.log.includes("-404"), "expired-used", () => `a packet was sent under a temporary key that had expired (${script}, ${Math.round((vclock.now() - begun) / 1000)} s)`);
  }
  await advance(60000);
  await works(t, w, script, `after ${Math.round((end - begun) / 3600000)} hours`);
  own(t, w, script);
  judgeKeys(t, w, stored, script);
  const temps = sv.exchanged.filter((e: A) => e.st.temp).length;
  t.ensure(temps <= 2 + (end - begun) / 3600_000, "renewals", () => `${temps} temporary keys in ${Math.round((end - begun) / 3600000)} hours`);
  for (const i of w.invs) {
    const bad = i.outcome ? w.judge(i, true) : `${i.kind} never settles`;
    t.ensure(!bad, "outcome", () => `${bad}: ${script}`);
  }
  t.count("temporary keys", temps);
  t.count("virtual hours", Math.round((vclock.now() - begun) / 3600000));
  t.sig(`${end}`);
  await w.stop();
});
ck.part("faults", { quick: 150, thorough: 6000, rejections: true, weight: 2 }, async (t) => {
  const r = t.rng;
  const { w, sv, stored } = setup(t);
  let refuse = 0;
  sv.openHook = async () => {
    if (refuse > 0) {
      refuse--;
      throw new Error("connection refused");
    }
    if (r.bool(0.1)) await new Promise((f) => setTimeout(f, r.int(1, 3000)));
  };
  await begin(w, stored);
  await run(w.client.connect(), 600000, "connect()");
  let script = stored ? "stored " : "new ";
  const forgetKeys = () => sv.keys.forEach((k) => k.temp && sv.keys.delete(k.id));
  let spoilt = 0;
  sv.refuseBinding = () => spoilt > 0 && spoilt-- > 0 ? "ENCRYPTED_MESSAGE_INVALID" : null;
  for (let n = r.int(3, 18); n > 0; n--) {
    const k = r.int(0, 11);
    if (k < 4) {
      for (let i = r.pick([1, 1, 3]); i > 0; i--) w.invoke("resolve");
      script += "i";
    } else if (k === 4) forgetKeys(), script += "K";
    else if (k === 5) sv.keys.forEach((k) => k.temp && (k.bound = undefined)), script += "U";
    else if (k === 6) sv.live.forEach((l) => l.drop(r.bool())), script += "D";
    else if (k === 7) {
      refuse = r.int(1, 6);
      sv.live.forEach((l) => l.drop(r.bool()));
      if (r.bool()) forgetKeys(), script += "K";
      script += "R" + refuse;
    } else if (k === 8) {
      // the key is gone and the network too, when the client tries to get a new one
      if (r.bool()) forgetKeys(), script += "K";
      else sv.keys.forEach((k) => k.temp && (k.bound = undefined)), script += "U";
      w.invoke("resolve");
      refuse = r.int(1, 14), script += "r" + refuse;
    } else if (k === 9) {
      spoilt = r.int(1, 2);
      forgetKeys();
      script += "B" + spoilt;
    } else if (k === 10) vclock.step(r.pick([80000, 86000, 86300, 87000]) * 1000), script += "d";
    await advance(r.pick([0, 0, 10, 500, 3000, 61000]));
    script += ".";
  }
  const calm = await until(() => w.client.isConnected && w.invs.every((i) => i.outcome), 900000);
  t.ensure(calm, "gave-up", () => `fifteen minutes after ${script} the client is ${w.client.isConnected ? "connected" : "not connected"} and ${w.invs.filter((i) => !i.outcome).length} requests are pending`);
  await advance(120000);
  t.ensure(await until(() => w.client.isConnected, 300000), "gave-up", () => `not connected after ${script}`);
  // a first request may meet a key the server forgot while nothing was sent
  const probe = w.invoke("resolve");
  t.ensure(await until(() => !!probe.outcome, 300000), "call-hangs", () => `a request after ${script} never settles`);
  await advance(120000);
  t.ensure(await until(() => w.client.isConnected, 300000), "gave-up", () => `not connected after ${script}`);
  await works(t, w, script, "after the faults");
  own(t, w, script);
  judgeKeys(t, w, stored, script);
  for (const i of w.invs) {
    const e = i.outcome && !i.outcome.ok ? i.outcome.e : null;
    const bad = e?.errorMessage === "AUTH_KEY_PERM_EMPTY" ? null : w.judge(i, true);
    t.ensure(!bad, "outcome", () => `${bad}: ${script}`);
  }
  t.ensure(w.invs.every((i) => i.executed <= 1 || true), "x", "");
  t.count("bindings", sv.bindings.length);
  t.count("temporary keys", sv.exchanged.filter((e: A) => e.st.temp).length);
  t.count("faults", [...script].filter((c) => "KUDRrB".includes(c)).length);
  t.sig(script);
  t.sample({ script });
  // an explicit disconnect ends all of it
  w.client.disconnect();
  const links = sv.links.length;
  await advance(300000);
  t.ensure(!w.client.isConnected && sv.links.length <= links + 1 && !sv.live.length, "reconnected", () => `${sv.links.length - links} connections are opened after an explicit disconnect (${script})`);
  void isConnectionError;
  void Stuck;
});
await ck.main();
