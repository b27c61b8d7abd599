import "../lib/env.ts";
import { advance, run, until, vclock } from "../lib/vclock.ts";
import { Check, cat, hex, show } from "../lib/core.ts";
import { type A, API, tagged, World } from "../lib/traffic.ts";
import { MtServer, seal, type Sess } from "../lib/mtserver.ts";
import { toLe } from "../lib/ref.ts";
import * as TL from "../lib/tl.ts";
import { SessionEncrypted } from "file:///repo/session/2_session_encrypted.ts";
const ck = new Check("C07", {
  level: "exploration",
  rule: "Outgoing: a reference server opens every packet of a real encrypted client with the MTProto 2.0 derivation and checks salt, session, length, padding, compression and payload over payload sizes around every threshold. Incoming: every packet of the server is accompanied by altered copies and by forged packets (bit flips, truncations, other keys, other directions, other sessions) carrying results, updates, salts and rejections; nothing of them may have an effect. A case is one schedule of requests and forgeries.",
  assumptions: ["The transport delivers packets in order (C15-C18)", "Exact replays of genuine packets and bytes appended after a whole packet are outside this property"],
  quickSeconds: 70,
  thoroughSeconds: 600,
});
const own = (t: A, w: World, more = "") => {
  const a = w.server.anomalies.find((a) => a.prop === "C07" || a.prop === "C11" && a.key === "ack-unknown");
  t.ensure(!a, a?.key ?? "", () => a!.msg + more);
  t.ensure(!w.unknownCalls.length, "payload", () => `the server received ${show(w.unknownCalls[0], 300)}, which nobody invoked${more}`);
};
const SIZES = [...Array(120).keys(), 230, 240, 250, 251, 252, 253, 254, 255, 256, 257, 258, 260, 500, 508, 512, ...Array.from({ length: 60 }, (_, i) => 960 + i * 2), 2000, 4096, 16000, ...Array.from({ length: 40 }, (_, i) => 16330 + i * 3), 32768, 65535, 131072, 524288];
ck.part("outgoing", { quick: 120, thorough: 4000 }, async (t) => {
  const r = t.rng;
  const w = new World(t, { salt: r.pick(["right", "wrong", "zero"]) });
  w.server.slowIo = r.pick([0, 2]);
  await w.start();
  for (let i = 0; i < 12; i++) {
    const size = t.index * 12 + i < SIZES.length ? SIZES[t.index * 12 + i] : r.int(0, r.pick([300, 3000, 20000, 200000]));
    const style = r.int(0, 3);
    const bytes = style === 0 ? r.bytes(size) : style === 1 ? new Uint8Array(size) : style === 2 ? repeat(r.bytes(r.int(1, 64)), size) : mix(r, size);
    const { call, want } = tagged(r, "savePart");
    call.bytes = bytes;
    w.byCall.set("upload.saveFilePart" + call.file_id, { call, want, kind: "savePart", executed: 0 } as A);
    const p = w.client.invoke(call);
    p.catch(() => {});
    const v = await run(p, 120000, `a request with ${size} bytes`).catch((e: A) => e);
    t.ensure(v === want, "outcome", () => `a request with ${size} bytes ends with ${show(v)}; anomalies ${show(w.server.anomalies)}`);
    t.count("packets", w.server.links[0].packets);
    t.state("sizes", String(size));
  }
  own(t, w);
  for (const s of w.server.sessions.values()) t.ensure(s.id !== 0n, "session-zero", "the session is zero");
  t.ensure(w.server.sessions.size === 1, "session", () => `the packets of one connection belong to ${w.server.sessions.size} sessions`);
  if (t.index > 0) t.sig(String(t.index));
  await w.stop();
});
function repeat(p: Uint8Array, n: number) {
  const o = new Uint8Array(n);
  for (let i = 0; i < n; i++) o[i] = p[i % p.length];
  return o;
}
function mix(r: A, n: number) {
  const o = new Uint8Array(n);
  const k = r.int(0, n);
  o.set(r.bytes(k), r.bool() ? 0 : n - k);
  return o;
}
type Forge = (p: Uint8Array, plain: Uint8Array, s: Sess, w: World) => Uint8Array | null;
const flip = (p: Uint8Array, bit: number) => {
  const q = p.slice();
  q[bit >> 3] ^= 1 << (bit & 7);
  return q;
};
/** a payload that would have visible effects if it were accepted */
function payload(w: World, s: Sess): Uint8Array {
  const r = w.r;
  const pending = [...s.seen].filter(([, a]) => !a).map(([id]) => id);
  const any = [...s.seen.keys()];
  const id = pending.length && r.bool(0.8) ? r.pick(pending) : any.length ? r.pick(any) : 4n;
  const M = (o: A) => TL.encode(TL.mtproto, o);
  switch (r.int(0, 7)) {
    case 0:
    case 1: {
      const u = tagged(r);
      return cat(toLe(0xf35c6d01n, 4), toLe(BigInt.asUintN(64, id), 8), r.bool() ? M({ _: "rpc_error", error_code: 400, error_message: "FORGED" }) : TL.encodeType(API, API.d[u.call._][2], u.want));
    }
    case 2:
      return TL.encode(API, { _: "updateShort", update: { _: "updateConfig" }, date: 777 });
    case 3:
      return M({ _: "new_session_created", first_msg_id: 4n, unique_id: 5n, server_salt: 4242n });
    case 4:
      return M({ _: "bad_server_salt", bad_msg_id: id, bad_msg_seqno: 1, error_code: 48, new_server_salt: 4243n });
    case 5:
      return M({ _: "bad_msg_notification", bad_msg_id: id, bad_msg_seqno: 1, error_code: r.pick([16, 17, 32]) });
    case 6:
      return M({ _: "msg_detailed_info", msg_id: id, answer_msg_id: 12345n, bytes: 1, status: 0 });
    default:
      return M({ _: "pong", msg_id: id, ping_id: 1n });
  }
}
function wrap(w: World, s: Sess, session: bigint, body: Uint8Array): Uint8Array {
  const head = cat(toLe(BigInt.asUintN(64, s.key.salt), 8), toLe(BigInt.asUintN(64, session), 8), toLe(BigInt.asUintN(64, (BigInt(Math.floor(w.server.now())) << 32n) | 1n | BigInt(w.r.int(0, 1e6)) << 2n), 8), toLe(1n, 4), toLe(BigInt(body.length), 4), body);
  return cat(head, w.r.bytes((16 - (head.length + 12) % 16) % 16 + 12));
}
const FORGERIES: Record<string, Forge> = {
  "flip in the message key": (p, _a, _s, w) => flip(p, w.r.int(64, 191)),
  "flip in the ciphertext": (p, _a, _s, w) => flip(p, w.r.int(192, p.length * 8 - 1)),
  "several flips": (p, _a, _s, w) => {
    let q = p.slice();
    for (let i = w.r.int(2, 20); i > 0; i--) q = flip(q, w.r.int(64, p.length * 8 - 1));
    return hex(q) === hex(p) ? null : q;
  },
  "truncation": (p, _a, _s, w) => p.slice(0, w.r.int(10, p.length / 4 - 1) * 4),
  "blocks swapped": (p) => {
    if (p.length < 24 + 48) return null;
    const q = p.slice();
    q.set(p.slice(24, 40), 40), q.set(p.slice(40, 56), 24);
    return hex(q) === hex(p) ? null : q;
  },
  "random ciphertext": (p, _a, _s, w) => cat(p.slice(0, 8), w.r.bytes(16 + 16 * w.r.int(1, 8))),
  "another key": (p, _a, s, w) => cat(p.slice(0, 8), seal(w.r.bytes(256), wrap(w, s, s.id, payload(w, s)), 8).slice(8)),
  "the client's direction": (_p, _a, s, w) => seal(s.key.key, wrap(w, s, s.id, payload(w, s)), 0),
  "another session": (_p, _a, s, w) => seal(s.key.key, wrap(w, s, w.r.pick([s.id ^ 1n, s.id + (1n << 32n), 0n, -s.id, BigInt.asIntN(64, BigInt(w.r.u32()) << 31n)]), payload(w, s)), 8),
  "the client's own packet": (_p, _a, s, w) => w.r.bool() ? seal(s.key.key, wrap(w, s, s.id, payload(w, s)), 0) : null,
};
const NAMES = Object.keys(FORGERIES);
function judge(t: A, w: World, script: string) {
  for (const i of w.invs) {
    const m = w.judge(i, false);
    t.ensure(!m, "outcome", () => m! + script);
  }
  own(t, w, script);
  t.ensure(!w.gotUpdates.includes(777), "forged-update", () => `an update of a forged packet is delivered${script}`);
  const want = w.updates.map((u) => u.tag);
  t.ensure(show(w.gotUpdates, 1e5) === show(want, 1e5), "updates", () => `updates ${show(want, 200)} were sent and ${show(w.gotUpdates, 200)} delivered${script}`);
  t.ensure(![4242n, 4243n].includes(w.client.serverSalt) && !w.salts.some((s) => s === 4242n || s === 4243n), "forged-salt", () => `the salt of a forged packet is used${script}`);
}
ck.part("altered", { quick: 450, thorough: 20000, rejections: true }, async (t) => {
  const r = t.rng;
  const w = new World(t);
  const sv = w.server;
  const lat = r.pick([0, 5, 50]);
  sv.latency = () => lat ? r.int(0, lat) : 0;
  sv.slowIo = r.pick([0, 0, 2]);
  w.delay = () => r.bool(0.4) ? 0 : r.int(0, 500);
  sv.shape = { gzip: () => r.bool(0.2), batch: () => r.bool(0.2) };
  const used: Record<string, number> = {};
  const mine = r.bool(0.3) ? [NAMES[t.index % NAMES.length]] : NAMES;
  const forge = (p: Uint8Array, plain: Uint8Array, s: Sess) => {
    const k = r.pick(mine);
    const q = FORGERIES[k](p, plain, s, w);
    if (q) used[k] = (used[k] ?? 0) + 1;
    return q ? [q] : [];
  };
  sv.mangle = (p, plain, s) => {
    const out: Uint8Array[] = [];
    for (let i = r.int(0, 2); i > 0; i--) out.push(...forge(p, plain, s));
    out.push(p);
    for (let i = r.int(0, 2); i > 0; i--) out.push(...forge(p, plain, s));
    return out;
  };
  await w.start();
  let script = "";
  for (let i = r.int(3, 30); i > 0; i--) {
    const k = r.int(0, 9);
    if (k < 5) w.invoke(r.bool(0.15) ? "ping" : undefined), script += "i";
    else if (k < 7 && w.session()) w.pushUpdate(w.session()!, r.bool(0.3)), script += "u";
    else await advance(r.pick([0, 1, 20, 300, 60000])), script += ".";
  }
  await until(() => w.invs.every((i) => i.outcome), 600000);
  await advance(2000);
  const tell = ` (${script}; forged ${show(used, 300)})`;
  judge(t, w, tell);
  for (const i of w.invs) if (i.kind !== "ping") t.ensure(i.executed === 1, "executed", () => `${i.kind} is executed ${i.executed} times${tell}`);
  t.ensure(sv.links.length === 1, "connection", () => `${sv.links.length} connections were opened${tell}`);
  t.ensure(sv.sessions.size <= 1, "session", () => `${sv.sessions.size} sessions are used${tell}`);
  for (const [k, v] of Object.entries(used)) t.count(k, v);
  t.sig(script + show(used));
  t.state("mixes", Object.keys(used).sort().join());
  t.count("invocations", w.invs.length);
  if (t.index < 2) t.sample({ script, used });
  await w.stop();
});
ck.part("foreign-key-id", { quick: 150, thorough: 6000, rejections: true }, async (t) => {
  const r = t.rng;
  const w = new World(t);
  const sv = w.server;
  sv.latency = () => r.int(1, 20);
  w.delay = () => r.bool(0.4) ? 0 : r.int(0, 500);
  let n = 0, left = r.int(1, 3);
  sv.mangle = (p, _plain, s) => {
    if (left <= 0 || !r.bool(0.3)) return [p];
    left--, n++;
    const q = r.bool(0.3) ? p.slice(0, r.pick([8, 12, 20, 24, 28, 36])) : r.bool() ? flip(p, r.int(0, 63)) : cat(r.bytes(8), seal(s.key.key, wrap(w, s, s.id, payload(w, s)), 8).slice(8));
    return r.bool() ? [q, p] : [p, q];
  };
  await w.start();
  let script = "";
  for (let i = r.int(3, 20); i > 0; i--) {
    if (r.bool(0.6)) w.invoke(r.bool(0.15) ? "ping" : undefined), script += "i";
    else await advance(r.pick([0, 1, 20, 300, 20000])), script += ".";
  }
  await until(() => w.invs.every((i) => i.outcome), 600000);
  const tell = ` (${script}; ${n} packets with another key id)`;
  judge(t, w, tell);
  left = 0;
  const last = w.invoke("resolve");
  await run(last.promise, 600000, "a request");
  t.ensure(!w.judge(last, false), "afterwards", () => w.judge(last, false) + tell);
  t.sig(script + n);
  t.count("packets", n);
  await w.stop();
});
ck.part("transport-errors", { quick: 150, thorough: 6000, rejections: true }, async (t) => {
  const r = t.rng;
  vclock.reset();
  const sv = new MtServer(r);
  const key = sv.addKey(2);
  const s = new SessionEncrypted("2", { transportProvider: sv.provider() as never });
  await s.setAuthKey(key.key);
  s.serverSalt = key.salt;
  const errors: number[] = [], updates: string[] = [], failed: unknown[] = [];
  s.handlers.onTransportError = (e: A) => void errors.push(e.code);
  s.handlers.onUpdate = (b: Uint8Array) => void updates.push(hex(b));
  s.handlers.onMessageFailed = (...a: unknown[]) => void failed.push(a);
  await run(s.connect(), 60000, "connect()");
  // the session starts with a ping after a while
  const body = TL.encode(API, { _: "help.getConfig" });
  let mid = 0n;
  await run(s.send(body as never, (id) => (mid = id, () => {})), 60000, "send()");
  await advance(100);
  const sess = [...sv.sessions.values()][0];
  t.ensure(!!sess, "no-session", "the server saw no message");
  const want: number[] = [], ups: string[] = [];
  let script = "";
  for (let i = r.int(1, 12); i > 0; i--) {
    if (r.bool()) {
      const code = r.pick([-404, -429, -444, -1, -2147483648, -r.int(1, 100000)]);
      want.push(code);
      sess.link.send(toLe(BigInt.asUintN(32, BigInt(code)), 4));
      script += "e";
    } else {
      const u = TL.encode(API, { _: "updateShort", update: { _: "updateConfig" }, date: r.u32() >>> 1 });
      ups.push(hex(u));
      sv.push(sess, u, true, "update");
      script += "u";
    }
    if (r.bool()) await advance(r.int(0, 100));
  }
  await advance(1000);
  t.ensure(show(errors, 1e5) === show(want, 1e5), "reported", () => `error codes ${want} were sent and ${errors} reported (${script})`);
  t.ensure(show(updates, 1e5) === show(ups, 1e5), "treated-as-data", () => `${ups.length} updates were sent and ${updates.length} delivered (${script})`);
  t.ensure(sv.links.length === 1, "connection", `${sv.links.length} connections were opened (${script})`);
  t.sig(script + want);
  t.count("codes", want.length);
  void mid;
  s.disconnect();
  await advance(1000);
});
await ck.main();
