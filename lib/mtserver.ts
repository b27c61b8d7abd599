// A conforming MTProto server on virtual time, written from the protocol documentation and independent of
// the code under test. It speaks the framing, the key exchange and encrypted messages, executes calls through
// a handler, can misbehave on request, and records every packet of the client together with the protocol
// rules the packet breaks ("anomalies", tagged with the property they belong to).
import { inFlight, turn } from "./env.ts";
import type { Rng } from "./env.ts";
import { vclock } from "./vclock.ts";
import { cat, hex, same } from "./core.ts";
import { FakeConn } from "./conn.ts";
import { be, DH_PRIME, igeDecrypt, igeEncrypt, le, minimalBe, powmod, type RsaKey, rsaUnpad, sha1, sha256, toBe, toLe, type U8 } from "./ref.ts";
import * as TL from "./tl.ts";
import * as zlib from "node:zlib";
import { ConnectionTCP } from "file:///repo/connection/1_connection_tcp.ts";
import { TransportAbridged } from "file:///repo/transport/1_transport_abridged.ts";
import { TransportIntermediate } from "file:///repo/transport/1_transport_intermediate.ts";

// deno-lint-ignore no-explicit-any
export type A = any;
const i64 = (v: bigint) => toLe(BigInt.asUintN(64, v), 8);
const i32 = (v: number) => toLe(BigInt(v >>> 0), 4);
export const asI64 = (b: Uint8Array) => BigInt.asIntN(64, le(b));
export const keyId = (key: Uint8Array) => asI64(sha1(key).slice(12, 20));
const CONTAINER = 0x73f1f8dc, GZIP = 0x3072cfa1, RPC_RESULT = 0xf35c6d01;
export const gz = (b: Uint8Array): U8 => TL.encode(TL.mtproto, { _: "gzip_packed", packed_data: new Uint8Array(zlib.gzipSync(b)) });

/** MTProto 2.0 packet, x = 0 from the client and 8 from the server. */
export function seal(key: Uint8Array, plain: Uint8Array, x: 0 | 8): U8 {
  const mk = sha256(key.slice(88 + x, 120 + x), plain).slice(8, 24);
  const [k, iv] = derive(key, mk, x);
  return cat(sha1(key).slice(12, 20), mk, igeEncrypt(plain, k, iv));
}
export function derive(key: Uint8Array, mk: Uint8Array, x: 0 | 8): [U8, U8] {
  const a = sha256(mk, key.slice(x, 36 + x)), b = sha256(key.slice(40 + x, 76 + x), mk);
  return [cat(a.slice(0, 8), b.slice(8, 24), a.slice(24, 32)), cat(b.slice(0, 8), a.slice(8, 24), b.slice(24, 32))];
}
export function unseal(key: Uint8Array, packet: Uint8Array, x: 0 | 8): U8 | null {
  const mk = packet.slice(8, 24), enc = packet.slice(24);
  if (enc.length % 16 || !enc.length) return null;
  const [k, iv] = derive(key, mk, x);
  const plain = igeDecrypt(enc, k, iv);
  return same(sha256(key.slice(88 + x, 120 + x), plain).slice(8, 24), mk) ? plain : null;
}

/** One transport connection as the server sees it. */
export class Link {
  buf = new Uint8Array(0);
  tag: "abridged" | "intermediate" | null = null;
  alive = true;
  #at = 0;
  #inAt = 0;
  n: number;
  packets = 0;
  nonce?: bigint;
  constructor(public server: MtServer, public conn: FakeConn, public dcId: number) {
    this.n = server.links.length;
    conn.onWrite = (b) => {
      const at = this.#inAt = Math.max(this.#inAt, vclock.mono + server.latency());
      const c = b.slice();
      setTimeout(() => this.#bytes(c), at - vclock.mono);
    };
  }
  #bytes(b: Uint8Array) {
    if (!this.alive) return;
    this.buf = cat(this.buf, b);
    for (;;) {
      if (this.tag === null) {
        if (this.buf.length < 1) return;
        if (this.buf[0] === 0xef) this.tag = "abridged", this.buf = this.buf.slice(1);
        else if (this.buf.length < 4) return;
        else this.tag = "intermediate", this.buf = this.buf.slice(4);
      }
      let head: number, len: number;
      if (this.tag === "abridged") {
        if (this.buf.length < 1 || this.buf[0] === 0x7f && this.buf.length < 4) return;
        head = this.buf[0] === 0x7f ? 4 : 1;
        len = 4 * (head === 1 ? this.buf[0] : this.buf[1] | this.buf[2] << 8 | this.buf[3] << 16);
      } else {
        if (this.buf.length < 4) return;
        head = 4, len = Number(le(this.buf.slice(0, 4)));
      }
      if (this.buf.length < head + len) return;
      const p = this.buf.slice(head, head + len);
      this.buf = this.buf.slice(head + len);
      this.packets++;
      this.server.packet(this, p);
    }
  }
  /** Sends one packet to the client after the network's latency, keeping the order. */
  send(p: Uint8Array) {
    if (!this.alive) return;
    const framed = this.tag === "abridged" ? cat(p.length / 4 < 0x7f ? [p.length / 4] : [0x7f, p.length / 4 & 255, p.length / 4 >> 8 & 255, p.length / 4 >> 16], p) : cat(i32(p.length), p);
    const at = this.#at = Math.max(this.#at, vclock.mono + this.server.latency());
    setTimeout(() => {
      if (this.alive) this.conn.in.push(framed);
    }, at - vclock.mono);
  }
  /** The connection breaks: what is on its way is lost. */
  drop(clean = true) {
    if (!this.alive) return;
    this.alive = false;
    this.conn.in.chunks = [];
    this.conn.writeError = new Error("Broken pipe");
    this.conn.in.end(clean ? null : new Error("Connection reset by peer"));
  }
  get open() {
    return this.alive && !this.conn.closed;
  }
}

export interface AuthKey {
  id: bigint;
  key: U8;
  dcId: number;
  temp: boolean;
  expiresAt: number;
  salt: bigint;
  oldSalts: bigint[];
  perm?: bigint;
  bound?: { session: bigint; expiresAt: number };
  initialized: boolean;
  user?: A;
}
export interface Msg {
  id: bigint;
  seqno: number;
  body: U8;
  content: boolean;
  outer: bigint | null;
}
export interface Sess {
  id: bigint;
  key: AuthKey;
  n: number;
  /** generation order: ids seen, with the content-related ones marked */
  ids: Map<bigint, { content: boolean; seqno: number; at: number }>;
  maxId: bigint;
  seen: Map<bigint, Uint8Array | null>;
  out: number;
  lastOut: bigint;
  /** content-related messages sent to the client and whether they were acknowledged */
  sent: Map<bigint, { kind: string; delivered: boolean; acked: number; link: Link; at: number; content: boolean }>;
  link: Link;
  announced: boolean;
  rejected: Set<bigint>;
}
export interface Call {
  call: A;
  msg: Msg;
  sess: Sess;
  link: Link;
  wrap: { layer?: A; init?: A; noUpdates: boolean };
  raw: U8;
  at: number;
}
export type Answer = { result: U8 } | { error: [number, string] } | null;

export class MtServer {
  links: Link[] = [];
  keys = new Map<bigint, AuthKey>();
  sessions = new Map<string, Sess>();
  calls: Call[] = [];
  anomalies: { prop: string; key: string; msg: string }[] = [];
  /** ms of one-way latency */
  latency: () => number = () => 0;
  /** seconds the server's clock is ahead of the client's */
  skew = 0;
  rsa: RsaKey[] = [];
  handler: (c: Call) => Answer | Promise<Answer> = () => ({ error: [400, "METHOD_INVALID"] });
  /** how an answer leaves: gzip, container etc. */
  shape: { gzip: () => boolean; batch: () => boolean } = { gzip: () => false, batch: () => false };
  /** return true to take over the processing of a decrypted message of the client */
  onMessage: ((m: Msg, s: Sess, link: Link) => boolean) | null = null;
  onAcks: ((ids: bigint[], s: Sess) => void) | null = null;
  onPing: ((s: Sess, m: Msg, o: A) => boolean) | null = null;
  onPacket: ((link: Link, p: Uint8Array) => boolean) | null = null;
  openHook: ((n: number) => void | Promise<void>) | null = null;
  requireInit = false;
  checkBinding = false;
  opens = 0;
  /** when set, reads and writes of the connections are split into random portions */
  chunked: Rng | null = null;
  /** reads and writes take this many turns of the event loop */
  slowIo = 0;
  handshakes = new Map<bigint, A>();
  hs: HandshakeOptions = {};
  log: string[] = [];
  pingsSeen: { at: number; delay: number; session: bigint }[] = [];
  acksSeen: bigint[] = [];
  constructor(public r: Rng) {}

  anomaly(prop: string, key: string, msg: string) {
    this.anomalies.push({ prop, key, msg });
  }
  now() {
    return vclock.now() / 1000 + this.skew;
  }
  addKey(dcId = 2, key?: U8): AuthKey {
    key ??= this.r.bytes(256);
    const k: AuthKey = { id: keyId(key), key, dcId, temp: false, expiresAt: Infinity, salt: asI64(this.r.bytes(8)), oldSalts: [], initialized: false };
    this.keys.set(k.id, k);
    return k;
  }
  /** A transport provider whose connections end at this server. */
  provider(transport: "abridged" | "intermediate" | null = null) {
    return ({ dc, isMedia }: { dc: string; isMedia: boolean }) => {
      const dcId = (parseInt(dc) + (dc.endsWith("-test") ? 10000 : 0)) * (isMedia ? -1 : 1);
      const connection = new ConnectionTCP("server", 443);
      connection.connect = (async () => {
        const n = this.opens++;
        await this.openHook?.(n);
        const l = this.latency();
        if (l) await new Promise((f) => setTimeout(f, l));
        else await turn();
        const conn = new FakeConn(this.chunked);
        const link = new Link(this, conn, dcId);
        const slow = this.slowIo;
        if (slow) {
          conn.gate = async () => {
            inFlight.n++;
            for (let i = this.r.int(0, slow); i > 0; i--) await turn();
            inFlight.n--;
            if (this.r.bool(0.1)) await new Promise((f) => setTimeout(f, this.r.int(0, slow)));
          };
        }
        this.links.push(link);
        return conn;
      }) as never;
      const kind = transport ?? this.r.pick(["abridged", "intermediate"] as const);
      return { connection, transport: kind === "abridged" ? new TransportAbridged(connection) : new TransportIntermediate(connection), dcId };
    };
  }
  get live(): Link[] {
    return this.links.filter((l) => l.open);
  }

  packet(link: Link, p: Uint8Array) {
    if (this.onPacket?.(link, p)) return;
    if (p.length < 8) return this.anomaly("C07", "packet-short", `a packet of ${p.length} bytes`);
    const id = asI64(p.slice(0, 8));
    if (id === 0n) return this.plain(link, p);
    const key = this.keys.get(id);
    if (!key || key.expiresAt <= this.now()) {
      this.log.push("-404");
      return link.send(toLe(BigInt.asUintN(32, -404n), 4));
    }
    if (key.dcId !== link.dcId) this.anomaly("C43", "key-dc", `the key of data centre ${key.dcId} is used on a connection to ${link.dcId}`);
    const plain = unseal(key.key, p as U8, 0);
    if (!plain) return this.anomaly("C07", "undecryptable", `a packet of ${p.length} bytes does not decrypt under the agreed key`);
    this.#message(link, key, plain);
  }

  #message(link: Link, key: AuthKey, plain: U8) {
    const salt = asI64(plain.slice(0, 8)), session = asI64(plain.slice(8, 16));
    const id = asI64(plain.slice(16, 24)), seqno = Number(asI64(cat(plain.slice(24, 28), [0, 0, 0, 0])));
    const len = Number(le(plain.slice(28, 32)));
    const padding = plain.length - 32 - len;
    if (padding < 12 || padding > 1024) this.anomaly("C07", "padding", `${padding} bytes of padding after a message of ${len}`);
    if (len % 4) this.anomaly("C07", "length", `a message of ${len} bytes`);
    if (padding < 0) return;
    const body = plain.slice(32, 32 + len);
    const sk = `${key.id}:${session}`;
    let s = this.sessions.get(sk);
    const now = this.now();
    if (!s) {
      s = { id: session, key, n: this.sessions.size, ids: new Map(), maxId: 0n, seen: new Map(), out: 0, lastOut: 0n, sent: new Map(), link, announced: false, rejected: new Set() };
      this.sessions.set(sk, s);
    }
    s.link = link;
    // every message, in the order the client generated them
    const inner: Msg[] = [];
    let container = false;
    if (le(body.slice(0, 4)) === BigInt(CONTAINER)) {
      container = true;
      const n = Number(le(body.slice(4, 8)));
      let o = 8;
      for (let i = 0; i < n; i++) {
        const l = Number(le(body.slice(o + 12, o + 16)));
        inner.push({ id: asI64(body.slice(o, o + 8)), seqno: Number(le(body.slice(o + 8, o + 12))), body: body.slice(o + 16, o + 16 + l), content: false, outer: id });
        o += 16 + l;
        if (l % 4 || o > body.length) this.anomaly("C07", "container-format", `message ${i} of a container of ${len} bytes has ${l} bytes`);
      }
      if (o !== body.length) this.anomaly("C07", "container-format", `a container of ${len} bytes whose messages take ${o}`);
      if (n > 1020) this.anomaly("C07", "container-size", `a container of ${n} messages`);
    } else inner.push({ id, seqno, body, content: false, outer: null });
    for (const m of inner) m.content = isContent(m.body);
    const order = container ? [...inner, { id, seqno, body, content: false, outer: null }] : inner;
    for (const m of order) {
      const what = m === order.at(-1) && container ? "container" : `message ${hex(m.body.slice(0, 4))}`;
      const dup = s.ids.get(m.id);
      if (m.id % 4n !== 0n) this.anomaly("C08", "multiple-of-4", `${what} has the identifier ${m.id}`);
      if (dup) this.anomaly("C08", "reused-id", `${what} reuses the identifier ${m.id}`);
      else if (m.id <= s.maxId) this.anomaly("C08", "increasing", `${what} has the identifier ${m.id}, ${s.maxId - m.id} below one generated before it`);
      if (m.seqno % 2 !== (m.content ? 1 : 0)) this.anomaly("C08", "parity", `${what} has the sequence number ${m.seqno}`);
      s.maxId = m.id > s.maxId ? m.id : s.maxId;
      s.ids.set(m.id, { content: m.content, seqno: m.seqno, at: now });
    }
    if (container && inner.some((m) => m.id >= id)) this.anomaly("C08", "container-id", `a container has the identifier ${id} and contains ${inner.map((m) => m.id)}`);
    // the transport delivers in order, so all earlier content-related messages of the session have been seen, unless a connection was lost
    let content = 0;
    for (const v of [...s.ids.entries()].sort((a, b) => a[0] < b[0] ? -1 : 1)) {
      const want = 2 * content + (v[1].content ? 1 : 0);
      if (order.some((m) => m.id === v[0]) && !this.lossy && v[1].seqno !== want) this.anomaly("C08", "seqno", `message ${v[0]} has the sequence number ${v[1].seqno} after ${content} content-related messages`);
      if (v[1].content) content++;
    }
    if (this.onMessage?.({ id, seqno, body, content: !container && inner[0].content, outer: null }, s, link)) return;
    // what a server checks before it looks inside
    const t = Number(id >> 32n);
    if (t < now - 300) return this.#notify(s, { _: "bad_msg_notification", bad_msg_id: id, bad_msg_seqno: seqno, error_code: 16 });
    if (t > now + 30) return this.#notify(s, { _: "bad_msg_notification", bad_msg_id: id, bad_msg_seqno: seqno, error_code: 17 });
    if (salt !== key.salt && !key.oldSalts.includes(salt)) {
      s.rejected.add(id);
      return this.#notify(s, { _: "bad_server_salt", bad_msg_id: id, bad_msg_seqno: seqno, error_code: 48, new_server_salt: key.salt });
    }
    if (!s.announced) {
      s.announced = true;
      this.push(s, TL.encode(TL.mtproto, { _: "new_session_created", first_msg_id: inner[0].id, unique_id: asI64(this.r.bytes(8)), server_salt: key.salt }), true, "new_session_created");
    }
    for (const m of inner) this.#handle(m, s, link);
  }
  /** set once a connection broke: messages written before may never arrive */
  lossy = false;

  #notify(s: Sess, o: A) {
    this.log.push(o._ + (o.error_code === 48 ? "" : o.error_code));
    this.push(s, TL.encode(TL.mtproto, o), false, o._);
  }
  notify(s: Sess, o: A) {
    this.#notify(s, o);
  }

  #handle(m: Msg, s: Sess, link: Link) {
    let body = m.body;
    if (le(body.slice(0, 4)) === BigInt(GZIP)) {
      try {
        const packed = TL.decode(TL.mtproto, body).packed_data;
        body = new Uint8Array(zlib.gunzipSync(packed)) as U8;
        if (packed.length >= body.length) this.anomaly("C07", "gzip-larger", `${body.length} bytes compressed to ${packed.length}`);
      } catch (e) {
        return this.anomaly("C07", "gzip", `compressed message: ${e}`);
      }
    }
    if (s.seen.has(m.id)) {
      const a = s.seen.get(m.id);
      if (a) this.push(s, a, true, "rpc_result");
      return;
    }
    s.seen.set(m.id, null);
    const cid = Number(le(body.slice(0, 4)));
    const mt = TL.mtproto.all.get(cid);
    if (mt) {
      let o: A;
      try {
        o = TL.decode(TL.mtproto, body);
      } catch (e) {
        return this.anomaly("C09", "malformed", `the service message ${mt} does not decode: ${e}`);
      }
      if (mt === "msgs_ack") {
        if (o.msg_ids.length > 8192) this.anomaly("C11", "ack-size", `${o.msg_ids.length} identifiers in one acknowledgement`);
        for (const id of o.msg_ids as bigint[]) {
          this.acksSeen.push(id);
          const e = this.#sentBy(s.key, id);
          if (!e) this.anomaly("C11", "ack-unknown", `acknowledges ${id}, which was never sent on this key`);
          else {
            if (!e.content) this.anomaly("C11", "ack-service", `acknowledges ${id}, a ${e.kind}`);
            e.acked++;
          }
        }
        this.onAcks?.(o.msg_ids, s);
      } else if (mt === "ping" || mt === "ping_delay_disconnect") {
        this.pingsSeen.push({ at: vclock.mono, delay: o.disconnect_delay ?? -1, session: s.id });
        if (this.onPing?.(s, m, o)) return;
        this.push(s, TL.encode(TL.mtproto, { _: "pong", msg_id: m.id, ping_id: o.ping_id }), true, "pong");
      } else this.anomaly("C09", "service", `unexpected service message ${mt}`);
      return;
    }
    let call: A;
    try {
      const rd = new TL.R(body);
      call = TL.decode(TL.api, rd);
      if (rd.rest.length) this.anomaly("C09", "trailing", `${rd.rest.length} bytes after a call`);
    } catch (e) {
      return this.anomaly("C09", "malformed", `a call does not decode: ${e}`);
    }
    const wrap: Call["wrap"] = { noUpdates: false };
    for (;;) {
      if (call._ === "initConnection") wrap.init = call, call = call.query;
      else if (call._ === "invokeWithLayer") wrap.layer = call.layer, call = call.query;
      else if (call._ === "invokeWithoutUpdates") wrap.noUpdates = true, call = call.query;
      else break;
    }
    const c: Call = { call, msg: m, sess: s, link, wrap, raw: body, at: vclock.mono };
    this.calls.push(c);
    if (this.checkBinding) {
      if (!s.key.temp) this.anomaly("C14", "permanent-traffic", `${call._} is sent under the permanent key`);
      if (call._ === "auth.bindTempAuthKey") return this.answer(s, m.id, this.bind(c));
      if (s.key.temp && !s.key.bound) {
        this.log.push("unbound");
        this.anomaly("C14u", "unbound", `${call._} is sent under a temporary key that is not bound`);
        return this.answer(s, m.id, { error: [401, "AUTH_KEY_PERM_EMPTY"] });
      }
    }
    if (this.requireInit && call._ !== "auth.bindTempAuthKey") {
      if (wrap.init) s.key.initialized = true;
      if (!s.key.initialized) return this.answer(s, m.id, { error: [400, "CONNECTION_NOT_INITED"] });
    }
    const a = this.handler(c);
    if (a instanceof Promise) a.then((a) => this.answer(s, m.id, a));
    else this.answer(s, m.id, a);
  }
  bindings: { at: number; temp: AuthKey; perm: bigint; ok: boolean }[] = [];
  refuseBinding: (() => string | null) | null = null;
  /** auth.bindTempAuthKey as the documentation describes it */
  bind(c: Call): Answer {
    const { call, sess: s, msg: m } = c;
    const now = this.now();
    const say = (key: string, msg: string): Answer => {
      this.anomaly("C14", key, msg);
      this.bindings.push({ at: vclock.mono, temp: s.key, perm: call.perm_auth_key_id, ok: false });
      return { error: [400, "ENCRYPTED_MESSAGE_INVALID"] };
    };
    if (!s.key.temp) return say("bind-under-permanent", "a binding is sent under a permanent key");
    const perm = this.keys.get(call.perm_auth_key_id);
    if (!perm || perm.temp) return say("bind-perm-id", `the binding names the key ${call.perm_auth_key_id}, which is not a permanent one`);
    const e = call.encrypted_message as U8;
    if (asI64(e.slice(0, 8)) !== perm.id) return say("bind-key-id", "the binding message names another key than the call");
    const mk = e.slice(8, 24), enc = e.slice(24);
    if (!enc.length || enc.length % 16) return say("bind-length", `a binding message of ${e.length} bytes`);
    const k = perm.key;
    const a = sha1(mk, k.slice(0, 32)), b = sha1(k.slice(32, 48), mk, k.slice(48, 64)), cc = sha1(k.slice(64, 96), mk), d = sha1(mk, k.slice(96, 128));
    const plain = igeDecrypt(enc, cat(a.slice(0, 8), b.slice(8, 20), cc.slice(4, 16)), cat(a.slice(8, 20), b.slice(0, 8), cc.slice(16, 20), d.slice(0, 8)));
    const len = Number(le(plain.slice(28, 32)));
    if (len !== 40 || plain.length < 32 + len || plain.length - 32 - len > 15) return say("bind-message", `the binding message announces ${len} bytes in ${plain.length}`);
    if (!same(sha1(plain.slice(0, 32 + len)).slice(4, 20), mk)) return say("bind-message-key", "the message key of the binding message does not match");
    const id = asI64(plain.slice(16, 24));
    if (id !== m.id) return say("bind-message-id", `the binding message has the identifier ${id}, the request ${m.id}`);
    if (le(plain.slice(24, 28)) !== 0n) return say("bind-seqno", "the binding message has a sequence number");
    let o: A;
    try {
      o = TL.decode(TL.mtproto, plain.slice(32, 32 + len));
    } catch (e) {
      return say("bind-inner", `the inner binding does not decode: ${e}`);
    }
    if (o._ !== "bind_auth_key_inner") return say("bind-inner", `the inner binding is a ${o._}`);
    if (o.nonce !== call.nonce) return say("bind-nonce", "the nonces of the binding differ");
    if (o.expires_at !== call.expires_at) return say("bind-expiry", "the expiries of the binding differ");
    if (o.perm_auth_key_id !== perm.id || o.temp_auth_key_id !== s.key.id) return say("bind-ids", "the binding names other keys");
    if (o.temp_session_id !== s.id) return say("bind-session", "the binding names another session");
    if (o.expires_at < now + 30 || o.expires_at > now + 86400 + 400) return say("bind-expires-at", `the binding expires ${o.expires_at - now} s from now`);

    const no = this.refuseBinding?.();
    if (no) {
      this.log.push(no);
      this.bindings.push({ at: vclock.mono, temp: s.key, perm: perm.id, ok: false });
      return { error: [400, no] };
    }
    s.key.bound = { session: s.id, expiresAt: o.expires_at };
    s.key.perm = perm.id;
    this.bindings.push({ at: vclock.mono, temp: s.key, perm: perm.id, ok: true });
    return { result: i32(0x997275b5) };
  }

  #sentBy(k: AuthKey, id: bigint) {
    for (const s of this.sessions.values()) if (s.key === k && s.sent.has(id)) return s.sent.get(id);
  }

  answer(s: Sess, id: bigint, a: Answer) {
    if (a === null) return;
    const wrapGz = this.shape.gzip();
    let b = "result" in a ? a.result : TL.encode(TL.mtproto, { _: "rpc_error", error_code: a.error[0], error_message: a.error[1] });
    if (wrapGz) b = gz(b);
    const body = cat(i32(RPC_RESULT), i64(id), b);
    s.seen.set(id, body);
    this.push(s, body, true, "rpc_result");
  }
  #batch: { s: Sess; parts: [bigint, number, U8][] } | null = null;
  nextOut(s: Sess, reply: boolean): bigint {
    const now = this.now();
    let id = (BigInt(Math.floor(now)) << 32n) | (BigInt(Math.floor((now % 1) * 2 ** 30)) << 2n);
    if (id <= s.lastOut) id = (s.lastOut & ~3n) + 4n;
    id |= reply ? 1n : 3n;
    s.lastOut = id;
    return id;
  }
  /** Sends one message of a session to the client, maybe in a container with others. Returns its identifier. */
  push(s: Sess, body: Uint8Array, content: boolean, kind: string, gzip = false): bigint {
    const id = this.nextOut(s, kind !== "update" && kind !== "new_session_created");
    const seq = s.out * 2 + (content ? 1 : 0);
    if (content) s.out++;
    const b = gzip ? gz(body) : body as U8;
    s.sent.set(id, { kind, delivered: false, acked: 0, link: s.link, at: vclock.mono, content });
    if (this.#batch && this.#batch.s !== s) this.flush();
    if (this.#batch || this.shape.batch()) {
      if (!this.#batch) {
        this.#batch = { s, parts: [] };
        setTimeout(() => this.flush(), this.r.int(0, 30));
      }
      this.#batch.parts.push([id, seq, b]);
      if (this.#batch.parts.length >= 20) this.flush();
      return id;
    }
    this.#transmit(s, id, seq, b, [id]);
    return id;
  }
  flush() {
    const b = this.#batch;
    this.#batch = null;
    if (!b) return;
    const id = this.nextOut(b.s, true);
    const body = cat(i32(CONTAINER), i32(b.parts.length), ...b.parts.map(([id, seq, body]) => cat(i64(id), i32(seq), i32(body.length), body)));
    this.#transmit(b.s, id, b.s.out * 2, body, b.parts.map((p) => p[0]));
  }
  /** last chance to change the packet of a message */
  mangle: ((p: U8, plain: U8, s: Sess) => Uint8Array[]) | null = null;
  #transmit(s: Sess, id: bigint, seq: number, body: U8, ids: bigint[]) {
    const head = cat(i64(s.key.salt), i64(s.id), i64(id), i32(seq), i32(body.length), body);
    const plain = cat(head, this.r.bytes((16 - (head.length + 12) % 16) % 16 + 12 + 16 * this.r.int(0, 3)));
    const p = seal(s.key.key, plain, 8);
    const link = s.link;
    if (!link.open) return;
    for (const i of ids) {
      const e = s.sent.get(i)!;
      e.link = link;
      e.delivered = true;
    }
    for (const q of this.mangle ? this.mangle(p, plain, s) : [p]) link.send(q);
  }

  // ---- key exchange ----
  plain(link: Link, p: Uint8Array) {
    const id = asI64(p.slice(8, 16)), len = Number(le(p.slice(16, 20)));
    if (id % 4n !== 0n) this.anomaly("C08", "multiple-of-4", `plain message has the identifier ${id}`);
    if (20 + len !== p.length) return this.anomaly("C05", "plain-length", `a plain message of ${p.length} bytes announces ${len}`);
    let o: A;
    try {
      o = TL.decode(TL.mtproto, p.slice(20) as U8);
    } catch (e) {
      return this.anomaly("C05", "plain-malformed", String(e));
    }
    const reply = handshake(this, link, o);
    if (reply === null) return;
    let b: U8 = "raw" in reply ? reply.raw : TL.encode(TL.mtproto, reply);
    b = cat(new Uint8Array(8), i64((BigInt(Math.floor(this.now())) << 32n) | 1n), i32(b.length), b);
    link.send(b);
  }
}

/** Content-related messages: everything that has to be acknowledged. */
function isContent(body: U8): boolean {
  const id = Number(le(body.slice(0, 4)));
  return !(id === CONTAINER || id === 0x62d6b459 /* msgs_ack */);
}

export interface HandshakeOptions {
  p?: bigint;
  q?: bigint;
  g?: number;
  prime?: bigint;
  /** the server's secret exponent */
  a?: bigint;
  /** changes an answer before it is sent; receives the state of the exchange */
  tamper?: (stage: "resPQ" | "inner" | "encrypted" | "dh" | "done", o: A, st: A) => A;
  /** how often to answer dh_gen_retry / dh_gen_fail before accepting */
  retries?: ("dh_gen_retry" | "dh_gen_fail" | "-404" | "drop" | "silent-nonce")[];
  fingerprints?: bigint[];
  serverNonce?: () => Uint8Array;
  /** accept any public value of the client */
  lenient?: boolean;
  /** may change st.a and st.ga */
  onSecrets?: (st: A) => void;
}

function handshake(sv: MtServer, link: Link, o: A): A {
  const h = sv.hs, r = sv.r;
  const bad = (key: string, msg: string) => {
    sv.anomaly("C05", key, msg);
    return null;
  };
  const fix = (stage: Parameters<NonNullable<HandshakeOptions["tamper"]>>[0], o: A, st: A) => h.tamper ? h.tamper(stage, o, st) : o;
  switch (o._) {
    case "req_pq_multi": {
      // asking again on the same connection, when the answer was of no use, continues the exchange
      const old = sv.handshakes.get(o.nonce);
      if (old && (old.link !== link || old.key)) return bad("nonce-reused", "a nonce is used for two exchanges");
      const st: A = { nonce: o.nonce, server: le(h.serverNonce?.() ?? r.bytes(16)), link, p: h.p ?? 1n, q: h.q ?? 1n };
      st.server = BigInt.asIntN(128, st.server);
      sv.handshakes.set(o.nonce, st);
      return fix("resPQ", { _: "resPQ", nonce: o.nonce, server_nonce: st.server, pq: minimalBe(st.p * st.q), server_public_key_fingerprints: h.fingerprints ?? sv.rsa.map((k) => k.fingerprint) }, st);
    }
    case "req_DH_params": {
      const st = sv.handshakes.get(o.nonce);
      if (!st) return bad("nonce", "req_DH_params with an unknown nonce");
      if (o.server_nonce !== st.server) return bad("server-nonce", "req_DH_params does not echo the server nonce");
      const p = be(o.p), q = be(o.q);
      if (p * q !== st.p * st.q || p > q || p <= 1n) return bad("factors", `req_DH_params has the factors ${p} and ${q} for ${st.p * st.q}`);
      if (o.p.length !== minimalBe(p).length || o.q.length !== minimalBe(q).length) st.paddedFactors = true;
      const k = sv.rsa.find((k) => k.fingerprint === o.public_key_fingerprint);
      if (!k) return bad("fingerprint", `req_DH_params names the key ${o.public_key_fingerprint}`);
      const data = rsaUnpad(o.encrypted_data, k);
      if (!data) return bad("rsa-pad", "the inner data does not decrypt with a matching hash");
      let d: A;
      try {
        d = TL.decode(TL.mtproto, data);
      } catch (e) {
        return bad("inner", `the inner data does not decode: ${e}`);
      }
      if (d._ !== "p_q_inner_data_dc" && d._ !== "p_q_inner_data_temp_dc") return bad("inner", `the inner data is a ${d._}`);
      if (d.nonce !== st.nonce || d.server_nonce !== st.server) return bad("inner-nonces", "the inner data has other nonces");
      if (be(d.pq) !== st.p * st.q || be(d.p) !== p || be(d.q) !== q) return bad("inner-factors", "the inner data has other factors");
      if (d.dc !== link.dcId) return bad("inner-dc", `the inner data names the data centre ${d.dc} on a connection to ${link.dcId}`);
      st.temp = d._ === "p_q_inner_data_temp_dc";
      st.expires = st.temp ? d.expires_in : 0;
      if (st.temp && !(st.expires > 0 && st.expires <= 86400)) return bad("expiry", `a temporary key expiring in ${st.expires} s`);
      st.newNonce = toLe(BigInt.asUintN(256, d.new_nonce), 32);
      if (sv.newNonces.has(hex(st.newNonce))) return bad("new-nonce-reused", "a new nonce is used for two exchanges");
      sv.newNonces.add(hex(st.newNonce));
      st.prime = h.prime ?? DH_PRIME;
      st.g = h.g ?? 3;
      st.a = h.a ?? be(r.bytes(256)) % st.prime;
      st.ga = powmod(BigInt(st.g), st.a, st.prime);
      h.onSecrets?.(st);
      const sn = toLe(BigInt.asUintN(128, st.server), 16);
      st.sn = sn;
      st.key = cat(sha1(st.newNonce, sn), sha1(sn, st.newNonce).slice(0, 12));
      st.iv = cat(sha1(sn, st.newNonce).slice(12, 20), sha1(st.newNonce, st.newNonce), st.newNonce.slice(0, 4));
      const innerObj = fix("inner", { _: "server_DH_inner_data", nonce: st.nonce, server_nonce: st.server, g: st.g, dh_prime: toBe(st.prime, Math.max(256, minimalBe(st.prime).length)), g_a: minimalBe(st.ga), server_time: Math.floor(sv.now()) }, st);
      const inn = TL.encode(TL.mtproto, innerObj);
      const n = 20 + inn.length;
      const plain = fix("encrypted", cat(sha1(inn), inn, r.bytes((16 - n % 16) % 16)), st);
      return fix("dh", { _: "server_DH_params_ok", nonce: st.nonce, server_nonce: st.server, encrypted_answer: igeEncrypt(plain, st.key, st.iv) }, st);
    }
    case "set_client_DH_params": {
      const st = sv.handshakes.get(o.nonce);
      if (!st?.key) return bad("nonce", "set_client_DH_params with an unknown nonce");
      if (o.server_nonce !== st.server) return bad("server-nonce", "set_client_DH_params does not echo the server nonce");
      if (o.encrypted_data.length % 16) return bad("client-data", `${o.encrypted_data.length} bytes of encrypted data`);
      const plain = igeDecrypt(o.encrypted_data, st.key, st.iv);
      const rd = new TL.R(plain.slice(20) as U8);
      let d: A;
      try {
        d = TL.decode(TL.mtproto, rd);
      } catch (e) {
        return bad("client-data", `the client's data does not decode: ${e}`);
      }
      const used = plain.length - 20 - rd.rest.length;
      if (!same(sha1(plain.slice(20, 20 + used)), plain.slice(0, 20))) return bad("client-hash", "the hash of the client's data does not match");
      if (rd.rest.length > 15) return bad("client-padding", `${rd.rest.length} bytes of padding`);
      if (d._ !== "client_DH_inner_data" || d.nonce !== st.nonce || d.server_nonce !== st.server) return bad("client-inner", "the client's data has other nonces");
      const gb = be(d.g_b);
      st.gb = gb;
      if (h.lenient) void gb;
      else if (gb <= 1n || gb >= st.prime - 1n) return bad("g_b", "the client's public value is out of range");
      const safe = 1n << 1984n;
      if (!h.lenient && (gb < safe || gb > st.prime - safe)) return bad("g_b-range", "the client's public value is outside the safe range");
      if (sv.gbs.has(gb)) return bad("g_b-reused", "the client's public value was used before");
      sv.gbs.add(gb);
      // a dishonest server knows the key for a public value it did not compute honestly
      const key: U8 = toBe(st.forgedKey?.(gb) ?? powmod(gb, st.a, st.prime), Math.max(256, minimalBe(st.prime).length));
      st.authKey = key;
      const aux = sha1(key).slice(0, 8);
      const hash = (n: number) => BigInt.asIntN(128, le(sha1(st.newNonce, [n], aux).slice(4, 20)));
      st.hash = hash;
      const retry = h.retries?.shift();
      st.retried = retry;
      if (retry === "drop") return link.drop(), null;
      if (retry === "-404") return link.send(toLe(BigInt.asUintN(32, -404n), 4)), null;
      if (retry === "dh_gen_retry") return { _: "dh_gen_retry", nonce: st.nonce, server_nonce: st.server, new_nonce_hash2: hash(2) };
      if (retry === "dh_gen_fail") return { _: "dh_gen_fail", nonce: st.nonce, server_nonce: st.server, new_nonce_hash3: hash(3) };
      const ak = sv.addKey(link.dcId, key);
      ak.temp = st.temp;
      if (st.temp) ak.expiresAt = sv.now() + st.expires;
      ak.salt = asI64(st.newNonce.slice(0, 8).map((v: number, i: number) => v ^ st.sn[i]));
      st.salt = ak.salt;
      sv.exchanged.push({ key: ak, st });
      return fix("done", { _: "dh_gen_ok", nonce: st.nonce, server_nonce: st.server, new_nonce_hash1: hash(1) }, st);
    }
    default:
      return bad("request", `unexpected plain request ${o._}`);
  }
}
export interface MtServer {
  newNonces: Set<string>;
  gbs: Set<bigint>;
  exchanged: { key: AuthKey; st: A }[];
}
Object.defineProperties(MtServer.prototype, {
  newNonces: { get(this: A) { return this._nn ??= new Set(); } },
  gbs: { get(this: A) { return this._gbs ??= new Set(); } },
  exchanged: { get(this: A) { return this._ex ??= []; } },
});
