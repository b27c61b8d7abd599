// The service's part of secret chats, a reference implementation of one party, and monitors over the packets
// that pass between parties.
import { randomOverride, type Rng } from "./env.ts";
import { type Case, cat, hex, same, show } from "./core.ts";
import { type A, type Account, API, type Proc, run, type Site } from "./site.ts";
import type { Answer, Call } from "./mtserver.ts";
import { be, DH_PRIME, igeDecrypt, igeEncrypt, le, md5, powmod, sha1, sha256, toBe, toLe, type U8 } from "./ref.ts";
import * as TL from "./tl.ts";

export const P = DH_PRIME;
export const S = TL.secret;
export const GENERATORS = [3, 4, 5, 7].filter((g) => g === 3 ? P % 3n === 2n : g === 4 ? true : g === 5 ? [1n, 4n].includes(P % 5n) : [3n, 5n, 6n].includes(P % 7n));
export const keyId = (key: Uint8Array) => sha1(key).slice(12, 20);
export const fingerprint = (key: Uint8Array) => BigInt.asIntN(64, le(keyId(key)));
/** Whether a public value is within the range the protocol demands. */
export const inRange = (v: bigint, p = P) => v >= 1n << 1984n && v <= p - (1n << 1984n);

// ---- exponents ------------------------------------------------------------------------------------------
/** Every exponent drawn by the parties, so that monitors can follow the keys. Most are short, which makes
 * the arithmetic quick without changing what is computed with them. */
export class Exponents {
  all: bigint[] = [];
  /** values to hand out next */
  next: bigint[] = [];
  #powers = new Map<string, bigint>();
  constructor(public r: Rng, public full = false) {
    randomOverride.fn = (view) => {
      if (view.length !== 256) return false;
      const v = this.next.shift() ?? (this.full ? r.big(2048) : r.big(r.pick([64, 65, 96])) | 1n << 62n);
      view.set(toLe(v, 256));
      this.all.push(v, be(view));
      return true;
    };
  }
  /** the exponent behind a public value */
  behind(pub: bigint, g: number): bigint | undefined {
    for (let i = this.all.length - 1; i >= 0; i--) {
      const e = this.all[i], k = g + ":" + e;
      if (i % 2 && e > 1n << 200n && !this.full && this.all[i - 1] < 1n << 100n) continue; // the other byte order
      let v = this.#powers.get(k);
      if (v === undefined) this.#powers.set(k, v = powmod(BigInt(g), e, P));
      if (v === pub) return e;
    }
  }
}

// ---- packets --------------------------------------------------------------------------------------------
export interface SealOptions {
  pad?: number;
  length?: number;
  x?: number;
  keyId?: Uint8Array;
  tail?: number;
}
export function seal(r: Rng, key: Uint8Array, byCreator: boolean, body: Uint8Array, o: SealOptions = {}): U8 {
  let pad = o.pad ?? (r.bool(0.04) ? 1009 : 12 + r.int(0, 3) * 16);
  pad += (16 - (4 + body.length + pad) % 16) % 16;
  if (o.pad === undefined && pad > 1024) pad = 12;
  const plain = cat(toLe(BigInt(o.length ?? body.length), 4), body, r.bytes(pad));
  const x = o.x ?? (byCreator ? 0 : 8);
  const msgKey = sha256(key.subarray(88 + x, 120 + x), plain).slice(8, 24);
  const [k, iv] = aes(key, msgKey, x);
  return cat(o.keyId ?? keyId(key), msgKey, igeEncrypt(plain, k, iv));
}
function aes(key: Uint8Array, msgKey: Uint8Array, x: number): [U8, U8] {
  const a = sha256(msgKey, key.subarray(x, x + 36)), b = sha256(key.subarray(40 + x, 76 + x), msgKey);
  return [cat(a.slice(0, 8), b.slice(8, 24), a.slice(24, 32)), cat(b.slice(0, 8), a.slice(8, 24), b.slice(24, 32))];
}
/** The message in a packet, or what is wrong with it. */
export function unseal(key: Uint8Array, byCreator: boolean, data: Uint8Array): { layer: A; body: U8 } | string {
  if (data.length < 56 || (data.length - 24) % 16) return `length ${data.length}`;
  if (!same(data.slice(0, 8), keyId(key))) return "key identifier";
  const x = byCreator ? 0 : 8, msgKey = data.slice(8, 24);
  const [k, iv] = aes(key, msgKey, x);
  const plain = igeDecrypt(data.slice(24), k, iv);
  if (!same(sha256(key.subarray(88 + x, 120 + x), plain).slice(8, 24), msgKey)) return "message key";
  const n = Number(le(plain.slice(0, 4))), pad = plain.length - 4 - n;
  if (pad < 12 || pad > 1024) return `padding of ${pad} bytes`;
  const body = plain.slice(4, 4 + n);
  const rd = new TL.R(body);
  const layer = TL.decodeX(S, rd);
  return { layer, body };
}

// ---- the service ----------------------------------------------------------------------------------------
export interface Packet {
  n: number;
  chat: Chat;
  from: Account;
  to: Account;
  byCreator: boolean;
  method: string;
  bytes: U8;
  randomId: bigint;
  file: A;
  /** process that sent it, counted per account */
  life: number;
  layer: A | null;
  body: U8 | null;
  raw: number; // position in its sender's sequence, -1 when unknown
  again: boolean; // sent before
  silent: boolean;
  at: number;
  clock: number;
}
export interface Chat {
  id: number;
  admin: Account;
  other: Account;
  hash: [bigint, bigint];
  state: "waiting" | "active" | "discarded";
  gA: U8;
  gB: U8;
  g: number;
  fp: bigint;
  date: number;
  keys: Map<string, U8>;
  /** identifiers of keys in the order they were agreed on */
  order: string[];
  requests: Map<bigint, { gA: U8; byCreator: boolean }>;
  endedBy: Account | null;
  changed: number;
}
/** What one direction of a chat has carried. */
export interface Direction {
  next: number; // position after the last one seen
  bodies: Map<number, Packet>;
  lastIn: number;
  /** positions delivered to the other party */
  delivered: Set<number>;
  prefix: number;
  perKey: Map<string, number>;
}

export class Relay {
  r: Rng;
  chats = new Map<number, Chat>();
  packets: Packet[] = [];
  refused = 0;
  dh: (() => A) | null = null;
  /** what becomes of a packet: called once per transmission */
  carry: (p: Packet) => void = (p) => this.deliver(p);
  /** reference parties by account */
  peers = new Map<Account, Peer>();
  exps: Exponents;
  /** set when a packet could not be followed, which is no violation by itself */
  unfollowed = 0;
  /** whether to check the packets' contents against the rules */
  strict = true;
  /** number of processes an account has had */
  lives = new Map<Account, number>();
  directions = new Map<string, Direction>();
  files = new Map<bigint, { parts: Map<number, U8>; total: number }>();
  stored = new Map<bigint, { hash: bigint; bytes: U8; keyFp: number }>();
  typing: [Account, number, boolean][] = [];
  calls: A[] = [];
  /** a failure to answer a call with, before (first) or after it took effect */
  fault: ((c: Call, acc: Account) => { before?: [number, string]; after?: [number, string] } | void) | null = null;
  ids = 0;
  constructor(public site: Site, public t: Case, full = false) {
    this.r = t.rng;
    this.exps = new Exponents(this.r, full);
    site.on = (c, acc) => acc ? this.#on(c, acc) : undefined;
  }
  dir(chat: Chat, byCreator: boolean): Direction {
    const k = chat.id + (byCreator ? "a" : "b");
    let d = this.directions.get(k);
    if (!d) this.directions.set(k, d = { next: 0, bodies: new Map(), lastIn: 0, delivered: new Set(), prefix: 0, perKey: new Map() });
    return d;
  }
  known(acc: Account, other: Account) {
    acc.user(other.id);
    this.site.push(acc, { _: "updates", updates: [{ _: "updateConfig" }], users: [acc.user(other.id)], chats: [], date: acc.date, seq: 0 });
  }
  /** what a party is shown of a chat */
  view(chat: Chat, acc: Account): A {
    const base = { id: chat.id, access_hash: chat.hash[acc === chat.admin ? 0 : 1], date: chat.date, admin_id: chat.admin.id, participant_id: chat.other.id };
    if (chat.state === "discarded") return { _: "encryptedChatDiscarded", id: chat.id };
    if (chat.state === "waiting") return acc === chat.admin ? { _: "encryptedChatWaiting", ...base } : { _: "encryptedChatRequested", ...base, g_a: chat.gA };
    return { _: "encryptedChat", ...base, g_a_or_b: acc === chat.admin ? chat.gB : chat.gA, key_fingerprint: chat.fp };
  }
  news(acc: Account, chat: A) {
    const peer = this.peers.get(acc);
    if (peer) return peer.chatNews(chat);
    this.site.push(acc, { _: "updates", updates: [{ _: "updateEncryption", chat, date: this.site.server.now() | 0 }], users: [], chats: [], date: acc.date = this.site.server.now() | 0, seq: 0 });
  }
  /** differences also tell about chats that changed */
  attach(acc: Account) {
    acc.changedChannels = (date: number) => [...this.chats.values()].filter((c) => (c.admin === acc || c.other === acc) && c.changed >= date - 2).map((c) => ({ _: "updateEncryption", chat: this.view(c, acc), date: c.changed }));
  }
  #on(c: Call, acc: Account): Answer | undefined {
    const q = c.call;
    if (!/^(messages|upload)\./.test(q._)) return undefined;
    const f = this.fault?.(c, acc);
    if (f?.before) return { error: f.before };
    const a = this.answer(q, acc);
    if (f?.after) return { error: f.after };
    if (a === undefined) return undefined;
    if (Array.isArray(a)) return { error: a as [number, string] };
    return this.site.ok(c, a);
  }
  chatOf(p: A, acc: Account): Chat | null {
    const chat = this.chats.get(p.chat_id);
    if (!chat || chat.admin !== acc && chat.other !== acc || p.access_hash !== chat.hash[acc === chat.admin ? 0 : 1]) return null;
    return chat;
  }
  dhConfig(): A {
    return { _: "messages.dhConfig", g: this.r.pick(GENERATORS), p: toBe(P, 256), version: 3, random: this.r.bytes(256) };
  }
  g = 0;
  /** The service's answer to a call: a value, an error, or nothing when it is not about secret chats. */
  answer(q: A, acc: Account): A {
    const now = this.site.server.now() | 0;
    this.calls.push([acc.id, q]);
    switch (q._) {
      case "messages.getDhConfig": {
        const d = this.dh?.() ?? this.dhConfig();
        // everyone is given the same group
        if (!this.dh) d.g = this.g ||= d.g;
        return d;
      }
      case "messages.requestEncryption": {
        const other = this.site.accounts.get(q.user_id.user_id);
        if (!other) return [400, "USER_ID_INVALID"];
        const id = this.chatId?.() ?? q.random_id;
        const chat: Chat = { id, admin: acc, other, hash: [this.r.big(60), this.r.big(60)], state: "waiting", gA: q.g_a, gB: new Uint8Array(), g: this.g, fp: 0n, date: now, keys: new Map(), order: [], requests: new Map(), endedBy: null, changed: now };
        this.chats.set(id, chat);
        setTimeout(() => chat.state === "waiting" && this.news(other, this.view(chat, other)), this.hop());
        return this.view(chat, acc);
      }
      case "messages.acceptEncryption": {
        const chat = this.chatOf(q.peer, acc);
        if (!chat || chat.other !== acc) return [400, "CHAT_ID_INVALID"];
        if (chat.state === "discarded") return [400, "ENCRYPTION_ALREADY_DECLINED"];
        if (chat.state === "active") return [400, "ENCRYPTION_ALREADY_ACCEPTED"];
        chat.state = "active";
        chat.changed = now;
        chat.gB = q.g_b;
        chat.fp = q.key_fingerprint;
        this.#agree(chat, chat.gA, chat.gB, chat.fp, !this.peers.has(acc));
        const v = this.view(chat, chat.admin);
        setTimeout(() => this.news(chat.admin, this.tamperAccept?.(v) ?? v), this.hop());
        return this.view(chat, acc);
      }
      case "messages.discardEncryption": {
        const chat = this.chats.get(q.chat_id);
        if (!chat || chat.admin !== acc && chat.other !== acc) return [400, "CHAT_ID_INVALID"];
        if (chat.state === "discarded") return [400, "ENCRYPTION_ALREADY_DECLINED"];
        this.end(chat, acc);
        return true;
      }
      case "messages.setEncryptedTyping": {
        const chat = this.chatOf(q.peer, acc);
        if (!chat || chat.state !== "active") return [400, "CHAT_ID_INVALID"];
        this.typing.push([acc, chat.id, q.typing]);
        const to = acc === chat.admin ? chat.other : chat.admin;
        if (!this.peers.has(to)) this.site.push(to, { _: "updates", updates: [{ _: "updateEncryptedChatTyping", chat_id: chat.id }], users: [], chats: [], date: to.date, seq: 0 });
        return true;
      }
      case "messages.sendEncrypted":
      case "messages.sendEncryptedService":
      case "messages.sendEncryptedFile": {
        const chat = this.chatOf(q.peer, acc);
        if (!chat) return [400, "CHAT_ID_INVALID"];
        if (chat.state === "discarded") {
          this.refused++;
          return [400, "ENCRYPTION_DECLINED"];
        }
        if (chat.state !== "active") return [400, "ENCRYPTION_ID_INVALID"];
        if (!q.data.length || q.data.length > 200_000) return [400, "DATA_INVALID"];
        let file: A = { _: "encryptedFileEmpty" };
        if (q._ === "messages.sendEncryptedFile") {
          const f = this.#file(q.file);
          if (!f) return [400, "FILE_EMTPY"];
          file = f;
        }
        this.receive(chat, acc, q, file);
        return q._ === "messages.sendEncryptedFile" ? { _: "messages.sentEncryptedFile", date: now, file } : { _: "messages.sentEncryptedMessage", date: now };
      }
      case "upload.saveFilePart":
      case "upload.saveBigFilePart": {
        let f = this.files.get(q.file_id);
        if (!f) this.files.set(q.file_id, f = { parts: new Map(), total: 0 });
        f.parts.set(q.file_part, q.bytes);
        return true;
      }
    }
    return undefined;
  }
  chatId: (() => number) | null = null;
  tamperAccept: ((v: A) => A | void) | null = null;
  hop: () => number = () => 0;
  end(chat: Chat, by: Account | null) {
    chat.state = "discarded";
    chat.endedBy = by;
    chat.changed = this.site.server.now() | 0;
    for (const acc of [chat.admin, chat.other]) if (acc !== by) this.news(acc, this.view(chat, acc));
  }
  #file(f: A): A | null {
    if (f._ === "inputEncryptedFile") {
      const s = this.stored.get(f.id);
      return s && s.hash === f.access_hash ? { _: "encryptedFile", id: f.id, access_hash: f.access_hash, size: BigInt(s.bytes.length), dc_id: 2, key_fingerprint: s.keyFp } : null;
    }
    if (f._ === "inputEncryptedFileEmpty") return null;
    const u = this.files.get(f.id);
    if (!u) return null;
    const parts: U8[] = [];
    for (let i = 0; i < f.parts; i++) {
      const b = u.parts.get(i);
      if (!b) return null;
      parts.push(b);
    }
    const bytes = cat(...parts);
    if (f._ === "inputEncryptedFileUploaded" && f.md5_checksum && f.md5_checksum !== hex(md5(bytes))) return null;
    const id = this.r.big(60), hash = this.r.big(60);
    this.stored.set(id, { hash, bytes, keyFp: f.key_fingerprint });
    return { _: "encryptedFile", id, access_hash: hash, size: BigInt(bytes.length), dc_id: 2, key_fingerprint: f.key_fingerprint };
  }
  #agree(chat: Chat, gA: Uint8Array, gB: Uint8Array, fp: bigint, judged: boolean) {
    const a = this.exps.behind(be(gA), chat.g), b = a === undefined ? this.exps.behind(be(gB), chat.g) : undefined;
    if (a === undefined && b === undefined) return;
    const key = toBe(a !== undefined ? powmod(be(gB), a, P) : powmod(be(gA), b!, P), 256);
    this.addKey(chat, key);
    if (this.strict && judged) this.t.ensure(fp === fingerprint(key), "wrong-fingerprint", () => `the fingerprint announced for a new key is ${fp} instead of ${fingerprint(key)}`);
    this.t.count("keys agreed");
  }
  addKey(chat: Chat, key: U8) {
    const id = hex(keyId(key));
    if (!chat.keys.has(id)) chat.order.push(id);
    chat.keys.set(id, key);
  }
  receive(chat: Chat, acc: Account, q: A, file: A): Packet {
    const byCreator = acc === chat.admin, t = this.t;
    const p: Packet = { n: this.packets.length, chat, from: acc, to: byCreator ? chat.other : chat.admin, byCreator, method: q._, bytes: q.data, randomId: q.random_id, file, life: this.lives.get(acc) ?? 0, layer: null, body: null, raw: -1, again: false, silent: !!q.silent, at: this.site.server.now(), clock: Date.now() };
    this.packets.push(p);
    const key = chat.keys.get(hex(p.bytes.slice(0, 8)));
    const d = this.dir(chat, byCreator);
    const id = hex(p.bytes.slice(0, 8));
    d.perKey.set(id, (d.perKey.get(id) ?? 0) + 1);
    if (!key) {
      this.unfollowed++;
      t.count("packets under unknown keys");
      if (this.strict && chat.keys.size && this.followed(chat)) t.fail("foreign-key", "a packet was sent under a key the parties had not agreed on");
    } else {
      const u = unseal(key, byCreator, p.bytes);
      if (typeof u === "string") {
        if (this.strict && !this.peers.has(acc)) t.fail("bad-packet", `a packet sent breaks the format: ${u}`);
      } else {
        p.layer = u.layer;
        p.body = u.body;
        if (!this.peers.has(acc)) this.#monitor(p, d);
        else if (u.layer._ === "decryptedMessageLayer") p.raw = (u.layer.out_seq_no - (byCreator ? 1 : 0)) / 2;
        this.#follow(p);
      }
    }
    const peer = this.peers.get(p.to);
    if (peer && this.direct) peer.packet(p);
    else this.carry(p);
    return p;
  }
  direct = true;
  /** whether all keys of a chat could be computed */
  followed(chat: Chat) {
    return chat.requests.size === 0 || [...chat.requests.values()].every((v) => this.exps.behind(be(v.gA), chat.g) !== undefined);
  }
  #monitor(p: Packet, d: Direction) {
    const t = this.t, l = p.layer;
    t.count("packets checked");
    t.ensure(l._ === "decryptedMessageLayer", "not-a-layer", () => `a packet carries ${l._}`);
    t.ensure(l.random_bytes.length >= 15, "random-bytes", () => `a packet has ${l.random_bytes.length} random bytes`);
    t.ensure(l.layer >= 73 && l.layer <= 144, "layer", () => `a packet announces layer ${l.layer}`);
    const x = p.byCreator ? 1 : 0;
    t.ensure(l.out_seq_no >= 0 && (l.out_seq_no - x) % 2 === 0, "out-parity", () => `out_seq_no ${l.out_seq_no} from the ${p.byCreator ? "creator" : "participant"}`);
    t.ensure(l.in_seq_no >= 0 && (l.in_seq_no - (1 - x)) % 2 === 0, "in-parity", () => `in_seq_no ${l.in_seq_no} from the ${p.byCreator ? "creator" : "participant"}`);
    p.raw = (l.out_seq_no - x) / 2;
    const before = d.bodies.get(p.raw);
    if (before) {
      p.again = true;
      const strip = (v: A) => show({ ...v, random_bytes: 0 }, 1e6);
      t.ensure(strip(before.layer) === strip(l), "seq-reuse", () => `out_seq_no ${l.out_seq_no} was used for two different messages: ${show(before.layer.message, 200)} and ${show(l.message, 200)}`);
      t.ensure(before.silent === p.silent, "re-sent-differently", () => `a ${before.silent ? "" : "not "}silent message was sent again ${p.silent ? "" : "not "}silently`);
      t.count("packets re-sent");
    } else {
      const gap = p.life > (d.bodies.get(d.next - 1)?.life ?? p.life) || this.lossy;
      if (gap && p.raw < d.next && p.raw >= 0) {
        // lost on its way to the service the first time
        d.bodies.set(p.raw, p);
        p.again = true;
        return;
      }
      t.ensure(gap ? p.raw >= d.next : p.raw === d.next, "seq-order", () => `out_seq_no ${l.out_seq_no} was sent when ${2 * d.next + x} was due`);
      d.next = p.raw + 1;
      d.bodies.set(p.raw, p);
      const raw = (l.in_seq_no - (1 - x)) / 2, other = this.dir(p.chat, !p.byCreator);
      t.ensure(raw >= d.lastIn, "in-decreases", () => `in_seq_no went back from ${d.lastIn} to ${raw} messages received`);
      t.ensure(raw <= other.prefix, "in-too-large", () => `in_seq_no says ${raw} messages were received when only ${other.prefix} could have been`);
      d.lastIn = raw;
    }
  }
  /** calls may be lost before they reach the service */
  lossy = false;
  #follow(p: Packet) {
    const m = p.layer?.message, chat = p.chat;
    const a = m?.action;
    if (!a) return;
    if (a._ === "decryptedMessageActionRequestKey") chat.requests.set(a.exchange_id, { gA: a.g_a, byCreator: p.byCreator });
    if (a._ === "decryptedMessageActionAcceptKey") {
      const q = chat.requests.get(a.exchange_id);
      if (q && q.byCreator !== p.byCreator) this.#agree(chat, q.gA, a.g_b, a.key_fingerprint, !this.peers.has(p.from));
    }
  }
  arrived(chat: Chat, byCreator: boolean, raw: number) {
    const d = this.dir(chat, byCreator);
    d.delivered.add(raw);
    while (d.delivered.has(d.prefix)) d.prefix++;
  }
  /** Hands a packet to its receiver as a new event. */
  deliver(p: Packet, bytes = p.bytes): A {
    if (bytes === p.bytes && p.raw >= 0) this.arrived(p.chat, p.byCreator, p.raw);
    const peer = this.peers.get(p.to);
    if (peer) return peer.packet(p);
    return this.inject(p.to, p.chat.id, bytes, p.file, p.method !== "messages.sendEncryptedService");
  }
  /** Brings any bytes to a party. */
  inject(to: Account, chat_id: number, bytes: Uint8Array, file: A = { _: "encryptedFileEmpty" }, message = true) {
    const now = this.site.server.now() | 0, tag = to.nextTag++;
    to.date = now;
    to.qts++;
    const m = message ? { _: "encryptedMessage", random_id: this.r.big(62), chat_id, date: now, bytes, file } : { _: "encryptedMessageService", random_id: this.r.big(62), chat_id, date: now, bytes };
    const e = { box: "q", n: to.qts, count: 1, tag, kind: "encrypted" as const, update: { _: "updateNewEncryptedMessage", message: m, qts: to.qts }, at: now, users: [], chats: [] };
    to.events.push(e);
    this.site.push(to, to.pack([e], false));
    return e;
  }
}

// ---- a reference party ----------------------------------------------------------------------------------
/** One party of a secret chat that follows the rules, unless told otherwise. */
export class Peer {
  r: Rng;
  chat: Chat | null = null;
  view: A = null;
  key: U8 | null = null;
  keys: U8[] = [];
  exp = 0n;
  out = 0; // positions used
  in = 0; // received in order
  sent = new Map<number, { body: U8; key: U8 }>();
  got = new Map<number, Packet>();
  /** messages received in order */
  inbox: A[] = [];
  ended = false;
  auto = true;
  rekey: { id: bigint; a: bigint } | null = null;
  toCommit: { id: bigint; key: U8 } | null = null;
  /** called for every packet in order */
  onMessage: ((m: A, p: Packet) => void) | null = null;
  /** the first process's word on how much it has received */
  constructor(public relay: Relay, public acc: Account) {
    this.r = relay.r;
    relay.peers.set(acc, this);
  }
  get creator() {
    return this.chat!.admin === this.acc;
  }
  request(other: Account) {
    this.exp = this.r.big(80);
    const rl = this.relay;
    rl.g ||= this.r.pick(GENERATORS);
    const v = rl.answer({ _: "messages.requestEncryption", user_id: { user_id: other.id }, g_a: toBe(powmod(BigInt(rl.g), this.exp, P), 256), random_id: this.r.u32() | 0 }, this.acc);
    this.chat = rl.chats.get(v.id)!;
    return this.chat;
  }
  chatNews(v: A) {
    this.view = v;
    if (v._ === "encryptedChatRequested") this.chat = this.relay.chats.get(v.id)!;
    if (v._ === "encryptedChatDiscarded") this.ended = true;
    if (v._ === "encryptedChat" && this.creator) {
      this.setKey(toBe(powmod(be(v.g_a_or_b), this.exp, P), 256));
      this.relay.addKey(this.chat!, this.key!);
    }
  }
  setKey(k: U8) {
    this.key = k;
    this.keys.push(k);
  }
  accept(o: { gB?: U8; fp?: bigint } = {}) {
    const chat = this.chat!;
    this.exp = this.r.big(80);
    const gB = o.gB ?? toBe(powmod(BigInt(this.relay.g), this.exp, P), 256);
    this.setKey(toBe(powmod(be(chat.gA), this.exp, P), 256));
    this.relay.addKey(chat, this.key!);
    const strict = this.relay.strict;
    this.relay.strict = false;
    const v = this.relay.answer({ _: "messages.acceptEncryption", peer: { chat_id: chat.id, access_hash: chat.hash[1] }, g_b: gB, key_fingerprint: o.fp ?? fingerprint(this.key!) }, this.acc);
    this.relay.strict = strict;
    this.view = v;
  }
  layer(message: A, o: { out?: number; in?: number; layer?: number } = {}): U8 {
    const x = this.creator ? 1 : 0;
    return TL.encode(S, { _: "decryptedMessageLayer", random_bytes: this.r.bytes(this.r.int(15, 31)), layer: o.layer ?? 144, in_seq_no: o.in ?? 2 * this.in + (1 - x), out_seq_no: o.out ?? 2 * this.out + x, message });
  }
  text(message = "p" + this.r.int(0, 1e9)): A {
    return { _: "decryptedMessage", random_id: this.r.big(62), ttl: 0, message };
  }
  service(action: A): A {
    return { _: "decryptedMessageService", random_id: this.r.big(62), action };
  }
  /** The next message, as bytes that have not been handed over yet. */
  make(message: A, key = this.key!): { raw: number; bytes: U8; message: A; key: U8 } {
    const body = this.layer(message), raw = this.out++;
    this.sent.set(raw, { body, key });
    return { raw, bytes: seal(this.r, key, this.creator, body), message, key };
  }
  /** Hands bytes to the service. */
  post(bytes: U8, method = "messages.sendEncrypted"): A {
    return this.relay.answer({ _: method, peer: { chat_id: this.chat!.id, access_hash: this.chat!.hash[this.creator ? 0 : 1] }, random_id: this.r.big(62), data: bytes }, this.acc);
  }
  send(message: A, key = this.key!) {
    const m = this.make(message, key);
    this.post(m.bytes, message._ === "decryptedMessage" ? "messages.sendEncrypted" : "messages.sendEncryptedService");
    return m;
  }
  again(raw: number): U8 {
    const s = this.sent.get(raw)!;
    return seal(this.r, s.key, this.creator, s.body);
  }
  /** keys that may still be used by the other party */
  packet(p: Packet) {
    if (!p.layer || p.layer._ !== "decryptedMessageLayer") return;
    this.got.set(p.raw, p);
    while (this.got.has(this.in)) {
      const q = this.got.get(this.in)!;
      this.in++;
      this.inbox.push(q.layer.message);
      this.onMessage?.(q.layer.message, q);
      if (this.auto) this.react(q.layer.message);
    }
    if (this.auto && this.got.size > this.in && this.r.bool(0)) this.ask();
  }
  ask() {
    // not needed: the reference party is told everything
  }
  startRekey(id = this.r.big(62)) {
    const a = this.r.big(80);
    this.rekey = { id, a };
    this.send(this.service({ _: "decryptedMessageActionRequestKey", exchange_id: id, g_a: toBe(powmod(BigInt(this.relay.g), a, P), 256) }));
  }
  lostRequests = 0;
  react(m: A) {
    const a = m.action;
    if (!a) return;
    switch (a._) {
      case "decryptedMessageActionResend":
        for (let s = a.start_seq_no; s <= a.end_seq_no; s += 2) {
          const raw = (s - (this.creator ? 1 : 0)) / 2;
          this.relay.t.ensure(Number.isInteger(raw) && this.sent.has(raw), "bad-resend-request", () => `asked to re-send ${a.start_seq_no}..${a.end_seq_no} when ${this.out} messages were sent`);
          this.post(this.again(raw));
        }
        break;
      case "decryptedMessageActionRequestKey": {
        if (this.toCommit) return;
        if (this.rekey && this.rekey.id >= a.exchange_id) return;
        this.rekey = null;
        this.relay.t.ensure(inRange(be(a.g_a)), "unsafe-value-sent", "a value out of range was offered for a new key");
        const b = this.r.big(80), key = toBe(powmod(be(a.g_a), b, P), 256);
        this.toCommit = { id: a.exchange_id, key };
        this.relay.addKey(this.chat!, key);
        this.send(this.service({ _: "decryptedMessageActionAcceptKey", exchange_id: a.exchange_id, g_b: toBe(powmod(BigInt(this.relay.g), b, P), 256), key_fingerprint: fingerprint(key) }));
        break;
      }
      case "decryptedMessageActionAcceptKey": {
        if (!this.rekey || this.rekey.id !== a.exchange_id) return;
        const key = toBe(powmod(be(a.g_b), this.rekey.a, P), 256);
        this.relay.t.ensure(fingerprint(key) === a.key_fingerprint, "wrong-fingerprint", () => `the fingerprint announced for a renewed key is ${a.key_fingerprint} instead of ${fingerprint(key)}`);
        this.relay.addKey(this.chat!, key);
        this.send(this.service({ _: "decryptedMessageActionCommitKey", exchange_id: a.exchange_id, key_fingerprint: a.key_fingerprint }));
        this.rekey = null;
        this.setKey(key);
        break;
      }
      case "decryptedMessageActionCommitKey":
        if (!this.toCommit || this.toCommit.id !== a.exchange_id) return;
        this.relay.t.ensure(fingerprint(this.toCommit.key) === a.key_fingerprint, "wrong-fingerprint", "the fingerprint committed to is another key's");
        this.setKey(this.toCommit.key);
        this.toCommit = null;
        this.send(this.service({ _: "decryptedMessageActionNoop" }));
        break;
      case "decryptedMessageActionAbortKey":
        if (this.rekey?.id === a.exchange_id) this.rekey = null;
        if (this.toCommit?.id === a.exchange_id) this.toCommit = null;
    }
  }
}

/** Whether anything stored contains a value. */
export function contains(v: A, bytes: U8, n?: bigint): boolean {
  if (typeof v === "bigint") return n !== undefined && v === n;
  if (v instanceof Uint8Array) {
    outer: for (let i = 0; i + bytes.length <= v.length; i++) {
      for (let j = 0; j < bytes.length; j++) if (v[i + j] !== bytes[j]) continue outer;
      return true;
    }
    return false;
  }
  if (v instanceof Map) return [...v].some((e) => contains(e, bytes, n));
  if (v && typeof v === "object") return Object.values(v).some((e) => contains(e, bytes, n));
  return false;
}
export type { Account, Proc };
export { be, fingerprint as keyFingerprint, powmod, run, toBe };

// ---- two complete clients -------------------------------------------------------------------------------
import { advance, Disk, type DiskOptions, until } from "./site.ts";
export class Side {
  p!: Proc;
  disk = new Disk();
  chats: A[] = []; // chat events handlers got
  messages: { m: A; life: number }[] = [];
  lives = 0;
  constructor(public relay: Relay, public acc: Account, public params: A, public diskOptions: DiskOptions = {}) {
    relay.attach(acc);
    params.authString = relay.site.authString(relay.site.login(acc));
  }
  onMessage: ((m: A) => unknown) | null = null;
  boot() {
    const life = ++this.lives;
    this.relay.lives.set(this.acc, life);
    this.p = this.relay.site.proc({
      disk: this.disk,
      params: this.params,
      diskOptions: this.diskOptions,
      handler: (u) => {
        if (u.secretChat) this.chats.push(u.secretChat);
        if (u.secretMessage) {
          this.messages.push({ m: u.secretMessage, life });
          return this.onMessage?.(u.secretMessage);
        }
      },
    });
    return this.p;
  }
  get client() {
    return this.p.client;
  }
  async start() {
    this.boot();
    await run(this.p.client.start(), 600000, "start()");
  }
  /** what the storage says */
  holds(bytes: U8, n?: bigint): boolean {
    return [...this.disk.data.values()].some(([, v]) => contains(v, bytes, n));
  }
}
/** Makes a chat between two clients; the first one asks for it. */
export async function establish(a: Side, b: Side): Promise<Chat> {
  const relay = a.relay;
  relay.known(a.acc, b.acc);
  await advance(5000);
  const c = await run(a.client.requestSecretChat(Number(b.acc.id)) as Promise<A>, 600000, "requestSecretChat()");
  await advance(5000);
  relay.t.ensure(b.chats.some((v) => v.id === c.id && v.type === "requested"), "request-not-reported", "a requested secret chat was not reported to the other party");
  await run(b.client.acceptSecretChat(c.id), 600000, "acceptSecretChat()");
  await advance(5000);
  relay.t.ensure(a.chats.some((v) => v.id === c.id && v.type === "active"), "accept-not-reported", "an accepted secret chat was not reported to the party that asked for it");
  return relay.chats.get(c.id)!;
}
/** Makes a chat between a client and a reference party. */
export async function meet(a: Side, peer: Peer, clientAsks: boolean): Promise<Chat> {
  const relay = a.relay;
  if (clientAsks) {
    relay.known(a.acc, peer.acc);
    await advance(5000);
    const c = await run(a.client.requestSecretChat(Number(peer.acc.id)) as Promise<A>, 600000, "requestSecretChat()");
    await advance(2000);
    peer.accept();
    await advance(5000);
    relay.t.ensure(a.chats.some((v) => v.id === c.id && v.type === "active"), "accept-not-reported", "an accepted secret chat was not reported to the party that asked for it");
  } else {
    peer.request(a.acc);
    await advance(5000);
    await run(a.client.acceptSecretChat(peer.chat!.id), 600000, "acceptSecretChat()");
    await advance(5000);
    relay.t.ensure(peer.key && peer.view._ === "encryptedChat", "not-accepted", "a secret chat was not accepted");
  }
  return peer.chat!;
}
export { advance, Disk, until };
