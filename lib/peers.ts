// Reference SOCKS5 and fake-TLS proxies as byte-driven state machines.
import { Rng } from "./env.ts";
import { cat, same } from "./core.ts";
import { hmac256, powmod } from "./ref.ts";

export interface Peer {
  /** bytes from the client; returns bytes to send back */
  feed(b: Uint8Array): Uint8Array;
  ready: boolean;
  refused: boolean;
  problem: string | null;
  /** application bytes received */
  data: Uint8Array[];
  /** wraps application bytes for the client */
  wrap(b: Uint8Array): Uint8Array;
}

export class PlainPeer implements Peer {
  ready = true;
  refused = false;
  problem: string | null = null;
  data: Uint8Array[] = [];
  feed(b: Uint8Array) {
    this.data.push(b.slice());
    return new Uint8Array();
  }
  wrap(b: Uint8Array) {
    return b;
  }
}

export interface SocksScript {
  user?: string;
  pass?: string;
  /** method number to answer with: 0, 2, 0xff or other */
  method: number;
  version?: number; // of the method answer
  authVersion?: number;
  authStatus?: number;
  reply?: number;
  replyVersion?: number;
  bound?: Uint8Array; // atyp + address + port
}
export class SocksPeer implements Peer {
  ready = false;
  refused = false;
  problem: string | null = null;
  data: Uint8Array[] = [];
  buf: Uint8Array<ArrayBuffer> = new Uint8Array();
  stage = 0;
  dest: { atyp: number; addr: Uint8Array; port: number } | null = null;
  got: { user?: Uint8Array; pass?: Uint8Array } = {};
  constructor(public s: SocksScript) {}
  feed(b: Uint8Array): Uint8Array {
    this.buf = cat(this.buf, b);
    const out: Uint8Array[] = [];
    for (;;) {
      const n = this.buf.length;
      if (this.stage === 0) {
        if (n < 2 || n < 2 + this.buf[1]) break;
        const m = this.buf.subarray(2, 2 + this.buf[1]);
        if (this.buf[0] !== 5) this.problem ??= `greeting has version ${this.buf[0]}`;
        if (this.buf[1] === 0 || new Set(m).size !== m.length || ![...m].every((x) => x === 0 || x === 2)) this.problem ??= `greeting offers methods ${[...m]}`;
        this.eat(2 + this.buf[1]);
        out.push(new Uint8Array([this.s.version ?? 5, this.s.method]));
        this.stage = this.s.method === 2 ? 1 : 2;
        if ((this.s.version ?? 5) !== 5 || (this.s.method !== 0 && this.s.method !== 2)) this.stage = 9, this.refused = true;
      } else if (this.stage === 1) {
        if (n < 2 || n < 3 + this.buf[1] || n < 3 + this.buf[1] + this.buf[2 + this.buf[1]]) break;
        if (this.buf[0] !== 1) this.problem ??= `credentials have version ${this.buf[0]}`;
        const ul = this.buf[1], pl = this.buf[2 + ul];
        this.got = { user: this.buf.slice(2, 2 + ul), pass: this.buf.slice(3 + ul, 3 + ul + pl) };
        this.eat(3 + ul + pl);
        out.push(new Uint8Array([this.s.authVersion ?? 1, this.s.authStatus ?? 0]));
        this.stage = 2;
        if ((this.s.authVersion ?? 1) !== 1 || (this.s.authStatus ?? 0) !== 0) this.stage = 9, this.refused = true;
      } else if (this.stage === 2) {
        if (n < 5) break;
        const at = this.buf[3];
        const len = at === 1 ? 4 : at === 4 ? 16 : at === 3 ? 1 + this.buf[4] : -1;
        if (len < 0) {
          this.problem ??= `address type ${at}`;
          this.stage = 9;
          break;
        }
        if (n < 4 + len + 2) break;
        if (this.buf[0] !== 5 || this.buf[1] !== 1 || this.buf[2] !== 0) this.problem ??= `request begins ${[...this.buf.subarray(0, 3)]}`;
        this.dest = { atyp: at, addr: this.buf.slice(at === 3 ? 5 : 4, 4 + len), port: (this.buf[4 + len] << 8) | this.buf[5 + len] };
        this.eat(6 + len);
        out.push(cat([this.s.replyVersion ?? 5, this.s.reply ?? 0, 0], this.s.bound ?? new Uint8Array([1, 0, 0, 0, 0, 0, 0])));
        this.stage = 3;
        this.ready = true;
        if ((this.s.replyVersion ?? 5) !== 5 || (this.s.reply ?? 0) !== 0) this.stage = 9, this.refused = true, this.ready = false;
      } else if (this.stage === 3) {
        if (n) this.data.push(this.buf);
        this.buf = new Uint8Array();
        break;
      } else {
        if (n) this.problem ??= `${n} bytes sent after a refusal`;
        break;
      }
    }
    return cat(...out);
  }
  eat(n: number) {
    this.buf = this.buf.slice(n);
  }
  wrap(b: Uint8Array) {
    return b;
  }
}

const P25519 = (1n << 255n) - 19n;
/** Full structural validation of the client greeting; returns a description of the first problem. */
export function checkHello(h: Uint8Array, secret: Uint8Array, domain: Uint8Array, now: number): string | null {
  const u16 = (o: number) => (h[o] << 8) | h[o + 1];
  if (h[0] !== 0x16 || h[1] !== 3 || h[2] !== 1) return "record header";
  if (u16(3) !== h.length - 5) return `record length ${u16(3)} for ${h.length - 5} bytes`;
  if (h[5] !== 1 || ((h[6] << 16) | u16(7)) !== h.length - 9) return "handshake length";
  if (u16(9) !== 0x0303) return "version";
  const random = h.subarray(11, 43);
  const z = h.slice();
  z.fill(0, 11, 43);
  const want = hmac256(secret, z);
  for (let i = 0; i < 28; i++) if (random[i] !== want[i]) return "digest of the greeting";
  const dv = new DataView(h.buffer, h.byteOffset);
  const ts = (dv.getUint32(39, true) ^ new DataView(want.buffer, want.byteOffset).getUint32(28, true)) >>> 0;
  if (Math.abs(ts - now) > 2) return `timestamp ${ts} at ${now}`;
  let o = 43;
  if (h[o] !== 32) return "session id";
  o += 33;
  const cs = u16(o);
  if (cs % 2) return "cipher suites";
  o += 2 + cs;
  if (h[o] !== 1 || h[o + 1] !== 0) return "compression methods";
  o += 2;
  if (u16(o) !== h.length - o - 2) return `extensions length ${u16(o)} for ${h.length - o - 2}`;
  o += 2;
  let sni: Uint8Array | null = null, key: Uint8Array | null = null;
  while (o < h.length) {
    if (o + 4 > h.length) return "cut extension";
    const ty = u16(o), len = u16(o + 2);
    if (o + 4 + len > h.length) return `extension ${ty} overruns`;
    const e = o + 4;
    if (ty === 0) {
      if (u16(e) !== len - 2 || h[e + 2] !== 0 || u16(e + 3) !== len - 5) return "server name lengths";
      sni = h.slice(e + 5, e + len);
    }
    if (ty === 0x33) {
      if (u16(e) !== len - 2) return "key share length";
      let k = e + 2;
      while (k < e + len) {
        const l = u16(k + 2);
        if (u16(k) === 0x1d) key = h.slice(k + 4, k + 4 + l);
        k += 4 + l;
      }
      if (k !== e + len) return "key share entries";
    }
    o = e + len;
  }
  if (o !== h.length) return "extensions overrun";
  if (!sni || !same(sni, domain)) return "server name";
  if (!key || key.length !== 32) return "key share";
  let x = 0n;
  for (let i = 31; i >= 0; i--) x = (x << 8n) | BigInt(key[i]);
  const y2 = (((x + 486662n) % P25519 * x % P25519 + 1n) % P25519) * x % P25519;
  if (x >= P25519 || powmod(y2, (P25519 - 1n) / 2n, P25519) !== 1n) return "public key is not a curve point";
  return null;
}

export interface TlsScript {
  secret: Uint8Array;
  domain: Uint8Array;
  /** how to damage the answer */
  bad?: "digest" | "prefix1" | "prefix2" | "none";
  now: () => number;
}
export class TlsPeer implements Peer {
  ready = false;
  refused = false;
  problem: string | null = null;
  data: Uint8Array[] = [];
  buf: Uint8Array<ArrayBuffer> = new Uint8Array();
  stage = 0;
  records = 0;
  biggest = 0;
  constructor(public s: TlsScript, public rng: Rng) {}
  feed(b: Uint8Array): Uint8Array {
    this.buf = cat(this.buf, b);
    if (this.stage === 0) {
      if (this.buf.length < 5) return new Uint8Array();
      const n = 5 + ((this.buf[3] << 8) | this.buf[4]);
      if (this.buf.length < n) return new Uint8Array();
      const h = this.buf.slice(0, n);
      this.buf = this.buf.slice(n);
      if (this.buf.length) this.problem ??= `${this.buf.length} bytes follow the greeting before it is answered`;
      this.problem ??= checkHello(h, this.s.secret, this.s.domain, this.s.now());
      const r = this.rng;
      const hello = r.bytes(r.pick([122, 90, 200]));
      const app = r.bytes(r.pick([0, 1, 100, 1000, 4000, 9000]));
      const resp = cat([0x16, 3, 3, hello.length >> 8, hello.length & 255], hello, [0x14, 3, 3, 0, 1, 1, 0x17, 3, 3, app.length >> 8, app.length & 255], app);
      resp.fill(0, 11, 43);
      resp.set(hmac256(this.s.secret, cat(h.subarray(11, 43), resp)), 11);
      if (this.s.bad === "digest") resp[this.rng.int(11, resp.length - 1 - (app.length + 11) + 0)] ^= 1 << r.int(0, 7);
      if (this.s.bad === "prefix1") resp[r.int(0, 2)] ^= 1 << r.int(0, 7);
      if (this.s.bad === "prefix2") resp[5 + hello.length + r.int(0, 8)] ^= 1 << r.int(0, 7);
      this.stage = 1;
      if (this.s.bad && this.s.bad !== "none") this.refused = true, this.stage = 9;
      else this.ready = true;
      return resp;
    }
    if (this.stage === 9) {
      this.problem ??= "bytes sent after a forged answer";
      return new Uint8Array();
    }
    for (;;) {
      if (this.stage === 1) {
        if (this.buf.length < 6) break;
        if (!same(this.buf.subarray(0, 6), new Uint8Array([0x14, 3, 3, 0, 1, 1]))) {
          this.problem ??= "first data is not preceded by a change-cipher-spec record";
        } else this.buf = this.buf.slice(6);
        this.stage = 2;
      }
      if (this.buf.length < 5) break;
      if (this.buf[0] !== 0x17 || this.buf[1] !== 3 || this.buf[2] !== 3) {
        this.problem ??= `record begins ${[...this.buf.subarray(0, 3)]}`;
        break;
      }
      const n = (this.buf[3] << 8) | this.buf[4];
      if (n > 16384 || n === 0) this.problem ??= `record of ${n} bytes`;
      if (this.buf.length < 5 + n) break;
      this.data.push(this.buf.slice(5, 5 + n));
      this.records++;
      this.biggest = Math.max(this.biggest, n);
      this.buf = this.buf.slice(5 + n);
    }
    return new Uint8Array();
  }
  wrap(b: Uint8Array): Uint8Array {
    const out: Uint8Array[] = [];
    let o = 0;
    while (o < b.length) {
      const n = Math.min(b.length - o, this.rng.pick([1, 5, 100, 2873, 16384, 16384]));
      out.push(new Uint8Array([0x17, 3, 3, n >> 8, n & 255]), b.subarray(o, o + n));
      o += n;
    }
    return cat(...out);
  }
}
