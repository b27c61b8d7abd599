// Reference TL codec over a committed copy of the three schemas; independent of the code under test.
import * as zlib from "node:zlib";
import type { Rng } from "./env.ts";
import { cat } from "./core.ts";
import { toLe, type U8 } from "./ref.ts";

export type Def = [number, [string, string][], string];
export interface RefSchema {
  d: Record<string, Def>;
  i: Record<string, string>;
  /** id -> name, functions included */
  all: Map<number, string>;
  byType: Map<string, string[]>;
  depth: Map<string, number>;
}
const raw = JSON.parse(new TextDecoder().decode(zlib.gunzipSync(Deno.readFileSync(new URL("./schema.json.gz", import.meta.url)))));
export const LAYER: number = raw.LAYER;

function prep(x: { d: Record<string, Def>; i: Record<string, string> }): RefSchema {
  const all = new Map<number, string>();
  const byType = new Map<string, string[]>();
  for (const [n, [id, , ty]] of Object.entries(x.d)) {
    all.set(id >>> 0, n);
    if (x.i[String(id)] === n || x.i[String(id >>> 0)] === n) {
      if (!byType.has(ty)) byType.set(ty, []);
      byType.get(ty)!.push(n);
    }
  }
  const s: RefSchema = { d: x.d, i: x.i, all, byType, depth: new Map() };
  // minimal construction depth of every constructor, by fixpoint
  const typeDepth = (t: string): number => {
    t = inner(t);
    if (PRIMS.has(t) || t === "#" || t === "!X" || t === "X") return 0;
    const v = vec(t);
    if (v) return 0;
    if (s.d[t]) return s.depth.get(t) ?? Infinity;
    return Math.min(Infinity, ...(byType.get(t) ?? []).map((n) => s.depth.get(n) ?? Infinity));
  };
  for (let changed = true; changed;) {
    changed = false;
    for (const [n, [, params]] of Object.entries(x.d)) {
      let m = 0;
      for (const [, t] of params) if (!t.includes("?")) m = Math.max(m, typeDepth(t));
      if (m + 1 < (s.depth.get(n) ?? Infinity)) {
        s.depth.set(n, m + 1);
        changed = true;
      }
    }
  }
  return s;
}
export const PRIMS = new Set(["int", "long", "int128", "int256", "double", "string", "bytes", "Bool", "true"]);
export function inner(t: string): string {
  const q = t.indexOf("?");
  return q === -1 ? t : t.slice(q + 1);
}
export function vec(t: string): { item: string; bare: boolean } | null {
  const m = /^([Vv])ector<(.*)>$/.exec(t);
  return m ? { item: m[2], bare: m[1] === "v" } : null;
}
export const api = prep(raw.api);
export const mtproto = prep(raw.mtproto);
export const secret = prep(raw.secret);

export class RefError extends Error {}
// deno-lint-ignore no-explicit-any
export type Any = any;

class W {
  parts: Uint8Array[] = [];
  n = 0;
  put(b: Uint8Array) {
    this.parts.push(b);
    this.n += b.length;
  }
  u32(v: number) {
    this.put(new Uint8Array([v & 255, (v >>> 8) & 255, (v >>> 16) & 255, (v >>> 24) & 255]));
  }
  bytes(b: Uint8Array) {
    const head = b.length < 254 ? [b.length] : [254, b.length & 255, (b.length >>> 8) & 255, (b.length >>> 16) & 255];
    this.put(new Uint8Array(head));
    this.put(b);
    const pad = (4 - (head.length + b.length) % 4) % 4;
    if (pad) this.put(new Uint8Array(pad));
  }
  done(): U8 {
    return cat(...this.parts);
  }
}
const te = new TextEncoder();
const td = new TextDecoder("utf-8", { ignoreBOM: true });

export function encode(s: RefSchema, value: Any): U8 {
  const w = new W();
  boxed(s, w, value);
  return w.done();
}
/** Encodes a value of a (possibly primitive or vector) type, as in an rpc_result. */
export function encodeType(s: RefSchema, type: string, value: Any): U8 {
  const w = new W();
  field(s, w, type, value);
  return w.done();
}
function boxed(s: RefSchema, w: W, v: Any) {
  const def = s.d[v._];
  if (!def) throw new RefError("no constructor " + v._);
  w.u32(def[0]);
  fields(s, w, v, def);
}
function fields(s: RefSchema, w: W, v: Any, def: Def) {
  for (const [name, type] of def[1]) {
    if (type === "#") {
      let flags = 0;
      for (const [n2, t2] of def[1]) {
        const m = /^(\w+)\.(\d+)\?/.exec(t2);
        if (m && m[1] === name && v[n2] !== undefined) flags |= 1 << Number(m[2]);
      }
      w.u32(flags);
      continue;
    }
    if (type.includes("?")) {
      if (v[name] === undefined) continue;
    } else if (v[name] === undefined) throw new RefError(`missing ${v._}.${name}`);
    field(s, w, inner(type), v[name]);
  }
}
function field(s: RefSchema, w: W, type: string, v: Any) {
  switch (type) {
    case "int":
      return w.u32(v);
    case "long":
      return w.put(toLe(v, 8));
    case "int128":
      return w.put(toLe(v, 16));
    case "int256":
      return w.put(toLe(v, 32));
    case "double": {
      const b = new Uint8Array(8);
      new DataView(b.buffer).setFloat64(0, v, true);
      return w.put(b);
    }
    case "string":
      return w.bytes(typeof v === "string" ? te.encode(v) : v);
    case "bytes":
      return w.bytes(v);
    case "Bool":
      return w.u32(v ? 0x997275b5 : 0xbc799737);
    case "true":
      return;
  }
  const vt = vec(type);
  if (vt) {
    if (!vt.bare) w.u32(0x1cb5c415);
    w.u32(v.length);
    for (const x of v) field(s, w, vt.item, x);
    return;
  }
  if (s.d[type]) return fields(s, w, v, s.d[type]);
  if ((type === "X" || type === "!X" || type === "Object") && typeof v !== "object") return w.u32(v ? 0x997275b5 : 0xbc799737);
  boxed(s, w, v);
}

export class R {
  o = 0;
  dv: DataView;
  constructor(public b: Uint8Array) {
    this.dv = new DataView(b.buffer, b.byteOffset, b.length);
  }
  need(n: number) {
    if (n < 0 || this.o + n > this.b.length) throw new RefError("end of data");
    this.o += n;
    return this.o - n;
  }
  u32(): number {
    return this.dv.getUint32(this.need(4), true);
  }
  i32(): number {
    return this.dv.getInt32(this.need(4), true);
  }
  i64(): bigint {
    return this.dv.getBigInt64(this.need(8), true);
  }
  raw(n: number): U8 {
    const o = this.need(n);
    return this.b.slice(o, o + n) as U8;
  }
  big(n: number): bigint {
    const x = this.raw(n);
    let v = 0n;
    for (let i = n - 1; i >= 0; i--) v = (v << 8n) | BigInt(x[i]);
    return BigInt.asIntN(8 * n, v);
  }
  bytes(): U8 {
    let n = this.raw(1)[0], h = 1;
    if (n >= 254) {
      const l = this.raw(3);
      n = l[0] | (l[1] << 8) | (l[2] << 16);
      h = 4;
    }
    const b = this.raw(n);
    this.raw((4 - (h + n) % 4) % 4);
    return b;
  }
  get rest(): U8 {
    return this.b.slice(this.o) as U8;
  }
}
/** Decodes a boxed object; functions are accepted too, with `!X` parameters holding a function. */
export function decode(s: RefSchema, r: R | Uint8Array): Any {
  const rd = r instanceof R ? r : new R(r);
  const id = rd.u32();
  if (id === 0x997275b5) return true;
  if (id === 0xbc799737) return false;
  const name = s.all.get(id);
  if (!name) throw new RefError("unknown constructor " + id.toString(16));
  return readFields(s, rd, name);
}
/** Strict: the constructor must be one the schema lists as an object (not a function). */
export function decodeX(s: RefSchema, rd: R): Any {
  const id = rd.u32();
  if (id === 0x997275b5) return true;
  if (id === 0xbc799737) return false;
  const name = s.i[String(id)] ?? s.i[String(id | 0)];
  if (!name) throw new RefError("unknown constructor " + id.toString(16));
  return readFields(s, rd, name);
}
export function readFields(s: RefSchema, r: R, name: string): Any {
  const out: Any = { _: name };
  const flags: Record<string, number> = {};
  for (const [n, type] of s.d[name][1]) {
    if (type === "#") {
      flags[n] = r.i32();
      continue;
    }
    const m = /^(\w+)\.(\d+)\?(.*)$/.exec(type);
    if (m && !((flags[m[1]] ?? 0) & (1 << Number(m[2])))) continue;
    out[n] = decodeType(s, r, m ? m[3] : type);
  }
  return out;
}
export function decodeType(s: RefSchema, r: R, type: string): Any {
  switch (type) {
    case "int":
      return r.i32();
    case "long":
      return r.i64();
    case "int128":
      return r.big(16);
    case "int256":
      return r.big(32);
    case "double":
      return r.dv.getFloat64(r.need(8), true);
    case "string":
      return td.decode(r.bytes());
    case "bytes":
      return r.bytes();
    case "true":
      return true;
    case "Bool": {
      const id = r.u32();
      if (id === 0x997275b5) return true;
      if (id === 0xbc799737) return false;
      throw new RefError("not a Bool");
    }
  }
  const vt = vec(type);
  if (vt) {
    if (!vt.bare && r.u32() !== 0x1cb5c415) throw new RefError("not a vector");
    const n = r.i32();
    if (n < 0) throw new RefError("negative count");
    const out: Any[] = [];
    for (let i = 0; i < n; i++) out.push(decodeType(s, r, vt.item));
    return out;
  }
  if (s.d[type]) return readFields(s, r, type);
  if (type === "!X") return decode(s, r);
  if (type === "X") return decodeX(s, r);
  const id = r.u32();
  const name = s.i[String(id)] ?? s.i[String(id | 0)];
  if (!name) throw new RefError("unknown constructor " + id.toString(16));
  if (s.d[name][2] !== type) throw new RefError(`${name} is not a ${type}`);
  return readFields(s, r, name);
}

// ---- random values -------------------------------------------------------------------------------
export function randString(r: Rng): string {
  const k = r.int(0, 9);
  if (k === 0) return "";
  const n = k < 7 ? r.int(0, 12) : r.pick([249, 250, 251, 252, 253, 254, 255, 256, 257, r.int(0, 600)]);
  let s = "";
  const mode = r.int(0, 3);
  for (let i = 0; i < n; i++) {
    s += mode < 2
      ? String.fromCharCode(r.int(32, 126))
      : String.fromCodePoint(r.pick([r.int(0, 127), r.int(0x80, 0x7ff), r.int(0x800, 0xd7ff), 0xfeff, 0, r.int(0xe000, 0xffff), r.int(0x10000, 0x10ffff)]));
  }
  return s;
}
export function randBytes(r: Rng): U8 {
  return r.bytes(r.pick([0, 1, 2, 3, 4, 5, 7, 8, r.int(0, 40), r.int(0, 40), 250, 251, 252, 253, 254, 255, 256, 257, 258, r.int(0, 2000)]));
}
export function randPrim(r: Rng, t: string): Any {
  switch (t) {
    case "int":
      return r.pick([0, 1, -1, 2147483647, -2147483648, r.u32() | 0, r.u32() | 0, r.int(0, 300)]);
    case "long":
      return BigInt.asIntN(64, r.pick([0n, 1n, -1n, (1n << 63n) - 1n, 1n << 63n, r.big(64), r.big(64), r.big(33)]));
    case "int128":
      return BigInt.asIntN(128, r.pick([0n, -1n, 1n << 127n, (1n << 127n) - 1n, r.big(128), r.big(128), r.big(64)]));
    case "int256":
      return BigInt.asIntN(256, r.pick([0n, -1n, 1n << 255n, (1n << 255n) - 1n, r.big(256), r.big(256), r.big(192)]));
    case "double":
      return r.pick([0, -0, 1.5, -1e308, 5e-324, Infinity, -Infinity, NaN, r.f() * 1e9, -r.f()]);
    case "string":
      return randString(r);
    case "bytes":
      return randBytes(r);
    case "Bool":
      return r.bool();
    case "true":
      return true;
  }
}
export interface GenOpt {
  depth: number;
  optional: number; // probability of an optional field
  vecMax: number;
  budget?: { n: number };
}
export function randType(s: RefSchema, r: Rng, type: string, o: GenOpt): Any {
  if (PRIMS.has(type)) return randPrim(r, type);
  const vt = vec(type);
  if (vt) {
    const n = o.depth <= 0 ? 0 : r.int(0, o.vecMax);
    return Array.from({ length: n }, () => randType(s, r, vt.item, { ...o, depth: o.depth - 1 }));
  }
  if (s.d[type]) return randCtor(s, r, type, o);
  if (type === "!X" || type === "X") {
    return randCtor(s, r, s === api ? r.pick(["help.getConfig", "updates.getState", "users.getUsers", "messages.getHistory"]) : r.pick(Object.keys(s.d).filter((n) => n !== "true" && s.i[String(s.d[n][0])] === n && s.depth.get(n) === 1)), o);
  }
  let c = s.byType.get(type)?.filter((n) => n !== "true");
  if (!c?.length) throw new Error("no constructor for " + type);
  if (o.depth <= 0 || (o.budget && o.budget.n <= 0)) {
    const m = Math.min(...c.map((n) => s.depth.get(n) ?? Infinity));
    c = c.filter((n) => s.depth.get(n) === m);
  }
  return randCtor(s, r, r.pick(c), o);
}
export function randCtor(s: RefSchema, r: Rng, name: string, o: GenOpt): Any {
  const out: Any = { _: name };
  if (o.budget) o.budget.n--;
  // fields that share a flag bit appear together
  const on = new Map<string, boolean>();
  for (const [n, t] of s.d[name][1]) {
    if (t === "#") continue;
    const m = /^(\w+\.\d+)\?(.*)$/.exec(t);
    if (m) {
      if (!on.has(m[1])) on.set(m[1], r.bool((o.depth <= 0 && !PRIMS.has(m[2])) || (o.budget && o.budget.n <= 0) ? 0 : o.optional));
      if (!on.get(m[1])) continue;
    }
    out[n] = randType(s, r, m ? m[2] : t, { ...o, depth: o.depth - 1 });
  }
  return out;
}
