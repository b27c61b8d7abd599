import "../lib/env.ts";
import { Check, deep, same, show } from "../lib/core.ts";
import * as ref from "../lib/tl.ts";
import { Api, Mtproto, SecretChats } from "file:///repo/2_tl.ts";
import { TLReader } from "file:///repo/tl/1_tl_reader.ts";
import { TLWriter } from "file:///repo/tl/1_tl_writer.ts";
import { deserializeMessage, writeMessage } from "file:///repo/tl/2_message.ts";

const ck = new Check("C01", {
  level: "exploration",
  rule: "Every constructor and function of the three schemas is visited several times with random field values (boundary numbers, lengths around 253/254, all subsets of optional groups, nested objects) and compared byte for byte with an independent encoder over a committed schema copy; non-trivial when the (constructor, set of present optional fields) is new.",
  assumptions: ["The committed copy of the schemas (taken from the base commit) is the intended wire format"],
  quickSeconds: 75,
  thoroughSeconds: 600,
});
// deno-lint-ignore no-explicit-any
type A = any;
const schemas: [string, ref.RefSchema, A][] = [["api", ref.api, Api], ["mtproto", ref.mtproto, Mtproto], ["secret", ref.secret, SecretChats]];
const isGeneric = (s: ref.RefSchema, n: string) => s.d[n][1].some(([, t]) => t.includes("!X"));

for (const [label, s, real] of schemas) {
  // "true" is a primitive of the codec, not an object
  const names = Object.keys(s.d).filter((n) => n !== "true");
  const reps = { quick: label === "api" ? 8 : 150, thorough: label === "api" ? 250 : 5000 };
  ck.part(`objects-${label}`, { quick: names.length * reps.quick, thorough: names.length * reps.thorough, weight: label === "api" ? 6 : 2 }, (t) => {
    const r = t.rng;
    const name = names[t.index % names.length];
    const rep = Math.floor(t.index / names.length);
    const v = ref.randCtor(s, r, name, { depth: r.int(1, 4), optional: rep === 0 ? 1 : rep === 1 ? 0 : r.pick([0.1, 0.5, 0.9]), vecMax: 3, budget: { n: 60 } });
    t.sig(name + Object.keys(v).join());
    t.sample(v);
    const want = ref.encode(s, v);
    const got = real.serializeObject(v);
    t.count("bytes compared", want.length);
    t.ensure(same(got, want), `encode:${label}`, () => `${name} encodes to ${show(got)} instead of ${show(want)}`, { value: v });
    if (isGeneric(s, name) || hasGeneric(s, v)) return;
    // decode out of the middle of a larger buffer
    const pre = 4 * r.int(0, 2), post = 4 * r.int(0, 3);
    const host = new Uint8Array(pre + want.length + post).fill(0xa5);
    host.set(want, pre);
    const rd = new TLReader(host.subarray(pre));
    const back = real.deserializeType(name, rd);
    t.ensure(deep(back, v), `decode:${label}`, () => `${name} decodes to ${show(back)}`, { value: v });
    t.ensure(rd.buffer.byteLength === post, `consume:${label}`, `decoding ${name} left ${rd.buffer.byteLength} bytes instead of ${post}`);
    if (s.i[String(s.d[name][0])] === name) {
      const x = real.deserializeType("X", want);
      t.ensure(deep(x, v), `decode-x:${label}`, () => `${name} decodes differently without a type`);
      const y = real.deserializeType(s.d[name][2], want);
      t.ensure(deep(y, v), `decode-type:${label}`, () => `${name} decodes differently as ${s.d[name][2]}`);
      t.ensure(real.isValidObject(v) && real.is(name, v) && real.isOfEnum(s.d[name][2], v) && real.isOneOf(["x", name], v), `classify:${label}`, `${name} is not recognised as itself`);
      t.ensure(!real.isOfEnum("NoSuchType", v) && !real.is("noSuchConstructor", v), `classify:${label}`, `${name} is recognised as something else`);
    }
    if (s !== ref.secret) t.ensure(real.mustGetReturnType(name) === s.d[name][2], `return-type:${label}`, `return type of ${name}`);
  });
}
function hasGeneric(s: ref.RefSchema, v: A): boolean {
  if (Array.isArray(v)) return v.some((x) => hasGeneric(s, x));
  if (v && typeof v === "object" && typeof v._ === "string") return isGeneric(s, v._) || Object.values(v).some((x) => hasGeneric(s, x));
  return false;
}

ck.part("results", { quick: 4000, thorough: 100000 }, (t) => {
  // results of functions, in the (possibly bare vector / primitive) form they travel in
  const r = t.rng;
  const s = ref.api;
  const fns = Object.keys(s.d).filter((n) => s.i[String(s.d[n][0])] !== n && s.d[n][2] !== "X");
  const fn = fns[t.index % fns.length];
  const type = s.d[fn][2];
  if (type === "X") return;
  const v = ref.randType(s, r, type, { depth: r.int(1, 3), optional: 0.4, vecMax: 4, budget: { n: 50 } });
  const bytes = ref.encodeType(s, type, v);
  t.sig(type + "/" + (Array.isArray(v) ? v.length : typeof v === "object" ? v._ : v));
  const back = Api.deserializeType(type, bytes, true);
  t.ensure(deep(back, v), "result", () => `result of ${fn} (${type}) decodes to ${show(back)} instead of ${show(v)}`);
});

ck.part("refuse", { quick: 12000, thorough: 300000, weight: 2 }, (t) => {
  const r = t.rng;
  const [label, s, real] = r.pick(schemas);
  const names = Object.keys(s.d).filter((n) => n !== "true" && s.d[n][1].some(([, ty]) => ty !== "#"));
  const name = names[t.index % names.length];
  const v = ref.randCtor(s, r, name, { depth: r.int(1, 3), optional: 0.7, vecMax: 2, budget: { n: 40 } });
  const present = s.d[name][1].filter(([n, ty]) => ty !== "#" && v[n] !== undefined);
  if (!present.length) return;
  const [fn, fty] = r.pick(present);
  const ty = ref.inner(fty);
  const optional = fty !== ty;
  const bads: A[] = [];
  const wrong = { _: "noSuchConstructor" };
  const otherType = s === ref.api ? { _: "boolTrue_" } : wrong;
  const obj = s === ref.api ? { _: "inputPeerSelf" } : s === ref.mtproto ? { _: "pong", msg_id: 1n, ping_id: 1n } : { _: "decryptedMessageMediaEmpty" };
  const objType = s.d[obj._][2];
  switch (ty) {
    case "int":
      bads.push("5", 5n, 1.5, 2147483648, -2147483649, NaN, Infinity, true, {}, [], new Uint8Array(4));
      break;
    case "long":
      bads.push(5, "5", 1n << 63n, -(1n << 63n) - 1n, null, true, {});
      break;
    case "int128":
      bads.push(5, 1n << 127n, -(1n << 127n) - 1n, null, "x");
      break;
    case "int256":
      bads.push(5, 1n << 255n, -(1n << 255n) - 1n, null, "x");
      break;
    case "double":
      bads.push("1.5", 5n, {}, true);
      break;
    case "bytes":
      bads.push("text", 5, null, [1, 2, 3], {}, new ArrayBuffer(3));
      break;
    case "Bool":
      bads.push(1, 0, "true", null, {});
      break;
    case "true":
      bads.push(false, 1, "true", null);
      break;
    case "string":
    case "!X":
      break;
    default:
      if (ref.vec(ty)) {
        bads.push("text", 5, null, {}, { length: 0 });
        const it = ref.vec(ty)!.item;
        if (it === "int") bads.push([1, 2147483648], [1, "2"]);
        else if (it === "long") bads.push([1n, 2], [1n << 63n]);
        else if (it !== "string" && it !== "bytes") bads.push([wrong], [5], ["x"]);
        else if (it === "bytes") bads.push(["x"], [5]);
      } else {
        bads.push(wrong, 5, "text", otherType, [], true);
        if (objType !== ty && !s.d[ty]) bads.push(obj);
      }
  }
  if (!optional) bads.push(undefined);
  else {
    // a group of optional fields that share one flag must be given together
    const grp = fty.slice(0, fty.indexOf("?"));
    if (s.d[name][1].some(([n, x]) => n !== fn && x.startsWith(grp + "?") && v[n] !== undefined)) bads.push(undefined);
  }
  if (!bads.length) return;
  const bad = r.pick(bads);
  t.sig(`${label}/${ty}/${show(bad, 40)}/${optional}`);
  let out: Uint8Array | undefined;
  try {
    out = real.serializeObject({ ...v, [fn]: bad });
  } catch (e) {
    t.count("invalid values refused");
    t.ensure(e instanceof Error, "refuse-kind", "refused with something that is not an error");
    return;
  }
  t.fail(`accepted:${ty.startsWith("Vector") || ty.startsWith("vector") ? "vector" : ref.PRIMS.has(ty) ? ty : "object"}`, `${name}.${fn}: ${ty} accepted ${show(bad)} and encoded ${show(out)}`, { value: v });
});

ck.part("bytes-lengths", { quick: 700, thorough: 4000 }, (t) => {
  const r = t.rng;
  const n = t.index < 600 ? t.index : r.pick([65535, 65536, 70000, r.int(600, 100000), 0xfffffe, 0xffffff, 0x1000000].slice(0, t.index % 40 === 0 ? 7 : 4));
  const b = n < 100000 ? r.bytes(n) : new Uint8Array(n).fill(7);
  t.sig(String(n));
  let out: Uint8Array;
  try {
    out = new TLWriter().writeBytes(b).buffer;
  } catch (e) {
    t.ensure(n > 0xffffff, "bytes-refused", `${n} bytes refused: ${e}`);
    return;
  }
  t.ensure(n <= 0xffffff, "bytes-oversize", `${n} bytes do not fit a TL byte string but were accepted`);
  t.ensure(out.length % 4 === 0, "bytes-padding", `${n} bytes take ${out.length}`);
  const rd = new ref.R(out);
  t.ensure(same(rd.bytes(), b) && rd.o === out.length, "bytes-encode", `byte string of ${n} bytes is encoded wrongly`);
  const real = new TLReader(out);
  t.ensure(same(real.readBytes(), b) && real.buffer.length === 0, "bytes-decode", `byte string of ${n} bytes is decoded wrongly`);
});

ck.part("writer-sequences", { quick: 3000, thorough: 80000 }, (t) => {
  // arbitrary sequences of primitive writes, with the buffer looked at in between
  const r = t.rng;
  const w = new TLWriter();
  const exp: Uint8Array[] = [];
  const reads: [string, A, A][] = [];
  let len = 0;
  const put = (b: Uint8Array) => {
    exp.push(b);
    len += b.length;
  };
  const steps = r.int(1, 60);
  let ops = "";
  for (let i = 0; i < steps; i++) {
    const k = r.int(0, 9), signed = r.bool();
    ops += k;
    const sized = (bits: number) => signed ? BigInt.asIntN(bits, r.pick([r.big(bits), 1n << BigInt(bits - 1), (1n << BigInt(bits - 1)) - 1n, 0n, -1n])) : r.pick([r.big(bits), (1n << BigInt(bits)) - 1n, 0n]);
    if (k === 0) {
      const v = Number(sized(24));
      w.writeInt24(v, signed);
      put(le(BigInt(v), 3));
      reads.push(["readInt24", signed, v]);
    } else if (k === 1) {
      const v = Number(sized(32));
      w.writeInt32(v, signed);
      put(le(BigInt(v), 4));
      reads.push(["readInt32", signed, v]);
    } else if (k === 2) {
      const v = sized(64);
      w.writeInt64(v, signed);
      put(le(v, 8));
      reads.push(["readInt64", signed, v]);
    } else if (k === 3) {
      const v = sized(128);
      w.writeInt128(v, signed);
      put(le(v, 16));
      reads.push(["readInt128", signed, v]);
    } else if (k === 4) {
      const v = sized(256);
      w.writeInt256(v, signed);
      put(le(v, 32));
      reads.push(["readInt256", signed, v]);
    } else if (k === 5) {
      const v = ref.randPrim(r, "double");
      w.writeDouble(v);
      put(ref.encodeType(ref.api, "double", v));
      reads.push(["readDouble", undefined, v]);
    } else if (k === 6) {
      const v = ref.randBytes(r);
      w.writeBytes(v);
      put(ref.encodeType(ref.api, "bytes", v));
      reads.push(["readBytes", undefined, v]);
    } else if (k === 7) {
      const v = ref.randString(r);
      w.writeString(v);
      put(ref.encodeType(ref.api, "string", v));
      reads.push(["readString", undefined, v]);
    } else if (k === 8) {
      const v = r.bytes(r.pick([0, 1, 3, 100, 255, 256, 257, 700]));
      w.write(v);
      put(v);
      reads.push(["read", v.length, v]);
    } else {
      t.ensure(w.length === len && w.buffer.length === len, "writer-length", `length ${w.length} / ${w.buffer.length} instead of ${len}`);
    }
  }
  t.sig(ops);
  const all = new Uint8Array(len);
  let o = 0;
  for (const e of exp) {
    all.set(e, o);
    o += e.length;
  }
  t.ensure(same(w.buffer, all), "writer-sequence", () => `operations ${ops} produced other bytes`);
  const rd = new TLReader(all);
  for (const [m, arg, v] of reads) {
    const got = (rd as A)[m](...(arg === undefined ? [] : [arg]));
    t.ensure(deep(got, v), "reader-sequence", () => `${m}(${arg}) read ${show(got)} instead of ${show(v)}`);
  }
  t.ensure(rd.buffer.length === 0, "reader-sequence", "bytes left over");
});
function le(v: bigint, n: number) {
  let u = BigInt.asUintN(8 * n, v);
  const b = new Uint8Array(n);
  for (let i = 0; i < n; i++) {
    b[i] = Number(u & 255n);
    u >>= 8n;
  }
  return b;
}

ck.part("primitive-range", { quick: 2000, thorough: 30000 }, (t) => {
  const r = t.rng;
  const [m, bits, num] = r.pick([["writeInt24", 24, true], ["writeInt32", 32, true], ["writeInt64", 64, false], ["writeInt128", 128, false], ["writeInt256", 256, false]] as const);
  const signed = r.bool();
  const hi = signed ? 1n << BigInt(bits - 1) : 1n << BigInt(bits), lo = signed ? -(1n << BigInt(bits - 1)) - 1n : -1n;
  const v = r.bool() ? hi + BigInt(r.int(0, 5)) : lo - BigInt(r.int(0, 5));
  t.sig(`${m}/${signed}/${v}`);
  let ok = false;
  try {
    (new TLWriter() as A)[m](num ? Number(v) : v, signed);
  } catch {
    ok = true;
  }
  t.ensure(ok, `range:${m}`, `${m} accepted ${v} with signed=${signed}`);
});

ck.part("messages", { quick: 3000, thorough: 60000 }, (t) => {
  const r = t.rng;
  const mk = (depth: number): A => ({
    _: "message",
    msg_id: BigInt.asIntN(64, r.big(64)),
    seqno: r.u32() | 0,
    body: depth > 0 && r.bool(0.5) ? { _: "msg_container", messages: Array.from({ length: r.int(0, 4) }, () => mk(depth - 1)) } : (() => {
      const b = r.bytes(4 * r.int(1, 30));
      b[0] = 1; // not the container constructor
      return b;
    })(),
  });
  const enc = (m: A): Uint8Array => {
    const body = m.body instanceof Uint8Array ? m.body : cat2([le(0x73f1f8dcn, 4), le(BigInt(m.body.messages.length), 4), ...m.body.messages.map(enc)]);
    return cat2([le(m.msg_id, 8), le(BigInt(m.seqno), 4), le(BigInt(body.length), 4), body]);
  };
  const m = mk(2);
  const w = new TLWriter();
  writeMessage(w, m);
  const want = enc(m);
  t.sig(String(want.length));
  t.ensure(same(w.buffer, want), "message-encode", () => `message encodes to ${show(w.buffer)} instead of ${show(want)}`);
  const back = deserializeMessage(new TLReader(cat2([want, r.bytes(r.int(0, 20))])));
  t.ensure(deep(back, m), "message-decode", () => `message decodes to ${show(back)} instead of ${show(m)}`);
});
function cat2(a: Uint8Array[]) {
  const n = a.reduce((x, y) => x + y.length, 0);
  const out = new Uint8Array(n);
  let o = 0;
  for (const x of a) {
    out.set(x, o);
    o += x.length;
  }
  return out;
}
await ck.main();
