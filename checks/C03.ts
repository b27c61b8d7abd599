import { randomOverride, turns } from "../lib/env.ts";
import { Check, same, show } from "../lib/core.ts";
import * as nodeZlib from "node:zlib";
import { base64DecodeUrlSafe, base64EncodeUrlSafe, getRandomId, getRandomInt, gunzip, gzip, intFromBytes, intToBytes, rleDecode, rleEncode } from "file:///repo/1_utilities.ts";

const ck = new Check("C03", {
  level: "exploration",
  rule: "Each case draws a value (boundary-biased) and a width/order/signedness, or a byte string with zero runs around the 255 limit, and compares the codec with an independent reference; a case is non-trivial when its (width, order, sign, magnitude class) or (length, run structure) signature is new.",
  assumptions: ["Two's complement / unsigned reference arithmetic on BigInt", "node:zlib as the independent gzip implementation"],
  quickSeconds: 45,
  thoroughSeconds: 500,
});

function refBytes(v: bigint, n: number, order: "little" | "big"): Uint8Array<ArrayBuffer> {
  let u = v < 0n ? v + (1n << BigInt(8 * n)) : v;
  const b = new Uint8Array(n);
  for (let i = 0; i < n; i++) {
    b[order === "little" ? i : n - 1 - i] = Number(u % 256n);
    u /= 256n;
  }
  return b;
}
const widths = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 23, 24, 25, 31, 32, 33, 40, 48, 63, 64, 65, 100, 128, 255, 256];

ck.part("int", { quick: 120000, thorough: 3000000, weight: 3 }, (t) => {
  const r = t.rng;
  const n = r.bool(0.6) ? r.pick(widths.slice(0, 14)) : r.pick(widths);
  const order = r.bool() ? "little" : "big" as const;
  const isSigned = r.bool();
  const bits = BigInt(8 * n);
  const lo = isSigned ? -(1n << (bits - 1n)) : 0n;
  const hi = isSigned ? (1n << (bits - 1n)) - 1n : (1n << bits) - 1n;
  const cls = r.int(0, 7);
  let v: bigint;
  if (cls === 0) v = lo + BigInt(r.int(0, 3));
  else if (cls === 1) v = hi - BigInt(r.int(0, 3));
  else if (cls === 2) v = BigInt(r.int(-3, 3));
  else if (cls === 3) v = (r.bool() ? 1n : -1n) * (1n << BigInt(r.int(0, 8 * n - 1))) + BigInt(r.int(-1, 1));
  else if (cls === 4) v = r.big(8 * n) - (isSigned ? 1n << (bits - 1n) : 0n);
  else if (cls === 5) v = BigInt.asIntN(8 * n, r.big(r.int(1, n) * 8));
  else if (cls === 6) v = lo - BigInt(r.int(1, 300));
  else v = hi + BigInt(r.int(1, 300));
  const inRange = v >= lo && v <= hi;
  const asNumber = v >= -(1n << 53n) && v <= 1n << 53n && r.bool();
  const input = asNumber ? Number(v) : v;
  t.sig(`${n}/${order}/${isSigned}/${cls}/${asNumber}/${v < 0n}`);
  t.sample({ n, order, isSigned, v });
  let out: Uint8Array<ArrayBuffer> | undefined;
  try {
    out = intToBytes(input, n, { byteOrder: order, isSigned });
  } catch (e) {
    t.ensure(!inRange, "int-refused", `in-range ${v} refused for ${n} bytes signed=${isSigned}: ${e}`);
  }
  if (out) {
    t.ensure(inRange, "int-overflow-accepted", `${v} does not fit ${n} bytes signed=${isSigned} but was stored as ${show(out)}`);
    const ref = refBytes(v, n, order);
    t.ensure(same(out, ref), "int-representation", `${v} as ${n} bytes ${order} signed=${isSigned}: ${show(out)} instead of ${show(ref)}`);
    // decode out of a larger buffer to catch ignored byte offsets
    const pad = r.int(0, 9);
    const host = r.bytes(n + pad + 5);
    host.set(ref, pad);
    const view = host.subarray(pad, pad + n);
    const back = intFromBytes(view, { byteOrder: order, isSigned });
    t.ensure(back === v, "int-decode", `${show(ref)} ${order} signed=${isSigned} read as ${back} instead of ${v}`);
    t.ensure(same(view, ref), "int-mutates", "decoding modified its input");
    const other = intFromBytes(view, { byteOrder: order, isSigned: !isSigned });
    const expOther = isSigned ? BigInt.asUintN(8 * n, v) : BigInt.asIntN(8 * n, v);
    t.ensure(other === expOther, "int-decode", `${show(ref)} ${order} signed=${!isSigned} read as ${other} instead of ${expOther}`);
  }
});

ck.part("int-defaults", { quick: 3000, thorough: 50000 }, (t) => {
  const n = t.rng.pick(widths), v = BigInt.asIntN(8 * n, t.rng.big(8 * n));
  t.sig(`${n}/${v < 0n}`);
  const out = intToBytes(v, n);
  t.ensure(same(out, refBytes(v, n, "little")), "int-default", "the default representation is little-endian two's complement");
  t.ensure(intFromBytes(out) === v, "int-default", "default decode differs");
  for (const bad of [1.5, NaN, Infinity, -Infinity, 0.1, 2 ** 31 + 0.5]) {
    let ok = false;
    try {
      intToBytes(bad, n);
    } catch {
      ok = true;
    }
    t.ensure(ok, "int-fraction-accepted", `${bad} accepted as an integer of ${n} bytes`);
  }
});

ck.part("random", { quick: 8000, thorough: 200000 }, (t) => {
  const r = t.rng;
  const n = r.pick([1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 32, 64, 128, 256]);
  const isSigned = r.bool();
  const mode = r.int(0, 4);
  const fillWith = (b: Uint8Array) => {
    if (mode === 0) return false;
    if (mode === 1) b.fill(0xff);
    else if (mode === 2) b.fill(0);
    else if (mode === 3) {
      b.fill(0xff);
      b[b.length - 1] = 0x7f;
    } else {
      b.fill(0);
      b[b.length - 1] = 0x80;
    }
    return true;
  };
  let drawn = 0;
  randomOverride.fn = (b) => {
    drawn += b.length;
    return fillWith(b);
  };
  try {
    const v = getRandomInt(n, isSigned);
    const bits = BigInt(8 * n);
    t.ensure(drawn >= n, "random-entropy", `only ${drawn} random bytes drawn for an integer of ${n} bytes`);
    t.ensure(isSigned ? v >= -(1n << (bits - 1n)) && v < 1n << (bits - 1n) : v >= 0n && v < 1n << bits, "random-range", `random integer ${v} outside ${n} bytes signed=${isSigned}`);
    if (mode === 1) t.ensure(v === (isSigned ? -1n : (1n << bits) - 1n), "random-uniform", `all-ones entropy gave ${v}`);
    if (mode === 3) t.ensure(v === (1n << (bits - 1n)) - 1n, "random-uniform", `0x7fff… entropy gave ${v}`);
    if (mode === 4) t.ensure(v === (isSigned ? -(1n << (bits - 1n)) : 1n << (bits - 1n)), "random-uniform", `0x80.. entropy gave ${v}`);
    const id = getRandomId();
    t.ensure(typeof id === "bigint" && BigInt.asIntN(64, id) === id, "random-id", `random id ${id} is not an int64`);
    const id32 = getRandomId(true);
    t.ensure(typeof id32 === "number" && (id32 | 0) === id32, "random-id", `random id ${id32} is not an int32`);
    t.sig(`${n}/${isSigned}/${mode}`);
    if (mode === 0) {
      const a = getRandomId(), b = getRandomId(), c = getRandomInt(16), d = getRandomInt(16);
      t.ensure(a !== b && c !== d, "random-repeats", "two consecutive random identifiers are equal");
    }
  } finally {
    randomOverride.fn = null;
  }
});

function blob(t: { rng: import("../lib/env.ts").Rng }, max: number): Uint8Array<ArrayBuffer> {
  const r = t.rng;
  const parts: Uint8Array[] = [];
  let n = 0;
  const segs = r.int(0, 6);
  for (let i = 0; i < segs && n < max; i++) {
    const kind = r.int(0, 3);
    const len = r.pick([0, 1, 2, 3, r.int(1, 20), 253, 254, 255, 256, 257, 509, 510, 511, 765, r.int(0, 1200)]);
    const p = kind <= 1 ? new Uint8Array(len) : kind === 2 ? r.bytes(len).map((x) => x || 1) : r.bytes(len);
    parts.push(p);
    n += len;
  }
  const out = new Uint8Array(n);
  let o = 0;
  for (const p of parts) {
    out.set(p, o);
    o += p.length;
  }
  return out;
}
function refRle(s: Uint8Array): number[] {
  const out: number[] = [];
  let i = 0;
  while (i < s.length) {
    if (s[i] !== 0) out.push(s[i++]);
    else {
      let c = 0;
      while (i < s.length && s[i] === 0 && c < 255) {
        c++;
        i++;
      }
      out.push(0, c);
    }
  }
  return out;
}
ck.part("rle", { quick: 20000, thorough: 400000 }, (t) => {
  const b = blob(t, 6000);
  const copy = b.slice();
  const e = rleEncode(b);
  t.sig(`${b.length}/${e.length}`);
  t.sample({ len: b.length, enc: e });
  t.ensure(same(e, new Uint8Array(refRle(b))), "rle-encode", `encoding of ${show(b)} is ${show(e)}`);
  t.ensure(same(rleDecode(e), b), "rle-roundtrip", `decode(encode(x)) differs for ${show(b)}`);
  t.ensure(same(b, copy), "rle-mutates", "the encoder modified its input");
});

ck.part("base64", { quick: 20000, thorough: 400000 }, (t) => {
  const r = t.rng;
  const b = r.bool(0.7) ? r.bytes(r.int(0, 70)) : blob(t, 3000);
  const s = base64EncodeUrlSafe(b);
  t.sig(`${b.length}/${s.slice(0, 4)}`);
  t.ensure(/^[A-Za-z0-9_-]*$/.test(s), "base64-alphabet", `unexpected character in ${s}`);
  const bin = [...b].map((x) => String.fromCharCode(x)).join("");
  const ref = btoa(bin).replaceAll("+", "-").replaceAll("/", "_").replaceAll("=", "");
  t.ensure(s === ref, "base64-encode", `${show(b)} encoded as ${s} instead of ${ref}`);
  t.ensure(same(base64DecodeUrlSafe(s), b), "base64-roundtrip", `decoding ${s}`);
  const padded = ref + "=".repeat((4 - ref.length % 4) % 4);
  t.ensure(same(base64DecodeUrlSafe(padded), b), "base64-padded", `decoding the padded form ${padded}`);
  t.ensure(base64EncodeUrlSafe(b.buffer.slice(b.byteOffset, b.byteOffset + b.length)) === ref, "base64-encode", "ArrayBuffer input encoded differently");
  const text = String.fromCodePoint(...Array.from({ length: r.int(0, 9) }, () => r.pick([r.int(32, 126), r.int(0xa0, 0x7ff), r.int(0x4e00, 0x9fff), r.int(0x1f300, 0x1f6ff)])));
  t.ensure(new TextDecoder("utf-8", { fatal: true, ignoreBOM: true }).decode(base64DecodeUrlSafe(base64EncodeUrlSafe(text))) === text, "base64-text", `text ${show(text)} does not survive`);
});

ck.part("gzip", { quick: 600, thorough: 8000, weight: 2, rejections: true }, async (t) => {
  const r = t.rng;
  const kind = r.int(0, 3);
  const size = r.pick([0, 1, 2, 10, r.int(0, 3000), r.int(0, 40000), 65535, 65536, 65537, r.int(0, 300000)]);
  const b = kind === 0 ? r.bytes(size) : kind === 1 ? new Uint8Array(size) : kind === 2 ? new Uint8Array(size).map((_, i) => i % 7 + r.int(0, 1)) : blob(t, size);
  const copy = b.slice();
  const z = await gzip(b);
  t.sig(`${kind}/${b.length}`);
  t.ensure(same(new Uint8Array(nodeZlib.gunzipSync(z)), b), "gzip-encode", `an independent gunzip does not restore ${b.length} bytes`);
  t.ensure(same(await gunzip(z), b), "gzip-roundtrip", `gunzip(gzip(x)) differs for ${b.length} bytes`);
  const z2 = new Uint8Array(nodeZlib.gzipSync(b, { level: r.int(0, 9) }));
  t.ensure(same(await gunzip(z2), b), "gunzip", `gunzip of an independently compressed string differs for ${b.length} bytes`);
  t.ensure(same(b, copy), "gzip-mutates", "compression modified its input");
  // damaged input must be reported to the caller and nowhere else
  if (z2.length > 20) {
    const bad = z2.slice(0, r.bool() ? z2.length : r.int(1, z2.length - 9));
    if (bad.length === z2.length) bad[r.pick([0, 1, 2, z2.length - 1, z2.length - 5])] ^= 0x41;
    let threw = false;
    try {
      await gunzip(bad);
    } catch {
      threw = true;
    }
    t.count("damaged gzip inputs refused", threw ? 1 : 0);
    t.ensure(threw, "gunzip-damaged-accepted", `damaged gzip data of ${bad.length}/${z2.length} bytes was accepted`);
    await turns(2);
  }
});

await ck.main();
