import { Rng } from "../lib/env.ts";
import { Check, show } from "../lib/core.ts";
import { cmp, World } from "../lib/idb.ts";
import * as S from "file:///repo/2_storage.ts";
// deno-lint-ignore no-explicit-any
type A = any;

const ck = new Check("C21", {
  level: "exploration",
  rule: "Random and boundary values and key tuples are encoded and decoded by the real functions; equality with types, order and range membership are compared with an independent definition. A case is one batch of related values.",
  assumptions: ["Within one position of a key family all parts have one type, as everywhere in the library", "IndexedDB compares keys as its specification says (stand-in)"],
  quickSeconds: 40,
  thoroughSeconds: 500,
});
function eq(a: A, b: A): boolean {
  if (typeof a !== typeof b) return false;
  if (typeof a === "number") return a === b || (a !== a && b !== b);
  if (a === null || b === null || typeof a !== "object") return a === b;
  if (a instanceof Date || b instanceof Date) return a instanceof Date && b instanceof Date && eq(a.getTime(), b.getTime());
  if (a instanceof Uint8Array || b instanceof Uint8Array) return a instanceof Uint8Array && b instanceof Uint8Array && a.length === b.length && a.every((x: number, i: number) => x === b[i]);
  if (Array.isArray(a) !== Array.isArray(b)) return false;
  const ka = Object.keys(a), kb = Object.keys(b);
  return ka.length === kb.length && ka.every((k) => Object.hasOwn(b, k) && eq(a[k], b[k]));
}
const CH = ["", "\n", "0", "1", "2", "3", "5", "6", "7", "9", "-", ".", "n", "a", "é", "\u0000", "\uFEFF", "\uFFFF", "\uD83D\uDE00", "\uD800", "\uDC00", "\u2028", " ", "=", "{", "\"", "null", "undefined", "10\n2", "2\n21", "__proto__", "constructor"];
const str = (r: Rng) => Array.from({ length: r.pick([0, 1, 1, 2, 3, 5, 9, 10, 11, 30, 100]) }, () => r.bool(0.8) ? r.pick(CH) : String.fromCharCode(r.int(0, 65535))).join("");
const NUM = [0, 1, -1, 9, 10, 99, 100, 0.1, -0.1, 1.5, 1e21, 1e-7, -1e-7, 5e-324, 1.7976931348623157e308, 9007199254740991, -9007199254740991, 2 ** 31, 2 ** 32, 2 ** 53, 123456.789, Infinity, -Infinity];
function num(r: Rng) {
  if (r.bool(0.5)) return r.pick(NUM);
  if (r.bool(0.5)) return r.int(-100000, 100000);
  const b = new DataView(new ArrayBuffer(8));
  b.setUint32(0, r.u32());
  b.setUint32(4, r.u32());
  const n = b.getFloat64(0);
  return Number.isNaN(n) ? 7 : n;
}
const big = (r: Rng) => (r.bool() ? -1n : 1n) * (r.bool(0.3) ? 10n ** BigInt(r.int(0, 40)) + BigInt(r.int(-1, 1)) : r.big(r.pick([1, 8, 31, 32, 33, 63, 64, 65, 128, 300])));
let used = "";
function value(r: Rng, depth: number): A {
  const k = r.int(0, depth > 0 ? 8 : 6);
  used += k;
  switch (k) {
    case 0:
      return r.bool();
    case 1:
      return num(r);
    case 2:
      return str(r);
    case 3:
      return big(r);
    case 4:
      return new Date(r.pick([0, -1, 1, 8.64e15, -8.64e15, 1700000000000, r.int(-8e12, 8e12)]));
    case 5:
      return r.bytes(r.pick([0, 1, 2, 3, 4, 5, 31, 32, 100, 1000]));
    case 6:
      return str(r);
    case 7:
      return Array.from({ length: r.pick([0, 1, 2, 3, 5, 12]) }, () => value(r, depth - 1));
    default: {
      const o: A = {};
      for (let i = r.pick([0, 1, 2, 5]); i > 0; i--) {
        const key = r.bool(0.2) ? r.pick(["__proto__", "toString", "constructor", "0", "10", "length"]) : str(r);
        Object.defineProperty(o, key, { value: value(r, depth - 1), enumerable: true, configurable: true, writable: true });
      }
      return o;
    }
  }
}
ck.part("values", { quick: 40000, thorough: 1500000, weight: 3 }, (t) => {
  const r = t.rng;
  used = "";
  const v = value(r, r.int(0, 4));
  const s = S.toString(v);
  t.ensure(typeof s === "string", "encode-type", `${show(v)} encodes to a ${typeof s}`);
  const back = S.fromString(s);
  t.ensure(eq(back, v), "value", `${show(v)} comes back as ${show(back)} through ${show(s)}`);
  t.sig(used + s.length);
  t.state("shapes", used.slice(0, 12));
  t.count("bytes", s.length);
});
const part = (r: Rng, ty: string): A => ty === "s" ? str(r) : ty === "n" ? num(r) : big(r);
const ord = (a: A, b: A) => {
  for (let i = 0; i < Math.min(a.length, b.length); i++) {
    if (a[i] < b[i]) return -1;
    if (a[i] > b[i]) return 1;
  }
  return Math.sign(a.length - b.length);
};
function keys(r: Rng, n: number): A[][] {
  const types = Array.from({ length: r.int(1, 4) }, () => r.pick(["s", "n", "b"]));
  const out: A[][] = [];
  for (let i = 0; i < n; i++) {
    let k: A[];
    if (i && r.bool(0.6)) {
      // close relatives: same beginning, one part moved a little
      const src = r.pick(out);
      k = src.slice(0, r.int(0, types.length));
      const j = r.int(0, Math.max(0, k.length - 1));
      if (k.length && r.bool()) {
        const x = k[j];
        k[j] = typeof x === "number" ? (Number.isFinite(x) ? x + r.pick([1, -1, 0.5]) : x) : typeof x === "bigint" ? x * r.pick([1n, -1n, 10n]) + BigInt(r.int(-1, 1)) : x + r.pick(CH);
      }
      while (k.length < types.length && r.bool(0.8)) k.push(part(r, types[k.length]));
    } else k = types.map((ty) => part(r, ty));
    if (!k.length) k = [part(r, types[0])];
    out.push(k.map((x) => Object.is(x, -0) ? 0 : x));
  }
  return out;
}
ck.part("keys", { quick: 12000, thorough: 400000, weight: 2 }, (t) => {
  const r = t.rng;
  const ks = keys(r, r.int(3, 8));
  t.sig(ks.map((k) => S.toString(k)).join());
  const enc = ks.map((k) => S.toString(k));
  ks.forEach((k, i) => {
    t.ensure(eq(S.fromString(enc[i]), k), "key", `key ${show(k)} comes back as ${show(S.fromString(enc[i]))}`);
    const f = S.restoreKey(S.fixKey(k));
    t.ensure(eq([...f], k), "idb-key", `key ${show(k)} comes back as ${show(f)} from its IndexedDB form`);
  });
  for (const [i, a] of ks.entries()) {
    for (const [j, b] of ks.entries()) {
      const want = ord(a, b), got = Math.sign(S.compareKeys(a, b));
      t.ensure(got === want, "order", `comparing ${show(a)} with ${show(b)} gives ${got}, should be ${want}`);
      t.ensure((enc[i] === enc[j]) === (want === 0), "distinct", `${show(a)} and ${show(b)} encode to ${show(enc[i])} and ${show(enc[j])}`);
      const idb = cmp(S.fixKey(a), S.fixKey(b));
      t.ensure(idb === want, "idb-order", `IndexedDB orders ${show(a)} and ${show(b)} as ${idb}, should be ${want}`);
      for (const c of ks) {
        if (ord(b, c) > 0) continue;
        const inside = ord(a, b) >= 0 && ord(a, c) <= 0;
        t.ensure(S.isInRange(a, b, c) === inside, "range", `${show(a)} in ${show(b)}..${show(c)} is ${!inside}`);
        t.count("range questions");
      }
    }
  }
});
new World().install();
ck.part("prefix-ranges", { quick: 8000, thorough: 200000 }, (t) => {
  const r = t.rng;
  const ks = keys(r, r.int(3, 10));
  const p = r.pick(ks).slice(0, r.int(0, 3));
  const range: A = S.getPrefixKeyRange(S.fixKey(p) as A);
  t.sig(S.toString(p) + ks.length);
  for (const k of ks) {
    const inside = p.every((x: A, i: number) => i < k.length && k[i] === x);
    if (inside && k.length === p.length) continue;
    t.ensure(range.has(S.fixKey(k)) === inside, "prefix-range", `${show(k)} ${inside ? "is missing from" : "is inside"} the IndexedDB range of prefix ${show(p)}`);
    t.count("membership questions");
  }
});
await ck.main();
