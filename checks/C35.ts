import { randomOverride, Rng } from "../lib/env.ts";
import { cat, Check, same, show } from "../lib/core.ts";
import { be, DH_PRIME, pbkdf2, powmod, sha256, toBe } from "../lib/ref.ts";
import { checkPassword } from "file:///repo/client/0_password.ts";
// deno-lint-ignore no-explicit-any
type A = any;
const ck = new Check("C35", {
  level: "exploration",
  rule: "A server model that only keeps the verifier of a password checks the proofs the real code computes for random passwords, salts, generators and server secrets; unsafe groups and server values must be refused. A case is one sign-in.",
  assumptions: ["The safe group is the one Telegram uses; other safe primes may be refused", "Generators are 3, 4, 5 or 7"],
  quickSeconds: 60,
  thoroughSeconds: 700,
});
const P = toBe(DH_PRIME, 256);
const enc = new TextEncoder();
const pad = (v: bigint) => toBe(v, 256);
const sh = (d: Uint8Array, s: Uint8Array) => sha256(s, d, s);
function verifier(pw: string, s1: Uint8Array, s2: Uint8Array): bigint {
  const ph1 = sh(sh(enc.encode(pw), s1), s2);
  return be(sh(pbkdf2(ph1, s1, 100000, 64), s2));
}
const k = (g: number) => be(sha256(P, pad(BigInt(g))));
/** does the server accept (A, M1) when it knows v = g^x only? */
function accepts(v: bigint, b: bigint, B: bigint, g: number, s1: Uint8Array, s2: Uint8Array, Ab: Uint8Array, M1: Uint8Array): boolean {
  const A_ = be(Ab);
  if (Ab.length !== 256 || A_ <= 1n || A_ >= DH_PRIME - 1n) return false;
  const u = be(sha256(Ab, pad(B)));
  const S = powmod(A_ * powmod(v, u, DH_PRIME) % DH_PRIME, b, DH_PRIME);
  const hp = sha256(P), hg = sha256(pad(BigInt(g)));
  const want = sha256(hp.map((x, i) => x ^ hg[i]), sha256(s1), sha256(s2), Ab, pad(B), sha256(pad(S)));
  return same(M1, want);
}
const PASSWORDS = ["", " ", "password", "пароль", "😀", "a".repeat(300), "\0", "é", "e\u0301", "Pass", "pass ", "\uFEFFx"];
const account = (g: number, p: Uint8Array, s1: Uint8Array, s2: Uint8Array, B: Uint8Array, id: bigint): A => ({ _: "account.password", has_password: true, current_algo: { _: "passwordKdfAlgoSHA256SHA256PBKDF2HMACSHA512iter100000SHA256ModPow", salt1: s1, salt2: s2, g, p }, srp_B: B, srp_id: id, new_algo: {}, new_secure_algo: {}, secure_random: new Uint8Array(1) });
ck.part("accepted", { quick: 40, thorough: 1500, weight: 5 }, async (t) => {
  const r = t.rng, g = r.pick([3, 4, 5, 7]);
  const pw = r.bool(0.6) ? r.pick(PASSWORDS) : Array.from({ length: r.int(1, 20) }, () => String.fromCodePoint(r.pick([r.int(33, 126), r.int(0xa0, 0xd7ff), r.int(0x1f300, 0x1f600)]))).join("");
  const s1 = r.bytes(r.pick([8, 40, 1, 0, 64])), s2 = r.bytes(r.pick([16, 1, 0, 40]));
  const v = powmod(BigInt(g), verifier(pw, s1, s2), DH_PRIME);
  const G = BigInt(g), usable = (x: bigint) => x >> 1990n > 0n && (DH_PRIME - x) >> 1990n > 0n;
  // numbers with leading zero bytes are rare but have to be treated like others
  const rareB = r.bool(0.25), rareA = r.bool(0.25);
  let b: bigint, B: bigint, gb: bigint;
  do {
    b = r.big(r.pick([2048, 2048, 256, 2040]));
    gb = powmod(G, b, DH_PRIME);
    B = (k(g) * v + gb) % DH_PRIME;
    while (rareB && B >> 2040n) b++, gb = gb * G % DH_PRIME, B = (k(g) * v + gb) % DH_PRIME;
  } while (!usable(B));
  let bytes = pad(B);
  if (r.bool(rareB ? 0.6 : 0.2)) while (bytes[0] === 0) bytes = bytes.slice(1); // minimal form
  const id = BigInt.asIntN(64, r.big(64)) || 1n;
  // the client's secret may first come out unusably small
  const small = r.int(0, 3);
  if (rareA) {
    let a = r.big(2047), ga = powmod(G, a, DH_PRIME);
    while (ga >> 2040n || !usable(ga)) a++, ga = ga * G % DH_PRIME;
    const secret = r.bool() ? pad(a) : null, rev = pad(a).reverse();
    randomOverride.fn = (x: Uint8Array) => x.length === 256 ? (x.set(secret ?? rev), true) as A : false;
  } else if (small === 1) {
    let n = 0;
    randomOverride.fn = (a: Uint8Array) => n++ < 1 && a.length === 256 ? (a.fill(0), a[0] = r.int(0, 9), true) as A : false;
  }
  t.state("forms", `${bytes.length}/${rareB}/${rareA}`);
  t.sig(pw + g + b);
  t.state("generators", String(g));
  const s1c = s1.slice(), s2c = s2.slice();
  let out: A;
  try {
    out = await checkPassword(pw, account(g, P.slice(), s1, s2, bytes, id));
  } finally {
    randomOverride.fn = undefined as A;
  }
  t.ensure(out._ === "inputCheckPasswordSRP" && out.srp_id === id, "shape", `the proof is ${show(out)} for challenge ${id}`);
  t.ensure(out.A.length === 256 && out.M1.length === 32, "shape", `A has ${out.A.length} bytes, M1 ${out.M1.length}`);
  t.ensure(accepts(v, b, B, g, s1c, s2c, out.A, out.M1), "rejected", `the server rejects the proof of the right password ${show(pw)} (g ${g}, salts of ${s1.length} and ${s2.length} bytes)`);
  const other = r.pick([pw + " ", pw.toUpperCase() + "x", pw.slice(1) + "!", "x" + pw]);
  const v2 = powmod(BigInt(g), r.big(256), DH_PRIME);
  t.ensure(!accepts(v2, b, B, g, s1c, s2c, out.A, out.M1), "any-password", `the proof of ${show(pw)} is accepted for ${show(other)}`);
  t.ensure(same(s1, s1c) && same(s2, s2c), "input", "the salts were changed");
  const A_ = be(out.A);
  t.ensure(A_ >> 1900n > 0n && (DH_PRIME - A_) >> 1900n > 0n, "weak-A", `the client sends the weak value ${A_ < 100n ? A_ : "…"}`);
  t.count("proofs-accepted");
});
// secrets for which the shared value has a leading zero byte
const secret = (tag: string) => cat(...Array.from({ length: 8 }, (_, i) => sha256(enc.encode(tag + i))));
const SHORT = [126, 595, 611];
ck.part("short", { quick: 6, thorough: 6 }, async (t) => {
  const i = SHORT[t.index % 3], s1 = new Uint8Array(8).fill(7), s2 = new Uint8Array(16).fill(9);
  const v = powmod(3n, verifier("password", s1, s2), DH_PRIME), b = be(secret("b")), B = (k(3) * v + powmod(3n, b, DH_PRIME)) % DH_PRIME;
  const a = t.index < 3 ? secret(`a${i}/`) : secret(`a${i}/`).reverse();
  randomOverride.fn = (x: Uint8Array) => x.length === 256 ? (x.set(a), true) : false;
  let out: A;
  try {
    out = await checkPassword("password", account(3, P.slice(), s1, s2, pad(B), 5n));
  } finally {
    randomOverride.fn = null;
  }
  const S = powmod(be(out.A) * powmod(v, be(sha256(out.A, pad(B))), DH_PRIME) % DH_PRIME, b, DH_PRIME);
  t.state("shared values", `${S.toString(2).length} bits`);
  t.sig(`${i}/${t.index}`);
  t.ensure(accepts(v, b, B, 3, s1, s2, out.A, out.M1), "rejected-short", `the server rejects the proof of the right password when the shared value has ${S.toString(2).length} bits`);
});
ck.part("fresh", { quick: 4, thorough: 40 }, async (t) => {
  const r = t.rng, s = r.bytes(8), g = 3, acc = () => account(g, P.slice(), s, s, pad(powmod(3n, r.big(2047), DH_PRIME)), 1n);
  const [a, b]: A[] = [await checkPassword("x", acc()), await checkPassword("x", acc())];
  t.sig(show(a.A));
  t.ensure(!same(a.A, b.A), "reuse", "two proofs use the same secret");
});
ck.part("refused", { quick: 400, thorough: 8000 }, async (t) => {
  const r = t.rng, s = r.bytes(8);
  let g = r.pick([3, 4, 5, 7]), p: Uint8Array = P.slice(), B = powmod(BigInt(g), r.big(2047), DH_PRIME), what = "", bytes: Uint8Array | null = null, algo: A = null, drop = "";
  const kind = r.int(0, 9);
  switch (kind) {
    case 0: {
      const i = r.int(0, 255), bit = r.int(0, 7);
      p[i] ^= 1 << bit;
      what = `modulus with bit ${bit} of byte ${i} flipped`;
      break;
    }
    case 1:
      g = r.pick([0, 1, 2, 6, 8, 9, -1, 2 ** 31 - 1]);
      what = `generator ${g}`;
      break;
    case 2:
      p = p.slice(0, r.int(0, 255));
      what = `modulus of ${p.length} bytes`;
      break;
    case 3:
      p = cat(p, r.bytes(r.int(1, 40)));
      what = `modulus of ${p.length} bytes that begins like the known one`;
      break;
    case 4:
      p = r.bytes(256);
      p[0] |= 128, p[255] |= 1;
      what = "random modulus";
      break;
    case 5:
    case 6: {
      B = r.pick([0n, 1n, 2n, DH_PRIME - 1n, DH_PRIME, DH_PRIME + 1n, 2n ** 2048n - 1n, r.big(r.int(1, 1900)), DH_PRIME - r.big(r.int(1, 1900)), DH_PRIME + r.big(1800)]);
      what = `server value ${B < 10n ? B : B >= DH_PRIME ? "p+" + (B - DH_PRIME).toString(16).slice(0, 9) : B >> 1950n ? "p-" + (DH_PRIME - B).toString(16).slice(0, 9) : "of " + B.toString(2).length + " bits"}`;
      break;
    }
    case 7:
      algo = r.pick([{ _: "passwordKdfAlgoUnknown" }, undefined]);
      what = `algorithm ${algo?._}`;
      break;
    case 8:
      drop = r.pick(["srp_B", "srp_id"]);
      what = `no ${drop}`;
      break;
    case 9:
      bytes = r.bytes(r.int(257, 300));
      bytes[0] |= 1;
      what = `server value of ${bytes.length} bytes`;
      break;
  }
  t.sig(what);
  t.state("kinds", String(kind));
  const acc = account(g, p, s, s, bytes ?? pad(B), 5n);
  if (kind === 7) acc.current_algo = algo;
  if (drop) delete acc[drop];
  let out: A = null;
  try {
    out = await checkPassword("secret", acc);
  } catch {
    t.count("refused");
  }
  t.ensure(out === null, ["modulus", "generator", "modulus-length", "modulus-length", "modulus", "server-value", "server-value", "algorithm", "missing", "server-value"][kind], `a proof is computed for ${what}`);
});
await ck.main();
