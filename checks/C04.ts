import { randomOverride } from "../lib/env.ts";
import { Check, same, show } from "../lib/core.ts";
import { DH_PRIME, isPrime, makeRsa, powmod, rsaUnpad } from "../lib/ref.ts";
import { factorize, gcd, mod, modExp, rsaPad } from "file:///repo/1_utilities.ts";
import pems from "../lib/keys.json" with { type: "json" };

const ck = new Check("C04", {
  level: "exploration",
  rule: "Cases draw operands of 1..2100 bits with boundary bias (0, 1, m-1, m, multiples of m), prime pairs of 2..32 bits, and padding payloads of every length with chosen random bytes; non-trivial when the (operand size classes, outcome) signature is new.",
  assumptions: ["The reference modular exponentiation (left-to-right binary) and Miller-Rabin with 12 fixed bases are right"],
  quickSeconds: 60,
  thoroughSeconds: 500,
});
const keys = pems.map((p: string) => makeRsa(p));

ck.part("modexp", { quick: 2500, thorough: 60000, weight: 2 }, (t) => {
  const r = t.rng;
  const mb = r.pick([2, 3, 8, 16, 31, 32, 33, 63, 64, 65, 128, r.int(2, 300), r.bool(0.1) ? 2048 : 256]);
  let m = r.bool(0.05) ? DH_PRIME : r.big(mb);
  if (m < 2n) m = 2n;
  const val = (bits: number) => r.pick([0n, 1n, 2n, m - 1n, m, m + 1n, 2n * m, r.big(bits), r.big(bits), r.big(bits)]);
  const a = val(r.int(1, mb + 40));
  const e = r.bool(0.3) ? BigInt(r.int(0, 20)) : val(Math.min(r.int(1, mb + 10), 2048));
  t.sig(`${mb}/${a.toString(2).length}/${e.toString(2).length}`);
  t.sample({ a, e, m });
  const got = modExp(a, e, m), want = powmod(a, e, m);
  t.ensure(got === want, "modexp", `modExp(${a}, ${e}, ${m}) = ${got}, expected ${want}`);
});

ck.part("modexp-law", { quick: 30, thorough: 400 }, (t) => {
  // Fermat and Diffie-Hellman laws at full size, independent of the reference exponentiation
  const r = t.rng;
  const g = BigInt(r.int(2, 7)), a = r.big(2048), b = r.big(2048);
  t.sig(`${g}/${index(t)}`);
  t.ensure(modExp(modExp(g, a, DH_PRIME), b, DH_PRIME) === modExp(modExp(g, b, DH_PRIME), a, DH_PRIME), "modexp-dh", "g^ab differs from g^ba");
  t.ensure(modExp(a % DH_PRIME, DH_PRIME - 1n, DH_PRIME) === (a % DH_PRIME === 0n ? 0n : 1n), "modexp-fermat", "a^(p-1) is not 1");
});
function index(t: { index: number }) {
  return t.index;
}

ck.part("mod", { quick: 40000, thorough: 1000000 }, (t) => {
  const r = t.rng;
  if (r.bool()) {
    const m = r.pick([1n, 2n, 16n, r.big(r.int(1, 300)) + 1n]);
    const n = r.pick([0n, m, -m, m - 1n, -1n, -m - 1n, r.big(r.int(1, 400)), -r.big(r.int(1, 400))]);
    const x = mod(n, m);
    t.sig(`b${m.toString(2).length}/${n < 0n}/${n.toString(2).length >> 4}`);
    t.ensure(x >= 0n && x < m && (n - x) % m === 0n, "mod", `mod(${n}, ${m}) = ${x}`);
  } else {
    const m = r.pick([1, 2, 4, 16, r.int(1, 1 << 30)]);
    const n = r.pick([0, m, -m, -1, r.int(-(2 ** 40), 2 ** 40)]);
    const x = mod(n, m);
    t.sig(`n${m}/${n < 0}`);
    t.ensure(x >= 0 && x < m && Number.isInteger((n - x) / m), "mod", `mod(${n}, ${m}) = ${x}`);
  }
  const a = r.big(r.int(1, 120)), b = r.big(r.int(1, 120));
  const g = gcd(a, b);
  if (a || b) t.ensure(g > 0n && a % g === 0n && b % g === 0n && gcd(a / g, b / g) === 1n, "gcd", `gcd(${a}, ${b}) = ${g}`);
});

function prime(t: { rng: import("../lib/env.ts").Rng }, bits: number): bigint {
  for (;;) {
    const p = bits <= 2 ? t.rng.pick([2n, 3n]) : (1n << BigInt(bits - 1)) | t.rng.big(bits - 1) | 1n;
    if (isPrime(p)) return p;
  }
}
ck.part("factorize", { quick: 500, thorough: 10000, weight: 3 }, (t) => {
  const r = t.rng;
  const small = r.bool(0.3);
  const pb = small ? r.int(2, 31) : r.int(29, 32), qb = small ? r.int(2, 31) : r.int(29, 32);
  let p = prime(t, pb), q = prime(t, qb);
  if (r.bool(0.1)) { // twins: neighbouring primes are hardest for difference-based methods
    q = p + 2n;
    while (!isPrime(q)) q += 2n;
  }
  if (p === q) return;
  if (p > q) [p, q] = [q, p];
  t.sig(`${pb}/${qb}`);
  t.sample({ p, q });
  const got = factorize(p * q);
  t.ensure(got.length === 2 && got[0] === p && got[1] === q, "factorize", `factorize(${p * q}) = ${got}, expected ${p}, ${q}`);
});

ck.part("rsapad", { quick: 150, thorough: 2500, weight: 2 }, async (t) => {
  const r = t.rng;
  const k = r.pick(keys);
  const len = r.pick([0, 1, 96, 100, 104, 143, 144, r.int(0, 144)]);
  const data = r.bytes(len);
  const copy = data.slice();
  let draws = 0;
  const bad = r.int(0, 3);
  randomOverride.fn = (b) => {
    draws++;
    if (bad === 1) {
      b.fill(draws & 1 ? 0xff : draws); // steer towards values above the modulus on the first tries
      return true;
    }
    return false;
  };
  let enc: Uint8Array;
  try {
    enc = await rsaPad(data, [k.n, k.e]);
  } catch (e) {
    // giving up is legitimate only after several draws all landed above the modulus
    t.count("padding gave up");
    t.ensure((e as Error)?.name === "RetryError" && draws >= 5, "rsapad-failed", `padding ${len} bytes failed after ${draws} draws: ${e}`);
    return;
  } finally {
    randomOverride.fn = null;
  }
  t.count("random draws inside the padding", draws);
  t.sig(`${len}/${draws}/${bad}`);
  t.ensure(enc.length === 256, "rsapad-length", `${enc.length} bytes`);
  const dec = rsaUnpad(enc, k);
  t.ensure(dec, "rsapad-hash", `the private key holder cannot verify the padding of ${len} bytes`);
  t.ensure(same(dec.subarray(0, len), data), "rsapad-data", `recovered ${show(dec.subarray(0, len))} instead of ${show(data)}`);
  t.ensure(same(data, copy), "rsapad-mutates", "padding modified the data");
  t.ensure(draws >= 1, "rsapad-entropy", "no randomness used");
  // results with leading zero bytes are rare
  for (let i = 0; i < 12; i++) {
    let e: Uint8Array;
    try {
      e = await rsaPad(data, [k.n, k.e]);
    } catch (err) {
      t.ensure((err as Error)?.name === "RetryError", "rsapad-failed", `padding ${len} bytes failed: ${err}`);
      continue;
    }
    t.ensure(e.length === 256, "rsapad-length", `${e.length} bytes`);
    if (e[0] === 0) {
      const d = rsaUnpad(e, k);
      t.ensure(d && same(d.subarray(0, len), data), "rsapad-zero", "a result that starts with a zero byte cannot be opened");
      t.count("padded data starting with a zero byte");
    }
  }
});
ck.part("rsapad-oversize", { quick: 40, thorough: 200 }, async (t) => {
  const len = 145 + t.rng.int(0, 60);
  t.sig(String(len));
  let threw = false;
  try {
    await rsaPad(t.rng.bytes(len), [keys[0].n, keys[0].e]);
  } catch {
    threw = true;
  }
  t.ensure(threw, "rsapad-oversize", `${len} bytes accepted although they do not fit the padding`);
});

await ck.main();
