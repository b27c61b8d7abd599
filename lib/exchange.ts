// Parameters of key exchanges: factors, nonces, primes, secrets whose results start with zero bytes.
import { type Rng, randomOverride } from "./env.ts";
import { be, DH_PRIME, isPrime, makeRsa, powmod, type RsaKey, toBe, type U8 } from "./ref.ts";
import pems from "./keys.json" with { type: "json" };
import primes from "./primes.json" with { type: "json" };
import type { HandshakeOptions } from "./mtserver.ts";
// deno-lint-ignore no-explicit-any
type A = any;

export const RSA: RsaKey[] = (pems as string[]).map((p) => makeRsa(p));
export const PRIMES = primes as Record<"safe" | "prime" | "prime2047" | "safe2040" | "safe2047" | "safe2049" | "safe1024" | "halfPrime", string[]>;
export const SAFE = PRIMES.safe.map((s) => BigInt("0x" + s));
/** Generators of the subgroup of prime order, by the rules of the protocol. */
export function generators(p: bigint): number[] {
  const ok: Record<number, boolean> = { 2: p % 8n === 7n, 3: p % 3n === 2n, 4: true, 5: [1n, 4n].includes(p % 5n), 6: [19n, 23n].includes(p % 24n), 7: [3n, 5n, 6n].includes(p % 7n) };
  return Object.keys(ok).map(Number).filter((g) => ok[g]);
}
export function randomPrime(r: Rng, bits: number): bigint {
  for (;;) {
    const n = r.big(bits) | 1n | (1n << BigInt(bits - 1));
    if (isPrime(n)) return n;
  }
}
/** The factors of a proof of work: p < q, both odd primes below 2^32 with p q < 2^63. */
export function factors(r: Rng): [bigint, bigint] {
  const style = r.int(0, 5);
  for (;;) {
    const [a, b] = style === 0 ? [r.pick([3n, 5n, 7n, 251n, 257n, 65537n]), randomPrime(r, r.int(3, 31))] : style === 1 ? [randomPrime(r, r.int(3, 16)), randomPrime(r, r.int(3, 16))] : style === 2 ? [randomPrime(r, 31), randomPrime(r, 32)] : [randomPrime(r, r.int(29, 31)), randomPrime(r, r.int(30, 31))];
    if (a === b || a * b >= 1n << 63n || a < 3n || b < 3n) continue;
    return a < b ? [a, b] : [b, a];
  }
}
export function nonceBytes(r: Rng, n: number): Uint8Array {
  const b = r.bytes(n);
  const k = r.int(1, r.pick([1, 2, n - 1]));
  switch (r.int(0, 6)) {
    case 0:
      b.fill(0, 0, k);
      break;
    case 1:
      b.fill(0, n - k);
      break;
    case 2:
      b.fill(255, 0, k);
      break;
    case 3:
      b.fill(255, n - k);
      break;
    case 4:
      b[n - 1] = 0x80;
      break;
  }
  return b;
}
export type Zero = "none" | "ga" | "gb" | "key" | "small-a" | "small-b";
/** Options of a conforming server, and secrets that make one value of the exchange start with zero bytes. */
export function conforming(r: Rng, zero: Zero, prime = DH_PRIME): HandshakeOptions {
  const [p, q] = factors(r);
  const g = r.pick(generators(prime));
  const G = BigInt(g);
  const o: HandshakeOptions = { p, q, g, prime, serverNonce: () => nonceBytes(r, 16) };
  const small = () => r.big(64) | 1n << 63n;
  const zeroTop = (v: bigint) => v < 1n << 2040n && v > 1n << 1990n;
  const fine = (v: bigint) => v > 1n << 1984n && v < prime - (1n << 1984n);
  const search = (f: (e: bigint) => boolean) => {
    for (let i = 0; i < 3000; i++) {
      const e = small();
      if (f(e)) return e;
    }
    return small();
  };
  if (zero === "ga") o.a = search((e) => zeroTop(powmod(G, e, prime)));
  else if (zero === "small-a") o.a = r.big(r.pick([16, 64, 200])) | 1n << 15n;
  let b: bigint | null = null;
  if (zero === "gb") b = search((e) => zeroTop(powmod(G, e, prime)));
  // drawn first, but unusable
  if (zero === "small-b") b = r.big(r.pick([1, 4, 9, 16, 200])) % (g === 2 ? 1900n : 700n);
  if (zero === "key") {
    b = small() | 1n << 64n;
    const gb = powmod(G, b, prime);
    o.a = search((e) => zeroTop(powmod(gb, e, prime)) && fine(powmod(G, e, prime)));
  }
  // the client's randomness: nonces with zero and sign bytes, and its secret exponent, when it draws it as 256 bytes
  randomOverride.fn = (v) => {
    if (v.length === 256 && b !== null) {
      v.set(toBe(b, 256).reverse());
      b = null;
      return true;
    }
    if (v.length === 16 || v.length === 32) {
      v.set(nonceBytes(r, v.length));
      return true;
    }
    return false;
  };
  return o;
}
export const publicKeys = (ks: RsaKey[]): A => ks.map((k) => [k.fingerprint, [k.n, k.e]]);
export type { U8 };
export { be };
