// Password checks as a server makes them, which only keeps a verifier.
import type { Rng } from "./env.ts";
import { same } from "./core.ts";
import { be, DH_PRIME, pbkdf2, powmod, sha256, toBe } from "./ref.ts";
// deno-lint-ignore no-explicit-any
type A = any;
const P = toBe(DH_PRIME, 256);
const pad = (v: bigint) => toBe(v, 256);
const sh = (d: Uint8Array, s: Uint8Array) => sha256(s, d, s);
const cache = new Map<string, bigint>();
export class SrpAccount {
  s1: Uint8Array;
  s2: Uint8Array;
  v: bigint;
  pending = new Map<bigint, { b: bigint; B: bigint }>();
  constructor(public r: Rng, password: string, public hint?: string) {
    this.s1 = new Uint8Array(8).fill(7);
    this.s2 = new Uint8Array(16).fill(9);
    let v = cache.get(password);
    if (v === undefined) {
      const ph1 = sh(sh(new TextEncoder().encode(password), this.s1), this.s2);
      v = powmod(3n, be(sh(pbkdf2(ph1, this.s1, 100000, 64), this.s2)), DH_PRIME);
      cache.set(password, v);
    }
    this.v = v;
  }
  challenge(): A {
    const b = this.r.big(2047), k = be(sha256(P, pad(3n)));
    const B = (k * this.v + powmod(3n, b, DH_PRIME)) % DH_PRIME;
    const id = BigInt.asIntN(64, this.r.big(64)) || 1n;
    this.pending.set(id, { b, B });
    return {
      _: "account.password",
      has_password: true,
      current_algo: { _: "passwordKdfAlgoSHA256SHA256PBKDF2HMACSHA512iter100000SHA256ModPow", salt1: this.s1, salt2: this.s2, g: 3, p: P },
      srp_B: pad(B),
      srp_id: id,
      hint: this.hint,
      new_algo: { _: "passwordKdfAlgoUnknown" },
      new_secure_algo: { _: "securePasswordKdfAlgoUnknown" },
      secure_random: this.r.bytes(32),
    };
  }
  /** whether a proof is the right one for a challenge made before; each can be used once */
  accepts(q: A): boolean {
    const c = this.pending.get(q.srp_id);
    if (!c) return false;
    this.pending.delete(q.srp_id);
    const A_ = be(q.A);
    if (q.A.length !== 256 || A_ <= 1n || A_ >= DH_PRIME - 1n) return false;
    const u = be(sha256(q.A, pad(c.B)));
    const S = powmod(A_ * powmod(this.v, u, DH_PRIME) % DH_PRIME, c.b, DH_PRIME);
    const hp = sha256(P), hg = sha256(pad(3n));
    return same(q.M1, sha256(hp.map((x, i) => x ^ hg[i]), sha256(this.s1), sha256(this.s2), q.A, pad(c.B), sha256(pad(S))));
  }
}

