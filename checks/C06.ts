import { randomOverride } from "../lib/env.ts";
import { run, Stuck, vclock } from "../lib/vclock.ts";
import { Check, hex, same, show } from "../lib/core.ts";
import { type A, MtServer } from "../lib/mtserver.ts";
import { be, DH_PRIME, le, makeRsa, minimalBe, powmod, sha1, toBe, toLe } from "../lib/ref.ts";
import { conforming, generators, PRIMES, publicKeys, randomPrime, RSA } from "../lib/exchange.ts";
import type { Rng } from "../lib/env.ts";
import * as TL from "../lib/tl.ts";
import { ClientPlain } from "file:///repo/client/1_client_plain.ts";
import { ClientEncrypted } from "file:///repo/client/2_client_encrypted.ts";
const ck = new Check("C06", {
  level: "exploration",
  rule: "A reference server that otherwise follows the protocol makes one answer of the exchange forged or inconsistent: every nonce of every answer (each bit region, other exchanges' nonces, swapped nonces), unknown server keys, every region of the encrypted answer and its hash, primes that are too short or long, composite, not safe or unfitting for the generator, generators outside 2..7, public values at and around every bound of the safe range, confirmation hashes of other values, numbers or keys, and answers of other types. Key creation must fail, and an encrypted client must never send a packet under a key from such an exchange, even when a later exchange is fine.",
  assumptions: ["Failing means that the returned promise rejects within 10 virtual minutes"],
  quickSeconds: 85,
  thoroughSeconds: 700,
});
const big = (h: string) => BigInt("0x" + h);
const flipBits = (r: Rng, v: bigint, bits: number) => {
  const k = r.int(0, 3);
  const f = k === 0 ? 1n << BigInt(r.int(0, bits - 1)) : k === 1 ? r.big(bits) | 1n : k === 2 ? 1n << BigInt(bits - 1) : 1n;
  return BigInt.asIntN(bits, BigInt.asUintN(bits, v) ^ f);
};
/** a different nonce */
const other = (r: Rng, o: A, f: string) => {
  const w = r.int(0, 5);
  if (w === 0 && f === "nonce") return o.server_nonce;
  if (w === 1 && f === "server_nonce") return o.nonce;
  if (w === 2) return 0n;
  return flipBits(r, o[f], 128);
};
interface Tamper {
  name: string;
  /** changes options before the exchange */
  setup?: (h: A, r: Rng, sv: MtServer) => void;
  stage?: string;
  fn?: (o: A, st: A, r: Rng) => A;
}
const field = (stage: string, f: string): Tamper => ({ name: `${stage}.${f}`, stage, fn: (o, _st, r) => ({ ...o, [f]: other(r, o, f) }) });
/** g_a of a given value, with which the server still computes what it can */
const ga = (name: string, v: (p: bigint, r: Rng) => bigint, length?: number): Tamper => ({ name: "g_a " + name, stage: "inner", fn: (o, st, r) => ({ ...o, g_a: length ? toBe(v(st.prime, r), length) : minimalBe(v(st.prime, r)) }) });
const prime = (name: string, p: (r: Rng) => bigint, g?: (p: bigint, r: Rng) => number): Tamper => ({
  name: "prime " + name,
  setup: (h, r) => {
    h.prime = p(r);
    const fit = generators(h.prime);
    h.g = g ? g(h.prime, r) : r.pick(fit);
  },
});
/** g_a chosen so that the dishonest server knows the resulting key and can confirm it */
const known = (name: string, v: (st: A, r: Rng) => bigint, key: (st: A, gb: bigint, r: Rng) => bigint): Tamper => ({
  name: "g_a " + name,
  stage: "inner",
  fn: (o, st, r) => {
    st.forgedKey = (gb: bigint) => key(st, gb, r);
    return { ...o, g_a: minimalBe(v(st, r)) };
  },
});
const L = 1n << 1984n;
const T: Tamper[] = [
  field("resPQ", "nonce"),
  { name: "resPQ.fingerprints", setup: (h, r, sv) => h.fingerprints = r.pick([[], Array.from({ length: r.int(1, 4) }, () => BigInt.asIntN(64, r.big(64))), sv.rsa.map((k) => k.fingerprint ^ (1n << BigInt(r.int(0, 62)))), [0n], sv.rsa.map((k) => BigInt.asIntN(64, k.fingerprint >> 1n))]) },
  { name: "resPQ.foreign key", setup: (h, _r, sv) => {
    const k = makeRsa();
    sv.rsa = [k];
    h.fingerprints = [k.fingerprint];
  } },
  field("dh", "nonce"),
  field("dh", "server_nonce"),
  { name: "dh.server_nonce swapped", stage: "dh", fn: (o) => ({ ...o, nonce: o.server_nonce, server_nonce: o.nonce }) },
  { name: "dh.encrypted_answer", stage: "dh", fn: (o, st, r) => {
    const e = o.encrypted_answer.slice();
    // the last block may hold a single byte of data, so that a change could go unnoticed with probability 2^-8
    const at = r.pick([r.int(0, 19), r.int(0, e.length - 33), r.int(e.length - 48, e.length - 33), r.int(20, 80)]);
    e[at] ^= 1 << r.int(0, 7);
    void st;
    return { ...o, encrypted_answer: e };
  } },
  { name: "dh.encrypted_answer length", stage: "dh", fn: (o, _st, r) => ({ ...o, encrypted_answer: o.encrypted_answer.slice(0, r.pick([0, 16, 32, r.int(1, o.encrypted_answer.length - 17), o.encrypted_answer.length - 16])) }) },
  { name: "dh.encrypted_answer random", stage: "dh", fn: (o, _st, r) => ({ ...o, encrypted_answer: r.bytes(o.encrypted_answer.length) }) },
  { name: "dh.encrypted with other key", stage: "dh", fn: (o, st, r) => {
    void st;
    const e = o.encrypted_answer.slice();
    e.set(r.bytes(16), 16 * r.int(0, e.length / 16 - 2));
    return { ...o, encrypted_answer: e };
  } },
  { name: "encrypted hash", stage: "encrypted", fn: (o, _st, r) => {
    const e = o.slice();
    e[r.pick([0, 19, r.int(0, 19)])] ^= 1 << r.int(0, 7);
    return e;
  } },
  { name: "encrypted hash zero", stage: "encrypted", fn: (o) => {
    const e = o.slice();
    e.fill(0, 0, 20);
    return e;
  } },
  { name: "encrypted hash of everything", stage: "encrypted", fn: (o, _st, r) => {
    // the hash of the data with the padding (or of a part), when there is padding
    const e = o.slice();
    e.set(r.bool() ? sha1(e.slice(20, -16)) : sha1(e.slice(24)));
    return e;
  } },
  { name: "encrypted data changed", stage: "encrypted", fn: (o, _st, r) => {
    // server_time and g_a are not bound by anything but the hash
    const e = o.slice();
    e[r.pick([r.int(330, 500), r.int(400, 580), 20 + 4 + 16 + 16 + 4 + 260 + 50])] ^= 1 << r.int(0, 7);
    return e;
  } },
  field("inner", "nonce"),
  field("inner", "server_nonce"),
  { name: "inner nonces swapped", stage: "inner", fn: (o) => ({ ...o, nonce: o.server_nonce, server_nonce: o.nonce }) },
  prime("not safe", (r) => big(r.pick(PRIMES.prime))),
  prime("composite with a prime half", () => big(PRIMES.halfPrime[0])),
  prime("composite", (r) => randomPrime(r, 1024) * randomPrime(r, 1024) | 1n << 2047n),
  prime("even", (r) => be(r.bytes(256)) | 1n << 2047n | 1n << 2040n & ~1n, () => 4),
  prime("known prime plus something", (r) => DH_PRIME ^ (1n << BigInt(r.int(0, 2046))), () => 3),
  prime("of 2047 bits", () => big(PRIMES.safe2047[0])),
  prime("of 2040 bits", () => big(PRIMES.safe2040[0])),
  prime("of 2049 bits", () => big(PRIMES.safe2049[0])),
  prime("too short", (r) => big(r.pick([PRIMES.prime2047[0], PRIMES.safe1024[0]]))),
  prime("too long", (r) => DH_PRIME << BigInt(r.pick([1, 8, 64])) | 1n),
  prime("tiny", (r) => r.pick([0n, 1n, 2n, 3n, 5n, 7n, 11n, 23n, 47n]), () => 3),
  prime("unfitting generator", (r) => r.pick([DH_PRIME, ...PRIMES.safe.map(big)]), (p, r) => r.pick([2, 3, 5, 6, 7].filter((g) => !generators(p).includes(g)).concat(generators(p).length >= 6 ? [8] : []))),
  prime("generator out of range", () => DH_PRIME, (_p, r) => r.pick([0, 1, -1, 8, 9, 16, -3, 2147483647, -2147483648])),
  known("g^a below 2^1984", (st, r) => {
    st.a = BigInt(r.int(1, 600));
    return powmod(BigInt(st.g), st.a, st.prime);
  }, (st, gb) => powmod(gb, st.a, st.prime)),
  known("just g", (st) => {
    st.a = 1n;
    return BigInt(st.g);
  }, (_st, gb) => gb),
  known("p-g^a", (st, r) => {
    st.a = BigInt(r.int(1, 600));
    return st.prime - powmod(BigInt(st.g), st.a, st.prime);
  }, (st, gb, r) => r.bool() ? powmod(gb, st.a, st.prime) : st.prime - powmod(gb, st.a, st.prime)),
  known("p+g^a", (st) => st.prime + st.ga, (st, gb) => powmod(gb, st.a, st.prime)),
  known("p+small g^a", (st, r) => {
    st.a = BigInt(r.int(1, 600));
    return st.prime + powmod(BigInt(st.g), st.a, st.prime);
  }, (st, gb) => powmod(gb, st.a, st.prime)),
  known("known 0", () => 0n, () => 0n),
  known("known 1", () => 1n, () => 1n),
  known("known p", (st) => st.prime, () => 0n),
  known("known p+1", (st) => st.prime + 1n, () => 1n),
  known("known p-1", (st) => st.prime - 1n, (st, _gb, r) => r.bool() ? 1n : st.prime - 1n),
  ga("0", () => 0n),
  ga("1", () => 1n),
  ga("2", () => 2n),
  ga("p-1", (p) => p - 1n),
  ga("p-2", (p) => p - 2n),
  ga("p", (p) => p),
  ga("p+1", (p) => p + 1n),
  ga("above p", (p, r) => p + (r.big(2040) | L)),
  ga("2^2048-1", () => (1n << 2048n) - 1n),
  ga("2^1984-1", () => L - 1n),
  ga("below 2^1984", (_p, r) => r.big(r.int(2, 1984)) | 2n),
  ga("p-2^1984+1", (p) => p - L + 1n),
  ga("above p-2^1984", (p, r) => p - (r.big(r.int(2, 1983)) | 2n)),
  ga("wide", (p, r) => p * (r.big(64) | 2n) + (r.big(2000) | L), 300),
  ga("empty", () => 0n),
  { name: "g_a no bytes", stage: "inner", fn: (o) => ({ ...o, g_a: new Uint8Array(0) }) },
  { name: "prime no bytes", stage: "inner", fn: (o) => ({ ...o, dh_prime: new Uint8Array(0) }) },
  field("done", "nonce"),
  field("done", "server_nonce"),
  { name: "done nonces swapped", stage: "done", fn: (o) => ({ ...o, nonce: o.server_nonce, server_nonce: o.nonce }) },
  { name: "done.new_nonce_hash1", stage: "done", fn: (o, _st, r) => ({ ...o, new_nonce_hash1: flipBits(r, o.new_nonce_hash1, 128) }) },
  { name: "done.new_nonce_hash1 of another number", stage: "done", fn: (o, st, r) => ({ ...o, new_nonce_hash1: st.hash(r.pick([0, 2, 3, 4])) }) },
  { name: "done.new_nonce_hash1 of another key", stage: "done", fn: (o, st, r) => {
    const k = st.authKey.slice();
    k[r.int(0, 255)] ^= 1 << r.int(0, 7);
    return { ...o, new_nonce_hash1: BigInt.asIntN(128, le(sha1(st.newNonce, [1] as A, sha1(k).slice(0, 8)).slice(4, 20))) };
  } },
  { name: "done.new_nonce_hash1 zero", stage: "done", fn: (o, _st, r) => ({ ...o, new_nonce_hash1: r.pick([0n, -1n, o.nonce]) }) },
  { name: "other g_a than the one used", stage: "inner", fn: (o, st, r) => ({ ...o, g_a: toBe(powmod(BigInt(st.g), r.big(2000) | L, st.prime), 256) }) },
  { name: "done as retry", stage: "done", fn: (o, st) => ({ _: "dh_gen_retry", nonce: o.nonce, server_nonce: o.server_nonce, new_nonce_hash2: st.hash(2) }) },
  { name: "done as fail", stage: "done", fn: (o, st) => ({ _: "dh_gen_fail", nonce: o.nonce, server_nonce: o.server_nonce, new_nonce_hash3: st.hash(3) }) },
  { name: "done as retry with hash1", stage: "done", fn: (o) => ({ _: "dh_gen_retry", nonce: o.nonce, server_nonce: o.server_nonce, new_nonce_hash2: o.new_nonce_hash1 }) },
  { name: "dh as failure", stage: "dh", fn: (o, st, r) => ({ _: "server_DH_params_fail", nonce: o.nonce, server_nonce: o.server_nonce, new_nonce_hash: BigInt.asIntN(128, r.big(128)), st: undefined && st }) },
];
function server(t: A, tamper: Tamper, broken: (n: number) => boolean) {
  const r: Rng = t.rng;
  vclock.reset();
  const sv = new MtServer(r);
  sv.rsa = [RSA[0], RSA[1]];
  sv.hs = { ...conforming(r, "none"), lenient: true };
  randomOverride.fn = null;
  sv.latency = r.pick([() => 0, () => r.int(0, 200)]);
  const good = { ...sv.hs };
  let links = 0;
  const seen = new Map<A, number>();
  let applied = 0;
  const bad = (link: A) => {
    if (!seen.has(link)) seen.set(link, links++);
    return broken(seen.get(link)!);
  };
  const rsa = sv.rsa;
  sv.onPacket = (link: A, p: Uint8Array) => {
    // options are per exchange, i.e. per connection
    if (p.length >= 8 && p.slice(0, 8).every((v) => v === 0)) {
      const b = bad(link);
      if (b && le(p.slice(20, 24)) === 0xbe7e8ef1n) applied++;
      sv.rsa = rsa;
      sv.hs = { ...good };
      if (b) tamper.setup?.(sv.hs, r, sv);
      if (b && tamper.fn) sv.hs.tamper = (stage: string, o: A, st: A) => stage === tamper.stage ? (st.tampered = true, tamper.fn!(o, st, r)) : o;
      if (tamper.setup) sv.hs.onSecrets = (st: A) => st.tampered = b;
    }
    return false;
  };
  return { sv, applied: () => applied };
}
async function failing(t: A, sv: MtServer, what: string, p: Promise<A>, made: string) {
  let v: A;
  try {
    v = await run(p, 600_000, "createAuthKey()");
  } catch (e) {
    if (e instanceof Stuck) t.fail("hang", `key creation neither fails nor succeeds: ${what}`);
    t.ensure(e instanceof Error, "error", () => `key creation fails with ${show(e)}: ${what}`);
    return;
  }
  t.fail("accepted", `${made}: ${what}; result ${show(v && v[0] instanceof Uint8Array ? hex(v[0]).slice(0, 32) : v)}, exchanges ${sv.exchanged.length}`);
}
ck.part("forged", { quick: 3 * T.length, thorough: 120 * T.length, weight: 3, maxReports: 6 }, async (t) => {
  const tamper = T[t.index % T.length];
  const { sv, applied } = server(t, tamper, () => true);
  const c = new ClientPlain("2", { transportProvider: sv.provider() as never, publicKeys: publicKeys([RSA[0], RSA[1]]) } as never);
  await run(c.connect(), 100000, "connect()");
  await failing(t, sv, tamper.name, c.createAuthKey(t.rng.bool()), "a key is returned");
  t.ensure(applied() > 0 || tamper.setup, "harness", "the exchange was not tampered with");
  t.count("forged exchanges");
  t.state("forgeries", tamper.name);
  t.sig(`${tamper.name}/${t.index}`);
  t.sample({ forgery: tamper.name, requests: sv.links[0].packets });
  c.disconnect();
});
ck.part("client", { quick: 60, thorough: 3000, weight: 2 }, async (t) => {
  const r: Rng = t.rng;
  // part A checks single exchanges; here the client goes on to new ones
  const tamper = T[(t.index * 7 + (t.index / T.length | 0)) % T.length];
  const forever = t.index % 3 === 0;
  const n = r.int(1, 3);
  const pfs = r.bool(0.3);
  const { sv } = server(t, tamper, (i) => forever || i < n);
  const want = { _: "contacts.resolvedPeer", peer: { _: "peerUser", user_id: 5n }, chats: [], users: [] };
  sv.handler = (c: A) => ({ result: c.call._ === "auth.bindTempAuthKey" ? toLe(0x997275b5n, 4) : TL.encodeType(TL.api, "contacts.ResolvedPeer", want) });
  const under: bigint[] = [];
  const before = sv.onPacket!;
  sv.onPacket = (l, p) => {
    const id = BigInt.asIntN(64, le(p.slice(0, 8)));
    if (id) under.push(id);
    return before(l, p);
  };
  const c = new ClientEncrypted("2", 1, { transportProvider: sv.provider() as never, publicKeys: publicKeys([RSA[0], RSA[1]]), isPerfectForwardSecrecyEnabled: pfs } as never);
  const what = `${tamper.name} ${forever ? "always" : `in the first ${n} exchanges`}${pfs ? ", forward secrecy" : ""}`;
  if (forever) {
    await failing(t, sv, what, c.connect(), "the client connects");
    t.ensure(!under.length, "used", () => `the client sent ${under.length} packets under keys of forged exchanges: ${what}`);
    const v = await run(c.invoke({ _: "contacts.resolveUsername", username: "abc" } as never), 600_000, "invoke").catch((e) => e);
    t.ensure(v instanceof Error, "used", () => `a call succeeds after forged exchanges: ${what}`);
    t.ensure(!under.length, "used", () => `the client sent ${under.length} packets under keys of forged exchanges after giving up: ${what}`);
    t.count("given up");
  } else {
    // whether the client tries again is not part of this property, what it uses is
    let ok = true;
    try {
      await run(c.connect(), 600_000, "connect()");
    } catch (e) {
      if (e instanceof Stuck) t.fail("hang", `connect() never settles: ${what}`);
      ok = false;
    }
    const good = sv.exchanged.filter((e: A) => !e.st.tampered).map((e: A) => e.key);
    if (ok) {
      t.ensure(good.some((k) => same(k.key, c.authKey)), "used", () => `the client's key is not from an exchange without forgeries: ${what}`);
      const v = await run(c.invoke({ _: "contacts.resolveUsername", username: "abc" } as never), 600_000, "invoke").catch((e) => e);
      t.ensure((v as A)?.peer, "call", () => `a call after the genuine exchange ends with ${show(v)}: ${what}`);
      t.count("recovered");
    }
    t.ensure(under.every((id) => good.some((k) => k.id === id)), "used", () => `packets were sent under keys ${under}, genuine ones are ${good.map((k) => k.id)}: ${what}`);
  }
  t.state("client forgeries", tamper.name + forever);
  t.sig(what + t.index);
  t.sample({ what, exchanges: sv.handshakes.size, packets: under.length });
  c.disconnect();
});
await ck.main();
