import { randomOverride } from "../lib/env.ts";
import { run, Stuck, vclock } from "../lib/vclock.ts";
import { Check, hex, same, show } from "../lib/core.ts";
import { type A, MtServer } from "../lib/mtserver.ts";
import { toLe } from "../lib/ref.ts";
import { DH_PRIME } from "../lib/ref.ts";
import { conforming, publicKeys, RSA, SAFE, type Zero } from "../lib/exchange.ts";
import * as TL from "../lib/tl.ts";
import { ClientPlain } from "file:///repo/client/1_client_plain.ts";
import { ClientEncrypted } from "file:///repo/client/2_client_encrypted.ts";
const ck = new Check("C05", {
  level: "exploration",
  rule: "A reference server performs the key exchange from the protocol documentation with random factors, nonces (also the client's, with zero and sign bytes at either end), server keys, generators, safe primes and secrets (also ones whose public values or key start with zero bytes), over connections that split and delay data. It checks every request: echoed nonces, factors, RSA padding and hash, inner constructor, data centre, expiry, hash and padding of the client's data, range and freshness. Key and salt of both sides are compared. Through the encrypted client, exchanges are asked to be retried, fail or lose their connection up to and beyond the retry bound, after which a call must work or the error reach the caller.",
  assumptions: ["The random numbers of the client are those of crypto.getRandomValues", "Factors are distinct odd primes below 2^32 with a product below 2^63, as the protocol says"],
  quickSeconds: 80,
  thoroughSeconds: 700,
});
const DCS = ["1", "2", "3", "4", "5", "1-test", "2-test", "3-test"] as const;
function server(t: A, zero: Zero, prime?: bigint) {
  const r = t.rng;
  vclock.reset();
  const sv = new MtServer(r);
  sv.rsa = r.shuffle([...RSA]).slice(0, r.int(1, RSA.length));
  sv.hs = conforming(r, zero, prime);
  sv.latency = r.pick([() => 0, () => r.int(0, 80), () => r.int(0, 3000)]);
  sv.chunked = r.bool() ? r : null;
  sv.skew = r.pick([0, 0, 1000, -1000, 86400 * 300]);
  if (r.bool(0.3)) sv.hs.fingerprints = r.shuffle([...sv.rsa.map((k: A) => k.fingerprint), ...Array.from({ length: r.int(1, 3) }, () => BigInt.asIntN(64, r.big(64)))]);
  return sv;
}
const own = (t: A, sv: MtServer, what: string) => {
  const a = sv.anomalies.find((a) => a.prop === "C05");
  t.ensure(!a, a?.key ?? "", () => `${a!.msg} (${what})`);
};
ck.part("exchange", { quick: 160, thorough: 6000, weight: 3 }, async (t) => {
  const r = t.rng;
  const zero = (["none", "small-b", "ga", "gb", "key", "key", "small-a"] as Zero[])[t.index % 7];
  const prime = t.index % 12 === 11 ? SAFE[(t.index / 12 | 0) % SAFE.length] : DH_PRIME;
  const sv = server(t, zero, prime);
  const temp = r.bool();
  const dc = r.pick(DCS), isMedia = r.bool(0.3);
  const c = new ClientPlain(dc, { transportProvider: sv.provider() as never, publicKeys: publicKeys(RSA), isMedia } as never);
  const what = `dc ${dc}${isMedia ? " media" : ""}, ${temp ? "temporary" : "permanent"}, pq ${sv.hs.p}*${sv.hs.q}, g ${sv.hs.g}, zero bytes in ${zero}`;
  await run(c.connect(), 100000, "connect()");
  let key: Uint8Array, salt: bigint;
  try {
    [key, salt] = await run(c.createAuthKey(temp), 1_000_000, "createAuthKey()");
  } catch (e) {
    own(t, sv, what);
    t.fail(e instanceof Stuck ? "hang" : "failed", `createAuthKey fails with ${show(e)} against a conforming server (${what})`);
  } finally {
    randomOverride.fn = null;
  }
  own(t, sv, what);
  t.ensure(sv.exchanged.length === 1, "exchanges", () => `${sv.exchanged.length} exchanges were completed (${what})`);
  const { key: k, st } = sv.exchanged[0];
  t.ensure(key.length === 256, "key-length", () => `a key of ${key.length} bytes (${what})`);
  t.ensure(same(key, k.key), "key", () => `the client's key ${hex(key).slice(0, 40)}… is not the server's ${hex(k.key).slice(0, 40)}… (${what})`);
  t.ensure(BigInt.asUintN(64, salt) === BigInt.asUintN(64, k.salt), "salt", () => `the client's salt ${salt} is not the server's ${k.salt} (${what})`);
  t.ensure(st.temp === temp, "kind", () => `asked for a ${temp ? "temporary" : "permanent"} key (${what})`);
  if (k.key[0] === 0) t.count("keys starting with a zero byte");
  if (st.ga < 1n << 2040n) t.count("server values starting with a zero byte");
  t.state("dc", `${dc}${isMedia}${temp}`);
  t.state("generator", `${sv.hs.g}/${SAFE.indexOf(prime)}`);
  t.count("exchanges");
  t.sample({ what, links: sv.links.length });
  t.sig(what);
  c.disconnect();
});
const KINDS = ["dh_gen_retry", "dh_gen_fail", "-404", "drop"] as const;
ck.part("retries", { quick: 40, thorough: 1200, weight: 2 }, async (t) => {
  const r = t.rng;
  const sv = server(t, r.pick(["none", "key"]));
  const n = [0, 1, 2, 3, 4, 1, 2, 3, 60][t.index % 9];
  const one = n > 50 ? KINDS[(t.index / 9 | 0) % KINDS.length] : r.bool() ? r.pick(KINDS) : null;
  sv.hs.retries = Array.from({ length: n }, () => one ?? r.pick(KINDS));
  const kinds = sv.hs.retries.join();
  const pfs = r.bool(0.4);
  const dc = r.pick(DCS);
  const call = { _: "contacts.resolveUsername", username: "abc" }, want = { _: "contacts.resolvedPeer", peer: { _: "peerUser", user_id: 5n }, chats: [], users: [] };
  sv.handler = (c: A) => ({ result: c.call._ === "auth.bindTempAuthKey" ? toLe(0x997275b5n, 4) : TL.encodeType(TL.api, "contacts.ResolvedPeer", want) });
  const c = new ClientEncrypted(dc, 1, { transportProvider: sv.provider() as never, publicKeys: publicKeys(RSA), isPerfectForwardSecrecyEnabled: pfs } as never);
  const what = `${pfs ? "with" : "without"} forward secrecy, answers ${kinds.length > 100 ? n + " times " + kinds.slice(0, 60) : kinds || "ok"}`;
  let error: unknown = null;
  try {
    await run(c.connect(), 5_000_000, "connect()");
  } catch (e) {
    if (e instanceof Stuck) t.fail("hang", `connect() never settles: ${what}; the server saw ${sv.handshakes.size} exchanges`);
    error = e ?? "nothing";
  } finally {
    randomOverride.fn = null;
  }
  own(t, sv, what);
  t.count("attempts", sv.handshakes.size);
  if (n > 50) {
    t.ensure(error, "no-error", () => `connect() resolves though no exchange was completed (${what})`);
    t.ensure(sv.handshakes.size <= 100, "unbounded", () => `${sv.handshakes.size} exchanges were started (${what})`);
    t.ensure(sv.handshakes.size >= 2, "no-retry", () => `only ${sv.handshakes.size} exchange was started (${what})`);
    if (one === "-404") t.ensure((error as A).name === "TransportError" && String((error as A).message).includes("404"), "which-error", () => `connect() fails with ${show(error)}, not with the transport error the server sent (${what})`);
    t.count("given up");
    t.sig(what);
    return;
  }
  t.ensure(!error, "gave-up", () => `connect() fails with ${show(error)} after ${sv.handshakes.size} exchanges (${what})`);
  t.ensure(sv.exchanged.length === (pfs ? 2 : 1), "exchanges", () => `${sv.exchanged.length} exchanges were completed (${what})`);
  const perm = sv.exchanged.find((e: A) => !e.st.temp);
  t.ensure(perm, "perm", () => `no permanent key was created (${what})`);
  t.ensure(same(c.authKey, perm!.key.key), "auth-key", () => `the client's authorization key is not the one agreed on (${what})`);
  const used = pfs ? sv.exchanged.find((e: A) => e.st.temp) : perm;
  t.ensure(used, "temp", () => `no temporary key was created (${what})`);
  t.ensure(BigInt.asUintN(64, c.serverSalt) === BigInt.asUintN(64, used!.key.salt), "salt", () => `the salt is ${c.serverSalt}, not ${used!.key.salt} (${what})`);
  const v = await run(c.invoke(call as never), 200000, "the first call").catch((e: A) => e);
  t.ensure((v as A)?.peer?.user_id === 5n, "call", () => `the first call after the exchange ends with ${show(v)} (${what})`);
  const salts = sv.log.filter((l) => l.startsWith("bad_server_salt"));
  // a wrong clock starts a new session, which learns the salt anew
  if (sv.skew === 0) t.ensure(!salts.length, "salt-used", () => `the first packets carried another salt than the agreed one (${what})`);
  own(t, sv, what);
  t.sig(what);
  t.sample({ what, exchanges: sv.handshakes.size });
  c.disconnect();
});
await ck.main();
