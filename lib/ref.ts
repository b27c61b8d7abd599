// Independent reference primitives (node:crypto and plain arithmetic), used by mock peers and oracles.
import * as nc from "node:crypto";
import { cat } from "./core.ts";

export type U8 = Uint8Array<ArrayBuffer>;
function own(b: Uint8Array): U8 {
  const r = new Uint8Array(b.length);
  r.set(b);
  return r;
}
export const sha1 = (...d: Uint8Array[]): U8 => own(nc.createHash("sha1").update(cat(...d)).digest());
export const sha256 = (...d: Uint8Array[]): U8 => own(nc.createHash("sha256").update(cat(...d)).digest());
export const sha512 = (...d: Uint8Array[]): U8 => own(nc.createHash("sha512").update(cat(...d)).digest());
export const md5 = (...d: Uint8Array[]): U8 => own(nc.createHash("md5").update(cat(...d)).digest());
export const hmac256 = (key: Uint8Array, data: Uint8Array): U8 => own(nc.createHmac("sha256", key).update(data).digest());
export const pbkdf2 = (pw: Uint8Array, salt: Uint8Array, it: number, len: number): U8 => own(nc.pbkdf2Sync(pw, salt, it, len, "sha512"));

function xor16(a: Uint8Array, ao: number, b: Uint8Array, bo: number, out: Uint8Array, oo: number) {
  for (let i = 0; i < 16; i++) out[oo + i] = a[ao + i] ^ b[bo + i];
}
export function igeEncrypt(data: Uint8Array, key: Uint8Array, iv: Uint8Array): U8 {
  const c = nc.createCipheriv(`aes-${key.length * 8}-ecb` as "aes-256-ecb", key, null);
  c.setAutoPadding(false);
  const out = new Uint8Array(data.length);
  let pc = iv.subarray(0, 16), pp = iv.subarray(16, 32);
  const tmp = new Uint8Array(16);
  for (let i = 0; i < data.length; i += 16) {
    xor16(data, i, pc, 0, tmp, 0);
    const e = c.update(tmp);
    xor16(e, 0, pp, 0, out, i);
    pc = out.subarray(i, i + 16);
    pp = data.subarray(i, i + 16);
  }
  return out;
}
export function igeDecrypt(data: Uint8Array, key: Uint8Array, iv: Uint8Array): U8 {
  const c = nc.createDecipheriv(`aes-${key.length * 8}-ecb` as "aes-256-ecb", key, null);
  c.setAutoPadding(false);
  const out = new Uint8Array(data.length);
  let pc = iv.subarray(0, 16), pp = iv.subarray(16, 32);
  const tmp = new Uint8Array(16);
  for (let i = 0; i < data.length; i += 16) {
    xor16(data, i, pp, 0, tmp, 0);
    const e = c.update(tmp);
    xor16(e, 0, pc, 0, out, i);
    pp = out.subarray(i, i + 16);
    pc = data.subarray(i, i + 16);
  }
  return out;
}
export class Ctr {
  #c: nc.Cipher;
  constructor(key: Uint8Array, iv: Uint8Array) {
    this.#c = nc.createCipheriv(`aes-${key.length * 8}-ctr` as "aes-256-ctr", key, iv);
  }
  call(d: Uint8Array): U8 {
    return own(this.#c.update(d));
  }
}

export function powmod(b: bigint, e: bigint, m: bigint): bigint {
  let r = 1n % m;
  b = ((b % m) + m) % m;
  for (const bit of e.toString(2)) {
    r = r * r % m;
    if (bit === "1") r = r * b % m;
  }
  return r;
}
export function be(b: Uint8Array): bigint {
  let h = "0x0";
  for (const x of b) h += x.toString(16).padStart(2, "0");
  return BigInt(h);
}
export function le(b: Uint8Array): bigint {
  return be(b.slice().reverse());
}
export function toBe(v: bigint, n: number): U8 {
  const out = new Uint8Array(n);
  for (let i = n - 1; i >= 0; i--) {
    out[i] = Number(v & 255n);
    v >>= 8n;
  }
  return out;
}
export function toLe(v: bigint, n: number): U8 {
  return toBe(BigInt.asUintN(n * 8, v), n).reverse() as U8;
}
export function minimalBe(v: bigint): U8 {
  let n = 1;
  while (v >> BigInt(8 * n)) n++;
  return toBe(v, n);
}
const SMALL = [2n, 3n, 5n, 7n, 11n, 13n, 17n, 19n, 23n, 29n, 31n, 37n];
export function isPrime(n: bigint): boolean {
  if (n < 2n) return false;
  for (const p of SMALL) if (n % p === 0n) return n === p;
  let d = n - 1n, s = 0;
  while (!(d & 1n)) {
    d >>= 1n;
    s++;
  }
  outer: for (const a of SMALL) {
    let x = powmod(a, d, n);
    if (x === 1n || x === n - 1n) continue;
    for (let i = 1; i < s; i++) {
      x = x * x % n;
      if (x === n - 1n) continue outer;
    }
    return false;
  }
  return true;
}
/** Telegram's well-known 2048-bit safe prime. */
export const DH_PRIME = BigInt(
  "0xc71caeb9c6b1c9048e6c522f70f13f73980d40238e3e21c14934d037563d930f48198a0aa7c14058229493d22530f4dbfa336f6e0ac925139543aed44cce7c3720fd51f69458705ac68cd4fe6b6b13abdc9746512969328454f18faf8c595f642477fe96bb2a941d5bcd1d4ac8cc49880708fa9b378e3c4f3a9060bee67cf9a4a4a695811051907e162753b56b0f6b410dba74d8a84b2a14b3144e0ef1284754fd17ed950d5965b4b9dd46582db1178d169c6bc465b0d6ff9ca3928fef5b9ae4e418fc15e83ebea0f87fa9ff5eed70050ded2849f47bf959d956850ce929851f0d8115f635b105ee2e4e15d04b2454bf6f4fadf034b10403119cd8e3b92fcc5b",
);

export interface RsaKey {
  n: bigint;
  e: bigint;
  d: bigint;
  fingerprint: bigint;
}
function tlBytes(b: Uint8Array): U8 {
  const head = b.length < 254 ? [b.length] : [254, b.length & 255, (b.length >> 8) & 255, b.length >> 16];
  const pad = (4 - (head.length + b.length) % 4) % 4;
  return cat(head, b, new Uint8Array(pad));
}
const b64 = (s: string) => Uint8Array.from(atob(s.replaceAll("-", "+").replaceAll("_", "/")), (c) => c.charCodeAt(0));
export function makeRsa(pem?: string): RsaKey {
  const key = pem ? nc.createPrivateKey(pem) : nc.generateKeyPairSync("rsa", { modulusLength: 2048, publicExponent: 65537 }).privateKey;
  const j = key.export({ format: "jwk" }) as { n: string; e: string; d: string };
  const n = be(b64(j.n)), e = be(b64(j.e)), d = be(b64(j.d));
  return { n, e, d, fingerprint: rsaFingerprint(n, e) };
}
export function rsaFingerprint(n: bigint, e: bigint): bigint {
  const h = sha1(tlBytes(minimalBe(n)), tlBytes(minimalBe(e)));
  return BigInt.asIntN(64, le(h.slice(12, 20)));
}
/** Undoes RSA_PAD; null when the embedded hash does not verify. */
export function rsaUnpad(enc: Uint8Array, k: RsaKey): U8 | null {
  if (enc.length !== 256) return null;
  const c = be(enc);
  if (c >= k.n) return null;
  const m = toBe(powmod(c, k.d, k.n), 256);
  const xored = m.slice(0, 32), aes = m.slice(32);
  const h = sha256(aes);
  const tempKey = xored.map((v, i) => v ^ h[i]);
  const dwh = igeDecrypt(aes, tempKey, new Uint8Array(32));
  const data = dwh.slice(0, 192).reverse();
  if (sha256(tempKey, data).some((v, i) => v !== dwh[192 + i])) return null;
  return data as U8;
}
