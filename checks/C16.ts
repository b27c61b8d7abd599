import { randomOverride } from "../lib/env.ts";
import { cat, Check, same, show } from "../lib/core.ts";
import { Ctr, sha256 } from "../lib/ref.ts";
import { getObfuscationParameters } from "file:///repo/transport/0_obfuscation.ts";
import { CTR } from "file:///repo/1_utilities.ts";
import * as T from "file:///repo/3_transport.ts";

const ck = new Check("C16", {
  level: "exploration",
  rule: "Random sources are scripted so that reserved preambles come up first; the preamble actually written is opened by a reference peer, and both stream directions are compared with a reference AES-256-CTR under random chunking, counter carries and concurrency. Non-trivial when the (draw script, secret kind, chunking) is new.",
  assumptions: [],
  quickSeconds: 40,
  thoroughSeconds: 500,
});
// deno-lint-ignore no-explicit-any
type A = any;
const RESERVED = [0x44414548, 0x54534f50, 0x20544547, 0x4954504f, 0x02010316, 0xdddddddd, 0xeeeeeeee];

ck.part("preamble", { quick: 4000, thorough: 80000, weight: 2 }, async (t) => {
  const r = t.rng;
  const tags = [0xefefefef, 0xeeeeeeee, 0xdddddddd];
  const protocol = r.pick(tags);
  const base = r.bytes(16);
  const kind = r.int(0, 4);
  const secret: Uint8Array | undefined = kind === 0 ? undefined : kind === 1 ? base : kind === 2 ? cat([0xdd], base) : cat([0xee], base, r.bytes(r.int(1, 60)));
  const dcId = r.bool(0.2) ? undefined : (r.int(1, 5) + (r.bool(0.3) ? 10000 : 0)) * (r.bool() ? -1 : 1);
  // script of bad first draws
  const bad = Array.from({ length: r.int(0, 4) }, () => r.int(0, 8));
  let draws = 0;
  randomOverride.fn = (v) => {
    if (v.length < 8) return false;
    const k = bad[draws++];
    if (k === undefined) return false;
    r.fill(v);
    const dv = new DataView(v.buffer, v.byteOffset, v.length);
    if (k === 0) v[0] = 0xef;
    else if (k === 8) {
      v[0] = 1;
      dv.setUint32(4, 0, true);
    } else dv.setUint32(0, RESERVED[k - 1], true);
    return true;
  };
  const out: Uint8Array[] = [];
  let p: A;
  try {
    p = await getObfuscationParameters(protocol, { write: (b: Uint8Array) => void out.push(b.slice()) } as A, dcId === undefined && secret === undefined && r.bool() ? undefined : { dcId, secret } as A);
  } finally {
    randomOverride.fn = null;
  }
  const w = cat(...out);
  t.sig(`${protocol}/${kind}/${dcId}/${bad.join()}/${secret?.length}`);
  t.count("reserved draws offered", bad.length);
  t.ensure(w.length === 64, "preamble-length", `preamble of ${w.length} bytes`);
  const dv = new DataView(w.buffer);
  t.ensure(w[0] !== 0xef && !RESERVED.includes(dv.getUint32(0, true)) && dv.getUint32(4, true) !== 0, "reserved", () => `preamble begins with a reserved sequence: ${show(w.subarray(0, 8))}`);
  const key = (b: Uint8Array) => secret ? sha256(cat(b.slice(8, 40), base)) : b.slice(8, 40);
  const dec = new Ctr(key(w), w.slice(40, 56));
  const plain = dec.call(w);
  t.ensure(new DataView(plain.buffer).getUint32(56, false) === protocol, "framing-tag", () => `announces framing ${show(plain.subarray(56, 60))}`);
  if (dcId !== undefined) t.ensure(new DataView(plain.buffer).getInt16(60, true) === dcId, "dc-id", () => `announces data centre ${new DataView(plain.buffer).getInt16(60, true)} instead of ${dcId}`);
  const rev = w.slice().reverse();
  const enc = new Ctr(key(rev), rev.slice(40, 56));
  for (let i = 0; i < r.int(1, 6); i++) {
    const a = r.bytes(r.pick([1, 3, 15, 16, 17, 31, 64, 500])), b = r.bytes(r.pick([1, 4, 16, 33, 200]));
    t.ensure(same(dec.call(await p.encryptionCTR.call(a)), a), "client-stream", "the peer cannot decipher what the client sends");
    t.ensure(same(await p.decryptionCTR.call(enc.call(b)), b), "server-stream", "the client cannot decipher what the peer sends");
  }
});

ck.part("ctr-stream", { quick: 6000, thorough: 120000, weight: 2 }, async (t) => {
  const r = t.rng;
  const key = r.bytes(32), iv = r.bytes(16);
  const carry = r.int(0, 6);
  if (carry) iv.fill(0xff, 16 - r.int(1, 16)); // counter overflows within the stream
  if (carry > 4) iv[15] = 0xff - r.int(0, 4);
  const c = new CTR(await CTR.importKey(key), iv);
  const iv0 = iv.slice();
  const ref = new Ctr(key, iv0);
  const n = r.int(1, 14);
  const parts = Array.from({ length: n }, () => r.bytes(r.pick([0, 1, 2, 7, 15, 16, 17, 31, 32, 33, 48, 100, r.int(0, 300), t.index % 50 === 0 ? 5000 + r.int(0, 20) : 5])));
  const originals = parts.map((p) => p.slice());
  const conc = r.bool(0.4);
  const got: Uint8Array[] = [];
  if (conc) got.push(...await Promise.all(parts.map((p) => c.call(p))));
  else for (const p of parts) got.push(await c.call(p));
  t.sig(`${conc}/${carry}/${parts.map((p) => p.length).join()}`);
  t.count("chunks enciphered", n);
  for (let i = 0; i < n; i++) {
    const want = originals[i].length ? ref.call(originals[i]) : new Uint8Array();
    t.ensure(same(got[i], want), "ctr", () => `chunk ${i} of ${parts.map((p) => p.length)} differs from counter mode`, { key, iv: iv0 });
    t.ensure(same(parts[i], originals[i]), "input-changed", "the cipher changed its input");
  }
});

ck.part("ctr-carry", { quick: 300, thorough: 3000 }, async (t) => {
  // far beyond 256 blocks, in one or several calls
  const r = t.rng;
  const key = r.bytes(32), iv = r.bytes(16);
  iv.fill(0xff, r.int(0, 15));
  const c = new CTR(await CTR.importKey(key), iv.slice());
  const ref = new Ctr(key, iv);
  const lens = Array.from({ length: r.int(2, 4) }, () => r.pick([4096, 4095, 4097, 65536, 65537, 1 << 20, r.int(1, 70000)]));
  t.sig(lens.join());
  for (const n of lens) {
    const b = new Uint8Array(n).fill(n & 255);
    t.ensure(same(await c.call(b), ref.call(b)), "ctr", `stream differs after calls of ${lens}`);
  }
});

ck.part("providers", { quick: 400, thorough: 4000 }, async (t) => {
  // transports as the providers build them, for every data centre and secret kind
  const r = t.rng;
  const dc = r.pick(["1", "2", "3", "4", "5", "1-test", "2-test", "3-test"] as const);
  const isMedia = r.bool();
  const base = r.bytes(16);
  const kind = r.int(0, 2);
  const out: Uint8Array[] = [];
  let provided: A, secret: Uint8Array | null = null, tag = 0xee, withDc = true;
  if (kind === 0) {
    provided = T.transportProviderWebSocket({ wss: r.bool() })({ dc, isMedia });
  } else if (kind === 1) {
    secret = base;
    tag = 0xdd;
    const s = r.bool() ? cat([0xdd], base) : r.bool() ? base : cat([0xee], base, r.bytes(9));
    provided = r.bool()
      ? T.transportProviderMtproxy("127.0.0.1", 443, s)({ dc, isMedia })
      : T.transportProviderMtproxy(`${r.pick(["tg://proxy", "https://t.me/proxy"])}?server=127.0.0.1&port=443&secret=${[...s].map((x) => x.toString(16).padStart(2, "0")).join("")}`)({ dc, isMedia });
  } else {
    tag = 0xef;
    withDc = false;
    provided = T.transportProviderTcp({ obfuscated: true })({ dc, isMedia });
  }
  provided.connection.write = (b: Uint8Array) => void out.push(b.slice());
  await provided.transport.initialize();
  const w = cat(...out);
  const key = secret ? sha256(cat(w.slice(8, 40), secret)) : w.slice(8, 40);
  const plain = new Ctr(key, w.slice(40, 56)).call(w);
  const want = (Number(dc[0]) + (dc.endsWith("test") ? 10000 : 0)) * (isMedia ? -1 : 1);
  t.sig(`${dc}/${isMedia}/${kind}`);
  t.ensure(plain.subarray(56, 60).every((x) => x === tag), "framing-tag", `kind ${kind} announces ${show(plain.subarray(56, 60))}`);
  if (withDc) t.ensure(new DataView(plain.buffer).getInt16(60, true) === want, "dc-id", () => `${dc} media=${isMedia} announces ${new DataView(plain.buffer).getInt16(60, true)}`);
  t.ensure(provided.dcId === want, "provider-dc-id", `provider reports ${provided.dcId} instead of ${want}`);
});
await ck.main();
