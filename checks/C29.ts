import { Rng } from "../lib/env.ts";
import { cat, Check, show } from "../lib/core.ts";
import * as F from "file:///repo/types/_file_id.ts";
// deno-lint-ignore no-explicit-any
type A = any;

const ck = new Check("C29", {
  level: "exploration",
  rule: "Generated file locations of every kind are serialised and parsed; the string is compared with an independent encoder of the format, the unique identifier with an independent definition of file identity. Every truncation of sampled strings is parsed too.",
  assumptions: ["The identifier format of the base commit (version 4.52, as in TDLib) is the intended one, so that stored identifiers stay valid"],
  quickSeconds: 40,
  thoroughSeconds: 400,
});
const PHOTO = [0, 1, 2, 11, 12, 20], OTHER = [3, 4, 5, 6, 7, 8, 9, 10, 13, 14, 15, 16, 17, 18, 19, 21];
const CLASS: Record<number, number> = { 0: 0, 1: 0, 2: 0, 11: 0, 12: 0, 20: 0, 14: 2, 15: 2, 6: 3, 7: 4 };
const cls = (t: number) => CLASS[t] ?? 1;
const I64 = [0n, 1n, -1n, 255n, 256n, 1n << 32n, (1n << 63n) - 1n, -(1n << 63n), 0x0102030405060708n];
const i64 = (r: Rng) => r.bool(0.3) ? r.pick(I64) : BigInt.asIntN(64, r.big(64));
const i32 = (r: Rng) => r.pick([0, 1, -1, 2147483647, -2147483648, r.int(-1e9, 1e9)]);
function source(r: Rng, type: number): A {
  switch (type) {
    case 0:
      return { type, secret: i64(r) };
    case 1:
      return { type, fileType: r.pick([0, 2, 20]), thumbnailType: r.pick([97, 98, 99, 100, 109, 115, 120, 121, 119, 105, r.int(0, 127)]) };
    case 2:
    case 3:
      return { type, chatId: i64(r), chatAccessHash: i64(r) };
    case 4:
      return { type, stickerSetId: i64(r), stickerSetAccessHash: i64(r) };
    case 5:
      return { type, volumeId: i64(r), localId: i32(r), secret: i64(r) };
    case 6:
    case 7:
      return { type, chatId: i64(r), chatAccessHash: i64(r), volumeId: i64(r), localId: i32(r) };
    case 8:
      return { type, stickerSetId: i64(r), stickerSetAccessHash: i64(r), volumeId: i64(r), localId: i32(r) };
    default:
      return { type, stickerSetId: i64(r), stickerSetAccessHash: i64(r), version: i32(r) };
  }
}
const URLS = ["", "http://a", "https://example.com/ü?x=1", "x".repeat(253), "y".repeat(254), "z".repeat(1000)];
function gen(r: Rng): A {
  const dcId = r.pick([1, 2, 3, 4, 5, 0, 203]);
  const fileReference = r.bool(0.7) ? r.bytes(r.pick([0, 1, 2, 3, 4, 20, 21, 253, 254, 255, 300])) : undefined;
  const k = r.int(0, 9);
  if (k === 0) return { type: r.pick([...PHOTO, ...OTHER]), dcId, location: { type: "web", url: r.pick(URLS) + r.int(0, 9), accessHash: i64(r) } };
  if (k < 7) return { type: r.pick(PHOTO), dcId, fileReference, location: { type: "photo", id: i64(r), accessHash: i64(r), source: source(r, r.int(0, 9)) } };
  return { type: r.pick(OTHER), dcId, fileReference, location: { type: "common", id: i64(r), accessHash: i64(r) } };
}
function norm(f: A): string {
  return JSON.stringify(f, (_k, v) => typeof v === "bigint" ? v + "n" : v instanceof Uint8Array ? "x" + [...v] : v && typeof v === "object" ? Object.fromEntries(Object.keys(v).sort().filter((k) => v[k] !== undefined).map((k) => [k, v[k]])) : v);
}
const le32 = (n: number) => {
  const b = new Uint8Array(4);
  new DataView(b.buffer).setInt32(0, n, true);
  return b;
};
const le64 = (n: bigint) => {
  const b = new Uint8Array(8);
  new DataView(b.buffer).setBigInt64(0, n, true);
  return b;
};
const blob = (x: Uint8Array) => {
  const h = x.length < 254 ? [x.length] : [254, x.length & 255, x.length >> 8 & 255, x.length >> 16];
  return cat(h, x, new Uint8Array((4 - (h.length + x.length) % 4) % 4));
};
function pack(b: Uint8Array) {
  const out: number[] = [];
  for (let i = 0; i < b.length;) {
    if (b[i]) out.push(b[i++]);
    else {
      let n = 0;
      while (i < b.length && !b[i] && n < 255) n++, i++;
      out.push(0, n);
    }
  }
  return btoa(String.fromCharCode(...out)).replaceAll("+", "-").replaceAll("/", "_").replace(/=+$/, "");
}
function encode(f: A) {
  const l = f.location, web = l.type === "web";
  const parts: Uint8Array[] = [le32(f.type | (web ? 1 << 24 : 0) | (f.fileReference ? 1 << 25 : 0)), le32(f.dcId)];
  if (web) parts.push(blob(new TextEncoder().encode(l.url)), le64(l.accessHash));
  else {
    if (f.fileReference) parts.push(blob(f.fileReference));
    parts.push(le64(l.id), le64(l.accessHash));
    if (l.type === "photo") {
      const s = l.source;
      parts.push(le32(s.type));
      const order: Record<number, string[]> = { 0: ["secret"], 1: ["fileType", "thumbnailType"], 2: ["chatId", "chatAccessHash"], 3: ["chatId", "chatAccessHash"], 4: ["stickerSetId", "stickerSetAccessHash"], 5: ["volumeId", "localId", "secret"], 6: ["chatId", "chatAccessHash", "volumeId", "localId"], 7: ["chatId", "chatAccessHash", "volumeId", "localId"], 8: ["stickerSetId", "stickerSetAccessHash", "volumeId", "localId"], 9: ["stickerSetId", "stickerSetAccessHash", "version"] };
      for (const k of order[s.type]) parts.push(typeof s[k] === "bigint" ? le64(s[k]) : le32(s[k]));
    }
  }
  return pack(cat(...parts, [52, 4]));
}
/** what a file is, whoever refers to it; null when the kind has no unique identifier */
function identity(f: A): string | null {
  const l = f.location;
  if (l.type === "web") return "web" + l.url;
  if (l.type === "common") return cls(f.type) + "/" + l.id;
  const s = l.source;
  switch (s.type) {
    case 0:
    case 4:
      return null;
    case 1:
      return `${cls(f.type)}/${l.id}/${s.thumbnailType === 97 ? "small" : s.thumbnailType === 99 ? "big" : "t" + s.thumbnailType}`;
    case 2:
      return `${cls(f.type)}/${l.id}/small`;
    case 3:
      return `${cls(f.type)}/${l.id}/big`;
    case 9:
      return `${cls(f.type)}/set/${s.stickerSetId}/${s.version}`;
    default:
      return `${cls(f.type)}/${l.id}/${s.volumeId}/${s.localId}`;
  }
}
function mutate(r: Rng, f: A): A {
  const g = structuredClone(f);
  const l = g.location;
  switch (r.int(0, 6)) {
    case 0:
      l.accessHash = i64(r);
      break;
    case 1:
      if (l.type !== "web") g.fileReference = r.bool() ? r.bytes(r.int(0, 30)) : undefined;
      break;
    case 2:
      g.dcId = r.int(1, 5);
      break;
    case 3:
      if (l.type === "web") l.url += "a";
      else l.id = BigInt.asIntN(64, l.id + 1n);
      break;
    case 4:
      if (l.type === "photo") l.source = source(r, r.bool() ? l.source.type : r.int(0, 9));
      break;
    case 5:
      g.type = l.type === "photo" ? r.pick(PHOTO) : l.type === "common" ? r.pick(OTHER) : g.type;
      break;
    default:
      if (l.type === "photo") {
        for (const k of Object.keys(l.source)) if (k !== "type" && r.bool(0.4)) l.source[k] = typeof l.source[k] === "bigint" ? i64(r) : k === "thumbnailType" ? r.int(0, 127) : k === "fileType" ? r.pick([0, 2]) : i32(r);
      }
  }
  return g;
}
ck.part("round-trip", { quick: 30000, thorough: 800000, weight: 2 }, (t) => {
  const r = t.rng, f = gen(r);
  const before = norm(f);
  const s = F.serializeFileId(f);
  t.sig(s);
  t.state("kinds", f.type + f.location.type + (f.location.source?.type ?? ""));
  t.ensure(before === norm(f), "mutated", "serialising changes the location object");
  t.ensure(s === encode(f), "format", `${norm(f)} serialises to ${s}, the format says ${encode(f)}`);
  const g = F.deserializeFileId(s);
  t.ensure(norm(g) === norm(f), "lossless", `${norm(f)} comes back as ${norm(g)}`);
  const h = mutate(r, f);
  t.ensure((F.serializeFileId(h) === s) === (norm(h) === norm(f)), "distinct", `${norm(f)} and ${norm(h)} share the string ${s}`);
  const a = identity(f), b = identity(h);
  if (a !== null) {
    const u = F.toUniqueFileId(f);
    t.ensure(u.length > 0 && u === F.toUniqueFileId(F.deserializeFileId(s)), "unique-stable", `the unique identifier of ${norm(f)} changes after parsing`);
    if (b !== null) {
      t.ensure((F.toUniqueFileId(h) === u) === (a === b), a === b ? "unique-differs" : "unique-collides", `${norm(f)} and ${norm(h)} are ${a === b ? "the same file" : "different files"} but their unique identifiers are ${u} and ${F.toUniqueFileId(h)}`);
      t.count(a === b ? "same file pairs" : "different file pairs");
    }
  }
});
ck.part("malformed", { quick: 400, thorough: 15000 }, (t) => {
  const r = t.rng, f = gen(r), s = F.serializeFileId(f);
  t.sig(s);
  const tryIt = (x: string) => {
    try {
      return norm(F.deserializeFileId(x));
    } catch (e) {
      return e instanceof Error ? null : "throws a non-error";
    }
  };
  for (let n = 0; n < s.length; n++) {
    const got = tryIt(s.slice(0, n));
    t.ensure(got === null || got === norm(f), "truncated", `the first ${n} of ${s.length} characters of an identifier parse as ${got}`);
    t.count("truncations");
  }
  for (const junk of ["", "!!!", "A", "abc", "ключ", "AAAA", s + "!", s.slice(0, -1) + (s.endsWith("B") ? "C" : "B") + "AA"]) {
    const got = tryIt(junk);
    t.ensure(got === null || got === norm(f) || junk.length > s.length, "junk", `${show(junk)} parses as ${got}`);
  }
  // other versions of the format
  const raw = Uint8Array.from(atob(s.replaceAll("-", "+").replaceAll("_", "/") + "=".repeat((4 - s.length % 4) % 4)), (c) => c.charCodeAt(0));
  for (const v of [1, 2, 3, 5, 255]) {
    raw[raw.length - 1] = v;
    const x = btoa(String.fromCharCode(...raw)).replaceAll("+", "-").replaceAll("/", "_").replace(/=+$/, "");
    t.ensure(tryIt(x) === null, "version", `an identifier of format version ${v} parses`);
  }
});
ck.part("photos", { quick: 3000, thorough: 60000 }, (t) => {
  const r = t.rng;
  const size = (): A => {
    const type = r.pick(["s", "m", "x", "y", "w", "a", "b", "c"]);
    const k = r.int(0, 4);
    const big = r.int(1, 1e6);
    return k === 0 ? { _: "photoStrippedSize", type: "i", bytes: r.bytes(3) } : k === 1 ? { _: "photoSizeProgressive", type, w: 1, h: 1, sizes: r.shuffle([big, big >> 1, big >> 2]) } : { _: "photoSize", type, w: 1, h: 1, size: big };
  };
  const sizes = Array.from({ length: r.int(1, 6) }, size);
  const sized = sizes.filter((s) => s.size ?? s.sizes);
  if (!sized.length) return;
  const max = Math.max(...sized.map((s) => s.size ?? Math.max(...s.sizes)));
  const best = sized.filter((s) => (s.size ?? Math.max(...s.sizes)) === max).map((s) => s.type);
  const photo: A = { _: "photo", id: i64(r), access_hash: i64(r), file_reference: r.bytes(20), date: 1, dc_id: r.int(1, 5), sizes };
  const story = r.bool();
  const got = F.getPhotoFileId(photo, story);
  const f: A = F.deserializeFileId(got.fileId);
  t.sig(got.fileId);
  t.ensure(f.dcId === photo.dc_id && f.location.id === photo.id && f.location.accessHash === photo.access_hash && norm(f.fileReference) === norm(photo.file_reference), "photo-location", `the photo ${norm(photo)} gets identifier ${norm(f)}`);
  t.ensure(f.type === (story ? 20 : 2) && f.location.source.type === 1 && best.includes(String.fromCharCode(f.location.source.thumbnailType)), "photo-size", `of ${norm(sizes)} the identifier names ${norm(f)}`);
  t.ensure(F.toUniqueFileId(f) === got.fileUniqueId, "photo-unique", "the photo's unique identifier does not belong to its identifier");
});
await ck.main();
