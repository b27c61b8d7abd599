// deno-lint-ignore-file no-explicit-any
import "../lib/env.ts";
import { cat, Check, hex, same, show } from "../lib/core.ts";
import { Disk, run, Site, vclock } from "../lib/site.ts";
import { anyFail, Broken, content, KB, pause, size } from "../lib/files.ts";
import { igeEncrypt } from "../lib/ref.ts";
import { InputError } from "file:///repo/0_errors.ts";
import { FileType, PhotoSourceType, serializeFileId } from "file:///repo/types/_file_id.ts";

const MB = KB * KB;
const ck = new Check("C28", {
  level: "exploration",
  rule: "Files of every kind and of sizes around chunk boundaries are read at random offsets and chunk sizes, alone and concurrently, fresh and cached, while part requests fail, wait, overtake one another or are aborted. What the reader gets is compared with the file, and every part request with what the protocol allows. A case is one client with its files, readers and scripts.",
  assumptions: ["Offsets of part requests are multiples of 1 KB, limits multiples of 1 KB up to 1 MB, and a request stays within one aligned megabyte; requests finer than 4 KB, or with a limit that does not divide a megabyte, carry the precise flag"],
  quickSeconds: 60,
  thoroughSeconds: 600,
});

interface File {
  kind: string;
  fileId: string;
  dc: number;
  want: Uint8Array; // what a reader should see
  held: Uint8Array; // what the service holds
  information?: string;
  matches: (l: any) => boolean;
}
let ids = 1000n;
function file(r: any, chunk: number, parts: number, like?: File[]): File[] {
  const id = ++ids, dc = r.int(1, 5), ref = r.bytes(r.int(1, 30)), hash = r.u32() as number;
  const n = r.bool(0.05) ? 0 : size(r, chunk, parts);
  const want = content(r, n);
  const access = BigInt(hash) - 5n;
  const mk = (kind: string, spec: any, matches: (l: any) => boolean, w = want): File => ({ kind, fileId: serializeFileId({ dcId: dc, fileReference: ref, ...spec } as never), dc, want: w, held: w, matches });
  const L = (l: any) => l.id === id && l.access_hash === access;
  const R = (l: any) => L(l) && same(l.file_reference, ref);
  void like;
  switch (r.pick(["document", "document", "video", "photo", "sizes", "profile", "encrypted", "encrypted", "thumb"])) {
    case "document":
    case "video":
      return [mk("document", { type: r.pick([FileType.Document, FileType.Video, FileType.Sticker, FileType.VoiceNote]), location: { type: "common", id, accessHash: access } }, (l) => l._ === "inputDocumentFileLocation" && R(l) && l.thumb_size === "")];
    case "photo":
      return [mk("photo", { type: FileType.Photo, location: { type: "photo", id, accessHash: access, source: { type: PhotoSourceType.Thumbnail, fileType: FileType.Photo, thumbnailType: "y".charCodeAt(0) } } }, (l) => l._ === "inputPhotoFileLocation" && R(l) && l.thumb_size === "y")];
    case "sizes": {
      // two sizes of one photo and its document-like namesake
      const b = content(r, size(r, chunk, parts));
      const one = (ch: string, w: Uint8Array) => mk("photo-size", { type: FileType.Photo, location: { type: "photo", id, accessHash: access, source: { type: PhotoSourceType.Thumbnail, fileType: FileType.Photo, thumbnailType: ch.charCodeAt(0) } } }, (l) => l._ === "inputPhotoFileLocation" && R(l) && l.thumb_size === ch, w as any);
      return [one("m", want), one("x", b)];
    }
    case "thumb":
      return [
        mk("thumb", { type: FileType.Thumbnail, location: { type: "photo", id, accessHash: access, source: { type: PhotoSourceType.Thumbnail, fileType: FileType.Thumbnail, thumbnailType: "s".charCodeAt(0) } } }, (l) => l._ === "inputDocumentFileLocation" && R(l) && l.thumb_size === "s"),
        mk("document", { type: FileType.Document, location: { type: "common", id, accessHash: access } }, (l) => l._ === "inputDocumentFileLocation" && R(l) && l.thumb_size === "", content(r, size(r, chunk, parts))),
      ];
    case "profile": {
      const chat = r.pick([5001n, -77n, -1000000000123n]);
      const one = (big: boolean, w: Uint8Array) => mk("profile", { type: FileType.ProfilePhoto, location: { type: "photo", id, accessHash: access, source: { type: big ? PhotoSourceType.ChatPhotoBig : PhotoSourceType.ChatPhotoSmall, chatId: chat, chatAccessHash: 99n } } }, (l) => l._ === "inputPeerPhotoFileLocation" && l.photo_id === id && !!l.big === big && (l.peer.user_id === 5001n && l.peer.access_hash === 99n || l.peer.chat_id === 77n || l.peer.channel_id === 123n && l.peer.access_hash === 99n), w as any);
      return [one(true, want), one(false, content(r, size(r, chunk, parts)))];
    }
    case "encrypted": {
      if (!n) return file(r, chunk, parts);
      const key = r.bytes(32), iv = r.bytes(32);
      const pad = (16 - n % 16) % 16;
      const f = mk("encrypted", { type: FileType.Encrypted, fileReference: undefined, location: { type: "common", id, accessHash: access } }, (l) => l._ === "inputEncryptedFileLocation" && L(l));
      f.held = igeEncrypt(cat(want, r.bytes(pad)), key, iv);
      f.information = "0" + hex(key) + hex(iv) + n;
      return [f];
    }
  }
  throw 0;
}

interface Reading {
  requests: number;
  last: number;
  inFlight: number;
  max: number;
}
class Service {
  files: File[] = [];
  fail: (() => any) | null = null;
  wait: () => number = () => 0;
  requests = 0;
  last = 0;
  /** requests of one file, by (offset, limit), that failed so far */
  fails = new Map<string, { n: number; at: number; flood: number }>();
  constructor(public t: any) {}
  find(l: any): File {
    const f = this.files.filter((f) => f.matches(l));
    this.t.ensure(f.length === 1, "location", () => `a part of ${show(l)} was requested, which is ${f.length} of the files`);
    return f[0];
  }
  legal(q: any) {
    const t = this.t, o = Number(q.offset), l = q.limit;
    t.ensure(o >= 0 && o % KB === 0 && l > 0 && l % KB === 0 && l <= MB, "alignment", `a part request has offset ${o} and limit ${l}`);
    t.ensure(Math.floor(o / MB) === Math.floor((o + l - 1) / MB), "crosses-megabyte", `a part request at ${o} of ${l} bytes crosses a megabyte boundary`);
    if (o % 4096 || l % 4096 || MB % l) t.ensure(q.precise, "not-precise", `a part request at ${o} of ${l} bytes is not marked precise`);
  }
  read(q: any): any {
    const f = this.find(q.location);
    return { _: "upload.file", type: { _: "storage.filePartial" }, mtime: 1, bytes: f.held.slice(Number(q.offset), Number(q.offset) + q.limit) };
  }
  /** the service behind client.invoke */
  stub() {
    return async (q: any, params: any) => {
      const t = this.t;
      t.ensure(q._ === "upload.getFile", "other-call", `unexpected call ${q._}`);
      const f = this.find(q.location);
      t.ensure(params?.type === "download" && params?.dc === String(f.dc), "destination", `a part of a file in data centre ${f.dc} was requested with ${show(params)}`);
      this.legal(q);
      this.requests++;
      this.last = vclock.mono;
      t.count("requests");
      const w = this.wait();
      await (w ? pause(w) : t.rng.bool() ? Promise.resolve() : pause(0));
      const x = this.fail?.();
      if (x) {
        const key = f.fileId + q.offset;
        const n = (this.fails.get(key)?.n ?? 0) + 1;
        this.fails.set(key, { n, at: vclock.mono, flood: x.flood });
        const e = x.make(q);
        e.kind = { permanent: x.permanent, flood: x.flood, n };
        t.count("failures");
        throw e;
      }
      return this.read(q);
    };
  }
}

/** Reads a file as a user would and compares. */
async function reading(t: any, client: any, f: File, o: { chunk: number; offset: number; abortAt: number | null; reason: any; mutate: boolean; stopAfter: number; slow: number; fresh: boolean; sv: Service; hopeless: boolean }): Promise<string> {
  const controller = new AbortController();
  let abortedAt = -1;
  if (o.abortAt !== null) {
    if (o.abortAt < 0) controller.abort(o.reason), abortedAt = vclock.mono;
    else setTimeout(() => (abortedAt = vclock.mono, controller.abort(o.reason)), o.abortAt);
  }
  const want = f.want.subarray(o.offset);
  const what = `${f.kind} of ${f.want.length} bytes from ${o.offset} in chunks of ${o.chunk}`;
  let got = 0, n = 0, short = false, end = "done", e: any;
  const params: any = { chunkSize: o.chunk, offset: o.offset || (t.rng.bool() ? 0 : undefined), signal: o.abortAt !== null || t.rng.bool() ? controller.signal : undefined, fileInformation: f.information };
  if (o.chunk === MB && t.rng.bool()) delete params.chunkSize;
  const abortedBefore: boolean = abortedAt >= 0;
  try {
    for await (const b of client.download(f.fileId, params)) {
      n++;
      t.ensure(b instanceof Uint8Array, "chunk-type", `chunk ${n} is ${show(b)}`);
      t.ensure(!abortedBefore, "abort-ignored", `a chunk arrived although the reading of a ${what} was aborted before it began`);
      t.ensure(got + b.length <= want.length && same(b, want.subarray(got, got + b.length)), "bytes", () => `chunk ${n} (${b.length} bytes at ${got}) of a ${what} is not what the file holds there`);
      if (o.fresh && !(f.information && o.offset)) {
        t.ensure(!short, "short-chunk", `a chunk of other than ${o.chunk} bytes came before the last of a ${what}`);
        if (b.length !== o.chunk) short = true;
      }
      got += b.length;
      if (o.mutate) b.fill(0xAA);
      if (o.slow) await pause(t.rng.int(0, o.slow));
      if (n >= o.stopAfter) {
        end = "stopped";
        break;
      }
    }
  } catch (x) {
    e = x;
    end = "failed";
    if (x instanceof Error && x.name === "Violation") throw x;
  }
  const endedAt = vclock.mono;
  if (end === "failed") {
    const aborted = abortedAt >= 0 && (o.reason === undefined ? e?.name === "AbortError" : e === o.reason);
    const gaveUp = e?.kind && (e.kind.permanent || !e.kind.flood && (o.hopeless || e.kind.n >= 21));
    t.ensure(aborted || gaveUp, "wrong-error", () => `reading a ${what} failed with ${show(e)} ${e?.stack}`);
    end = aborted ? "aborted" : "gave up";
  } else if (end === "done") {
    t.ensure(got === want.length, "missing-bytes", `reading a ${what} ended after ${got} of ${want.length} bytes`);
    t.count("files_read");
    t.count("bytes_read", got);
  }
  t.count("ended_" + end.replace(" ", "_"));
  return end + endedAt;
}

ck.part("read", { quick: 1500, thorough: 60000, weight: 4, rejections: true }, async (t) => {
  const r = t.rng;
  const site = new Site(t);
  const disk = new Disk();
  const p = site.proc({ disk, diskOptions: { slow: r.pick([0, 0, 3]), files: r.bool(0.8) } });
  const sv = new Service(t);
  p.client.invoke = Object.assign(sv.stub(), p.client.invoke);
  const chunkOf = () => r.bool(0.08) ? r.pick([MB, MB / 2, 3 * KB * 100]) : r.pick([1, 1, 2, 3, 4, 5, 8, 16]) * KB;
  const base = chunkOf();
  for (let k = r.pick([1, 1, 2]); k > 0; k--) sv.files.push(...file(r, base, base > 20 * KB ? 4 : r.pick([3, 6, 12, 30])));
  const mode = r.pick(["clean", "clean", "faulty", "faulty", "hopeless", "permanent"]);
  const lat = r.pick([0, 5, 500]);
  sv.wait = () => lat ? r.int(0, lat) : 0;
  sv.fail = mode === "clean" ? null : () => r.bool(mode === "hopeless" ? 0.9 : 0.2) ? anyFail(r, mode === "permanent" ? 0.1 : 0) : null;
  const read: string[] = [];
  for (let round = r.pick([1, 2, 3]); round > 0; round--) {
    const jobs: Promise<unknown>[] = [];
    for (let k = r.pick([1, 1, 2, 3]); k > 0; k--) {
      const f = r.pick(sv.files);
      const chunk = r.bool(0.7) ? base : chunkOf();
      const offset = r.bool(0.6) ? 0 : r.pick([KB, Math.floor(f.want.length / KB) * KB, r.int(0, Math.ceil(f.want.length / KB) + 2) * KB, r.int(0, 3) * chunk]);
      const aborts = r.bool(0.15);
      const o = { chunk, offset, abortAt: aborts ? r.pick([-1, 0, 1, r.int(0, 3000), r.int(0, 100000)]) : null, reason: r.pick([new Broken("stop"), "text", undefined]), mutate: r.bool(0.3), stopAfter: r.bool(0.1) ? r.int(1, 4) : Infinity, slow: r.pick([0, 0, 3, 1000]), fresh: !disk.data.size && jobs.length === 0 && round > 0 && read.length === 0, sv, hopeless: mode === "hopeless" };
      jobs.push(reading(t, p.client, f, o).then((e) => {
        read.push(e.replace(/\d+/, ""));
        t.sig([f.kind, f.want.length, chunk, offset, mode, lat, e.replace(/[\d.]+/, "")].join());
      }));
    }
    await run(Promise.all(jobs), 300_000_000, "a download");
    // nothing goes on after the readers are gone
    const at = vclock.mono, n = sv.requests;
    await run(pause(1_200_000), 2_000_000);
    t.ensure(sv.last <= at + 1, "goes-on", `${sv.requests - n} part requests were made up to ${sv.last - at} ms after all downloads had ended`);
  }
  t.state("ends", read.join());
  t.sample({ files: sv.files.map((f) => [f.kind, f.want.length]), mode, lat, read });
});

ck.part("refused", { quick: 300, thorough: 5000 }, async (t) => {
  const r = t.rng;
  const site = new Site(t);
  const p = site.proc({});
  const sv = new Service(t);
  p.client.invoke = Object.assign(sv.stub(), p.client.invoke);
  let f: File;
  do [f] = file(r, KB, 4); while (!f.want.length);
  sv.files = [f];
  const cached = r.bool();
  const read = async (params: any) => {
    for await (const _ of p.client.download(f.fileId, params));
  };
  if (cached) await run(read({ fileInformation: f.information, chunkSize: KB }), 600000);
  const n = sv.requests;
  const base = { fileInformation: f.information };
  const bad: any = r.pick([
    { ...base, chunkSize: r.pick([0, -1024, 1, 1023, 1025, 1024.5, MB + KB, 2 * MB, NaN, Infinity, -Infinity]) },
    { ...base, offset: r.pick([-1024, 1, 1023, 1025, 1024.5, NaN, Infinity, -Infinity]) },
    ...(f.information ? [{ fileInformation: undefined }] : []),
    ...(f.information && !cached ? [{ fileInformation: "1" + f.information.slice(1) }] : []),
  ]);
  let e: any;
  try {
    await run(read(bad), 600000);
  } catch (x) {
    e = x;
  }
  t.ensure(e instanceof InputError, "accepted", `${show(bad)} of a ${cached ? "cached" : "fresh"} file ended with ${show(e)}`);
  t.ensure(sv.requests === n, "refused-requests", `${show(bad)} led to part requests`);
  t.sig([f.kind, cached, show({ ...bad, fileInformation: 0 })].join());
  t.count("refusals");
});

ck.part("chunk", { quick: 400, thorough: 10000, rejections: true }, async (t) => {
  const r = t.rng;
  const site = new Site(t);
  const p = site.proc({ diskOptions: { files: r.bool() } });
  const sv = new Service(t);
  const base = r.pick([1, 2, 3, 8]) * KB;
  let fs: File[];
  do fs = file(r, base, 6); while (!fs[0].want.length);
  sv.files = fs;
  p.client.invoke = Object.assign(sv.stub(), p.client.invoke);
  sv.wait = () => r.int(0, 20);
  for (let k = r.int(1, 3); k > 0; k--) {
    const f = r.pick(fs), chunkSize = r.bool(0.7) ? base : r.pick([1, 2, 5]) * KB, offset = r.int(0, Math.ceil(f.want.length / KB) - 1) * KB;
    if (r.bool(0.3)) {
      // the whole file or the beginning of it may be cached already
      const first = r.bool();
      await run((async () => {
        for await (const _ of p.client.download(f.fileId, { chunkSize: r.pick([1, 2]) * KB, fileInformation: f.information })) if (first) break;
      })(), 600000);
    }
    const want = f.want.subarray(offset, offset + chunkSize);
    const controller = new AbortController();
    const aborts = r.bool(0.3);
    const reason = new Broken("x");
    if (aborts) {
      if (r.bool(0.3)) controller.abort(reason);
      else setTimeout(() => controller.abort(reason), r.int(0, 10));
    }
    let e: any, b: any;
    try {
      b = await run(p.client.downloadChunk(f.fileId, { chunkSize, offset, fileInformation: f.information, signal: aborts ? controller.signal : undefined }), 600000);
    } catch (x) {
      e = x;
    }
    if (e) t.ensure(aborts && e === reason, "chunk-error", () => `downloadChunk failed with ${show(e)} ${e?.stack}`);
    else t.ensure(same(b, want), "chunk-bytes", `downloadChunk of ${chunkSize} bytes at ${offset} of a ${f.kind} of ${f.want.length} bytes returned ${b?.length} bytes, ${want.length} were wanted`);
    t.sig([f.kind, f.want.length, offset, chunkSize, aborts].join());
    t.count("chunks_read");
  }
});

ck.part("truncated", { quick: 200, thorough: 3000, rejections: true }, async (t) => {
  // the service holds less of an encrypted file than its description says
  const r = t.rng;
  const site = new Site(t);
  const p = site.proc({ diskOptions: { files: r.bool() } });
  const sv = new Service(t);
  p.client.invoke = Object.assign(sv.stub(), p.client.invoke);
  let f: File;
  do [f] = file(r, KB, 20); while (!f.information || !f.want.length);
  sv.files = [f];
  f.held = f.held.slice(0, 16 * r.int(0, f.held.length / 16 - 1));
  const chunk = r.pick([1, 2, 4]) * KB;
  let got = 0, e: any;
  await run((async () => {
    try {
      for await (const b of p.client.download(f.fileId, { chunkSize: chunk, fileInformation: f.information })) {
        t.ensure(same(b, f.want.subarray(got, got + b.length)), "truncated-bytes", `reading a file of ${f.want.length} bytes of which the service holds ${f.held.length} yields bytes that are not the file's after ${got}`);
        got += b.length;
      }
    } catch (x) {
      e = x;
    }
  })(), 600000, "reading a truncated file");
  if (t.first) throw t.first;
  t.ensure(e, "truncated-silent", `reading ended without an error after ${got} of ${f.want.length} bytes`);
  t.sig([f.want.length, f.held.length, chunk].join());
  t.count("truncations");
});

ck.part("wire", { quick: 150, thorough: 5000, weight: 2, rejections: true }, async (t) => {
  const r = t.rng;
  const site = new Site(t);
  const acc = site.account(77n);
  const disk = new Disk();
  const p = site.proc({ disk, params: { authString: site.authString(site.login(acc, 2)) } });
  await run(p.client.start(), 600000, "start()");
  const sv = new Service(t);
  const base = r.pick([1, 2, 8]) * KB;
  sv.files.push(...file(r, base, r.pick([3, 9])), ...file(r, base, 5));
  const faults = r.bool(0.7);
  const lat = r.pick([0, 20, 800]);
  site.server.latency = () => lat ? r.int(0, lat) : 0;
  site.delay = () => lat ? r.int(0, lat) : 0;
  let drops = faults ? r.pick([0, 1, 3]) : 0;
  site.on = (c) => {
    const q = c.call;
    if (q._ !== "upload.getFile" || c.sess.key.user !== acc) return undefined;
    const f = sv.find(q.location);
    sv.legal(q);
    t.ensure(Math.abs(c.link.dcId) % 10000 === f.dc && c.link.dcId < 0, "wire-dc", `a part of a file in data centre ${f.dc} was requested over a connection to ${c.link.dcId}`);
    t.count("wire_requests");
    if (faults && r.bool(0.1)) return { error: r.pick<[number, string]>([[420, "FLOOD_WAIT_3"], [420, "FLOOD_WAIT_25"], [500, "INTERNAL"]]) };
    if (drops && r.bool(0.1)) {
      drops--;
      t.count("drops");
      c.link.drop(r.bool());
    }
    return site.ok(c, sv.read(q));
  };
  const jobs: Promise<unknown>[] = [];
  for (let k = r.pick([1, 2, 3]); k > 0; k--) {
    const f = r.pick(sv.files), chunk = r.bool(0.7) ? base : r.pick([1, 4]) * KB;
    const offset = r.bool(0.6) ? 0 : r.int(0, Math.ceil(f.want.length / KB)) * KB;
    jobs.push(reading(t, p.client, f, { chunk, offset, abortAt: null, reason: 0, mutate: false, stopAfter: Infinity, slow: 0, fresh: false, sv, hopeless: false }));
    t.sig([f.kind, f.want.length, chunk, offset, faults, lat, f.dc].join());
  }
  await run(Promise.all(jobs), 30_000_000, "a download");
  p.kill();
});

await ck.main();
