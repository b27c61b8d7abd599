// deno-lint-ignore-file no-explicit-any
import "../lib/env.ts";
import { Check, deep, same, show } from "../lib/core.ts";
import { advance, run, Site, vclock } from "../lib/site.ts";
import { anyFail, Broken, content, Done, type Fail, KB, pause, site as web, size, source, THRESHOLD, Uploads } from "../lib/files.ts";
import { igeDecrypt, md5 } from "../lib/ref.ts";
import { InputError } from "file:///repo/0_errors.ts";
import { FileManager } from "file:///repo/client/2_file_manager.ts";

const ck = new Check("C27", {
  level: "exploration",
  rule: "Files of sizes around part and threshold boundaries are sent from every kind of source with scripted failures, flood waits, aborts and answer orders; the parts a service receives, their numbering, form, totals, concurrency, the descriptor and the progress reports are compared with the source. A case is one client with its uploads and scripts.",
  assumptions: ["The allowance is two requests per connection of the upload pool (four connections on data centres 2 and 4, eight elsewhere)", "Streams use the big form as soon as they need more than one part, their length not being known in advance"],
  quickSeconds: 60,
  thoroughSeconds: 600,
});

type Outcome = { fail: Fail | null; wait: number };
async function client(t: any, dc: number) {
  const site = new Site(t);
  const acc = site.account(77n);
  const p = site.proc({ params: { authString: site.authString(site.login(acc, dc)) } });
  await run(p.client.start(), 600000, "start()");
  return { site, acc, p };
}

ck.part("parts", { quick: 1500, thorough: 30000, weight: 4, rejections: true }, async (t) => {
  const r = t.rng;
  const dc = r.pick([1, 2, 4, 5]);
  const allowance = dc === 2 || dc === 4 ? 8 : 16;
  const { p } = await client(t, dc);
  const ups = new Uploads(t);
  const big = r.bool(0.04);
  const answers = new Map<string, Outcome[]>();
  const mode = r.pick(["clean", "clean", "faulty", "faulty", "hopeless", "permanent"]);
  const lat = r.pick([0, 5, 500]);
  const planned: any[] = [];
  let stopAt = Infinity; // after this no part may be sent
  const lastError = new Map<bigint, Error>();
  const real = p.client.invoke;
  p.client.invoke = Object.assign(async (q: any, params: any) => {
    if (q._ === "messages.sendMedia") throw new Done(q.media);
    if (!/^upload\.save/.test(q._)) return await real.call(p.client, q, params);
    t.ensure(params?.type === "upload", "connection-kind", `a part was sent with ${show(params)}`);
    const u = ups.begin(q);
    const part = u.parts.get(q.file_part)!;
    // how long a failed part must rest
    if (part.fails && part.flood) t.ensure(vclock.mono - part.lastFail >= part.flood * 1000, "flood", `part ${q.file_part} was repeated ${vclock.mono - part.lastFail} ms after a flood wait of ${part.flood} s`);
    const key = q.file_id + "/" + q.file_part;
    let l = answers.get(key);
    if (!l) {
      const n = mode === "clean" ? 0 : mode === "hopeless" && r.bool(0.15) ? 25 : r.pick([0, 0, 0, 1, 1, 2, 6]);
      answers.set(key, l = Array.from({ length: n }, () => ({ fail: anyFail(r, mode === "permanent" ? 0.1 : 0), wait: lat ? r.int(0, lat) : 0 })));
    }
    const x = l.shift() ?? { fail: null, wait: lat ? r.int(0, lat) : 0 };
    await (x.wait ? pause(x.wait) : r.bool() ? Promise.resolve() : pause(0));
    ups.end(u, q, !x.fail);
    part.flood = x.fail?.flood ?? 0;
    if (x.fail) {
      t.count("failures");
      const e = x.fail.make(q);
      (e as any).kind = { permanent: x.fail.permanent, flood: x.fail.flood, fails: part.fails };
      lastError.set(q.file_id, e);
      throw e;
    }
    return true;
  }, real);
  const jobs: Promise<void>[] = [];
  for (let k = big ? 1 : r.pick([1, 1, 1, 2, 3]); k > 0; k--) {
    const chunk = big ? r.pick([512 * KB, 256 * KB, 64 * KB]) : r.pick([1, 1, 2, 4, 16]) * KB;
    const n = big ? r.pick([THRESHOLD - 1, THRESHOLD, THRESHOLD + 1, THRESHOLD + chunk, THRESHOLD + r.int(0, chunk * 3)]) : size(r, chunk, r.pick([3, 9, 17, 40]));
    const bytes = content(r, n);
    const src = source(r, bytes, chunk, { plain: big && r.bool(0.7), fail: 0.1, stall: 0.1, urls: k === 1 });
    const given = r.bool(0.5) ? r.pick(["a.txt", "  b.bin ", "ünï.tgs", "no-ext"]) : undefined;
    const controller = new AbortController();
    const reason = r.pick([new Broken("stop"), "text", undefined]);
    const aborts = src.stalls || r.bool(0.15);
    let abortedAt = -1;
    if (aborts) {
      const when = r.pick([-1, 0, 1, r.int(0, 3000), r.int(0, 100000)]);
      if (when < 0) controller.abort(reason), abortedAt = vclock.mono;
      else setTimeout(() => (abortedAt = vclock.mono, controller.abort(reason)), when);
    }
    const progressId = r.bool(0.5) ? await p.client.getProgressId() : undefined;
    const thumb = r.bool(0.15) ? content(r, size(r, chunk, 3)) : undefined;
    const params: any = { chunkSize: chunk, signal: aborts || r.bool() ? controller.signal : undefined, fileName: given, progressId, thumbnail: thumb };
    const job = { src, chunk };
    planned.push(job);
    const before = bytes.slice();
    const idsBefore = new Set(ups.ups.keys());
    jobs.push((async () => {
      let e: any;
      try {
        await p.client.sendDocument("me", src.value, params);
      } catch (x) {
        e = x;
      }
      const endedAt = vclock.mono;
      const what = `${src.kind} of ${n} bytes in parts of ${chunk}`;
      t.sig([src.kind, n, chunk, mode, aborts, lat, e instanceof Done].join());
      const mine = progressId !== undefined ? ups.ups.get(BigInt(progressId)) : undefined;
      if (!(e instanceof Done)) {
        const fits = abortedAt >= 0 && (e === reason || reason === undefined && e?.name === "AbortError") || src.error && e === src.error || e?.kind && (e.kind.permanent || !e.kind.flood && e.kind.fails >= 21);
        t.ensure(fits, "wrong-error", () => `uploading a ${what} failed with ${show(e)} (${e?.stack})`);
        t.count(e === src.error ? "source_failed" : e?.kind ? "gave_up" : "aborted");
        if (mine) {
          // a failed upload sends nothing more
          await pause(400_000);
          t.ensure(mine.last <= endedAt, "sends-after-failure", `a failed upload (${show(e)}) of a ${what} sent part requests ${mine.last - endedAt} ms after it had failed`);
        }
        if (src.stalls && e !== reason && !(reason === undefined)) t.ensure(e?.kind, "stall", "unexpected");
        return;
      }
      t.ensure(!src.stalls && !src.error, "source-error-lost", `uploading a ${what} succeeded although its source ended with ${src.error}`);
      t.ensure(!(abortedAt >= 0 && abortedAt < endedAt), "abort-ignored", `an upload of a ${what} completed although it had been aborted ${endedAt - abortedAt} ms before`);
      t.ensure(same(before, bytes), "source-changed", "the source's bytes were changed");
      const m = e.media, f = m.file;
      if (progressId !== undefined) t.ensure(f.id === BigInt(progressId), "progress-id", "the upload has another identifier than its progress");
      t.ensure(!idsBefore.has(f.id), "file-id-reused", "an identifier was reused");
      ups.check({ file: f, bytes, chunk, stream: src.stream, allowance, once: true });
      if (given !== undefined || src.kind === "path" || src.kind !== "url") {
        let name = src.name ?? given?.trim() ?? "file";
        if (name.endsWith(".tgs")) name += "-";
        t.ensure(f.name === name, "name", `the descriptor is named ${f.name} instead of ${name}`);
      }
      if (thumb) {
        t.ensure(m.thumb && m.thumb.id !== f.id, "thumb", "the thumbnail's descriptor is missing");
        ups.check({ file: m.thumb, bytes: thumb, chunk, stream: false, allowance, once: true });
      }
      if (progressId !== undefined) {
        await pause(1);
        const l = p.got.filter((u) => u.type === "uploadProgress" && u.uploadProgress.id === progressId).map((u) => u.uploadProgress);
        t.ensure(l.length, "no-progress", "no progress was reported");
        let last = 0;
        for (const [i, x] of l.entries()) {
          t.ensure(x.uploaded >= last && x.uploaded <= n && (x.total === 0 && !x.isUploaded || x.total === n), "progress", () => `progress ${show(l)} for ${n} bytes`);
          last = x.uploaded;
          t.ensure(x.isUploaded === (i === l.length - 1), "progress-end", () => `progress ${show(l)} for ${n} bytes`);
        }
        t.ensure(last === n, "progress-size", () => `progress ended at ${last} of ${n}`);
        t.count("progress_reports", l.length);
      }
    })());
    if (k > 1 && r.bool()) await advance(r.pick([0, 1, 1000]));
  }
  t.sample({ mode, dc, files: planned.map((j) => [j.src.kind, j.src.bytes.length, j.chunk, j.src.stalls, String(j.src.error)]) });
  try {
    await run(Promise.all(jobs), 30_000_000, "an upload");
  } finally {
    web.serve = null;
  }
  void stopAt;
  p.kill();
});

// files of secret chats
ck.part("encrypted", { quick: 300, thorough: 8000, rejections: true }, async (t) => {
  const r = t.rng;
  const ups = new Uploads(t);
  const fails = r.bool(0.5), lat = r.pick([0, 5, 500]);
  vclock.reset();
  const pool = r.pick([1, 4, 8]);
  const fm = new FileManager({
    id: 1,
    getUploadPoolSize: () => Promise.resolve(pool),
    handleUpdate: () => {},
    invoke: async (q: any) => {
      const u = ups.begin(q), part = u.parts.get(q.file_part)!;
      await (lat ? pause(r.int(0, lat)) : Promise.resolve());
      const f = fails && part.fails < 3 && r.bool(0.3) ? anyFail(r, 0) : null;
      ups.end(u, q, !f);
      if (f) throw f.make(q);
      return true;
    },
  } as any);
  for (let k = r.pick([1, 2]); k > 0; k--) {
    const big = r.bool(0.008);
    const chunk = big ? 512 * KB : r.pick([1, 1, 2, 16]) * KB;
    const n = big ? r.pick([THRESHOLD, THRESHOLD + 1, THRESHOLD + r.int(1, 700) * KB]) : r.bool(0.4) ? r.int(1, 40) : size(r, chunk, r.pick([3, 9, 17]));
    const bytes = content(r, n), key = r.bytes(32), iv = r.bytes(32);
    const src = source(r, bytes, chunk, { plain: big && r.bool(0.5), fail: 0, stall: 0, urls: false });
    const what = `encrypted ${src.kind} of ${n} bytes in parts of ${chunk}`;
    t.sig([src.kind, n, chunk, lat].join());
    const before = bytes.slice(), k0 = key.slice(), iv0 = iv.slice();
    const out: any = await run(fm.upload(src.value as any, { chunkSize: chunk }, null, true, { key, iv } as any), 30_000_000, what);
    t.ensure(same(before, bytes) && same(k0, key) && same(iv0, iv), "source-changed", `the source, key or vector of an ${what} was changed`);
    const f = out.inputEncryptedFile, u = ups.ups.get(f.id);
    t.ensure(u, "unknown-file", `the descriptor names file ${f.id}, for which no part was sent`);
    const parts = Math.ceil(n / chunk);
    t.ensure(f.parts === parts && u.parts.size === parts, "part-count", `an ${what} has ${u.parts.size} parts, described as ${f.parts}`);
    const isBig = src.stream ? parts > 1 : n > THRESHOLD;
    t.ensure(u.big === isBig && f._ === (isBig ? "inputEncryptedFileBigUploaded" : "inputEncryptedFileUploaded"), "form", `an ${what} was sent as ${f._}`);
    t.ensure(out.fileSize === n, "file-size", `an ${what} is described as of ${out.fileSize} bytes`);
    const l = Array.from({ length: parts }, (_, i) => u.parts.get(i));
    for (const [i, p] of l.entries()) {
      t.ensure(p && p.accepted === 1, "part-accepted", `part ${i} of an ${what} was accepted ${p?.accepted ?? 0} times`);
      t.ensure(p.bytes.length === (i < parts - 1 ? chunk : Math.ceil((n - i * chunk) / 16) * 16), "part-size", `part ${i} of an ${what} has ${p.bytes.length} bytes`);
      if (isBig) t.ensure(p.total === parts || src.stream && p.total === -1 && i < parts - 1, "part-total", `part ${i} announced ${p.total} parts of ${parts}`);
    }
    const all = new Uint8Array(l.reduce((a, p) => a + p!.bytes.length, 0));
    let at = 0;
    for (const p of l) all.set(p!.bytes, at), at += p!.bytes.length;
    const plain = igeDecrypt(all, key, iv);
    t.ensure(same(plain.subarray(0, n), bytes), "not-decryptable", `an ${what} does not decrypt to its source`);
    const d = md5(new Uint8Array([...key, ...iv]));
    const fp = new DataView(new Uint8Array([0, 1, 2, 3].map((i) => d[i] ^ d[i + 4])).buffer).getInt32(0, true);
    t.ensure(f.key_fingerprint === fp, "fingerprint", `the fingerprint of the key is given as ${f.key_fingerprint} instead of ${fp}`);
    t.ensure(u.maxFlight <= pool * 2, "allowance", `${u.maxFlight} part requests were in flight, ${pool * 2} allowed`);
    t.count("encrypted_files");
  }
});

ck.part("refused", { quick: 200, thorough: 3000 }, async (t) => {
  const r = t.rng;
  const { p } = await client(t, r.pick([1, 2]));
  const real = p.client.invoke;
  let requests = 0;
  p.client.invoke = Object.assign(async (q: any, params: any) => {
    if (q._ === "messages.sendMedia") throw new Done(q.media);
    if (!/^upload\.save/.test(q._)) return await real.call(p.client, q, params);
    requests++;
    return true;
  }, real);
  const bytes = content(r, r.int(1, 5000));
  const bad = r.pick<[string, () => Promise<unknown>]>([
    ["empty bytes", () => p.client.sendDocument("me", new Uint8Array())],
    ["empty stream", () => p.client.sendDocument("me", source(r, new Uint8Array(), 1024).value)],
    ["chunk size", () => p.client.sendDocument("me", bytes, { chunkSize: r.pick([0, -1024, 1, 1023, 1025, 1024.5, 513 * 1024, 1024 * 1024, NaN, Infinity, -Infinity]) })],
    ["progress id", () => p.client.sendDocument("me", bytes, { progressId: String(r.int(1, 1e9)) })],
    ["used progress id", async () => {
      const progressId = await p.client.getProgressId();
      await p.client.sendDocument("me", bytes, { progressId }).catch((e: any) => {
        if (!(e instanceof Done)) throw e;
      });
      requests = 0;
      await p.client.sendDocument("me", bytes, { progressId });
    }],
    ["photo stream", () => p.client.sendPhoto("me", new ReadableStream({ start: (c) => (c.enqueue(bytes), c.close()) }), { fileName: "a.jpg" })],
    ["photo iterator", () => p.client.sendPhoto("me", [bytes], { fileName: "a.jpg" })],
  ]);
  t.sig(bad[0] + t.index % 40);
  let e: any;
  try {
    await run(bad[1](), 600000, bad[0]);
  } catch (x) {
    e = x;
  }
  t.ensure(e instanceof InputError, "accepted", `${bad[0]} ended with ${show(e)}`);
  t.ensure(requests === 0, "refused-sent", `${bad[0]}: ${requests} parts were sent before it was refused`);
  t.count("refusals");
  p.kill();
});

ck.part("wire", { quick: 150, thorough: 5000, weight: 2, rejections: true }, async (t) => {
  const r = t.rng;
  const dc = r.pick([1, 2]);
  const { site, acc, p } = await client(t, dc);
  const ups = new Uploads(t);
  const faults = r.bool(0.7);
  const lat = r.pick([0, 20, 800]);
  site.server.latency = () => lat ? r.int(0, lat) : 0;
  site.delay = () => lat ? r.int(0, lat) : 0;
  let drops = faults ? r.pick([0, 1, 3]) : 0;
  let onMain = 0;
  const media: any[] = [];
  site.on = (c) => {
    const q = c.call;
    if (q._ === "messages.sendMedia") {
      media.push(q.media);
      return { error: [400, "STOP_HERE"] };
    }
    if (!/^upload\.save/.test(q._) || !acc || c.sess.key.user !== acc) return undefined;
    if (c.link.dcId > 0) onMain++;
    t.ensure(Math.abs(c.link.dcId) % 10000 === dc, "wire-dc", `a part went to data centre ${c.link.dcId}`);
    const u = ups.begin(q);
    ups.end(u, q, true);
    if (faults && r.bool(0.1)) {
      u.parts.get(q.file_part)!.accepted--;
      return { error: r.pick<[number, string]>([[420, "FLOOD_WAIT_3"], [420, "FLOOD_WAIT_25"], [500, "INTERNAL"]]) };
    }
    if (drops && r.bool(0.1)) {
      drops--;
      t.count("drops");
      c.link.drop(r.bool());
    }
    return site.ok(c, true);
  };
  const chunk = r.pick([1, 2, 8]) * KB;
  const n = size(r, chunk, r.pick([3, 20, 40]));
  const bytes = content(r, n);
  const src = source(r, bytes, chunk);
  let e: any;
  try {
    await run(p.client.sendDocument("me", src.value, { chunkSize: chunk }), 30_000_000, "an upload");
  } catch (x) {
    e = x;
  }
  t.ensure(e?.errorMessage === "STOP_HERE" && media.length === 1, "wire-error", `the upload ended with ${show(e)} ${e?.stack}`);
  ups.check({ file: media[0].file, bytes, chunk, stream: src.stream, allowance: Infinity, once: false });
  t.ensure(onMain === 0, "wire-main", `${onMain} parts were sent over the main connection`);
  t.sig([src.kind, n, chunk, faults, lat].join());
  t.count("wire_parts", ups.requests);
  p.kill();
  void deep;
});

await ck.main();
