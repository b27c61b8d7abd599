// Uploads and downloads: sources of every kind, the service's view of the parts, and scripts of failures.
// deno-lint-ignore-file no-explicit-any
import type { Rng } from "./env.ts";
import { type Case, same, show } from "./core.ts";
import { vclock } from "./vclock.ts";
import * as E from "file:///repo/4_errors.ts";
import { TimeTooBig, TimeTooSmall } from "file:///repo/3_errors.ts";

export const KB = 1024;
export const THRESHOLD = 10 * KB * KB;
export const pause = (ms: number) => new Promise<void>((f) => setTimeout(f, ms));
export class Done extends Error {
  constructor(public media: any) {
    super("done");
  }
}
export class Broken extends Error {}

/** bytes that differ everywhere: any loss, duplication or shift shows */
export function content(r: Rng, n: number): Uint8Array<ArrayBuffer> {
  const b = new Uint8Array(n);
  let x = r.u32() | 1;
  const w = new Uint32Array(b.buffer, 0, n >> 2);
  for (let i = 0; i < w.length; i++) w[i] = x = Math.imul(x, 1664525) + 1013904223 | 0;
  for (let i = w.length * 4; i < n; i++) b[i] = x = Math.imul(x, 1664525) + 1013904223 | 0;
  return b;
}
export function size(r: Rng, chunk: number, parts: number): number {
  const n = r.pick([1, 1, 2, 3, r.int(1, parts), r.int(1, parts), parts]);
  return Math.max(1, (n - 1) * chunk + r.pick([1, 2, 15, 16, 17, 1023, chunk - 1, chunk, chunk, chunk, r.int(1, chunk), r.int(1, chunk)]));
}
/** cuts bytes into pieces the way sources deliver them */
export function pieces(r: Rng, b: Uint8Array<ArrayBuffer>, chunk: number): Uint8Array<ArrayBuffer>[] {
  const mode = r.pick(["one", "tiny", "chunk", "odd", "mixed", "huge"]);
  const out: Uint8Array<ArrayBuffer>[] = [];
  let o = 0;
  if (r.bool(0.2)) out.push(new Uint8Array());
  while (o < b.length) {
    let n = mode === "one" ? b.length : mode === "tiny" ? r.int(1, 40) : mode === "chunk" ? chunk : mode === "odd" ? chunk + r.int(-1, 1) : mode === "huge" ? r.int(1, 5) * chunk : r.pick([1, 100, 1024, chunk, 3 * chunk + 7]);
    if (out.length > 300) n = b.length;
    out.push(b.slice(o, o + n));
    o += n;
    if (r.bool(0.05)) out.push(new Uint8Array());
  }
  return out;
}
export interface Source {
  kind: string;
  value: any;
  bytes: Uint8Array<ArrayBuffer>;
  stream: boolean;
  /** the error the source itself ends with, when it does */
  error: any;
  /** it stops delivering without ending */
  stalls: boolean;
  /** the name it brings along */
  name?: string;
  size: number;
}
export const site = { fetches: 0, serve: null as null | ((url: string) => Response) };
const realFetch = globalThis.fetch;
(globalThis as any).fetch = (u: any, ...x: any[]) => {
  if (!site.serve) return realFetch(u, ...x);
  site.fetches++;
  return Promise.resolve(site.serve(String(u)));
};
export function source(r: Rng, bytes: Uint8Array<ArrayBuffer>, chunk: number, o: { plain?: boolean; fail?: number; stall?: number; urls?: boolean } = {}): Source {
  const kind = o.plain ? "bytes" : r.pick(["bytes", "bytes", "view", "stream", "stream", "pull", "async", "sync", "array", ...(o.urls ? ["url", "path"] : [])]);
  const s: Source = { kind, value: null, bytes, stream: true, error: null, stalls: false, size: bytes.length };
  const l = pieces(r, bytes, chunk);
  const slow = r.pick([0, 0, 1, 30, 2000]);
  const failAt = o.fail && r.bool(o.fail) ? r.int(0, l.length) : -1;
  const stallAt = failAt < 0 && o.stall && r.bool(o.stall) ? r.int(0, l.length) : -1;
  if (failAt >= 0) s.error = new Broken("source failed");
  if (stallAt >= 0) s.stalls = true;
  const gen = async function* () {
    for (let i = 0; i <= l.length; i++) {
      if (slow) await pause(r.int(0, slow));
      if (i === failAt) throw s.error;
      if (i === stallAt) await new Promise(() => {});
      if (i < l.length) yield l[i];
    }
  };
  const streamed = (hwm: number) => {
    const g = gen();
    return new ReadableStream({
      async pull(c) {
        const x = await g.next();
        if (x.done) c.close();
        else c.enqueue(x.value);
      },
    }, { highWaterMark: hwm });
  };
  switch (kind) {
    case "bytes":
    case "view":
      s.stream = false;
      s.error = null;
      s.stalls = false;
      if (kind === "view") {
        const big = new Uint8Array(bytes.length + 9);
        big.set(bytes, 5);
        s.value = big.subarray(5, 5 + bytes.length);
      } else s.value = bytes;
      break;
    case "stream":
      // everything queued at once
      s.stalls = false;
      s.error = null;
      s.value = new ReadableStream({
        start(c) {
          for (const x of l) c.enqueue(x);
          c.close();
        },
      });
      break;
    case "pull":
      s.value = streamed(r.pick([0, 1, 5]));
      break;
    case "async":
      s.value = gen();
      break;
    case "sync":
      s.error = failAt >= 0 ? s.error : null;
      s.stalls = false;
      s.value = (function* () {
        for (let i = 0; i <= l.length; i++) {
          if (i === failAt) throw s.error;
          if (i < l.length) yield l[i];
        }
      })();
      break;
    case "array":
      s.error = null;
      s.stalls = false;
      s.value = l;
      break;
    case "url":
    case "path": {
      const type = r.pick([null, "image/png", "text/plain; charset=utf-8"]);
      const length = r.bool(0.6);
      const path = r.pick(["/a/b/photo.jpg", "/x.bin", "/with space/ü.txt", "/noext"]);
      s.value = kind === "path" ? path : r.pick([(u: string) => u, (u: string) => new URL(u)])(r.pick(["http://h", "file://"]) + encodeURI(path));
      if (typeof s.value === "string" && s.value.startsWith("http")) s.value = new URL(s.value);
      const url = kind === "path" ? "file://" + encodeURI(path) : String(s.value);
      s.name = kind === "path" ? path.split("/").at(-1) : undefined;
      const body = streamed(1);
      site.serve = (u) => {
        const h = new Headers();
        if (type) h.set("content-type", type);
        if (length) h.set("content-length", String(bytes.length));
        const res = new Response(u === url ? body : new Uint8Array([1, 2, 3]), { headers: h });
        Object.defineProperty(res, "url", { value: u });
        return res;
      };
    }
  }
  return s;
}

/** An error a part request can end with. "wait" is what the caller has to wait before the next attempt. */
export interface Fail {
  make: (q: any) => Error;
  permanent: boolean;
  flood: number;
}
export function anyFail(r: Rng, permanent = 0): Fail {
  if (r.bool(permanent)) {
    const C: any = r.pick([TimeTooBig, TimeTooSmall]);
    return { make: () => new C({ code: 1, errorCode: 400, errorMessage: "TIME_TOO_BIG" } as any), permanent: true, flood: 0 };
  }
  if (r.bool(0.4)) {
    const s = r.pick([0, 1, 5, 11, 60, 1000]);
    return { make: (q) => E.constructTelegramError({ _: "rpc_error", error_code: 420, error_message: "FLOOD_WAIT_" + s } as any, q), permanent: false, flood: s };
  }
  const text = r.pick(["INTERNAL", "TIMEOUT", "FILE_PART_INVALID", "NOPE", "conn"]);
  return { make: (q) => text === "conn" ? new E.ConnectionError("lost") : E.constructTelegramError({ _: "rpc_error", error_code: r.pick([400, 500, 303, -503]), error_message: text } as any, q), permanent: false, flood: 0 };
}

export interface Up {
  id: bigint;
  big: boolean;
  parts: Map<number, { bytes: Uint8Array; accepted: number; asked: number; total: number; fails: number; lastFail: number; flood: number }>;
  inFlight: number;
  maxFlight: number;
  last: number; // when the last request came
  order: number[];
}
/** The service's record of uploads. */
export class Uploads {
  ups = new Map<bigint, Up>();
  requests = 0;
  constructor(public t: Case) {}
  begin(q: any): Up {
    const t = this.t;
    this.requests++;
    let u = this.ups.get(q.file_id);
    const big = q._ === "upload.saveBigFilePart";
    if (!u) this.ups.set(q.file_id, u = { id: q.file_id, big, parts: new Map(), inFlight: 0, maxFlight: 0, last: 0, order: [] });
    t.ensure(u.big === big, "mixed-forms", "an upload uses both part forms");
    u.inFlight++;
    u.maxFlight = Math.max(u.maxFlight, u.inFlight);
    u.last = vclock.mono;
    let p = u.parts.get(q.file_part);
    if (!p) {
      u.parts.set(q.file_part, p = { bytes: q.bytes.slice(), accepted: 0, asked: 0, total: big ? q.file_total_parts : 0, fails: 0, lastFail: 0, flood: 0 });
      u.order.push(q.file_part);
    }
    p.asked++;
    t.ensure(same(p.bytes, q.bytes), "part-changed", `part ${q.file_part} was sent with different bytes`);
    t.ensure(!big || p.total === q.file_total_parts, "total-changed", `part ${q.file_part} announced ${p.total} and then ${q.file_total_parts} parts`);
    return u;
  }
  end(u: Up, q: any, ok: boolean) {
    u.inFlight--;
    const p = u.parts.get(q.file_part)!;
    if (ok) p.accepted++;
    else {
      p.fails++;
      p.lastFail = vclock.mono;
    }
  }
  /** the bytes the service holds for a descriptor */
  check(o: { file: any; bytes: Uint8Array; chunk: number; stream: boolean; allowance: number; once: boolean; padded?: boolean }): Up {
    const t = this.t, f = o.file, u = this.ups.get(f.id);
    const n = Math.ceil(o.bytes.length / o.chunk);
    t.ensure(u, "unknown-file", `the descriptor names file ${f.id}, for which no part was sent`);
    t.ensure(f.parts === n, "part-count", `the descriptor states ${f.parts} parts for ${n}`);
    const big = o.stream ? n > 1 : o.bytes.length > THRESHOLD;
    t.ensure(u.big === big, "form", `${o.bytes.length} bytes (${o.stream ? "stream" : "bytes"}) were sent in the ${u.big ? "big" : "small"} form`);
    t.ensure(f._ === (big ? "inputFileBig" : "inputFile"), "descriptor-form", `the descriptor is ${f._} for the ${big ? "big" : "small"} form`);
    t.ensure(u.parts.size === n, "part-set", () => `${n} parts expected, ${u.parts.size} sent: ${show([...u.parts.keys()])}`);
    for (let i = 0; i < n; i++) {
      const p = u.parts.get(i);
      t.ensure(p, "part-missing", `part ${i} of ${n} was never sent`);
      t.ensure(o.once ? p.accepted === 1 : p.accepted >= 1, "part-accepted", `part ${i} was accepted ${p.accepted} times`);
      const want = o.bytes.subarray(i * o.chunk, (i + 1) * o.chunk);
      t.ensure(same(p.bytes, want), "part-bytes", `part ${i} of ${n} has ${p.bytes.length} bytes, which are not the source's ${want.length} bytes at its place`);
      if (big) {
        t.ensure(p.total === n || o.stream && p.total === -1 && i < n - 1, "part-total", `part ${i} announced ${p.total} parts of ${n}`);
      }
    }
    t.ensure(u.maxFlight <= o.allowance, "allowance", `${u.maxFlight} part requests were in flight, ${o.allowance} allowed`);
    t.count("files_checked");
    t.count("parts_checked", n);
    return u;
  }
}
