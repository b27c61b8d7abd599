// Case runner: derives every case from seed + part + index, applies the check's oracle, writes evidence,
// replay files and the VIOLATION / KNOWN-FINDING lines.
import { rejections, Rng, say, seedEntropy } from "./env.ts";

export const SEED = Number(Deno.env.get("VERIF_SEED") ?? "1") || 1;
export const TIER: "quick" | "thorough" = Deno.env.get("VERIF_TIER") === "thorough" ? "thorough" : "quick";
const ROOT = new URL("../", import.meta.url).pathname;
// not Date: checks on virtual time replace it
const realNow = performance.now.bind(performance);

export class Violation extends Error {
  constructor(public key: string, message: string, public detail?: unknown) {
    super(message);
    this.name = "Violation";
  }
}

export function fail(key: string, message: string, detail?: unknown): never {
  throw new Violation(key, message, detail);
}
export function ensure(cond: unknown, key: string, message: string | (() => string), detail?: unknown): asserts cond {
  if (!cond) throw new Violation(key, typeof message === "string" ? message : message(), detail);
}

function hash53(s: string): number {
  let h1 = 0xdeadbeef, h2 = 0x41c6ce57;
  for (let i = 0; i < s.length; i++) {
    const c = s.charCodeAt(i);
    h1 = Math.imul(h1 ^ c, 2654435761);
    h2 = Math.imul(h2 ^ c, 1597334677);
  }
  h1 = Math.imul(h1 ^ (h1 >>> 16), 2246822507) ^ Math.imul(h2 ^ (h2 >>> 13), 3266489909);
  h2 = Math.imul(h2 ^ (h2 >>> 16), 2246822507) ^ Math.imul(h1 ^ (h1 >>> 13), 3266489909);
  return 4294967296 * (2097151 & h2) + (h1 >>> 0);
}

// deno-lint-ignore no-explicit-any
export function show(v: any, max = 400): string {
  let s: string;
  try {
    s = JSON.stringify(v, jsonable) ?? String(v);
  } catch {
    s = String(v);
  }
  return s.length > max ? s.slice(0, max) + `…(${s.length})` : s;
}
// deno-lint-ignore no-explicit-any
export function jsonable(_k: string, v: any): any {
  if (typeof v === "bigint") return v.toString() + "n";
  if (v instanceof Uint8Array) return "0x" + (v.length > 200 ? hex(v.subarray(0, 200)) + `…(${v.length})` : hex(v));
  if (v instanceof Map) return { Map: [...v] };
  if (v instanceof Set) return { Set: [...v] };
  if (v instanceof Error) return `${v.name}: ${v.message}`;
  if (typeof v === "function") return `[function ${v.name}]`;
  if (v === undefined) return "[undefined]";
  return v;
}
export function hex(b: Uint8Array): string {
  let s = "";
  for (let i = 0; i < b.length; i++) s += (b[i] < 16 ? "0" : "") + b[i].toString(16);
  return s;
}
export function unhex(s: string): Uint8Array<ArrayBuffer> {
  const b = new Uint8Array(s.length / 2);
  for (let i = 0; i < b.length; i++) b[i] = parseInt(s.slice(2 * i, 2 * i + 2), 16);
  return b;
}
export function cat(...a: (Uint8Array | ArrayLike<number>)[]): Uint8Array<ArrayBuffer> {
  const n = a.reduce((x, y) => x + y.length, 0);
  const r = new Uint8Array(n);
  let o = 0;
  for (const x of a) {
    r.set(x, o);
    o += x.length;
  }
  return r;
}
export function same(a: Uint8Array, b: Uint8Array): boolean {
  if (a.length !== b.length) return false;
  for (let i = 0; i < a.length; i++) if (a[i] !== b[i]) return false;
  return true;
}
/** Structural equality that distinguishes types (bigint/number, Date, byte arrays, -0). */
export function deep(a: unknown, b: unknown): boolean {
  if (Object.is(a, b)) return true;
  if (typeof a !== typeof b || a === null || b === null || typeof a !== "object") return false;
  if (a instanceof Uint8Array) return b instanceof Uint8Array && same(a, b);
  if (a instanceof Date) return b instanceof Date && Object.is(a.getTime(), b.getTime());
  if (Array.isArray(a)) {
    if (!Array.isArray(b) || a.length !== b.length) return false;
    for (let i = 0; i < a.length; i++) if (!deep(a[i], b[i])) return false;
    return true;
  }
  if (Array.isArray(b) || b instanceof Uint8Array || b instanceof Date) return false;
  if (a instanceof Map) {
    if (!(b instanceof Map) || a.size !== b.size) return false;
    for (const [k, v] of a) if (!b.has(k) || !deep(v, b.get(k))) return false;
    return true;
  }
  if (a instanceof Set) {
    if (!(b instanceof Set) || a.size !== b.size) return false;
    for (const k of a) if (!b.has(k)) return false;
    return true;
  }
  const ka = Object.keys(a).filter((k) => (a as Record<string, unknown>)[k] !== undefined);
  const kb = Object.keys(b as object).filter((k) => (b as Record<string, unknown>)[k] !== undefined);
  if (ka.length !== kb.length) return false;
  for (const k of ka) if (!deep((a as Record<string, unknown>)[k], (b as Record<string, unknown>)[k])) return false;
  return true;
}

export class Case {
  rng: Rng;
  log: unknown[] = [];
  constructor(public check: Check, public part: string, public index: number) {
    const s = `${SEED}/${check.id}/${part}/${index}`;
    this.rng = new Rng(s);
    seedEntropy(s);
  }
  /** Marks the case as non-trivial with the given signature. */
  sig(s: string) {
    this.check.sigs.add(hash53(this.part + "|" + s));
  }
  count(name: string, n = 1) {
    this.check.counters[name] = (this.check.counters[name] ?? 0) + n;
  }
  state(kind: string, s: string) {
    let set = this.check.states.get(kind);
    if (!set) this.check.states.set(kind, set = new Set());
    if (set.size < 1_000_000) set.add(hash53(s));
  }
  sample(v: unknown) {
    const k = this.part;
    const n = this.check.sampleCount.get(k) ?? 0;
    if (n >= 2) return;
    this.check.sampleCount.set(k, n + 1);
    this.check.samples.push({ part: k, index: this.index, case: JSON.parse(JSON.stringify(v, jsonable) ?? "null") });
  }
  ensure(cond: unknown, key: string, message: string | (() => string), detail?: unknown): asserts cond {
    this.check.counters.assertions++;
    if (!cond) this.fail(key, typeof message === "string" ? message : message(), detail);
  }
  /** the first violation, kept because code under test may swallow what a callback throws */
  first: Violation | null = null;
  fail(key: string, message: string, detail?: unknown): never {
    const v = new Violation(key, message, detail);
    this.first ??= v;
    throw v;
  }
  /** Reports without ending the case. */
  report(key: string, message: string, detail?: unknown) {
    this.check.report(this, new Violation(key, message, detail));
  }
}

export interface PartOptions {
  quick: number;
  thorough: number;
  /** share of the time budget */
  weight?: number;
  /** treat unhandled rejections during a case as a violation */
  rejections?: boolean;
  /** stop the part after this many reports (default 3) */
  maxReports?: number;
}
interface Part extends PartOptions {
  name: string;
  fn: (t: Case) => unknown | Promise<unknown>;
}

export interface CheckOptions {
  level: "exploration" | "fault_enumeration" | "model_checking" | "proof" | "translation_validation" | "other";
  rule: string;
  assumptions?: string[];
  quickSeconds?: number;
  thoroughSeconds?: number;
}

export class Check {
  parts: Part[] = [];
  sigs = new Set<number>();
  states = new Map<string, Set<number>>();
  counters: Record<string, number> = { assertions: 0 };
  samples: unknown[] = [];
  sampleCount = new Map<string, number>();
  reported = new Map<string, { path: string; message: string }>();
  known = new Map<string, string>();
  knownSeen = new Set<string>();
  started = realNow();
  evaluations = 0;
  constructor(public id: string, public opt: CheckOptions) {
    try {
      for (const line of Deno.readTextFileSync(ROOT + "known-findings.txt").split("\n")) {
        const m = /^known: property=(\S+) key=(\S+) (.*)$/.exec(line);
        if (m && m[1] === id) this.known.set(m[2], m[3]);
      }
    } catch {
      // no file: nothing is known
    }
  }
  part(name: string, o: PartOptions, fn: (t: Case) => unknown | Promise<unknown>) {
    this.parts.push({ name, ...o, fn });
  }
  report(t: Case, v: Violation): boolean {
    if (this.known.has(v.key)) {
      this.knownSeen.add(v.key);
      return false;
    }
    if (this.reported.has(v.key)) return true;
    const dir = ROOT + "evidence/replay";
    Deno.mkdirSync(dir, { recursive: true });
    const path = `${dir}/${this.id}-${this.reported.size + 1}.json`;
    const rel = `evidence/replay/${this.id}-${this.reported.size + 1}.json`;
    Deno.writeTextFileSync(
      path,
      JSON.stringify({ property: this.id, key: v.key, message: v.message, tier: TIER, seed: SEED, part: t.part, index: t.index, detail: v.detail, log: t.log.slice(-400), stack: v.stack, how: `cd /verif && VERIF_SEED=${SEED} VERIF_ONLY=${t.part}:${t.index} ./run.sh ${this.id} ${TIER}` }, jsonable, 1),
    );
    this.reported.set(v.key, { path: rel, message: v.message });
    return true;
  }
  progress(part: string, index: number) {
    try {
      Deno.writeTextFileSync(`${ROOT}evidence/.progress-${this.id}`, JSON.stringify({ property: this.id, part, index, tier: TIER, seed: SEED }));
    } catch {
      // only informative
    }
  }
  async main() {
    const only = Deno.env.get("VERIF_ONLY");
    const budget = 1000 * (TIER === "quick" ? this.opt.quickSeconds ?? 60 : this.opt.thoroughSeconds ?? 600);
    const scale = Number(Deno.env.get("VERIF_SCALE") ?? "1");
    let lastProgress = 0;
    const perPart: Record<string, unknown> = {};
    let remaining = budget;
    let weights = this.parts.reduce((a, p) => a + (p.weight ?? 1), 0);
    for (const p of this.parts) {
      const n = Math.ceil((TIER === "quick" ? p.quick : p.thorough) * scale);
      const share = remaining * (p.weight ?? 1) / weights;
      weights -= p.weight ?? 1;
      if (this.reported.size && Deno.env.get("VERIF_STOP")) break;
      const start = realNow();
      let done = 0, bad = 0;
      const sigs0 = this.sigs.size;
      let from = 0, to = n;
      if (only) {
        const [pn, idx] = only.split(":");
        if (pn !== p.name) continue;
        if (idx !== undefined) {
          from = Number(idx);
          to = from + 1;
        }
      }
      for (let i = from; i < to; i++) {
        const now = realNow();
        if (now - start > share && i > from) break;
        if (now - lastProgress > 100) {
          lastProgress = now;
          this.progress(p.name, i);
        }
        const t = new Case(this, p.name, i);
        const rej0 = rejections.length;
        this.evaluations++;
        done++;
        try {
          await p.fn(t);
          if (t.first) throw t.first;
          if (p.rejections && rejections.length > rej0) {
            const r = rejections[rej0] as Error;
            throw new Violation("unhandled-rejection", `a failure escaped as an unhandled rejection: ${r?.name}: ${r?.message}`, { stack: String(r?.stack ?? r) });
          }
        } catch (e_) {
          const e = t.first ?? e_;
          const v = e instanceof Violation ? e : (() => {
            const err = e as Error;
            const v = new Violation(`unexpected-error:${p.name}`, `unexpected ${err?.name ?? typeof e}: ${err?.message ?? e}`, { stack: String(err?.stack ?? e) });
            return v;
          })();
          if (this.report(t, v)) bad++;
          if (Deno.env.get("VERIF_DEBUG")) say(p.name, i, v.key, v.message, (v.detail as { stack?: string })?.stack ?? "");
        }
        if (bad >= (p.maxReports ?? 3) || this.reported.size && Deno.env.get("VERIF_STOP")) break;
      }
      remaining -= realNow() - start;
      perPart[p.name] = { evaluations: done, planned: to - from, distinct: this.sigs.size - sigs0, wall_s: (realNow() - start) / 1000 };
    }
    const wall = (realNow() - this.started) / 1000;
    const states: Record<string, number> = {};
    for (const [k, s] of this.states) states[k] = s.size;
    const evidence = {
      property: this.id,
      tier: TIER,
      seed: SEED,
      level: this.opt.level,
      coverage: {
        evaluations: this.evaluations,
        distinct_nontrivial: this.sigs.size,
        rule: this.opt.rule,
        samples: this.samples.slice(0, 24),
        monitor_counts: this.counters,
        distinct_states_observed: states,
        parts: perPart,
        unhandled_rejections_seen: rejections.length,
      },
      assumptions: this.opt.assumptions ?? [],
      wall_s: wall,
      violations: this.reported.size,
    };
    if (!only) Deno.writeTextFileSync(`${ROOT}evidence/${this.id}.json`, JSON.stringify(evidence, jsonable, 1) + "\n");
    for (const [k, what] of this.known) {
      if (this.knownSeen.has(k)) say(`KNOWN-FINDING: property=${this.id} ${what} [${k}]`);
    }
    for (const [k, r] of this.reported) {
      say(`VIOLATION property=${this.id} replay=${r.path}`);
      say(`  ${k}: ${r.message.slice(0, 600)}`);
    }
    try {
      Deno.removeSync(`${ROOT}evidence/.progress-${this.id}`);
    } catch {
      // not there
    }
    say(`${this.id}: ${this.evaluations} cases, ${this.sigs.size} distinct, ${this.reported.size} violations, ${wall.toFixed(1)} s`);
    Deno.exit(this.reported.size ? 1 : 0);
  }
}
