// A storage backend whose content outlives the process that uses it: operations take time, values are
// copied, and a process can be cut off at any write.
import { inFlight, type Rng, turn } from "./env.ts";
// deno-lint-ignore no-explicit-any
type A = any;
type Part = string | number | bigint;
const rank = (p: Part) => typeof p === "string" ? 2 : 1;
const cmp1 = (a: Part, b: Part) => rank(a) !== rank(b) ? rank(a) - rank(b) : a < b ? -1 : a > b ? 1 : 0;
function cmp(a: readonly Part[], b: readonly Part[]) {
  for (let i = 0; i < a.length && i < b.length; i++) {
    const c = cmp1(a[i], b[i]);
    if (c) return c;
  }
  return a.length - b.length;
}
const name = (k: readonly Part[]) => JSON.stringify(k.map((p) => typeof p === "bigint" ? ["n", String(p)] : p));
const never = new Promise<never>(() => {});

export class Disk {
  data = new Map<string, [Part[], A]>();
  writes = 0;
  copy(): Disk {
    const d = new Disk();
    for (const [k, [a, v]] of this.data) d.data.set(k, [a, structuredClone(v)]);
    return d;
  }
}
export interface DiskOptions {
  /** most turns of the event loop an operation takes; 0 makes all operations synchronous */
  slow?: number;
  serialize?: boolean;
  files?: boolean;
}
/** One process's view of a disk. */
export class DiskStorage {
  dead = false;
  /** called before a write; returning "cut" ends the process before it, "after" right behind it */
  onWrite: ((key: readonly Part[], value: A) => "cut" | "after" | void) | null = null;
  onCut: (() => void) | null = null;
  /** called with the prefix of a range read and how much it found; the answer is held back that many ms */
  onRange: ((prefix: readonly Part[], found: number) => number) | null = null;
  reads = 0;
  root: DiskStorage;
  constructor(public disk: Disk, public r: Rng, public o: DiskOptions = {}, private prefix: Part[] = [], root?: DiskStorage) {
    this.root = root ?? this;
  }
  get supportsFiles() {
    return this.o.files ?? true;
  }
  get mustSerialize() {
    return this.o.serialize ?? true;
  }
  get isMemory() {
    return false;
  }
  initialize(): void | Promise<void> {
    return this.#op(() => {});
  }
  close(): void | Promise<void> {
    return this.#op(() => {});
  }
  branch(id: string) {
    return new DiskStorage(this.disk, this.r, this.o, [...this.prefix, "__B" + id], this.root);
  }
  #tail: Promise<unknown> = Promise.resolve();
  #op<T>(fn: () => T, write = false): T | Promise<T> {
    const root = this.root;
    if (root.dead) return never;
    const slow = this.o.slow ?? 0;
    if (!slow) return fn();
    const before = root.#tail;
    const p = (async () => {
      inFlight.n++;
      for (let i = this.r.int(0, slow); i > 0; i--) await turn();
      inFlight.n--;
      if (this.r.bool(0.05)) await new Promise((f) => setTimeout(f, this.r.int(0, 20)));
      // writes take effect in the order they were issued
      if (write) await before;
      if (root.dead) return never;
      const v = fn();
      if (root.dead) return never;
      return v;
    })();
    if (write) root.#tail = p;
    return p;
  }
  #write(key: readonly Part[], value: A) {
    const root = this.root, full = [...this.prefix, ...key];
    const cut = root.onWrite?.(full, value);
    const stop = () => {
      root.dead = true;
      root.onCut?.();
    };
    if (cut === "cut") return stop();
    this.disk.writes++;
    if (value === null) this.disk.data.delete(name(full));
    else this.disk.data.set(name(full), [full, structuredClone(value)]);
    if (cut === "after") stop();
  }
  set(key: readonly Part[], value: A): void | Promise<void> {
    const k = [...key], v = value === null ? null : structuredClone(value);
    return this.#op(() => this.#write(k, v), true);
  }
  incr(key: readonly Part[], by: number): void | Promise<void> {
    const k = [...key];
    return this.#op(() => this.#write(k, (this.#get(k) || 0) + by), true);
  }
  #get(key: readonly Part[]): A {
    const e = this.disk.data.get(name([...this.prefix, ...key]));
    return e ? structuredClone(e[1]) : null;
  }
  get(key: readonly Part[]): A {
    this.root.reads++;
    const k = [...key];
    return this.#op(() => this.#get(k));
  }
  getMany(filter: A, params?: { limit?: number; reverse?: boolean }): A {
    this.root.reads++;
    let found = 0;
    const answer = this.#op(() => {
      const n = this.prefix.length;
      let l = [...this.disk.data.values()].filter(([k]) => k.length >= n && cmp(k.slice(0, n), this.prefix) === 0).map(([k, v]) => [k.slice(n), v] as [Part[], A]);
      if ("prefix" in filter) l = l.filter(([k]) => k.length >= filter.prefix.length && cmp(k.slice(0, filter.prefix.length), filter.prefix) === 0);
      else l = l.filter(([k]) => cmp(k, filter.start) >= 0 && cmp(k, filter.end) <= 0);
      l.sort((a, b) => cmp(a[0], b[0]));
      if (params?.reverse) l.reverse();
      if (params?.limit !== undefined) l = l.slice(0, Math.max(1, params.limit));
      found = l.length;
      return (function* () {
        for (const [k, v] of l) yield [k, structuredClone(v)];
      })();
    });
    const root = this.root;
    if (!root.onRange || !("prefix" in filter)) return answer;
    return (async () => {
      const v = await answer;
      const ms = root.onRange!([...this.prefix, ...filter.prefix], found);
      if (ms) await new Promise((f) => setTimeout(f, ms));
      if (root.dead) return never;
      return v;
    })();
  }
}
