// Deterministic environment for checks. Must be the first import of every check.
// - crypto.getRandomValues and Math.random are fed from a seedable stream
// - unhandled rejections and error events are recorded instead of ending the process
// - console output of the code under test is silenced
import * as nodeCrypto from "node:crypto";

export class Rng {
  #a = 0;
  #b = 0;
  #c = 0;
  #d = 0;
  constructor(seed: string) {
    // xmur3 to expand the seed, sfc32 to generate
    let h = 1779033703 ^ seed.length;
    for (let i = 0; i < seed.length; i++) {
      h = Math.imul(h ^ seed.charCodeAt(i), 3432918353);
      h = (h << 13) | (h >>> 19);
    }
    const next = () => {
      h = Math.imul(h ^ (h >>> 16), 2246822507);
      h = Math.imul(h ^ (h >>> 13), 3266489909);
      return (h ^= h >>> 16) >>> 0;
    };
    this.#a = next();
    this.#b = next();
    this.#c = next();
    this.#d = next() | 1;
    for (let i = 0; i < 12; i++) this.u32();
  }
  u32(): number {
    const t = (((this.#a + this.#b) | 0) + this.#d) | 0;
    this.#d = (this.#d + 1) | 0;
    this.#a = this.#b ^ (this.#b >>> 9);
    this.#b = (this.#c + (this.#c << 3)) | 0;
    this.#c = (this.#c << 21) | (this.#c >>> 11);
    this.#c = (this.#c + t) | 0;
    return t >>> 0;
  }
  /** float in [0,1) */
  f(): number {
    return this.u32() / 4294967296;
  }
  /** integer in [lo, hi] */
  int(lo: number, hi: number): number {
    return lo + Math.floor(this.f() * (hi - lo + 1));
  }
  bool(p = 0.5): boolean {
    return this.f() < p;
  }
  pick<T>(a: readonly T[]): T {
    return a[Math.floor(this.f() * a.length)];
  }
  bytes(n: number): Uint8Array<ArrayBuffer> {
    const b = new Uint8Array(n);
    this.fill(b);
    return b;
  }
  fill(b: Uint8Array) {
    let i = 0;
    for (; i + 4 <= b.length; i += 4) {
      const v = this.u32();
      b[i] = v;
      b[i + 1] = v >>> 8;
      b[i + 2] = v >>> 16;
      b[i + 3] = v >>> 24;
    }
    for (; i < b.length; i++) b[i] = this.u32();
  }
  big(bits: number): bigint {
    let r = 0n;
    for (let i = 0; i < bits; i += 32) r = (r << 32n) | BigInt(this.u32());
    return BigInt.asUintN(bits, r);
  }
  shuffle<T>(a: T[]): T[] {
    for (let i = a.length - 1; i > 0; i--) {
      const j = this.int(0, i);
      [a[i], a[j]] = [a[j], a[i]];
    }
    return a;
  }
}

let entropy = new Rng("initial");
/** Restarts the stream that crypto.getRandomValues and Math.random draw from. */
export function seedEntropy(seed: string) {
  entropy = new Rng("entropy/" + seed);
}
/** When set, replaces the next random draws (used to force particular values). */
export const randomOverride: { fn: ((view: Uint8Array) => boolean) | null } = { fn: null };

const realGetRandomValues = crypto.getRandomValues.bind(crypto);
void realGetRandomValues;
// deno-lint-ignore no-explicit-any
(crypto as any).getRandomValues = (view: any) => {
  const u8 = new Uint8Array(view.buffer, view.byteOffset, view.byteLength);
  if (randomOverride.fn?.(u8)) return view;
  entropy.fill(u8);
  return view;
};
Math.random = () => entropy.f();

// Synchronous digests behind the asynchronous WebCrypto interface: same values, but settled on the
// microtask queue, which makes runs deterministic.
const subtle = crypto.subtle;
// deno-lint-ignore no-explicit-any
const subtleAny = subtle as any;
const realDigest = subtle.digest.bind(subtle);
export const inFlight = { n: 0 };
subtleAny.digest = (alg: unknown, data: BufferSource) => {
  // deno-lint-ignore no-explicit-any
  const name = String((alg as any)?.name ?? alg).toUpperCase();
  const map: Record<string, string> = { "SHA-1": "sha1", "SHA-256": "sha256", "SHA-384": "sha384", "SHA-512": "sha512" };
  if (map[name]) {
    try {
      const u8 = ArrayBuffer.isView(data) ? new Uint8Array(data.buffer, data.byteOffset, data.byteLength) : new Uint8Array(data as ArrayBuffer);
      const d = nodeCrypto.createHash(map[name]).update(u8).digest();
      const out = new Uint8Array(d.length);
      out.set(d);
      return Promise.resolve(out.buffer);
    } catch {
      // fall back to the platform's own error behaviour
    }
  }
  return realDigest(alg as AlgorithmIdentifier, data);
};
for (const m of ["encrypt", "decrypt", "sign", "importKey", "deriveBits", "deriveKey"]) {
  const real = subtleAny[m].bind(subtle);
  subtleAny[m] = async (...args: unknown[]) => {
    inFlight.n++;
    try {
      return await real(...args);
    } finally {
      inFlight.n--;
    }
  };
}

export const rejections: unknown[] = [];
globalThis.addEventListener("unhandledrejection", (e) => {
  e.preventDefault();
  rejections.push(e.reason);
});
globalThis.addEventListener("error", (e) => {
  e.preventDefault();
  rejections.push(e.error);
});

/** console.log of the harness itself */
export const say = console.log.bind(console);
if (!Deno.env.get("VERIF_VERBOSE")) {
  for (const k of ["log", "info", "warn", "error", "debug", "trace"] as const) console[k] = () => {};
}

const realSetImmediate: (f: () => void) => void = globalThis.setImmediate as never;
/** One turn of the real event loop. */
export function turn(): Promise<void> {
  return new Promise((r) => realSetImmediate(r));
}
export async function turns(n: number) {
  for (let i = 0; i < n; i++) await turn();
}
