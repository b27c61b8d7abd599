// In-memory stand-ins for Deno.Conn and for MTKruto's Connection, with adversarial chunking.
import { Rng } from "./env.ts";
import { cat } from "./core.ts";

/** A byte pipe whose reader gets data in arbitrary portions. */
export class Pipe {
  chunks: Uint8Array[] = [];
  closed = false;
  error: Error | null = null;
  waiters: (() => void)[] = [];
  push(b: Uint8Array) {
    if (b.length) this.chunks.push(b.slice());
    this.wake();
  }
  end(error: Error | null = null) {
    this.closed = true;
    this.error = error;
    this.wake();
  }
  wake() {
    const w = this.waiters;
    this.waiters = [];
    for (const f of w) f();
  }
  wait(): Promise<void> {
    return new Promise((r) => this.waiters.push(r));
  }
  get length() {
    return this.chunks.reduce((a, c) => a + c.length, 0);
  }
  take(max: number): Uint8Array {
    const c = this.chunks[0];
    if (c.length <= max) {
      this.chunks.shift();
      return c;
    }
    this.chunks[0] = c.subarray(max);
    return c.subarray(0, max);
  }
}

/** Behaves like Deno.Conn: partial reads and writes, null at the end, errors after close. */
export class FakeConn {
  in = new Pipe();
  written: Uint8Array[] = [];
  closed = false;
  writeError: Error | null = null;
  onWrite?: (b: Uint8Array) => void;
  /** awaited before a read or write proceeds */
  gate?: () => Promise<void>;
  reads = 0;
  writes = 0;
  constructor(public rng: Rng | null = null) {}
  async read(p: Uint8Array): Promise<number | null> {
    this.reads++;
    if (this.gate) await this.gate();
    else await Promise.resolve();
    if (p.length === 0) return 0;
    while (!this.in.chunks.length) {
      if (this.closed) throw new Deno.errors.BadResource("Bad resource ID");
      if (this.in.error) throw this.in.error;
      if (this.in.closed) return null;
      await this.in.wait();
    }
    if (this.closed) throw new Deno.errors.BadResource("Bad resource ID");
    const n = this.rng ? Math.min(p.length, this.rng.pick([1, 1, 2, 3, 7, 64, 1000, 1 << 20])) : p.length;
    const b = this.in.take(n);
    p.set(b);
    return b.length;
  }
  async write(p: Uint8Array): Promise<number> {
    this.writes++;
    if (this.gate) await this.gate();
    else await Promise.resolve();
    if (this.closed) throw new Deno.errors.BadResource("Bad resource ID");
    if (this.writeError) throw this.writeError;
    const n = this.rng && this.rng.bool(0.4) ? Math.min(p.length, this.rng.pick([1, 2, 5, 100, 1000])) : p.length;
    const b = p.slice(0, n);
    this.written.push(b);
    this.onWrite?.(b);
    return n;
  }
  close() {
    if (this.closed) throw new Deno.errors.BadResource("Bad resource ID");
    this.closed = true;
    this.in.wake();
  }
  setNoDelay() {}
  setKeepAlive() {}
  get out(): Uint8Array<ArrayBuffer> {
    return cat(...this.written);
  }
}

/** Splits bytes into adversarial chunks. */
export function chunked(r: Rng, b: Uint8Array): Uint8Array[] {
  const mode = r.int(0, 3);
  const out: Uint8Array[] = [];
  let o = 0;
  while (o < b.length) {
    const n = mode === 0 ? b.length : mode === 1 && b.length < 3000 ? 1 : mode === 2 ? r.int(1, 9) * (b.length > 5000 ? 501 : 1) : r.pick([1, 3, 4, 5, 63, 64, 65, 1000, 5000]) + (b.length > 20000 ? 3000 : 0);
    out.push(b.subarray(o, o + n));
    o += n;
  }
  return out;
}
