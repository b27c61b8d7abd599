// Virtual time: setTimeout / setInterval / Date follow a clock that only moves when the program is idle.
// Import directly after env.ts and before any module of the code under test.
import { inFlight, turn } from "./env.ts";

const RealDate = Date;
const realSetTimeout = globalThis.setTimeout.bind(globalThis);
const realClearTimeout = globalThis.clearTimeout.bind(globalThis);
const realNow = RealDate.now.bind(RealDate);
export { realClearTimeout, realNow, realSetTimeout };

const START = 1_760_000_000_000;
let offset = 0; // wall-clock steps
interface T {
  at: number;
  seq: number;
  fn: (...a: unknown[]) => void;
  args: unknown[];
  every: number | null;
  id: number;
}
let seq = 0;
let ids = 0;
let mono = 0; // ms since start
const timers = new Map<number, T>();

export const vclock = {
  /** when > 0 timers fire up to this many ms late (drawn from jitterRng) */
  get mono() {
    return mono;
  },
  now() {
    return Math.floor(START + mono + offset);
  },
  /** steps the wall clock without touching timers */
  step(ms: number) {
    offset += ms;
  },
  pending() {
    return timers.size;
  },
  reset() {
    timers.clear();
    mono = 0;
    offset = 0;
  },
  fired: 0,
};

function set(fn: (...a: unknown[]) => void, ms: unknown, args: unknown[], every: boolean): number {
  let d = Number(ms);
  if (!(d >= 0)) d = 0;
  if (d > 2147483647) d = 1;
  d = Math.floor(d);
  if (every && d < 1) d = 1;
  const t: T = { at: mono + d, seq: seq++, fn, args, every: every ? d : null, id: ++ids };
  timers.set(t.id, t);
  return t.id;
}
// deno-lint-ignore no-explicit-any
const g = globalThis as any;
g.setTimeout = (fn: (...a: unknown[]) => void, ms?: number, ...args: unknown[]) => set(fn, ms, args, false);
g.setInterval = (fn: (...a: unknown[]) => void, ms?: number, ...args: unknown[]) => set(fn, ms, args, true);
g.clearTimeout = g.clearInterval = (id: unknown) => {
  timers.delete(Number(id));
};
const DateProxy = new Proxy(RealDate, {
  construct(t, args, nt) {
    return Reflect.construct(t, args.length ? args : [vclock.now()], nt === DateProxy ? t : nt);
  },
  apply(t) {
    return new t(vclock.now()).toString();
  },
  get(t, k, r) {
    if (k === "now") return () => vclock.now();
    return Reflect.get(t, k, r);
  },
});
// deno-lint-ignore no-explicit-any
(RealDate.prototype as any).constructor = DateProxy;
g.Date = DateProxy;
// deno-lint-ignore no-explicit-any
(AbortSignal as any).timeout = (ms: number) => {
  const c = new AbortController();
  set(() => c.abort(new DOMException("Signal timed out.", "TimeoutError")), ms, [], false);
  return c.signal;
};
// std's deadline/delay keep references to the globals at call time, so nothing else is needed

function nextTimer(): T | undefined {
  let best: T | undefined;
  for (const t of timers.values()) {
    if (!best || t.at < best.at || (t.at === best.at && t.seq < best.seq)) best = t;
  }
  return best;
}

export class Stuck extends Error {
  constructor(msg: string) {
    super(msg);
    this.name = "Stuck";
  }
}

const IDLE_TURNS = 3;
async function settle() {
  let idle = 0;
  while (idle < IDLE_TURNS) {
    await turn();
    if (inFlight.n > 0) idle = 0;
    else idle++;
  }
}

/** Lets pending work run without advancing time. */
export async function quiesce() {
  await settle();
}

function fire(t: T) {
  if (t.at > mono) mono = t.at;
  if (t.every !== null) {
    t.at = mono + t.every;
    t.seq = seq++;
  } else {
    timers.delete(t.id);
  }
  vclock.fired++;
  t.fn(...t.args);
}

/**
 * Runs the event loop, moving virtual time forward whenever nothing else happens, until the promise
 * settles. Throws Stuck when it has not settled after `limitMs` of virtual time or when no timer is left.
 */
export async function run<T>(p: Promise<T>, limitMs = 3_600_000, what = "operation"): Promise<T> {
  let done = false;
  const q = p.then((v) => ({ v }), (e) => ({ e })).then((r) => {
    done = true;
    return r as { v?: T; e?: unknown };
  });
  const limit = mono + limitMs;
  for (;;) {
    await settle();
    if (done) break;
    const t = nextTimer();
    if (!t) {
      await settle();
      await settle();
      if (done) break;
      if (nextTimer()) continue;
      throw new Stuck(`${what} never settles: nothing left to run`);
    }
    if (t.at > limit) throw new Stuck(`${what} not settled after ${limitMs} ms of virtual time`);
    fire(t);
  }
  const r = await q;
  if ("e" in r) throw r.e;
  return r.v as T;
}

/** Advances virtual time by ms, firing due timers in order. */
export async function advance(ms: number) {
  const target = mono + ms;
  for (;;) {
    await settle();
    const t = nextTimer();
    if (!t || t.at > target) break;
    fire(t);
  }
  mono = target;
  await settle();
}

/** Runs until the predicate holds; false when limitMs of virtual time pass first. */
export async function until(pred: () => boolean, limitMs = 600_000): Promise<boolean> {
  const limit = mono + limitMs;
  for (;;) {
    if (pred()) return true;
    await settle();
    if (pred()) return true;
    const t = nextTimer();
    if (!t) {
      await settle();
      if (pred()) return true;
      if (!nextTimer()) return false;
      continue;
    }
    if (t.at > limit) {
      mono = limit;
      return pred();
    }
    fire(t);
  }
}

/** A delay on the virtual clock. */
export function sleep(ms: number): Promise<void> {
  return new Promise((r) => set(() => r(), ms, [], false));
}
