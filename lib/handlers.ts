// deno-lint-ignore-file no-explicit-any
// What the error of a failed call must be, and chains of handlers for failed calls with a model of them.
import type { Rng } from "./env.ts";
import { type Case, show } from "./core.ts";
import { advance, run, type Site, Stuck, vclock } from "./site.ts";
import * as E from "file:///repo/4_errors.ts";

export const X = E as any;
/** text -> class, from the exported class names */
export const classes = new Map<string, any>();
const PARAM: [string, string, string][] = [["FILE_MIGRATE_", "FileMigrate", "dc"], ["PHONE_MIGRATE_", "PhoneMigrate", "dc"], ["USER_MIGRATE_", "UserMigrate", "dc"], ["STATS_MIGRATE_", "StatsMigrate", "dc"], ["FLOOD_WAIT_", "FloodWait", "seconds"]];
for (const [name, c] of Object.entries(X)) {
  if (typeof c !== "function" || !(c.prototype instanceof X.TelegramError) || name === "Migrate" || PARAM.some((p) => p[1] === name)) continue;
  // these two are sent in this very spelling
  if (name === "Timedout" || name === "Timeout") {
    classes.set(name, c);
    continue;
  }
  classes.set(name.replace(/(?<=.)[A-Z]/g, "_$&").replace(/__/g, "_").toUpperCase(), c);
}
export const texts = [...classes.keys()];
interface Want {
  cls: any;
  field?: string;
  value?: number;
}
export function want(text: string): Want {
  for (const [p, name, field] of PARAM) {
    if (text.startsWith(p) && /^\d+$/.test(text.slice(p.length))) return { cls: X[name], field, value: Number(text.slice(p.length)) };
  }
  return { cls: classes.get(text) ?? X.TelegramError };
}
function weighted<T>(r: Rng, l: [number, T][]): T {
  let x = r.f() * l.reduce((a, v) => a + v[0], 0);
  for (const [w, v] of l) if ((x -= w) < 0) return v;
  return l[0][1];
}
export function anyText(r: Rng): string {
  return weighted<() => string>(r, [
    [5, () => r.pick(texts)],
    [3, () => r.pick(PARAM)[0] + r.pick([0, 1, 2, 3, 4, 5, 7, 10, 11, 42, 3600, 86400, 2147483647])],
    [1, () => r.pick(["constructor", "toString", "valueOf", "hasOwnProperty", "__proto__", "isPrototypeOf", "__defineGetter__", "name", "length"])],
    [1, () => r.pick(PARAM)[0] + r.pick(["", "X", "x2", "_", "TWO"])],
    [1, () => r.pick(["", " ", "SLOWMODE_WAIT_5", "FLOOD_PREMIUM_WAIT_3", "2FA_CONFIRM_WAIT_7", "X_FLOOD_WAIT_3", "flood_wait_3", "NETWORK_MIGRATE_4", "FILE_PART_7_MISSING", "ünknown \u{1F600}", "RPC_CALL_FAIL"])],
    [1, () => r.pick(texts).toLowerCase()],
    [1, () => r.pick(texts) + r.pick([" ", "_", "_2"])],
  ])();
}
export const same = (a: any, b: any) => show(a) === show(b);
/** says what is wrong with an error, or null */
export function wrong(e: any, code: number, text: string, call: any): string | null {
  const w = want(text);
  if (!(e instanceof X.TelegramError)) return `the error ${code} ${JSON.stringify(text)} surfaced as ${e?.name ?? typeof e}: ${e?.message ?? String(e)}`;
  if (Object.getPrototypeOf(e) !== w.cls.prototype) {
    // an unreadable number in a parametrised text may be either class
    if (!(PARAM.some((p) => text.startsWith(p[0]) && e.constructor === X[p[1]]) && !w.field)) return `the error ${JSON.stringify(text)} is a ${e.constructor.name}, not a ${w.cls.name}`;
  }
  if (w.field && e[w.field] !== w.value) return `${JSON.stringify(text)} has ${w.field} = ${e[w.field]}`;
  if (e.errorCode !== code) return `the error ${code} ${JSON.stringify(text)} has code ${e.errorCode}`;
  if (e.errorMessage !== text) return `the error text ${JSON.stringify(text)} became ${JSON.stringify(e.errorMessage)}`;
  if (!same(e.cause, call)) return `the error ${JSON.stringify(text)} names the call ${show(e.cause)} instead of ${show(call)}`;
  return null;
}

// ---- handlers

type Act = "pass" | "yes" | "no" | "throw" | "twice" | "not" | "slow" | "few";
interface H {
  id: number;
  acts: Act[];
  sleep: number;
  limit: number;
}
export class Chain {
  hs: H[] = [];
  constructor(public byDefault: boolean) {}
  /** consultations and answer for one failure */
  model(text: string, n: number): { seen: number[]; answer: boolean | "throw"; wait: number } {
    const seen: number[] = [];
    const w = want(text);
    if (this.byDefault && w.field === "seconds" && w.value! <= 10) return { seen, answer: true, wait: w.value! * 1000 };
    let wait = 0;
    const at = (i: number): boolean => {
      if (i >= this.hs.length) return false;
      const h = this.hs[i];
      seen.push(h.id);
      wait += h.sleep;
      let memo: boolean | null = null;
      const next = () => memo ??= at(i + 1);
      switch (act(h, n)) {
        case "pass":
        case "slow":
          return next();
        case "yes":
          return true;
        case "no":
          return false;
        case "throw":
          throw 1;
        case "twice":
          next();
          return next();
        case "not":
          return !next();
        case "few":
          return n < h.limit;
      }
    };
    try {
      return { seen, answer: at(0), wait };
    } catch {
      return { seen, answer: "throw", wait };
    }
  }
}
const act = (h: H, n: number) => h.acts[(n - 1) % h.acts.length];
export class Thrown extends Error {}
let handlerIds = 0;

export interface Host {
  client: any;
  kill(): void;
}
/** Clients with random chains of handlers make calls that fail in random ways. */
export async function scenario(t: Case, site: Site, acc: any, make: (byDefault: boolean, i: number) => Promise<Host>, thrown: (e: any) => boolean) {
  const r = t.rng;
  const lat = r.pick([0, 10, 400]);
  site.server.latency = () => lat ? r.int(0, lat) : 0;
  const nc = r.pick([1, 1, 2, 3]);
  const procs: Host[] = [];
  const chains: Chain[] = [];
  /** consultations by call tag */
  const log = new Map<number, { client: number; h: number; n: number; bad: string | null }[]>();
  const script = new Map<number, { errors: [number, string][]; got: number[]; sent: any; answered: number }>();
  const tagOf = (q: any) => q._ === "account.setAuthorizationTTL" ? q.authorization_ttl_days : Number(q.hash);
  const register = (c: number) => {
    const h: H = { id: ++handlerIds, acts: Array.from({ length: r.int(1, 3) }, () => weighted<Act>(r, [[4, "pass"], [2, "yes"], [1, "no"], [0.3, "throw"], [1, "twice"], [0.5, "not"], [1, "slow"], [3, "few"]])), sleep: 0, limit: r.int(1, 6) };
    h.sleep = h.acts.includes("slow") ? r.pick([1, 50, 3000]) : 0;
    chains[c].hs.push(h);
    procs[c].client.invoke.use(async (ctx: any, next: any) => {
      const tag = tagOf(ctx.function);
      const s = script.get(tag);
      if (!s) return next();
      const [code, text] = s.errors[s.answered - 1] ?? [0, ""];
      let bad = wrong(ctx.error, code, text, s.sent);
      if (ctx.client !== procs[c].client) bad = "the context names another client";
      if (!same(ctx.function, s.sent)) bad = "the context names another call";
      log.get(tag)!.push({ client: c, h: h.id, n: ctx.n, bad });
      if (h.sleep) await advanceLater(h.sleep);
      switch (act(h, ctx.n)) {
        case "pass":
        case "slow":
          return await next();
        case "yes":
          return true;
        case "no":
          return false;
        case "throw":
          throw new Thrown();
        case "twice":
          await next();
          return await next();
        case "not":
          return !(await next());
        case "few":
          return ctx.n < h.limit;
      }
    });
  };
  const advanceLater = (ms: number) => new Promise((f) => setTimeout(f, ms));
  let calls = 0;
  site.on = (c) => {
    const q = c.call;
    if (!/setAuthorizationTTL|resetWebAuthorization|resetAuthorization/.test(q._)) return undefined;
    const s = script.get(tagOf(q))!;
    s.got.push(vclock.mono);
    calls++;
    const e = s.errors[s.answered];
    s.answered++;
    if (e) return { error: e };
    return site.ok(c, true);
  };
  const start = async (i: number) => {
    chains[i] = new Chain(r.bool(0.75));
    procs[i] = await make(chains[i].byDefault, i);
  };
  for (let i = 0; i < nc; i++) {
    await start(i);
    for (let k = r.pick([0, 0, 1, 2]); k > 0; k--) register(r.int(0, i));
  }
  for (let k = r.pick([0, 1, 2, 3]); k > 0; k--) register(r.int(0, nc - 1));
  try {
    for (const p of procs) await run(p.client.start(), 600000, "start()");
    for (let round = r.int(1, 3); round > 0; round--) {
      const pending: Promise<void>[] = [];
      for (let k = r.pick([1, 2, 5]); k > 0; k--) {
        const c = r.int(0, nc - 1), tag = ++handlerIds;
        const call: any = r.pick([{ _: "account.setAuthorizationTTL", authorization_ttl_days: tag }, { _: "account.resetWebAuthorization", hash: BigInt(tag) }, { _: "account.resetAuthorization", hash: BigInt(tag) }]);
        const errors: [number, string][] = [];
        // as many errors as the handlers ask to repeat for, and a few more
        for (let j = r.pick([0, 1, 1, 2, 3, 6]); j > 0; j--) errors.push([r.pick([400, 401, 403, 406, 420, 500]), r.bool(0.25) ? "FLOOD_WAIT_" + r.int(0, 12) : anyText(r)]);
        const s = { errors, got: [] as number[], sent: call, answered: 0 };
        script.set(tag, s);
        log.set(tag, []);
        pending.push((async () => {
          let result: any, error: any;
          const chain = Object.assign(new Chain(chains[c].byDefault), { hs: [...chains[c].hs] });
          try {
            const f = procs[c].client.invoke;
            result = await (r.bool(0.9) ? procs[c].client.invoke(call) : f.call(procs[c].client, call));
          } catch (e) {
            error = e ?? "undefined";
          }
          judge(t, c, chain, s, log.get(tag)!, result, error, thrown);
        })());
      }
      // handlers registered now only matter for the following calls
      await run(Promise.all(pending), 1200_000, "invoke()");
      if (r.bool(0.4)) register(r.int(0, nc - 1));
    }
  } catch (e) {
    if (e instanceof Stuck) t.fail("stuck", e.message, { script: [...script.values()] });
    throw e;
  }
  t.count("calls_at_server", calls);
  t.count("consultations", [...log.values()].reduce((a, l) => a + l.length, 0));
  t.sample({ clients: nc, calls: [...script.values()].map((s) => s.errors.map((e) => e[1])), handlers: chains.map((c) => c.hs) });
  t.sig(show([...script.values()].map((s) => s.errors)));
  await advance(1);
  for (const p of procs) p.kill();
}
function judge(t: Case, client: number, chain: Chain, s: any, log: any[], result: any, error: any, thrown: (e: any) => boolean) {
  let n = 0, i = 0, sends = 1;
  let expected: { ok: true } | { error: [number, string] } | { thrown: true } | null = null;
  let at = 0;
  while (!expected) {
    const e = s.errors[i++];
    if (!e) {
      expected = { ok: true };
      break;
    }
    if (e[1] === "CONNECTION_NOT_INITED") {
      sends++;
      continue;
    }
    const m = chain.model(e[1], ++n);
    for (const h of m.seen) {
      const l = log[at++];
      t.ensure(l, "not-consulted", `handler ${h} was not consulted about ${e[1]} (attempt ${n})`, { s, log, chain });
      t.ensure(l.client === client, "other-client", `a handler registered on another client was consulted`, { s, log });
      t.ensure(l.h === h && l.n === n, "order", `handler ${l.h} was consulted with attempt ${l.n} where handler ${h} should be with ${n}`, { s, log, chain });
      t.ensure(!l.bad, "context", `in a handler: ${l.bad}`, { s });
    }
    if (m.answer === true) {
      sends++;
      const gap = s.got[sends - 1] - s.got[sends - 2];
      if (s.got.length >= sends) t.ensure(gap >= m.wait, "early", `after ${e[1]} the call was repeated after ${gap} ms instead of ${m.wait}`, { s });
    } else if (m.answer === "throw") expected = { thrown: true };
    else expected = { error: e };
  }
  t.ensure(at === log.length, "consulted-more", `${log.length} consultations instead of ${at}`, { s, log, chain });
  t.ensure(s.got.length === sends, "calls", `the server got the call ${s.got.length} times instead of ${sends}`, { s, log, chain });
  if ("ok" in expected) t.ensure(error === undefined && result === true, "result", `the call ended with ${error ?? result} instead of its result`, { s, log });
  else if ("thrown" in expected) t.ensure(error !== undefined && thrown(error), "thrown", `a failing handler surfaced as ${error ?? result}`, { s });
  else {
    t.ensure(error !== undefined, "error", `the call succeeded with ${result} instead of ${expected.error}`, { s, log });
    const bad = wrong(error, expected.error[0], expected.error[1], s.sent);
    t.ensure(!bad, "class", bad!, { s });
  }
}
