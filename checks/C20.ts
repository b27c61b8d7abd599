import { Rng } from "../lib/env.ts";
import { Check, show } from "../lib/core.ts";
import { type Kind, KINDS, open } from "../lib/stores.ts";
// deno-lint-ignore no-explicit-any
type A = any;
type Key = (string | number | bigint)[];

const ck = new Check("C20", {
  level: "exploration",
  rule: "Random sequences of operations, some of them concurrent, run on the real backends (memory, localStorage, sessionStorage, the Node.js variant, IndexedDB, Deno KV) next to a reference map; every read and every listing is compared with it. A case is distinct by backend and operation sequence.",
  assumptions: ["IndexedDB, localStorage and node-localstorage are stand-ins that follow their specifications; Deno KV is the real one", "Within one position of a key family all parts have one type, as everywhere in the library"],
  quickSeconds: 60,
  thoroughSeconds: 800,
});
const cmpPart = (a: A, b: A) => a < b ? -1 : a > b ? 1 : 0;
const cmpKey = (a: Key, b: Key) => {
  for (let i = 0; i < Math.min(a.length, b.length); i++) {
    const c = cmpPart(a[i], b[i]);
    if (c) return c;
  }
  return a.length - b.length;
};
const id = (k: Key) => k.map((x) => typeof x + ":" + String(x).length + ":" + x).join("|");
const T = { s: "string", n: "number", b: "bigint" };
const FAMILIES: [string, string][] = [["updates.state", ""], ["updates.updates", "bb"], ["updates", "n"], ["cache.files", "b"], ["cache.fileParts", "bn"], ["cache.inline", "nnss"], ["cache.inlineX", "s"], ["messages.messages", "nn"], ["messages.messageRefs", "n"], ["peers", "n"], ["6", "s"], ["", "n"], ["S__", "s"], ["tx", "s"], ["usernames", "s"]];
void T;
const STR = ["", "a", "ab", "abc", "b", "1", "12", "6", "2\n21", "1\n2", "\n", "x y", "S__", "__S", "0", "a\u0000b", "~"];
const NUM = [0, 1, 2, 3, 9, 10, 11, 100, -1, -2, -10, 1.5, -1.5, 2147483647, 4294967296, 9007199254740991, -1001234567890, 1e21, 1e-7, 5e-324, Infinity, -Infinity];
const BIG = [0n, 1n, 2n, 9n, 10n, 11n, 99n, 100n, -1n, -2n, -9n, -10n, -11n, -99n, -100n, 12345678901234567890n, -12345678901234567890n, 1n << 63n, -(1n << 63n), (1n << 100n) + 1n];
function part(r: Rng, t: string, kind: Kind): A {
  if (t === "n") return r.bool(0.7) ? r.pick(NUM) : r.int(-1000, 1000);
  if (t === "b") return r.bool(0.7) ? r.pick(BIG) : BigInt(r.int(-100000, 100000));
  const s = r.bool(0.7) ? r.pick(STR) : Array.from({ length: r.int(0, 6) }, () => String.fromCharCode(r.int(32, 126))).join("");
  return kind === "kv" ? s.replaceAll("\u0000", "") : s;
}
function key(r: Rng, kind: Kind): Key {
  const [name, types] = r.pick(FAMILIES);
  return [name, ...[...types].map((t) => part(r, t, kind))];
}
function value(r: Rng, depth = 2): A {
  switch (r.int(0, depth > 0 ? 9 : 7)) {
    case 0:
      return r.bool();
    case 1:
      return r.pick(NUM);
    case 2:
      return r.pick(BIG);
    case 3:
      return r.pick([...STR, "", "é😀", "\u2028", "null", "5AAA="]);
    case 4:
      return new Date(r.int(-8e9, 8e12));
    case 5:
      return r.bytes(r.int(0, 40));
    case 6:
      return r.int(0, 1000);
    case 7:
      return "v" + r.int(0, 99);
    case 8:
      return Array.from({ length: r.int(0, 4) }, () => value(r, depth - 1));
    default:
      return Object.fromEntries(Array.from({ length: r.int(0, 4) }, (_, i) => [r.pick(["a", "b", "id", "", "x\n1", "é"]) + i, value(r, depth - 1)]));
  }
}
function eq(a: A, b: A): boolean {
  if (typeof a !== typeof b) return false;
  if (a === null || b === null || typeof a !== "object") return Object.is(a, b);
  if (a instanceof Date || b instanceof Date) return a instanceof Date && b instanceof Date && a.getTime() === b.getTime();
  if (a instanceof Uint8Array || b instanceof Uint8Array) return a instanceof Uint8Array && b instanceof Uint8Array && a.length === b.length && a.every((x: number, i: number) => x === b[i]);
  if (Array.isArray(a) !== Array.isArray(b)) return false;
  const ka = Object.keys(a), kb = Object.keys(b);
  return ka.length === kb.length && ka.every((k) => k in b && eq(a[k], b[k]));
}
/** what a namespace must look like to the library: an ordered map */
class Model {
  m = new Map<string, [Key, A]>();
  set(k: Key, v: A) {
    if (v === null) this.m.delete(id(k));
    else this.m.set(id(k), [k, v]);
  }
  get(k: Key) {
    return this.m.get(id(k))?.[1] ?? null;
  }
  list(f: (k: Key) => boolean, limit?: number, reverse?: boolean) {
    let l = [...this.m.values()].filter(([k]) => f(k)).sort(([a], [b]) => cmpKey(a, b));
    if (reverse) l.reverse();
    if (limit !== undefined) l = l.slice(0, limit);
    return l;
  }
}
const collect = async (it: A) => {
  const out: [Key, A][] = [];
  for await (const [k, v] of await it) out.push([[...k] as Key, v]);
  return out;
};
const NS: (string[])[] = [[], ["2"], ["2_media"], ["22"], ["2", "3"], ["3"], ["acc"], ["acc", "3"], ["2", "3", "4"]];

for (const kind of KINDS) {
  ck.part(kind, { quick: kind === "kv" ? 150 : kind === "idb" ? 600 : 1500, thorough: kind === "kv" ? 2500 : kind === "idb" ? 5000 : 20000 }, async (t) => {
    const r = t.rng;
    const st = await open(kind, r);
    try {
      const spaces = r.shuffle([...NS]).slice(0, r.int(1, 4)).map((path) => ({ path, model: new Model(), s: null as A }));
      if (r.bool(0.6) && !spaces.some((x) => !x.path.length)) spaces.push({ path: [], model: new Model(), s: null });
      // localStorage backends whose prefix extends ours share the same underlying storage
      const bind = async () => {
        for (const sp of spaces) {
          if (sp.s && sp.s !== st.root) await sp.s.close();
          let s = st.root;
          for (const b of sp.path) s = s.branch(b);
          if (s !== st.root) await s.initialize();
          sp.s = s;
        }
      };
      await bind();
      let neighbour: A, nModel: Model | undefined;
      if (st.other && r.bool(0.3)) {
        neighbour = await st.other(((st.root as A).prefix ?? (st.root as A).name) + r.pick(["0", "1", "a", "x_", "3z"]));
        nModel = new Model();
        spaces.push({ path: ["<other>"], model: nModel, s: neighbour });
      }
      // keys are drawn from a small pool, so that operations meet
      const pool = Array.from({ length: r.int(3, 14) }, () => key(r, kind));
      for (let i = r.int(0, 4); i > 0; i--) pool.push([...r.pick(pool).slice(0, -1), part(r, "n", kind)].filter((_, j, a) => a.length > 1 || j === 0) as Key);
      // one type per position below one family name: drop the keys that break it
      const shape = new Map<string, string>();
      const keys = pool.filter((k) => {
        const f = FAMILIES.find(([n]) => n === k[0]);
        return f && k.slice(1).every((x, i) => (f[1][i] ?? "").toString() === (typeof x)[0]);
      });
      void shape;
      if (!keys.length) keys.push(["peers", 1]);
      const ops = r.int(10, 60);
      let sig = kind + ":";
      for (let i = 0; i < ops; i++) {
        const sp = r.pick(spaces), k = r.pick(keys), what = r.pick(["set", "set", "set", "get", "get", "del", "incr", "prefix", "prefix", "range", "many", "reopen"]);
        sig += what[0] + spaces.indexOf(sp) + keys.indexOf(k);
        t.log.push(`${what} ${sp.path.join("/")} ${show(k)}`);
        t.count("operations");
        if (what === "set") {
          const v = value(r);
          await sp.s.set(k, v);
          sp.model.set(k, v);
        } else if (what === "del") {
          await sp.s.set(k, null);
          sp.model.set(k, null);
        } else if (what === "get") {
          const got = await sp.s.get(k), want = sp.model.get(k);
          t.ensure(eq(got, want), "read", `${kind} ${sp.path.join("/") || "root"}: ${show(k)} reads ${show(got)}, last written ${show(want)}`);
        } else if (what === "incr") {
          const cur = sp.model.get(k);
          if (cur !== null && (typeof cur !== "number" || !Number.isSafeInteger(cur) || Math.abs(cur) > 1e12)) continue;
          const n = r.int(1, 6), by = Array.from({ length: n }, () => r.int(1, 50));
          await Promise.all(by.map((b) => sp.s.incr(k, b)));
          sp.model.set(k, (cur ?? 0) + by.reduce((a, b) => a + b, 0));
          const got = await sp.s.get(k);
          t.ensure(got === sp.model.get(k), "increment", `${kind}: ${show(cur)} incremented by ${show(by)} at once is ${show(got)}`);
        } else if (what === "many") {
          // independent writes and reads in flight together
          const chosen = r.shuffle([...keys]).slice(0, r.int(1, 5)).filter((x, j, a) => a.findIndex((y) => id(y) === id(x)) === j);
          const vals = chosen.map(() => value(r));
          await Promise.all(chosen.map((x, j) => sp.s.set(x, vals[j])));
          chosen.forEach((x, j) => sp.model.set(x, vals[j]));
          const got = await Promise.all(chosen.map((x) => sp.s.get(x)));
          got.forEach((g, j) => t.ensure(eq(g, vals[j]), "read", `${kind}: ${show(chosen[j])} reads ${show(g)} after ${show(vals[j])} was written together with others`));
        } else if (what === "reopen") {
          if (!st.persistent || neighbour || !r.bool(0.4)) continue;
          for (const x of spaces) if (x.s !== st.root) await x.s.close();
          for (const x of spaces) x.s = null;
          await st.reopen();
          await bind();
          t.count("reopened");
        } else {
          const limit = r.bool(0.3) ? r.int(1, 4) : undefined, reverse = r.bool(0.4);
          const params = limit === undefined && !reverse ? undefined : { ...(limit === undefined ? {} : { limit }), ...(reverse ? { reverse } : {}) };
          let filter: A, f: (k: Key) => boolean;
          if (what === "prefix") {
            // (whether an entry whose key is the whole prefix belongs to it differs between Deno KV and the rest, and nothing relies on it)
            const p = k.slice(0, r.int(sp.path.length ? 0 : 1, Math.max(sp.path.length ? 0 : 1, k.length - 1)));
            if (keys.some((x) => id(x) === id(p))) continue;
            filter = { prefix: p };
            f = (x) => p.every((y, j) => j < x.length && typeof x[j] === typeof y && x[j] === y);
          } else {
            const fam = keys.filter((x) => x[0] === k[0]);
            let a = r.pick(fam), b = r.pick(fam);
            if (r.bool(0.5)) a = [...a.slice(0, -1), typeof a.at(-1) === "string" && a.length > 1 ? part(r, "s", kind) : a.length > 1 ? part(r, (typeof a.at(-1))[0], kind) : a.at(-1)!];
            if (cmpKey(a, b) > 0) [a, b] = [b, a];
            filter = { start: a, end: b };
            f = (x) => cmpKey(x, a) >= 0 && cmpKey(x, b) <= 0 && x[0] === k[0];
          }
          const want = sp.model.list(f, limit, reverse);
          const got = await collect(sp.s.getMany(filter, params));
          t.count("listings");
          t.count("listed entries", got.length);
          const where = `${kind} ${sp.path.join("/") || "root"}: listing ${show(filter)} ${show(params ?? {})}`;
          const gi = got.map(([x]) => id(x)), wi = want.map(([x]) => id(x));
          const alien = got.find(([x]) => !sp.model.m.has(id(x)) || !f(x));
          t.ensure(!alien, "listing-alien", `${where} has ${show(alien)}, which does not belong there`);
          if (limit === undefined) {
            const miss = want.find(([x]) => !gi.includes(id(x)));
            t.ensure(!miss, "listing-missing", `${where} lacks ${show(miss?.[0])}`);
          }
          t.ensure(gi.length === wi.length && gi.every((x, j) => x === wi[j]), "listing-order", `${where} gave ${show(got.map(([x]) => x))}, expected ${show(want.map(([x]) => x))}`);
          got.forEach(([x, v], j) => t.ensure(eq(v, want[j][1]), "listing-value", `${where}: ${show(x)} is ${show(v)}, last written ${show(want[j][1])}`));
        }
        t.state("entries", kind + spaces.map((x) => Math.min(8, x.model.m.size)).join());
      }
      // at the end, every key of every namespace reads as last written
      for (const sp of spaces) {
        for (const k of keys) {
          const got = await sp.s.get(k), want = sp.model.get(k);
          t.ensure(eq(got, want), "isolation", `${kind} ${sp.path.join("/") || "root"}: at the end ${show(k)} reads ${show(got)}, last written ${show(want)}`);
        }
      }
      t.sig(sig);
      for (const x of spaces) if (x.s !== st.root) await x.s.close();
    } finally {
      await st.close();
    }
  });
}
await ck.main();
