import { Rng, turn, turns } from "../lib/env.ts";
import { Check, show } from "../lib/core.ts";
import { open } from "../lib/stores.ts";
import { toString } from "file:///repo/2_storage.ts";
import { StorageOperations } from "file:///repo/client/0_storage_operations.ts";
import { constructChatP } from "file:///repo/3_types.ts";
// deno-lint-ignore no-explicit-any
type A = any;

const ck = new Check("C22", {
  level: "exploration",
  rule: "Random interleavings of reads, writes, commits (some failing), resets and restarts of the cached tables over a backend with injected delays and faults; each read is checked against the versions that were current while it ran, each completed commit against what the backend holds. A case is distinct by the schedule of operations.",
  assumptions: ["The backend applies each write atomically"],
  quickSeconds: 50,
  thoroughSeconds: 700,
});
/** a persistent backend whose operations take a while and may fail */
class Slow {
  data = new Map<string, [A, A]>();
  failing = 0;
  reads = 0;
  writes = 0;
  failed = 0;
  constructor(public r: Rng, public delay: number) {}
  initialize() {}
  close() {}
  supportsFiles = true;
  mustSerialize = true;
  isMemory = false;
  branch() {
    return this;
  }
  async #pause() {
    const n = this.r.bool(0.3) ? 0 : this.r.int(0, this.delay);
    for (let i = 0; i < n; i++) await (this.r.bool(0.5) ? turn() : null);
  }
  async get(k: A[]) {
    await this.#pause();
    this.reads++;
    const v = this.data.get(toString(k));
    const out = v === undefined ? null : structuredClone(v[1]);
    await this.#pause();
    return out;
  }
  async set(k: A[], v: A) {
    const copy = structuredClone(v);
    await this.#pause();
    if (this.failing > 0 && this.r.f() < this.failing) {
      this.failed++;
      throw new Error("disk full");
    }
    this.writes++;
    if (copy === null) this.data.delete(toString(k));
    else this.data.set(toString(k), [[...k], copy]);
    await this.#pause();
  }
  async incr(k: A[], n: number) {
    await this.set(k, ((await this.get(k)) ?? 0) + n);
  }
  async *getMany(f: A, p?: A) {
    await this.#pause();
    const l = [...this.data.values()].filter(([k]) => f.prefix.every((x: A, i: number) => k[i] === x)).slice(0, p?.limit);
    for (const [k, v] of l) {
      await this.#pause();
      yield [k, structuredClone(v)];
    }
  }
}
const KEYS: Record<string, A[][]> = {
  channelPts: [[1n], [2n], [-3n]],
  peers: [[5], [-7], [-1001234567890]],
  usernames: [["a"], ["b c"], [""]],
  phoneNumbers: [["1"], ["+2"]],
  translations: [["android", "en"], ["ios", "de"]],
  communities: [[9]],
};
let n = 0;
const val = (table: string): A => {
  const v = ++n;
  switch (table) {
    case "channelPts":
      return v;
    case "peers":
      return [{ id: v, type: "private", firstName: "n" + v }, BigInt(v)];
    case "translations":
      return { version: v, translations: [{ key: "k" + v }], date: new Date(v) };
    case "communities":
      return { _: "community", id: BigInt(v), title: "t" + v };
    default:
      return [v, new Date(v)];
  }
};
const norm = (v: A): string =>
  v === null || v === undefined ? "null" : typeof v === "bigint" ? v + "n" : v instanceof Date ? "d" + v.getTime() : v instanceof Uint8Array ? "x" + [...v] : Array.isArray(v) ? `[${v.map(norm)}]` : typeof v === "object" ? `{${Object.keys(v).sort().map((k) => k + ":" + norm(v[k]))}}` : JSON.stringify(v);

type Reg = { table: string; key: A[]; hist: { v: string; at: number }[] };
ck.part("cached-tables", { quick: 9000, thorough: 120000, weight: 3 }, async (t) => {
  const r = t.rng;
  n = 0;
  const disk = new Slow(r, r.pick([0, 1, 3, 8]));
  let so: A = new StorageOperations(disk as A);
  await so.initialize();
  let clock = 0;
  const regs: Reg[] = [];
  for (const [table, ks] of Object.entries(KEYS)) for (const key of ks) if (r.bool(0.5)) regs.push({ table, key, hist: [{ v: "null", at: 0 }] });
  if (!regs.length) regs.push({ table: "peers", key: [5], hist: [{ v: "null", at: 0 }] });
  const auth: Reg = { table: "auth", key: [], hist: [{ v: "null", at: 0 }] };
  // some entries are on disk from an earlier run
  for (const g of regs) {
    if (r.bool(0.5)) {
      const v = val(g.table);
      await disk.set([g.table, ...g.key], v);
      g.hist = [{ v: norm(v), at: 0 }];
    }
  }
  const pending: Promise<A>[] = [];
  let sig = "";
  const write = (g: Reg) => {
    const v = val(g.table);
    so[g.table].set(g.key, v);
    g.hist.push({ v: norm(v), at: ++clock });
  };
  const label = (g: Reg) => `${g.table}${show(g.key)}`;
  const read = (g: Reg) => {
    const started = ++clock, inst = so;
    return inst[g.table].get(g.key).then((x: A) => {
      if (inst !== so) return;
      const got = norm(x);
      // versions that were current at some moment between the call and its answer
      const first = g.hist.findLastIndex((h) => h.at <= started);
      const ok = g.hist.slice(Math.max(0, first)).some((h) => h.v === got);
      t.count("reads");
      if (!ok) t.fail("stale-read", `reading ${label(g)} gives ${got}, but since the read began it was ${g.hist.slice(Math.max(0, first)).map((h) => h.v).join(" then ")}`);
    });
  };
  const onDisk = (g: Reg) => norm(disk.data.get(toString([g.table, ...g.key]))?.[1] ?? null);
  const commit = (why: string) => {
    const upTo = ++clock, inst = so, marks = regs.map((g) => g.hist.length - 1), failed = disk.failed;
    return inst.commit(true).then(() => {
      if (inst !== so) return;
      t.count("commits");
      regs.forEach((g, i) => {
        if (g.hist.length <= marks[i]) return; // a reset since
        const d = onDisk(g), at = g.hist.findLastIndex((h) => h.v === d);
        t.ensure(at >= marks[i], "commit-lost", `${why}: after a completed commit the backend holds ${d} for ${label(g)}, written before it was ${g.hist[marks[i]].v} (${g.hist.map((h) => h.v).join(", ")}; ${upTo})`);
      });
    }, (e: A) => {
      t.count("failed commits");
      t.ensure(disk.failed > failed, "commit-error", `commit fails with ${e}, though no write failed`);
    });
  };
  const ops = r.int(10, 80);
  const authWrites: A[] = [];
  for (let i = 0; i < ops; i++) {
    const g = r.pick(regs);
    const what = r.pick(["set", "set", "set", "get", "get", "get", "sync", "commit", "commit", "soft", "turn", "turn", "fail", "auth", "calm", "restart"]);
    sig += what.slice(0, 2) + regs.indexOf(g);
    t.log.push(`${what} ${label(g)}`);
    if (what === "set") write(g);
    else if (what === "get") pending.push(read(g));
    else if (what === "sync") {
      const got = so[g.table].getSync(g.key);
      if (got !== null) t.ensure(norm(got) === g.hist.at(-1)!.v, "stale-sync-read", `reading ${label(g)} at once gives ${norm(got)}, last written ${g.hist.at(-1)!.v}`);
    } else if (what === "commit") pending.push(commit("forced commit"));
    else if (what === "soft") pending.push(so.commit().catch(() => {}));
    else if (what === "turn") await turns(r.int(1, 4));
    else if (what === "fail") disk.failing = disk.failing ? 0 : r.pick([0.2, 0.6, 1]);
    else if (what === "auth") {
      const a = { apiId: ++n, authKey: r.bytes(8), dc: "2", isBot: r.bool(), userId: n };
      pending.push(so.auth.set(a));
      authWrites.push(a);
      t.ensure(norm(so.auth.mustGet()) === norm(a), "stale-auth", `the account reads ${show(so.auth.mustGet())} right after ${show(a)} was written`);
    } else if (what === "calm") {
      disk.failing = 0;
      await Promise.all(pending.splice(0));
      for (const x of regs) await read(x);
      for (const x of regs) {
        const got = norm(await so[x.table].get(x.key));
        t.ensure(got === x.hist.at(-1)!.v, "settled-read", `when everything is at rest ${label(x)} reads ${got}, last written ${x.hist.at(-1)!.v}`);
      }
    } else if (what === "restart" && r.bool(0.4)) {
      // the process dies (in-flight work is simply abandoned after it ended on the old instance)
      const dead = so;
      const clean = r.bool(0.6);
      disk.failing = clean ? 0 : disk.failing;
      if (clean) await Promise.all(pending.splice(0)), await commit("commit before closing");
      so = new StorageOperations(disk as A);
      await Promise.all(pending.splice(0));
      void dead;
      await so.initialize();
      for (const x of regs) {
        const got = norm(await so[x.table].get(x.key));
        if (clean) t.ensure(got === x.hist.at(-1)!.v, "restart-lost", `after a commit and a restart ${label(x)} reads ${got}, last written ${x.hist.at(-1)!.v}`);
        else t.ensure(x.hist.some((h) => h.v === got), "restart-invented", `after a crash ${label(x)} reads ${got}, never written (${x.hist.map((h) => h.v)})`);
        x.hist = [{ v: got, at: ++clock }];
      }
      const a = so.auth.mustGet();
      if (clean && authWrites.length) t.ensure(norm(a) === norm(authWrites.at(-1)), "restart-auth", `after a commit and a restart the account is ${show(a)}, last written ${show(authWrites.at(-1))}`);
      else if (!clean && authWrites.length) {
        if (norm(a) !== norm(authWrites.at(-1))) authWrites.length = 0;
      }
      t.count("restarts");
    }
  }
  disk.failing = 0;
  await Promise.all(pending.splice(0));
  await commit("last commit");
  for (const x of regs) {
    t.ensure(onDisk(x) === x.hist.at(-1)!.v, "final-disk", `after the last commit the backend holds ${onDisk(x)} for ${label(x)}, last written ${x.hist.at(-1)!.v}`);
    const got = norm(await so[x.table].get(x.key));
    t.ensure(got === x.hist.at(-1)!.v, "final-read", `at the end ${label(x)} reads ${got}, last written ${x.hist.at(-1)!.v}`);
  }
  if (r.bool(0.3)) {
    // reset and clear leave nothing, neither in the cache nor behind it, also with reads in flight
    const how = r.pick(["reset", "clear"]);
    const reads = r.bool() ? regs.map((g) => so[g.table].get(g.key)) : [];
    const table = r.pick(regs).table;
    if (how === "reset") await so.reset();
    else await so[table].clear();
    await Promise.all(reads);
    for (const x of regs) {
      if (how === "clear" && x.table !== table) continue;
      const got = norm(await so[x.table].get(x.key));
      t.ensure(got === "null" && onDisk(x) === "null", "cleared", `after ${how} ${label(x)} still reads ${got}, backend ${onDisk(x)}`);
      await so.commit(true);
      t.ensure(onDisk(x) === "null", "resurrected", `a commit after ${how} writes ${label(x)} = ${onDisk(x)} back`);
    }
    sig += how;
    t.count(how);
  }
  t.sig(sig);
  t.state("disk writes", String(disk.writes));
});
ck.part("reset-in-flight", { quick: 300, thorough: 10000 }, async (t) => {
  // a read that began before a reset and ends after it must not bring the removed entry back
  const r = t.rng, disk = new Slow(r, r.int(1, 10));
  const so: A = new StorageOperations(disk as A);
  await so.initialize();
  await disk.set(["peers", 5], [{ id: 5 }, 1n]);
  await disk.set(["auth"], { apiId: 1, authKey: new Uint8Array(2), dc: "1", isBot: false, userId: 1 });
  const first = so.peers.get([5]);
  await turns(r.int(0, 6));
  const reset = so.reset();
  await turns(r.int(0, 6));
  const second = so.peers.get([5]);
  await Promise.all([first, reset, second]);
  const got = await so.peers.get([5]);
  t.ensure(got === null, "reset-undone", `after a reset the peer reads ${show(got)}`);
  t.sig(String(disk.reads) + disk.writes + t.index);
});
ck.part("many-pending", { quick: 2, thorough: 20, weight: 3 }, async (t) => {
  // more pending entries than the cache holds
  const r = t.rng, disk = new Slow(r, 0), so: A = new StorageOperations(disk as A);
  await so.initialize();
  const total = 20_000 + r.int(1, 3000);
  for (let i = 0; i < 50; i++) await disk.set(["peers", i], [{ id: -1 }, 0n]);
  for (let i = 0; i < total; i++) so.peers.set([i], [{ id: i, type: "private" }, BigInt(i)]);
  for (let i = 0; i < 100; i++) {
    const k = r.bool() ? r.int(0, 49) : r.int(0, total - 1);
    const got = await so.peers.get([k]);
    t.ensure(got?.[1] === BigInt(k) && got[0].id === k, "evicted", `entry ${k} of ${total} pending ones reads ${show(got)}`);
  }
  await so.commit(true);
  for (let i = 0; i < 100; i++) {
    const k = r.int(0, total - 1);
    const got = disk.data.get(toString(["peers", k]))?.[1];
    t.ensure(got?.[1] === BigInt(k), "commit-lost", `after the commit entry ${k} of ${total} is ${show(got)} in the backend`);
  }
  t.sig(String(total));
});
// What the client stores can be stored, by every backend.
const kinds = ["memory", "local", "session", "idb", "kv"] as const;
ck.part("real-backends", { quick: 60, thorough: 1500 }, async (t) => {
  const r = t.rng, kind = kinds[t.index % kinds.length];
  const st = await open(kind, r);
  try {
    let so: A = new StorageOperations(st.root);
    await so.initialize();
    const opt = (v: A) => r.bool() ? v : undefined;
    const photo = () => r.bool(0.5) ? { _: "userProfilePhoto", photo_id: r.big(63), dc_id: r.int(1, 5), has_video: opt(true), stripped_thumb: opt(r.bytes(4)) } : undefined;
    const user: A = { _: "user", id: BigInt(r.int(1, 1e9)), access_hash: opt(r.big(63)), first_name: opt("f"), last_name: opt("l"), username: opt("u"), usernames: opt([{ _: "username", username: "x", active: true }]), phone: opt("123"), bot: opt(true), photo: photo(), status: opt({ _: "userStatusOffline", was_online: r.int(0, 1e9) }), lang_code: opt("en"), restriction_reason: opt([{ _: "restrictionReason", platform: "a", reason: "b", text: "c" }]), emoji_status: opt({ _: "emojiStatus", document_id: 5n, until: opt(5) }), color: opt({ _: "peerColor", color: opt(3) }) };
    const channel: A = { _: "channel", id: BigInt(r.int(1, 1e9)), access_hash: opt(r.big(63)), title: "t", megagroup: opt(true), forum: opt(true), username: opt("c"), photo: { _: "chatPhotoEmpty" }, date: 5 };
    const people = [user, channel, { _: "chat", id: BigInt(r.int(1, 1e9)), title: "g", creator: opt(true), photo: { _: "chatPhotoEmpty" }, participants_count: 1, date: 1, version: 1 }];
    const want: [A, A][] = [];
    for (const p of people) {
      so.setPeer(p);
      const c = constructChatP(p);
      want.push([c.id, [c, p.access_hash ?? 0n]]);
    }
    so.usernames.set(["u"], [user.id === 0n ? 0 : Number(user.id), new Date(r.int(0, 1e12))]);
    so.channelPts.set([channel.id], r.int(1, 1e9));
    so.translations.set(["android", "en"], { version: 3, translations: [{ type: "string", key: "k", value: "v" }], date: new Date(5) });
    const auth = { apiId: 5, authKey: r.bytes(256), dc: "2", isBot: r.bool(), userId: Number(user.id) };
    await so.auth.set(auth);
    await so.setServerSalt(r.big(63));
    await so.commit(true);
    if (kind !== "memory") {
      so = new StorageOperations(await st.reopen());
      await so.initialize();
    }
    const clean = (v: A): string => norm(JSON.parse(JSON.stringify(v, (_k, x) => typeof x === "bigint" ? x + "n" : x)));
    for (const [id, w] of want) {
      const got = await so.peers.get([id]);
      t.ensure(got && clean(got) === clean(w), "stored-peer", `${kind}: chat ${id} stored as ${show(w)} comes back as ${show(got)}`);
    }
    t.ensure(norm(so.auth.mustGet()) === norm(auth), "stored-auth", `${kind}: the account ${show(auth)} comes back as ${show(so.auth.mustGet())}`);
    t.sig(kind + clean(want));
    t.count("entries stored", 8);
    await so.close().catch?.(() => {});
  } finally {
    await Promise.resolve(st.close()).catch(() => {});
  }
});
await ck.main();
