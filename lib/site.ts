// The whole service as a complete Client sees it: data centres, accounts, authorisations and their update
// sequences, on top of the reference MTProto server. Clients can be stopped at any point and started again
// on the same disk.
import type { Rng } from "./env.ts";
import { turn } from "./env.ts";
import { advance, quiesce, run, Stuck, until, vclock } from "./vclock.ts";
import { type Case, cat } from "./core.ts";
import { type Answer, type AuthKey, type Call, type Link, MtServer, type Sess } from "./mtserver.ts";
import { Disk, type DiskOptions, DiskStorage } from "./disk.ts";
import { publicKeys, RSA } from "./exchange.ts";
import * as TL from "./tl.ts";
import { toLe } from "./ref.ts";
import { Client } from "file:///repo/client/6_client.ts";
// deno-lint-ignore no-explicit-any
export type A = any;
export { advance, Disk, DiskStorage, quiesce, run, Stuck, until, vclock };
export const API = TL.api;
export const resultType = (name: string) => API.d[name][2];
const never = new Promise<never>(() => {});

export interface Event {
  box: string; // "c" common, "q" secret/bot, "h<id>" a channel
  n: number; // position after the event (pts or qts)
  count: number;
  tag: number;
  kind: "message" | "encrypted" | "other";
  update: A;
  at: number;
  users: A[];
  chats: A[];
}
export interface Slice {
  box: string;
  messages: number[];
  others: number[];
}
export class Account {
  pts = 1000;
  qts = 50;
  seq = 10;
  date: number;
  events: Event[] = [];
  channels = new Map<bigint, { pts: number; access: bigint; events: Event[]; minPts: number }>();
  /** positions the server declared skipped, by box */
  skipped = new Map<string, Set<number>>();
  slices: Slice[] = [];
  users = new Map<bigint, A>();
  constructor(public id: bigint, public bot: boolean, public r: Rng, public site: Site) {
    this.date = site.server.now() | 0;
    this.user(id, { self: true, bot: bot || undefined, bot_info_version: bot ? 1 : undefined });
  }
  user(id: bigint, extra: A = {}): A {
    let u = this.users.get(id);
    if (!u) this.users.set(id, u = { _: "user", id, access_hash: id * 7919n + 1n, first_name: "U" + id, ...extra });
    return u;
  }
  channel(id: bigint, access = id * 104729n + 3n) {
    let c = this.channels.get(id);
    if (!c) this.channels.set(id, c = { pts: 100, access, events: [], minPts: 100 });
    return c;
  }
  chat(id: bigint): A {
    const c = this.channels.get(id)!;
    return { _: "channel", id, title: "C" + id, access_hash: c.access, megagroup: id % 2n === 0n || undefined, broadcast: id % 2n === 1n || undefined, photo: { _: "chatPhotoEmpty" }, date: 1 };
  }
  box(b: string): Event[] {
    return b.startsWith("h") ? this.channels.get(BigInt(b.slice(1)))!.events : this.events.filter((e) => e.box === b);
  }
  skip(box: string, tags: number[]) {
    let s = this.skipped.get(box);
    if (!s) this.skipped.set(box, s = new Set());
    for (const t of tags) s.add(t);
  }
  nextTag = 1;
  /** Something happens on the server. */
  happen(kind: string, channel?: bigint): Event {
    const r = this.r, tag = this.nextTag++;
    const now = this.site.server.now() | 0;
    this.date = now;
    let e: Event;
    const other = this.user(BigInt(5000 + r.int(0, 3)));
    if (channel !== undefined) {
      const c = this.channel(channel);
      const count = kind === "delete" ? r.int(1, 3) : kind === "pin" ? r.pick([0, 1]) : 1;
      c.pts += count;
      const message = { _: "message", id: tag, from_id: { _: "peerUser", user_id: other.id }, peer_id: { _: "peerChannel", channel_id: channel }, date: now, message: "m" + tag };
      const p = { pts: c.pts, pts_count: count };
      const update = kind === "message" ? { _: "updateNewChannelMessage", message, ...p } : kind === "edit" ? { _: "updateEditChannelMessage", message: { ...message, edit_date: now }, ...p } : kind === "delete" ? { _: "updateDeleteChannelMessages", channel_id: channel, messages: [tag, ...Array.from({ length: count - 1 }, (_, i) => 1_000_000 + tag * 10 + i)], ...p } : kind === "pin" ? { _: "updatePinnedChannelMessages", channel_id: channel, messages: [tag], pinned: true, ...p } : { _: "updateChannelWebPage", channel_id: channel, webpage: { _: "webPageEmpty", id: BigInt(tag) }, ...p };
      e = { box: "h" + channel, n: c.pts, count, tag, kind: kind === "message" ? "message" : "other", update, at: now, users: [other], chats: [this.chat(channel)] };
      c.events.push(e);
    } else if (kind === "encrypted") {
      this.qts++;
      e = { box: "q", n: this.qts, count: 1, tag, kind: "encrypted", update: { _: "updateNewEncryptedMessage", message: { _: "encryptedMessage", random_id: BigInt(tag), chat_id: 777, date: now, bytes: r.bytes(64), file: { _: "encryptedFileEmpty" } }, qts: this.qts }, at: now, users: [], chats: [] };
      this.events.push(e);
    } else if (kind === "stopped") {
      this.qts++;
      e = { box: "q", n: this.qts, count: 1, tag, kind: "other", update: { _: "updateBotStopped", user_id: other.id, date: tag, stopped: true, qts: this.qts }, at: now, users: [other], chats: [] };
      this.events.push(e);
    } else {
      const count = kind === "delete" ? r.int(1, 3) : kind === "read" ? r.pick([0, 1]) : 1;
      this.pts += count;
      const p = { pts: this.pts, pts_count: count };
      const message = { _: "message", id: tag, from_id: { _: "peerUser", user_id: other.id }, peer_id: { _: "peerUser", user_id: other.id }, date: now, message: "m" + tag };
      const update = kind === "message" ? { _: "updateNewMessage", message, ...p } : kind === "edit" ? { _: "updateEditMessage", message: { ...message, edit_date: now }, ...p } : kind === "delete" ? { _: "updateDeleteMessages", messages: [tag, ...Array.from({ length: count - 1 }, (_, i) => 1_000_000 + tag * 10 + i)], ...p } : kind === "read" ? { _: "updateReadHistoryInbox", peer: { _: "peerUser", user_id: other.id }, max_id: tag, still_unread_count: 0, ...p } : { _: "updateWebPage", webpage: { _: "webPageEmpty", id: BigInt(tag) }, ...p };
      e = { box: "c", n: this.pts, count, tag, kind: kind === "message" ? "message" : "other", update, at: now, users: [other], chats: [] };
      this.events.push(e);
    }
    return e;
  }
  state(): A {
    return { _: "updates.state", pts: this.pts, qts: this.qts, date: this.date, seq: this.seq, unread_count: 0 };
  }
  /** largest number of events in one answer */
  sliceSize: () => number = () => 100;
  tooLong: (() => boolean) | null = null;
  /** how channels with news are reported in a common difference */
  changedChannels: (date: number) => A[] = () => [];
  difference(q: A): A {
    const c = this.events.filter((e) => e.box === "c" && e.n > q.pts || e.box === "q" && e.n > q.qts);
    const changed = this.changedChannels(q.date);
    if (!c.length && !changed.length) return { _: "updates.differenceEmpty", date: this.date, seq: this.seq };
    if (c.length && this.tooLong?.()) {
      // everything of the common sequence up to some event is declared lost
      const l = c.filter((e) => e.box === "c");
      if (l.length) {
        const to = this.r.pick(l);
        this.skip("c", l.filter((e) => e.n <= to.n).map((e) => e.tag));
        return { _: "updates.differenceTooLong", pts: to.n };
      }
    }
    // events without positions of their own stay with the event before them
    let n = Math.min(c.length, this.sliceSize());
    while (n < c.length && c[n].count === 0) n++;
    const part = c.slice(0, n);
    const users = [...new Set(part.flatMap((e) => e.users))];
    const body = {
      new_messages: part.filter((e) => e.kind === "message").map((e) => e.update.message),
      new_encrypted_messages: part.filter((e) => e.kind === "encrypted").map((e) => e.update.message),
      other_updates: [...part.filter((e) => e.kind === "other").map((e) => e.update), ...(n === c.length ? changed : [])],
      chats: [],
      users,
    };
    this.slices.push({ box: "c", messages: part.filter((e) => e.box === "c" && e.kind === "message").map((e) => e.tag), others: part.filter((e) => e.box === "c" && e.kind === "other").map((e) => e.tag) });
    const pts = Math.max(q.pts, ...part.filter((e) => e.box === "c").map((e) => e.n)), qts = Math.max(q.qts, ...part.filter((e) => e.box === "q").map((e) => e.n));
    if (n < c.length) return { _: "updates.differenceSlice", ...body, intermediate_state: { ...this.state(), pts, qts, date: part.at(-1)!.at } };
    return { _: "updates.difference", ...body, state: this.state() };
  }
  channelTooLong: (() => boolean) | null = null;
  channelTimeout: () => number | undefined = () => undefined;
  channelDifference(q: A): A {
    const id = q.channel.channel_id as bigint, c = this.channels.get(id);
    if (!c || q.channel.access_hash !== c.access) return null;
    const l = c.events.filter((e) => e.n > q.pts);
    const timeout = this.channelTimeout();
    if (!l.length) return { _: "updates.channelDifferenceEmpty", final: true, pts: c.pts, timeout };
    const box = "h" + id;
    if (q.pts < c.minPts || l.length > 1 && this.channelTooLong?.()) {
      const last = l.filter((e) => e.kind === "message").slice(-this.r.int(0, 3));
      this.skip(box, l.filter((e) => !last.includes(e)).map((e) => e.tag));
      this.slices.push({ box, messages: last.map((e) => e.tag), others: [] });
      return { _: "updates.channelDifferenceTooLong", final: true, timeout, dialog: { _: "dialog", peer: { _: "peerChannel", channel_id: id }, top_message: 1, read_inbox_max_id: 0, read_outbox_max_id: 0, unread_count: 0, unread_mentions_count: 0, unread_reactions_count: 0, unread_poll_votes_count: 0, notify_settings: { _: "peerNotifySettings" }, pts: c.pts }, messages: last.map((e) => e.update.message), chats: [this.chat(id)], users: [...new Set(last.flatMap((e) => e.users))] };
    }
    let n = Math.min(l.length, this.sliceSize(), q.limit);
    while (n < l.length && l[n].count === 0) n++;
    const part = l.slice(0, n);
    this.slices.push({ box, messages: part.filter((e) => e.kind === "message").map((e) => e.tag), others: part.filter((e) => e.kind === "other").map((e) => e.tag) });
    return { _: "updates.channelDifference", final: n === l.length || undefined, pts: n === l.length ? c.pts : part.at(-1)!.n, timeout, new_messages: part.filter((e) => e.kind === "message").map((e) => e.update.message), other_updates: part.filter((e) => e.kind === "other").map((e) => e.update), chats: [this.chat(id)], users: [...new Set(part.flatMap((e) => e.users))] };
  }
  /** wraps events into what a server pushes */
  pack(l: Event[], numbered: boolean): A {
    const users = [...new Set(l.flatMap((e) => e.users))], chats = l.flatMap((e) => e.chats);
    let seq = 0;
    if (numbered) seq = ++this.seq;
    return { _: "updates", updates: l.map((e) => e.update), users, chats: [...new Map(chats.map((c) => [c.id, c])).values()], date: this.date, seq };
  }
}

export interface Proc {
  n: number;
  client: A;
  storage: DiskStorage;
  links: Link[];
  dead: boolean;
  /** what handlers received: [update, when] */
  got: A[];
  kill(): void;
}

function authString(dc: string, key: Uint8Array, apiId: number, bot: boolean, user: bigint): string {
  const str = (b: Uint8Array) => {
    const h = b.length < 254 ? cat([b.length], b) : cat([254, b.length & 255, b.length >> 8 & 255, b.length >> 16], b);
    return cat(h, new Uint8Array((4 - h.length % 4) % 4));
  };
  const raw = cat(str(new TextEncoder().encode(dc)), str(key), toLe(BigInt(apiId), 4), [bot ? 1 : 0], toLe(user, 8));
  const out: number[] = [];
  for (let i = 0; i < raw.length; i++) {
    if (raw[i]) { out.push(raw[i]); continue; }
    let n = 0;
    while (raw[i + n] === 0 && n < 255) n++;
    out.push(0, n);
    i += n - 1;
  }
  return btoa(String.fromCharCode(...out)).replace(/\+/g, "-").replace(/\//g, "_").replace(/=+$/, "");
}

export class Site {
  r: Rng;
  server: MtServer;
  accounts = new Map<bigint, Account>();
  procs: Proc[] = [];
  /** calls a check wants to answer itself; undefined means not handled */
  on: ((c: Call, acc: Account | undefined) => Answer | Promise<Answer> | undefined) | null = null;
  delay: (c: Call) => number = () => 0;
  unhandled: string[] = [];
  exported = new Map<bigint, { user: bigint; dc: number; bytes: Uint8Array; used: number }>();
  imports: { key: AuthKey; from: bigint }[] = [];
  constructor(public t: Case) {
    this.r = t.rng;
    vclock.reset();
    this.server = new MtServer(this.r);
    this.server.lossy = true;
    this.server.rsa = [RSA[0]];
    this.server.hs = this.r.pick([{ p: 7n, q: 65537n }, { p: 251n, q: 257n }, { p: 3n, q: 1402015859n }, { p: 48611n, q: 104729n }]);
    this.server.handler = (c) => {
      const a = this.#answer(c);
      const d = this.delay(c);
      if (d <= 0) return a;
      return new Promise((f) => setTimeout(() => f(a), d));
    };
  }
  account(id: bigint, bot = false): Account {
    let a = this.accounts.get(id);
    if (!a) this.accounts.set(id, a = new Account(id, bot, this.r, this));
    return a;
  }
  /** a key that is signed in already */
  login(acc: Account, dc = 2): AuthKey {
    const k = this.server.addKey(dc);
    k.user = acc;
    return k;
  }
  authString(k: AuthKey, apiId = 12345) {
    return authString(String(k.dcId % 10000) + (k.dcId >= 10000 ? "-test" : ""), k.key, apiId, k.user.bot, k.user.id);
  }
  ok(c: Call, value: A): Answer {
    return { result: TL.encodeType(API, resultType(c.call._), value) };
  }
  #answer(c: Call): Answer | Promise<Answer> {
    const q = c.call, key = c.sess.key, acc = key.user as Account | undefined;
    const own = this.on?.(c, acc);
    if (own !== undefined) return own;
    switch (q._) {
      case "auth.exportAuthorization": {
        if (!acc) return { error: [401, "AUTH_KEY_UNREGISTERED"] };
        const e = { user: acc.id, dc: q.dc_id, bytes: this.r.bytes(20), used: 0 };
        this.exported.set(acc.id * 1000n + BigInt(this.exported.size), e);
        return this.ok(c, { _: "auth.exportedAuthorization", id: acc.id, bytes: e.bytes });
      }
      case "auth.importAuthorization": {
        const e = [...this.exported.values()].find((e) => e.user === q.id && e.bytes.length === q.bytes.length && e.bytes.every((v, i) => v === q.bytes[i]));
        const dc = Math.abs(c.link.dcId) % 10000;
        if (!e || e.dc !== dc || e.used++) return { error: [400, "AUTH_BYTES_INVALID"] };
        key.user = this.accounts.get(e.user);
        this.imports.push({ key, from: e.user });
        return this.ok(c, { _: "auth.authorization", user: this.accounts.get(e.user)!.user(e.user) });
      }
    }
    if (!acc) return { error: [401, "AUTH_KEY_UNREGISTERED"] };
    switch (q._) {
      case "updates.getState":
        return this.ok(c, acc.state());
      case "updates.getDifference":
        return this.ok(c, acc.difference(q));
      case "updates.getChannelDifference": {
        const d = acc.channelDifference(q);
        return d ? this.ok(c, d) : { error: [400, "CHANNEL_INVALID"] };
      }
      case "users.getUsers":
        return this.ok(c, q.id.map((u: A) => u._ === "inputUserSelf" ? acc.user(acc.id) : acc.users.get(u.user_id) ?? { _: "userEmpty", id: u.user_id ?? 0n }));
      case "channels.getChannels":
        return this.ok(c, { _: "messages.chats", chats: q.id.filter((v: A) => acc.channels.has(v.channel_id)).map((v: A) => acc.chat(v.channel_id)) });
      case "auth.logOut":
        key.user = undefined;
        return this.ok(c, { _: "auth.loggedOut" });
    }
    this.unhandled.push(q._);
    return { error: [400, "METHOD_INVALID"] };
  }
  /** Starts a process on a disk. */
  proc(o: { disk?: Disk; params?: A; diskOptions?: DiskOptions; handler?: (u: A, ctx: A, p: Proc) => unknown; mute?: boolean } = {}): Proc {
    const storage = new DiskStorage(o.disk ?? new Disk(), this.r, o.diskOptions);
    const inner = this.server.provider();
    const p: Proc = {
      n: this.procs.length,
      client: null,
      storage,
      links: [],
      dead: false,
      got: [],
      kill() {
        if (p.dead) return;
        p.dead = storage.dead = true;
        for (const l of p.links) {
          // nothing reaches the dead process, and the server sees the connection end
          l.alive = false;
          l.conn.in.chunks = [];
        }
      },
    };
    storage.onCut = () => p.kill();
    const provider = (x: A) => {
      const q = inner(x);
      const open = q.connection.connect as A;
      q.connection.connect = (async () => {
        if (p.dead) return never;
        const conn = await open();
        p.links.push(this.server.links.find((l) => l.conn === conn)!);
        if (p.dead) return never;
        return conn;
      }) as never;
      return q;
    };
    p.client = new Client({ storage: storage as never, apiId: 12345, apiHash: "hash", transportProvider: provider as never, publicKeys: publicKeys([RSA[0]]), ...o.params });
    p.client.use(async (ctx: A, next: A) => {
      if (p.dead) return never;
      const u = ctx.update ?? ctx;
      p.got.push(u);
      await o.handler?.(u, ctx, p);
      if (p.dead) return never;
      await next();
    });
    this.procs.push(p);
    return p;
  }
  /** sessions that get the pushes of an account */
  listeners(acc: Account): Sess[] {
    const by = new Map<AuthKey, Sess>();
    for (const s of this.server.sessions.values()) if (s.key.user === acc && s.link.dcId > 0 && s.link.open && this.wants.has(s)) by.set(s.key, s);
    return [...by.values()];
  }
  /** sessions that made a call without asking for no updates */
  get wants(): Set<Sess> {
    const w = new Set<Sess>();
    for (const c of this.server.calls) if (!c.wrap.noUpdates) w.add(c.sess);
    return w;
  }
  push(acc: Account, updates: A): boolean {
    const l = this.listeners(acc);
    for (const s of l) this.server.push(s, TL.encodeType(API, "Updates", updates), true, "update");
    return l.length > 0;
  }
}
