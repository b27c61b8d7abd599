// Update traffic of an account towards complete clients, and what the handlers made of it.
import type { Rng } from "./env.ts";
import { type A, type Account, advance, API, type Event, type Proc, resultType, run, Site, Stuck, until, vclock } from "./site.ts";
import { type Case } from "./core.ts";
import * as TL from "./tl.ts";

/** the tag an update of the feed carries, or null for anything else */
export function tagOf(u: A): number | null {
  switch (u?._) {
    case "updateNewMessage":
    case "updateEditMessage":
    case "updateNewChannelMessage":
    case "updateEditChannelMessage":
      return u.message.id;
    case "updateDeleteMessages":
    case "updateDeleteChannelMessages":
    case "updatePinnedChannelMessages":
      return u.messages[0];
    case "updateReadHistoryInbox":
      return u.max_id;
    case "updateWebPage":
    case "updateChannelWebPage":
      return Number(u.webpage.id);
    case "updateNewEncryptedMessage":
      return Number(u.message.random_id);
    case "updateBotStopped":
      return u.date;
  }
  return null;
}
export interface FeedOptions {
  loss?: number;
  dup?: number;
  reorder?: number;
  drops?: number;
  results?: number;
  tooLong?: number;
  errors?: number;
  skips?: boolean;
  channels?: number;
  bot?: boolean;
  slow?: boolean;
}
export function profile(r: Rng): FeedOptions {
  const z = (v: number) => r.bool(0.6) ? r.f() * v : 0;
  return {
    loss: z(0.5),
    dup: z(0.5),
    reorder: z(0.7),
    drops: z(0.2),
    results: z(0.3),
    tooLong: z(0.2),
    errors: z(0.6),
    skips: r.bool(0.15),
    channels: r.pick([0, 0, 1, 2, 4]),
    bot: r.bool(0.3),
    slow: r.bool(0.3),
  };
}
export class Feed {
  r: Rng;
  site: Site;
  acc: Account;
  channels: bigint[] = [];
  script = "";
  inError = 0;
  /** events whose push the client may never see because it came before the sequence was known */
  exempt = new Set<number>();
  diffs: { box: string; at: number; pts: number; qts: number; proc: Proc | undefined }[] = [];
  /** states handed out whose own difference, which is not one of the local position, was not asked yet */
  fetched: { proc: Proc | undefined; state: A }[] = [];
  sendTags = new Map<string, Event>();
  constructor(public t: Case, public o: FeedOptions) {
    const r = this.r = t.rng;
    const site = this.site = new Site(t);
    this.acc = site.account(4242n, o.bot);
    const lat = r.pick([0, 0, 5, 80, 700]);
    site.server.latency = () => lat ? r.int(0, lat) : 0;
    const slowDiff = r.pick([0, 0, 100, 3000]);
    site.delay = (c) => /Difference|getState/.test(c.call._) && slowDiff ? r.int(0, slowDiff) : 0;
    const size = r.pick([1, 2, 3, 10, 100]);
    this.acc.sliceSize = () => size === 1 ? 1 : r.int(1, size);
    if (o.skips) this.acc.tooLong = this.acc.channelTooLong = () => r.bool(0.1);
    site.on = (c) => {
      const q = c.call;
      if (q._ === "updates.getDifference" || q._ === "updates.getChannelDifference") {
        const proc = site.procs.find((p) => p.links.includes(c.link));
        const own = q._ === "updates.getDifference" ? this.fetched.findIndex((v) => v.proc === proc && v.state.pts === q.pts && v.state.qts === q.qts && v.state.date === q.date) : -1;
        if (own >= 0) this.fetched.splice(own, 1);
        else this.diffs.push({ box: q._ === "updates.getDifference" ? "c" : "h" + q.channel.channel_id, at: vclock.mono, pts: q.pts, qts: q.qts ?? 0, proc });
        if (this.inError > 0) {
          this.inError--;
          return { error: r.bool() ? [400, "PERSISTENT_TIMESTAMP_INVALID"] : [500, "PERSISTENT_TIMESTAMP_INVALID"] };
        }
      }
      if (q._ === "updates.getState") {
        const state = this.acc.state();
        this.fetched.push({ proc: site.procs.find((p) => p.links.includes(c.link)), state });
        return this.site.ok(c, state);
      }
      if (q._ === "messages.sendMessage") {
        const e = this.acc.happen("message", q.peer._ === "inputPeerChannel" ? q.peer.channel_id : undefined);
        this.t.count("sent_by_client");
        if (q.peer._ !== "inputPeerChannel" && r.bool()) {
          return this.site.ok(c, { _: "updateShortSentMessage", out: true, id: e.tag, pts: e.n, pts_count: 1, date: this.acc.date });
        }
        return this.site.ok(c, this.acc.pack([e], false));
      }
      return undefined;
    };
  }
  now() {
    return this.site.server.now() | 0;
  }
  kinds(channel: boolean): string {
    const r = this.r;
    if (channel) return r.pick(["message", "message", "message", "edit", "delete", "pin", "web"]);
    if (this.o.bot) return r.pick(["message", "message", "message", "edit", "delete", "stopped", "stopped"]);
    return r.pick(["message", "message", "message", "edit", "delete", "read", "web", "encrypted"]);
  }
  event(channel?: bigint): Event {
    return this.acc.happen(this.kinds(channel !== undefined), channel);
  }
  /** events happen and their pushes leave, maybe late, twice or never */
  burst(clean = false) {
    const r = this.r, o = this.o;
    const channel = this.channels.length && r.bool(0.4) ? r.pick(this.channels) : undefined;
    const l = Array.from({ length: r.pick([1, 1, 1, 2, 4]) }, () => this.event(channel !== undefined && r.bool(0.9) ? channel : undefined));
    const groups: Event[][] = r.bool(0.5) ? [l] : l.map((e) => [e]);
    for (const g of groups) {
      const e = g[0];
      let u: A;
      // a numbered container takes its number now, even when its push is lost
      if (g.length === 1 && e.kind === "message" && e.box === "c" && r.bool(0.3)) {
        const m = e.update.message;
        u = { _: "updateShortMessage", id: m.id, user_id: m.peer_id.user_id, message: m.message, pts: e.n, pts_count: e.count, date: this.acc.date };
      } else if (g.length === 1 && !e.users.length && !e.chats.length && r.bool(0.5)) u = { _: "updateShort", update: e.update, date: this.acc.date };
      else u = this.acc.pack(g, r.bool(0.5));
      if (u._ === "updates" && u.seq && r.bool(0.2)) u = { ...u, _: "updatesCombined", seq_start: u.seq };
      if (!clean && r.bool(o.loss ?? 0)) {
        this.t.count("pushes_lost");
        continue;
      }
      const times = !clean && r.bool(o.dup ?? 0) ? 2 : 1;
      for (let i = 0; i < times; i++) {
        const late = !clean && r.bool(o.reorder ?? 0) ? r.pick([1, 20, 500, 4000]) * r.f() : 0;
        if (late) setTimeout(() => this.site.push(this.acc, u), late);
        else this.site.push(this.acc, u);
        this.t.count("pushes");
      }
    }
  }
  /** one event whose push is neither lost nor late */
  push(channel?: bigint) {
    return this.site.push(this.acc, this.acc.pack([this.event(channel)], false));
  }
  /** introduces the channels: their first updates arrive undisturbed */
  async introduce(n: number) {
    for (let i = 0; i < n; i++) {
      const id = 900n + BigInt(i);
      this.acc.channel(id);
      this.channels.push(id);
      this.site.push(this.acc, this.acc.pack([this.acc.happen("message", id)], false));
    }
    await advance(20000);
  }
  step(p: Proc): number {
    const r = this.r, o = this.o;
    const x = r.f();
    if (x < 0.6) {
      this.script += "e";
      this.burst();
    } else if (x < 0.6 + (o.results ?? 0)) {
      this.script += "s";
      const ch = this.channels.length && r.bool() ? r.pick(this.channels) : undefined;
      const peer = ch ? { _: "inputPeerChannel", channel_id: ch, access_hash: this.acc.channel(ch).access } : { _: "inputPeerUser", user_id: 5001n, access_hash: 1n };
      p.client.invoke({ _: "messages.sendMessage", peer, message: "hello", random_id: BigInt(r.u32()) }).catch(() => {});
    } else if (x < 0.7 + (o.drops ?? 0)) {
      if (o.drops && r.bool()) {
        this.script += "D";
        this.t.count("drops");
        p.links.filter((l) => l.open).forEach((l) => l.drop(r.bool()));
      }
    } else if (x < 0.75 + (o.drops ?? 0) + (o.tooLong ?? 0)) {
      if (o.tooLong) {
        this.script += "T";
        if (this.channels.length && r.bool()) {
          const id = r.pick(this.channels);
          this.site.push(this.acc, { _: "updates", updates: [{ _: "updateChannelTooLong", channel_id: id, ...(r.bool() ? { pts: this.acc.channel(id).pts } : {}) }], users: [], chats: [this.acc.chat(id)], date: this.acc.date, seq: 0 });
        } else this.site.push(this.acc, { _: "updatesTooLong" });
      }
    } else if (o.errors && x < 0.9 && r.bool(o.errors)) {
      this.script += "E";
      this.inError = r.int(1, 3);
    } else this.script += ".";
    return r.pick([0, 0, 1, 10, 100, 1000, 10000]);
  }
  /** waits until the client is connected again */
  async settle() {
    this.inError = 0;
    await advance(60000);
  }
  tags(p: Proc): number[] {
    return p.got.map((u) => tagOf(u.update)).filter((v) => v !== null);
  }
  find(tag: number): Event | undefined {
    return this.acc.events.find((e) => e.tag === tag) ?? [...this.acc.channels.values()].flatMap((c) => c.events).find((e) => e.tag === tag);
  }
  get all(): Event[] {
    return [...this.acc.events, ...[...this.acc.channels.values()].flatMap((c) => c.events)];
  }
  /** what is wrong with the order of the deliveries, or null */
  disorder(p: Proc, boxes?: string[]): { key: string; msg: string } | null {
    const by = new Map<string, Event[]>();
    const all = new Map(this.all.map((e) => [e.tag, e]));
    for (const tag of this.tags(p)) {
      const e = all.get(tag);
      if (!e) return { key: "unknown", msg: `an update with the tag ${tag}, which the server never made, is delivered` };
      if (!by.has(e.box)) by.set(e.box, []);
      by.get(e.box)!.push(e);
    }
    for (const [box, l] of by) {
      if (boxes && !boxes.includes(box)) continue;
      const seen = new Set<number>();
      for (const e of l) {
        if (e.count && seen.has(e.tag)) return { key: box[0] + "-twice", msg: `the ${e.update._} at position ${e.n} of ${box} is delivered twice: ${l.map((e) => e.n)}` };
        seen.add(e.tag);
      }
      for (let i = 1; i < l.length; i++) {
        for (let j = i - 1; j >= 0 && j >= i - 200; j--) {
          const a = l[j], b = l[i];
          if (a.n <= b.n) continue;
          if (this.acc.slices.some((s) => s.box === box && s.messages.includes(a.tag) && s.others.includes(b.tag))) continue;
          return { key: box[0] + "-order", msg: `the ${a.update._} at position ${a.n} of ${box} is delivered before the ${b.update._} at position ${b.n}: ${l.map((e) => e.n)}` };
        }
      }
    }
    return null;
  }
  /** events that are missing although the server did not declare them skipped */
  missing(p: Proc, box?: (b: string) => boolean): Event[] {
    const got = new Set(this.tags(p));
    return this.all.filter((e) => (!box || box(e.box)) && e.count && !got.has(e.tag) && !this.exempt.has(e.tag) && !this.acc.skipped.get(e.box)?.has(e.tag));
  }
  /** a difference request that goes back, or null */
  backwards(p: Proc): string | null {
    const last = new Map<string, { pts: number; qts: number }>();
    for (const d of this.diffs) {
      if (d.proc !== p) continue;
      const l = last.get(d.box);
      if (l && (d.pts < l.pts || d.qts < l.qts)) return `a difference of ${d.box} is asked from position ${d.pts}/${d.qts} after one from ${l.pts}/${l.qts}`;
      last.set(d.box, d);
    }
    return null;
  }
}
export { type A, advance, API, type Event, type Proc, run, Site, Stuck, TL, until, vclock };
