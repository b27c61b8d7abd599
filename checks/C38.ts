// deno-lint-ignore-file no-explicit-any
import "../lib/env.ts";
import { Check, hex, show } from "../lib/core.ts";
import { advance, run, Site, until, vclock } from "../lib/site.ts";
import { establish, type Packet, Relay, Side } from "../lib/secret.ts";

const ck = new Check("C38", {
  level: "exploration",
  rule: "Two complete clients hold a secret chat over a relay that reorders, repeats and loses packets, while processes on either side are stopped before or right behind a chosen storage write, or at any other moment, and new ones start on the same storage. A monitor opens every packet of every process and checks the sequence numbers across processes; what the handlers of all processes of a party got is compared with what the other party's processes sent. A case is one history with its stops.",
  assumptions: ["The storage applies single writes atomically and keeps what it confirmed", "A message whose handling was under way at the stop may be missing from the handlers, and a call under way at the stop may or may not take effect", "A request for a chat whose answer had not been stored is void"],
  quickSeconds: 100,
  thoroughSeconds: 750,
});
const W = 8000;
/** what happened on the wire, for a look at one case */
function trace(x: any, from = 0) {
  if (!Deno.env.get("VERIF_TRACE")) return;
  const say = (v: string) => Deno.stderr.writeSync(new TextEncoder().encode(v + "\n"));
  const l: [number, string][] = x.relay.packets.slice(from).map((p: any) => [p.clock, `${p.from.id}#${p.life} raw ${p.raw}${p.again ? "!" : ""} in ${p.layer?.in_seq_no} key ${hex(p.bytes.slice(0, 3))} ${p.layer?.message.action ? show(p.layer.message.action, 300) : p.layer?.message.message}`]);
  for (const s of x.sides) {
    for (const k of x.kills.get(s)!) l.push([k, `stop of ${s.acc.id}`]);
    for (const k of x.starts.get(s)!) l.push([k, `start of ${s.acc.id}`]);
  }
  for (const [at, v] of l.sort((a, b) => a[0] - b[0])) say(`${at.toFixed(0)} ${v}`);
  say(x.where.join() + "; ended by " + x.relay.chats.values().next().value?.endedBy?.id);
}
let texts = 0;

/** Both parties with processes that end and are started again. */
class Pair {
  a: Side;
  b: Side;
  sides: Side[];
  kills = new Map<Side, number[]>();
  starts = new Map<Side, number[]>();
  where: string[] = [];
  log: { s: Side; text: string; life: number; done: boolean; error: any }[] = [];
  pending: Promise<any>[] = [];
  stops = 0;
  /** writes of the processes */
  seen = 0;
  constructor(public t: any, public r: any, public relay: Relay, o: any) {
    const params = () => ({ persistCache: true, guaranteeUpdateDelivery: r.bool() });
    this.a = new Side(relay, relay.site.account(77n), params(), o);
    this.b = new Side(relay, relay.site.account(88n), params(), o);
    this.sides = [this.a, this.b];
    for (const s of this.sides) this.kills.set(s, []), this.starts.set(s, []);
    relay.lossy = true;
  }
  other = (s: Side) => s === this.a ? this.b : this.a;
  killed(s: Side, how: string) {
    this.stops++;
    this.kills.get(s)!.push(Date.now());
    this.where.push(how);
    this.t.count("stops");
    this.t.state("stops", how);
  }
  stop(s: Side) {
    if (s.p.dead) return;
    s.p.kill();
    this.killed(s, "at rest");
  }
  /** The process will be stopped at one of its next writes. */
  arm(s: Side, within: number) {
    let n = this.r.int(0, within);
    const how = this.r.bool() ? "cut" : "after", p = s.p;
    p.storage.onWrite = (k: any) => {
      if (p.dead) return;
      const secret = k.some((v: any) => v === "secretChats");
      // mostly at the writes this is about
      if (!secret && this.r.bool(0.6)) return;
      if (n-- !== 0) return;
      this.killed(s, `${how} ${secret ? "secret chat" : String(k.find((v: any) => typeof v === "string" && !v.startsWith("__B")))}`);
      return how as any;
    };
  }
  /** Starts a process if there is none; it may be stopped on the way. */
  async up(s: Side, arm = -1): Promise<boolean> {
    if (s.p && !s.p.dead) return true;
    s.boot();
    this.starts.get(s)!.push(Date.now());
    if (arm >= 0) this.arm(s, arm);
    const p = s.p;
    let done = false, error: any = null;
    p.client.start().then(() => done = true, (e: any) => (error = e, done = true));
    await until(() => done || p.dead, 600000, "start()");
    if (p.dead) return false;
    if (error) throw error;
    return true;
  }
  async both() {
    for (const s of this.sides) while (!await this.up(s));
  }
  say(s: Side, chat: number): Promise<void> {
    const e = { s, text: "m" + ++texts, life: s.lives, done: false, error: null as any }, p = s.p;
    this.log.push(e);
    s.client.sendSecretMessage(chat, e.text, { parseMode: null }).then(() => null, (err: any) => err).then((err: any) => p.dead || (e.error = err, e.done = true));
    return until(() => e.done || p.dead, 600000, "sendSecretMessage()") as any;
  }
}
/** What the handlers of all processes got against what was sent. */
function judge(t: any, x: Pair, chat: any, finals: Set<string>, prefixAt: Map<string, number>, complete: boolean) {
  for (const [from, to, byCreator] of [[x.a, x.b, true], [x.b, x.a, false]] as const) {
    const d = x.relay.dir(chat, byCreator);
    const wire = [...d.bodies.values()].sort((p, q) => p.raw - q.raw).filter((p) => p.layer.message._ === "decryptedMessage");
    const at = new Map(wire.map((p, i) => [String(p.layer.message.random_id), i]));
    let last = -1;
    const seen = new Set<number>();
    for (const { m, life } of to.messages) {
      const i = at.get(m.id);
      t.ensure(i !== undefined, "unknown-message", () => `handlers got a message that was not sent: ${show(m)}`);
      t.ensure(!seen.has(i!), "twice", () => `message ${i} was delivered twice, the second time in process ${life}`);
      t.ensure(i! > last, "order", () => `message ${i} was delivered after message ${last}, in process ${life}`);
      t.ensure(m.text === wire[i!].layer.message.message, "altered", () => `handlers got ${show(m)}`);
      seen.add(i!);
      last = i!;
    }
    t.count("messages delivered", to.messages.length);
    const texts = new Set(wire.map((p) => p.layer.message.message));
    for (const e of x.log) if (e.s === from && e.done && !e.error) t.ensure(texts.has(e.text), "not-sent", "a message whose call succeeded never reached the service");
    for (let i = 0; complete && i < wire.length; i++) {
      if (seen.has(i)) continue;
      const when = prefixAt.get(byCreator + "/" + wire[i].raw) ?? Infinity;
      t.ensure(!finals.has(wire[i].layer.message.message), "stuck", () => `a message sent after everything had calmed down was not delivered (position ${wire[i].raw} of ${d.next})`);
      // its handling was under way when a process ended
      const begun = Math.max(when, ...x.starts.get(to)!.filter((v) => v <= when + W).slice(-1));
      const ok = x.kills.get(to)!.some((k) => k >= when - 50 && (k <= begun + W || x.starts.get(to)!.some((v) => v >= when && k >= v && k <= v + W)));
      t.ensure(ok, "lost", () => `the message at position ${wire[i].raw} was never delivered although its receiver was not stopped while handling it`);
      t.count("messages under way at a stop");
    }
  }
}

for (const mode of ["traffic", "renewal", "ending"] as const) {
  ck.part(mode, { quick: mode === "traffic" ? 150 : mode === "renewal" ? 100 : 60, thorough: mode === "ending" ? 2500 : 6000, weight: mode === "ending" ? 1 : 3, rejections: true }, async (t) => {
      texts = 0;
    const r = t.rng, site = new Site(t);
    const relay = new Relay(site, t);
    const o = { slow: r.pick([0, 0, 2]) };
    const x = new Pair(t, r, relay, o), { a, b, sides } = x;
    await x.both();
    const chat = await establish(a, b);
    const first = chat.order[0];
    if (mode === "renewal") {
      for (let i = r.int(1, 3); i > 0; i--) await x.say(r.pick(sides), chat.id);
      await x.say(a, chat.id), await x.say(b, chat.id);
      await advance(10000);
      for (const s of sides) await run(s.client.disconnect(), 600000, "disconnect()"), s.p.kill();
      vclock.step(8 * 86400_000);
      await x.both();
      await advance(3000);
    }
    const prefixAt = new Map<string, number>();
    const late = r.pick([0, 20, 1500]), drop = r.pick([0, 0, 0.15]), twice = r.pick([0, 0.2]);
    let faults = true;
    const lat = r.pick([0, 0, 30]);
    site.server.latency = () => lat ? r.int(0, lat) : 0;
    const deliver = (p: Packet) => {
      const d = relay.dir(chat, p.byCreator), before = d.prefix;
      relay.deliver(p);
      for (let i = before; i < d.prefix; i++) prefixAt.set(p.byCreator + "/" + i, Date.now());
    };
    relay.carry = (p: Packet) => {
      if (faults && r.bool(drop)) return;
      for (let i = faults && r.bool(twice) ? 2 : 1; i > 0; i--) setTimeout(() => deliver(p), faults ? r.int(0, late) : 0);
    };
    const p0 = r.pick([0.1, 0.3]);
    let ending = false, cutEnder: Side | null = null;
    const endAt = mode === "ending" ? r.int(1, 12) : -1;
    for (let i = r.int(6, 20); i > 0; i--) {
      for (const s of sides) {
        if (s.p.dead) {
          if (r.bool(0.7)) await x.up(s, r.bool(0.2) ? r.int(0, 20) : -1);
        } else if (r.bool(p0)) r.bool(0.25) ? x.stop(s) : x.arm(s, r.pick([0, 1, 3, 8]));
      }
      const s = r.pick(sides);
      if (!s.p.dead && chat.state === "active" && s.client) {
        const p = x.say(s, chat.id).catch((e: any) => {
          throw e;
        });
        if (r.bool(0.5)) await p;
        else x.pending.push(p);
      }
      if (i === endAt) {
        const e = r.pick(sides);
        if (!e.p.dead) {
          ending = true;
          const p = e.p;
          if (r.bool(0.7)) x.arm(e, r.pick([0, 0, 1, 2]));
          let done = false;
          e.client.endSecretChat(chat.id, r.bool() ? { isHistoryDeleted: true } : undefined).then(() => done = true, () => done = true);
          await until(() => done || p.dead, 600000, "endSecretChat()");
          if (p.dead) cutEnder = e;
        }
      }
      if (r.bool(0.5)) await advance(r.pick([1, 10, 200, 3000]));
    }
    for (const p of x.pending) await p;
    for (const s of sides) if (!s.p.dead) s.p.storage.onWrite = null;
    await x.both();
    faults = false;
    await advance(10000);
    const finals = new Set<string>();
    trace(x);
    if (ending && chat.state === "discarded") {
      t.count("ended chats");
      for (const s of sides) {
        let error: any = null;
        await run(s.client.sendSecretMessage(chat.id, "?", { parseMode: null }).then(() => {}, (e: any) => void (error = e)), 600000, "sendSecretMessage()");
        t.ensure(error, "sent-after-end", "a message could be sent in an ended chat");
        // a call that was under way at a stop may not have taken effect for its client
        if (s === cutEnder) continue;
        for (const key of chat.keys.values()) t.ensure(!s.holds(key), "key-kept", () => `an ended chat's key is still in the storage of ${s.acc.id} (stops: ${x.where})`);
      }
      // and neither of the next processes knows it
      for (const s of sides) {
        await run(s.client.disconnect(), 600000, "disconnect()"), s.p.kill();
        await x.up(s);
        await advance(3000);
        // a call that was under way at a stop may not have taken effect for its client
        if (s === cutEnder) continue;
        for (const key of chat.keys.values()) t.ensure(!s.holds(key), "key-kept", () => `an ended chat's key is in the storage of ${s.acc.id} after another start`);
      }
    } else {
      for (let round = 0; round < 7; round++) {
        for (const s of sides) {
          await x.say(s, chat.id);
          const e = x.log.at(-1)!;
          t.ensure(!e.error, "cannot-send", () => `after ${x.stops} stops (${x.where}) ${s.acc.id} cannot send in the chat, which is ${chat.state}: ${e.error}`);
          finals.add(e.text);
        }
        await advance(20000);
      }
      trace(x);
      t.ensure(chat.state === "active", "ended", () => `the chat was ended by ${chat.endedBy?.id} after stops (${x.where})`);
      const last = sides.map((s) => hex(relay.packets.filter((p) => p.from === s.acc).at(-1)!.bytes.slice(0, 8)));
      t.ensure(last[0] === last[1], "keys-differ", () => `the two parties use different keys after stops (${x.where})`);
      t.ensure(mode !== "renewal" || last[0] !== first, "not-renewed", () => `the key was not renewed after a week (stops: ${x.where})`);
      if (!relay.unfollowed) for (const s of sides) for (const [id, key] of chat.keys) if (id !== last[0]) t.ensure(!s.holds(key), "old-key-kept", () => `a replaced key is still in the storage of ${s.acc.id}`);
      if (mode === "renewal") t.count("renewals", chat.order.length - 1);
    }
    judge(t, x, chat, finals, prefixAt, chat.state === "active");
    t.sig(`${mode}/${x.stops}/${relay.packets.length}/${x.where.join()}`);
    t.sample({ mode, stops: x.where, packets: relay.packets.length, resent: relay.packets.filter((p) => p.again).length, processes: sides.map((s) => s.lives) });
  });
}

// Stops while a chat is being made.
ck.part("handshake", { quick: 150, thorough: 6000, weight: 2, rejections: true }, async (t) => {
  texts = 0;
  const r = t.rng, site = new Site(t);
  const relay = new Relay(site, t);
  const x = new Pair(t, r, relay, { slow: r.pick([0, 0, 2]) }), { a, b, sides } = x;
  await x.both();
  relay.known(a.acc, b.acc);
  await advance(5000);
  const late = r.pick([0, 1000]);
  relay.hop = () => r.int(0, late);
  relay.strict = false;
  const step = r.int(0, 3);
  const maybe = (s: Side, at: number) => {
    if (step !== at && !r.bool(0.15)) return;
    r.bool(0.8) ? x.arm(s, r.int(0, 4)) : setTimeout(() => x.stop(s), r.int(0, late + 30));
  };
  const attempt = async (s: Side, call: () => Promise<any>) => {
    const p = s.p;
    let done = false, value: any = null, error: any = null;
    // what a stopped process still says does not count
    call().then((v) => p.dead || (value = v, done = true), (e) => p.dead || (error = e, done = true));
    await until(() => done || p.dead, 600000, "the handshake");
    return { value, error, done };
  };
  maybe(a, 0), maybe(b, 1);
  const q = await attempt(a, () => a.client.requestSecretChat(88));
  await advance(r.pick([0, 100, 5000]));
  if (a.p.dead && r.bool()) await x.up(a);
  if (b.p.dead) while (!await x.up(b));
  b.p.storage.onWrite = null;
  await advance(5000);
  const chat = [...relay.chats.values()][0];
  const stored = q.done && q.value;
  let accepted: any = null, reported = false;
  if (chat) {
    reported = b.chats.some((v) => v.id === chat.id && v.type === "requested");
    maybe(b, 2), maybe(a, 3);
    accepted = await attempt(b, () => b.client.acceptSecretChat(chat.id));
  }
  await advance(r.pick([0, 100, 5000]));
  await advance(late + 100);
  for (const s of sides) if (!s.p.dead) s.p.storage.onWrite = null;
  await x.both();
  for (const s of sides) s.p.storage.onWrite = null;
  await advance(10000);
  if (!chat) return t.sig("no request/" + x.where);
  // whatever came of it, no message leaves under a key that the other party does not hold
  const works: boolean[] = [];
  for (const s of sides) {
    const n = relay.packets.length;
    await x.say(s, chat.id);
    const e = x.log.at(-1)!;
    await advance(5000);
    const got = x.other(s).messages.some((v) => v.m.text === e.text);
    const sent = relay.packets.slice(n).filter((p) => p.from === s.acc);
    if (!e.error) t.ensure(sent.length && sent.every((p) => chat.keys.has(hex(p.bytes.slice(0, 8)))), "foreign-key", () => `a message was sent under a key that was not agreed on (stops: ${x.where})`);
    else t.ensure(!sent.length, "sent-and-failed", "a message was sent by a call that failed");
    works.push(!e.error && got);
  }
  // a request whose answer was stored, and a reported request that was accepted, lead to a chat that works
  if (chat.state === "active" && stored) t.ensure(works[0] && works[1], "does-not-work", () => `a chat that was accepted does not work: ${works} (stops: ${x.where})`);
  if (stored && reported && accepted?.done && accepted.value) t.ensure(chat.state === "active", "not-active", "an accepted chat is not active");
  t.count(works[0] && works[1] ? "chats made" : "chats not made");
  t.state("handshakes", `${!!stored}/${reported}/${!!accepted?.value}/${works}`);
  t.sig(`${works}/${x.where}`);
});
await ck.main();
