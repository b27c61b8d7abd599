// deno-lint-ignore-file no-explicit-any
import "../lib/env.ts";
import { Check, hex, show } from "../lib/core.ts";
import { advance, run, Site } from "../lib/site.ts";
import { establish, meet, type Packet, Peer, Relay, Side } from "../lib/secret.ts";

const ck = new Check("C36", {
  level: "exploration",
  rule: "Complete clients hold secret chats with each other, and with a reference party, over a relay that reorders, duplicates and loses packets. Every packet is opened by a monitor that follows the keys and checks the sequence rules; what handlers receive is compared with what was sent. A case is one chat.",
  assumptions: ["Each party sends something after the losses", "The service keeps what was uploaded for a call that failed"],
  quickSeconds: 75,
  thoroughSeconds: 600,
});

let texts = 0;
interface Sent {
  n: number;
  kind: string;
  want: any;
  from: number;
  to: number; // when the call settled
  error: any;
  find: (m: any) => boolean;
}
/** a call that sends something, and what the other party is to be told */
function send(r: any, s: Side, chat: number, log: Sent[]): Promise<void> {
  const c = s.client, text = "t" + ++texts + (r.bool(0.2) ? " \u{1F600} é" : "") + (r.bool(0.05) ? "x".repeat(r.int(1, 5000)) : "");
  const params: any = { ttl: r.bool(0.2) ? r.int(1, 60) : undefined, isSilent: r.bool(0.2) || undefined, replyToMessageId: r.bool(0.2) ? String(r.big(62)) : undefined, viaBot: r.bool(0.1) ? "bot" + r.int(0, 9) : undefined };
  const base = { chatId: chat, ttl: params.ttl ?? 0, isSilent: !!params.isSilent, replyToMessageId: params.replyToMessageId, viaBot: params.viaBot };
  const x = r.f();
  let p: Promise<any>, want: any;
  const find = (m: any) => (m.text ?? m.caption ?? m.contact?.firstName ?? m.venue?.title) === text || m.location?.latitude === want.location?.latitude && m.location;
  let kind = "text";
  if (x < 0.6) {
    const entities = r.bool(0.3) ? [{ type: r.pick(["bold", "italic", "code"]), offset: 0, length: 2 }] : undefined;
    want = { type: "text", ...base, text, entities: entities ?? [] };
    p = c.sendSecretMessage(chat, text, { ...params, entities, parseMode: null });
  } else if (x < 0.7) {
    const latitude = texts + 0.5, longitude = r.f() * 90;
    kind = "location";
    want = { type: "location", ...base, location: { latitude, longitude } };
    p = c.sendSecretLocation(chat, latitude, longitude, params);
  } else if (x < 0.8) {
    kind = "contact";
    want = { type: "contact", ...base, contact: { firstName: text, lastName: r.bool() ? "L" : undefined, phoneNumber: "+" + r.int(1, 1e9), userId: 0 } };
    p = c.sendSecretContact(chat, text, want.contact.phoneNumber, { ...params, lastName: want.contact.lastName });
  } else if (x < 0.85) {
    kind = "venue";
    want = { type: "venue", ...base, venue: { title: text, address: "A" + r.int(0, 99) } };
    p = c.sendSecretVenue(chat, 1.5, 2.5, text, want.venue.address, params);
  } else {
    kind = "file";
    const bytes = r.bytes(r.pick([1, 15, 16, 100, 5000]));
    want = { type: "document", ...base, caption: text, document: { fileName: "f.bin", mimeType: "application/x-test", fileSize: bytes.length } };
    p = c.sendSecretDocument(chat, bytes, { ...params, caption: text, fileName: "f.bin", mimeType: "application/x-test", parseMode: null });
  }
  const e: Sent = { n: log.length, kind, want, from: performance.now(), to: Infinity, error: null, find };
  e.from = counter++;
  log.push(e);
  return p.then(() => void (e.to = counter++), (err: any) => void (e.error = err, e.to = counter++));
}
let counter = 0;
const covers = (got: any, want: any): boolean => {
  if (want && typeof want === "object" && !(want instanceof Uint8Array)) return got && typeof got === "object" && (!Array.isArray(want) || got.length === want.length) && Object.keys(want).every((k) => covers(got[k], want[k]));
  return got === want;
};
/** Compares what one party's handlers got with what the other sent. */
function compare(t: any, relay: Relay, chat: any, byCreator: boolean, log: Sent[], to: Side, complete = true) {
  const d = relay.dir(chat, byCreator), got = to.messages.map((v) => v.m);
  const wire = [...d.bodies.values()].sort((a, b) => a.raw - b.raw).filter((p) => p.layer.message._ === "decryptedMessage");
  const ids = wire.map((p) => String(p.layer.message.random_id));
  t.count("messages delivered", got.length);
  const seen = new Set<string>();
  let at = 0;
  for (const m of got) {
    const i = ids.indexOf(m.id);
    t.ensure(i >= 0, "unknown-message", () => `handlers got a message that was not sent: ${show(m)}`);
    t.ensure(!seen.has(m.id), "twice", () => `handlers got message ${i} of the sender twice: ${show(m)}`);
    seen.add(m.id);
    t.ensure(i === at, "order", () => `handlers got message ${i} of the sender when ${at} was due`);
    at++;
    const e = log.find((e) => e.find(m));
    t.ensure(e, "unknown-content", () => `handlers got a message nobody meant to send: ${show(m)}`);
    t.ensure(covers(m, e!.want), "altered", () => `handlers got ${show(m, 600)} for ${show(e!.want, 600)}`);
    if (e!.kind === "file") {
      const f = relay.stored.get(wire[i].file.id);
      t.ensure(f && m.document.fileId, "file", "a message arrived without its file");
    }
  }
  if (complete) t.ensure(at === ids.length, "missing", () => `handlers got ${at} of ${ids.length} messages; next is position ${wire[at]?.raw} ${show(wire[at]?.layer.message, 200)}`);
  // calls one after the other are sent in that order
  const place = log.map((e) => [e, ids.findIndex((_, i) => wire[i].layer.message.message === (e.want.text ?? e.want.caption) && e.kind !== "location")] as const).filter(([e, i]) => i >= 0 && !e.error);
  for (let i = 0; i + 1 < place.length; i++) if (place[i][0].to < place[i + 1][0].from) t.ensure(place[i][1] < place[i + 1][1], "call-order", "messages were put on the wire in another order than that of the calls");
}
const settings = (r: any) => ({ persistCache: r.bool(), guaranteeUpdateDelivery: r.bool() });

ck.part("pair", { quick: 400, thorough: 20000, weight: 3, rejections: true }, async (t) => {
  texts = 0;
  const r = t.rng, site = new Site(t);
  const lat = r.pick([0, 5, 300]);
  site.server.latency = () => lat ? r.int(0, lat) : 0;
  const relay = new Relay(site, t);
  const o = { slow: r.pick([0, 0, 3]), serialize: r.bool() };
  const a = new Side(relay, site.account(77n), settings(r), o), b = new Side(relay, site.account(88n), settings(r), o);
  await a.start();
  await b.start();
  const chat = await establish(a, b);
  const late = r.pick([0, 20, 500, 5000]), drop = r.pick([0, 0, 0.1, 0.4]), twice = r.pick([0, 0.1, 0.4]);
  let faults = true, lost = 0, dups = 0;
  let flying = 0;
  relay.carry = (p: Packet) => {
    if (faults && r.bool(drop)) return void lost++;
    const n = faults && r.bool(twice) ? r.int(2, 3) : 1;
    dups += n - 1;
    for (let i = 0; i < n; i++) {
      const ms = faults ? r.int(0, late) : 0;
      flying++;
      setTimeout(() => (flying--, relay.deliver(p)), ms);
    }
  };
  const log: Record<string, Sent[]> = { a: [], b: [] };
  const pending: Promise<void>[] = [];
  const chatty = r.bool(0.3);
  const sides: [Side, Sent[]][] = [[a, log.a], [b, log.b]];
  if (chatty) for (const [s, l] of sides) s.onMessage = () => r.bool(0.3) && l.length < 60 ? (r.bool() ? send(r, s, chat.id, l) : void pending.push(send(r, s, chat.id, l))) : undefined;
  for (let i = r.int(1, 25); i > 0; i--) {
    const [s, l] = sides[r.int(0, 1)];
    const p = send(r, s, chat.id, l);
    if (r.bool(0.4)) await run(p, 600000, "a send");
    else pending.push(p);
    if (r.bool(0.1)) pending.push(s.client.sendSecretScreenshotNotification(chat.id, [String(r.big(62))]));
    if (r.bool(0.05)) await run(s.client.sendSecretTypingAction(chat.id), 600000, "typing");
    if (r.bool(0.3)) await advance(r.pick([1, 50, 1000, 6000]));
  }
  for (let i = 0; i < 4; i++) await advance(10000), await run(Promise.all(pending), 600000, "the sends");
  faults = false;
  for (let round = 0; round < 4; round++) {
    for (const [s, l] of sides) await run(send(r, s, chat.id, l), 600000, "a send");
    await advance(20000);
  }
  for (const l of [log.a, log.b]) for (const e of l) t.ensure(!e.error, "send-failed", () => `sending failed: ${e.error?.stack ?? e.error}`);
  t.ensure(chat.state === "active", "ended", () => `a chat without any inconsistency was ended by ${chat.endedBy?.id}`);
  if (relay.unfollowed) return t.count("chats not followed");
  compare(t, relay, chat, true, log.a, b);
  compare(t, relay, chat, false, log.b, a);
  t.count("packets lost", lost);
  t.count("packets duplicated", dups);
  t.count("packets", relay.packets.length);
  t.state("delivery order", relay.packets.map((p) => p.raw + (p.byCreator ? "a" : "b") + (p.again ? "!" : "")).join());
  t.sig(`${log.a.length}/${log.b.length}/${lost}/${dups}/${late}/${relay.packets.filter((p) => p.again).length}`);
  t.sample({ sentByCreator: log.a.length, sentByOther: log.b.length, lost, duplicated: dups, lateness: late, resent: relay.packets.filter((p) => p.again).length });
});

const has = (s: Side, m: any) => s.messages.some((v) => v.m.id === String(m.random_id));
ck.part("reference", { quick: 400, thorough: 20000, weight: 2, rejections: true }, async (t) => {
  texts = 0;
  const r = t.rng, site = new Site(t);
  const relay = new Relay(site, t);
  const a = new Side(relay, site.account(77n), settings(r), { slow: r.pick([0, 0, 3]) });
  const peer = new Peer(relay, site.account(88n));
  await a.start();
  const clientAsks = r.bool();
  const chat = await meet(a, peer, clientAsks);
  const log: Sent[] = [];
  let asked = 0;
  peer.onMessage = (m) => void (m.action?._ === "decryptedMessageActionResend" && asked++);
  const order: any[] = []; // messages of the reference party in order
  let bad = "";
  const steps = r.int(2, 12), badAt = r.bool(0.6) ? r.int(0, steps - 1) : -1;
  const held: any[] = [];
  for (let i = 0; i < steps; i++) {
    const x = r.f();
    if (i === badAt) {
      // whatever is missing arrives first
      for (const m of r.shuffle(held.splice(0))) relay.inject(a.acc, chat.id, m.bytes), mark(m);
      await advance(5000);
      const c = peer.creator ? 1 : 0, d = relay.dir(chat, clientAsks);
      const l = peer.out, make = (o: any, m = peer.text()) => ({ bytes: peerSeal(peer.layer(m, o)), m });
      const v = r.pick([
        ["out-parity", () => make({ out: 2 * l + 1 - c })],
        ["out-negative", () => make({ out: -2 + c })],
        ["in-parity", () => make({ in: 2 * peer.in + c })],
        ["in-too-large", () => make({ in: 2 * (d.next + r.pick([1, 2, 1000])) + (1 - c) })],
        ["in-negative", () => make({ in: -2 + (1 - c) })],
        ["resend-range", () => make({}, peer.service({ _: "decryptedMessageActionResend", start_seq_no: r.pick([0, 2 * d.next]) + (1 - c), end_seq_no: 2 * (d.next + r.int(1, 3)) + (1 - c) }))],
        ["resend-parity", () => make({}, peer.service({ _: "decryptedMessageActionResend", start_seq_no: c, end_seq_no: c }))],
        ["resend-backwards", () => make({}, peer.service({ _: "decryptedMessageActionResend", start_seq_no: 2 + (1 - c), end_seq_no: 1 - c }))],
        ...(peer.in > 0 && order.length ? [["in-decreasing", () => make({ in: 2 * (peer.in - 1) + (1 - c) })]] : []),
      ]) as [string, () => any];
      // a decreasing number is only visible after a larger one
      let said = 0;
      if (v[0] === "in-decreasing") {
        said = peer.in;
        const m = peer.make(peer.text());
        order.push(m.message);
        relay.inject(a.acc, chat.id, m.bytes), mark(m);
        await advance(2000);
      }
      bad = v[0];
      // ending it at the service may fail
      const mute = r.bool(0.3);
      if (mute) relay.fault = (c) => c.call._ === "messages.discardEncryption" ? { before: r.pick([[500, "WORKER_BUSY_TOO_LONG_RETRY"], [420, "FLOOD_WAIT_1000"]] as [number, string][]) } : undefined;
      const q = v[0] === "in-decreasing" ? make1(peer, said) : v[1]();
      relay.inject(a.acc, chat.id, q.bytes);
      await advance(10000);
      t.ensure(mute || chat.state === "discarded" && chat.endedBy === a.acc, "not-ended", () => `a message with a wrong sequence number (${bad}) did not end the chat`);
      t.ensure(!has(a, q.m), "delivered-inconsistent", () => `a message with a wrong sequence number (${bad}) was delivered`);
      break;
    } else if (x < 0.35) {
      const p = send(r, a, chat.id, log);
      await run(p, 600000, "a send");
    } else if (x < 0.9) {
      // a batch of the reference party's messages in any order, with copies, some missing
      const batch = Array.from({ length: r.int(1, 5) }, () => peer.make(r.bool(0.8) ? peer.text() : peer.service(r.pick([{ _: "decryptedMessageActionNoop" }, { _: "decryptedMessageActionReadMessages", random_ids: [1n] }, { _: "decryptedMessageActionNotifyLayer", layer: 144 }]))));
      for (const m of batch) if (m.message._ === "decryptedMessage") order.push(m.message);
      const l = r.bool(0.3) ? r.shuffle([...batch]) : [...batch];
      for (const m of l) {
        if (r.bool(0.2)) {
          if (r.bool(0.3)) held.push(m);
          continue;
        }
        relay.inject(a.acc, chat.id, m.bytes), mark(m);
        if (r.bool(0.2)) relay.inject(a.acc, chat.id, r.bool() ? m.bytes : peer.again(m.raw));
      }
      if (r.bool(0.1) && peer.out > 1) relay.inject(a.acc, chat.id, peer.again(r.int(0, relay.dir(chat, !clientAsks).prefix || 0) ? r.int(0, Math.max(0, relay.dir(chat, !clientAsks).prefix - 1)) : 0));
    } else {
      // the reference party asks for messages again
      const d = relay.dir(chat, clientAsks);
      if (d.next > 0) {
        const from = r.int(0, d.next - 1), to = r.int(from, d.next - 1), x = clientAsks ? 1 : 0, n = relay.packets.length;
        const m = peer.make(peer.service({ _: "decryptedMessageActionResend", start_seq_no: 2 * from + x, end_seq_no: 2 * to + x }));
        relay.inject(a.acc, chat.id, m.bytes), mark(m);
        await advance(5000);
        const seen = relay.packets.slice(n).filter((p) => p.from === a.acc).map((p) => p.raw);
        for (let k = from; k <= to; k++) t.ensure(seen.includes(k), "not-resent", () => `message ${k} was asked for again (${from}..${to}) and not sent again; sent ${seen}`);
        t.count("resend requests of the reference party");
      }
    }
    if (r.bool(0.7)) await advance(r.pick([1, 1000, 5000]));
  }
  function mark(m: any) {
    const d = relay.dir(chat, !clientAsks);
    d.delivered.add(m.raw);
    while (d.delivered.has(d.prefix)) d.prefix++;
  }
  function make1(peer: Peer, said: number) {
    const m = peer.text(), c = peer.creator ? 1 : 0;
    return { m, bytes: peerSeal(peer.layer(m, { in: 2 * (said - 1) + (1 - c) })) };
  }
  function peerSeal(body: Uint8Array) {
    peer.sent.set(peer.out, { body: body as any, key: peer.key! });
    return peer.again(peer.out++);
  }
  const got = () => a.messages.map((v) => v.m.id), want = () => order.map((m) => String(m.random_id));
  if (!bad) {
    for (let round = 0; round < 3; round++) {
      const m = peer.make(peer.text());
      order.push(m.message);
      relay.inject(a.acc, chat.id, m.bytes), mark(m);
      await advance(10000);
    }
    t.ensure(chat.state === "active", "ended", () => "a chat without any inconsistency was ended");
    t.ensure(show(got(), 1e6) === show(want(), 1e6), "delivery", () => `handlers got ${got().map((v) => want().indexOf(v))} of ${want().length} messages`);
    for (const v of a.messages) t.ensure(order.find((m) => String(m.random_id) === v.m.id)!.message === v.m.text, "altered", "a message was altered");
    for (const e of log) t.ensure(!e.error, "send-failed", () => `sending failed: ${e.error?.stack ?? e.error}`);
  } else {
    // nothing happens in an ended chat
    const n = a.messages.length, packets = relay.packets.length;
    t.ensure(got().every((v, i) => want()[i] === v), "order", () => `handlers got ${got().map((v) => want().indexOf(v))}`);
    const m = peer.make(peer.text());
    relay.inject(a.acc, chat.id, m.bytes);
    await advance(5000);
    t.ensure(a.messages.length === n, "after-end", "a message was delivered after the chat had ended");
    const l: Sent[] = [];
    await run(send(r, a, chat.id, l), 600000, "a send");
    t.ensure(l[0].error, "send-after-end", "a message could be sent after the chat had ended");
    t.ensure(relay.packets.length === packets && relay.refused === 0, "packet-after-end", "a packet was sent after the chat had ended");
  }
  t.count("gaps asked for", asked);
  t.sig(`${bad}/${clientAsks}/${log.length}/${order.length}/${asked}`);
  t.state("endings", bad || "none");
  t.sample({ bad, clientAsks, sent: log.length, received: order.length, asked });
});

// Failing calls: the chat goes on afterwards.
ck.part("failing", { quick: 200, thorough: 8000, rejections: true }, async (t) => {
  texts = 0;
  const r = t.rng, site = new Site(t);
  const relay = new Relay(site, t);
  relay.lossy = true;
  const a = new Side(relay, site.account(77n), settings(r)), b = new Side(relay, site.account(88n), settings(r));
  await a.start();
  await b.start();
  const chat = await establish(a, b);
  let faults = true, failed = 0;
  const late = r.pick([0, 500]), drop = r.pick([0, 0.2]), p0 = r.pick([0.1, 0.4]);
  relay.carry = (p: Packet) => void (faults && r.bool(drop) || setTimeout(() => relay.deliver(p), faults ? r.int(0, late) : 0));
  const which = r.pick(["all", "service"]);
  relay.fault = (c) => {
    if (!faults || !/^messages\.sendEncrypted/.test(c.call._) || which === "service" && c.call._ !== "messages.sendEncryptedService" || !r.bool(p0)) return;
    failed++;
    const e: [number, string] = r.pick([[500, "WORKER_BUSY_TOO_LONG_RETRY"], [420, "FLOOD_WAIT_1000"], [400, "MSG_WAIT_FAILED"]]);
    return r.bool(0.6) ? { before: e } : { after: e };
  };
  const log: Record<string, Sent[]> = { a: [], b: [] };
  for (let i = r.int(3, 20); i > 0; i--) {
    const x = r.bool();
    await run(send(r, x ? a : b, chat.id, x ? log.a : log.b), 600000, "a send");
    if (r.bool(0.4)) await advance(r.pick([1, 1000]));
  }
  await advance(20000);
  faults = false;
  for (let round = 0; round < 5; round++) {
    for (const [s, l] of [[a, log.a], [b, log.b]] as const) await run(send(r, s, chat.id, l), 600000, "a send");
    await advance(20000);
  }
  t.ensure(chat.state === "active", "ended", () => `a chat was ended by ${chat.endedBy?.id} after failing calls`);
  if (relay.unfollowed) return t.count("chats not followed");
  compare(t, relay, chat, true, log.a, b, true);
  compare(t, relay, chat, false, log.b, a, true);
  // what was sent successfully has arrived
  for (const [l, s] of [[log.a, b], [log.b, a]] as const) for (const e of l) if (!e.error) t.ensure(s.messages.some((v) => e.find(v.m)), "lost", () => `a message whose call succeeded did not arrive: ${show(e.want)}`);
  t.count("failing calls", failed);
  t.sig(`${failed}/${drop}/${late}/${which}/${relay.packets.length}`);
});

// The end of a chat, by either party.
ck.part("end", { quick: 150, thorough: 4000, rejections: true }, async (t) => {
  texts = 0;
  const r = t.rng, site = new Site(t);
  const relay = new Relay(site, t);
  const a = new Side(relay, site.account(77n), settings(r)), b = new Side(relay, site.account(88n), settings(r));
  await a.start();
  await b.start();
  const chat = await establish(a, b);
  const log: Sent[] = [];
  for (let i = r.int(0, 4); i > 0; i--) await run(send(r, r.bool() ? a : b, chat.id, log), 600000, "a send");
  const [x, y] = r.bool() ? [a, b] : [b, a];
  const res: any = await run(x.client.endSecretChat(chat.id, r.bool() ? { isHistoryDeleted: true } : undefined), 600000, "endSecretChat()");
  t.ensure(res.type === "discarded" && chat.state === "discarded", "end", () => `endSecretChat() returned ${show(res)}`);
  await advance(5000);
  t.ensure(y.chats.at(-1)?.type === "discarded" && y.chats.at(-1)?.id === chat.id, "end-not-reported", "the end of a chat was not reported");
  const n = relay.packets.length, got = [a.messages.length, b.messages.length];
  for (const p of relay.packets) relay.inject(p.to, chat.id, p.bytes);
  await advance(5000);
  t.ensure(a.messages.length === got[0] && b.messages.length === got[1], "after-end", "a message was delivered after the chat had ended");
  for (const s of [a, b]) {
    const l: Sent[] = [];
    await run(send(r, s, chat.id, l), 600000, "a send");
    t.ensure(l[0].error, "send-after-end", "a message could be sent after the chat had ended");
  }
  t.ensure(relay.packets.length === n && relay.refused === 0, "packet-after-end", "a packet was sent after the chat had ended");
  for (const id of chat.order) for (const [s, w] of [[a, "first"], [b, "second"]] as const) t.ensure(!s.holds(chat.keys.get(id)!), "key-kept", () => `the key of an ended chat is still in the ${w} party's storage`);
  t.sig(`${x === a}/${log.length}/${hex(chat.gA.slice(0, 4))}`);
  t.count("ended chats");
});
await ck.main();
