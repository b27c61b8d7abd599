// deno-lint-ignore-file no-explicit-any
import "../lib/env.ts";
import { Check, hex, show } from "../lib/core.ts";
import { advance, Disk, run, Site, vclock } from "../lib/site.ts";
import { be, contains, establish, fingerprint, GENERATORS, inRange, keyId, meet, P, type Packet, Peer, powmod, Relay, S, seal, Side, toBe, unseal } from "../lib/secret.ts";
import { PRIMES } from "../lib/exchange.ts";
import * as TL from "../lib/tl.ts";

const ck = new Check("C37", {
  level: "exploration",
  rule: "Complete clients agree on keys with each other and with a reference party that offers conforming and unsafe values, then exchange messages among altered, truncated, foreign and reflected packets, and renew their keys after many uses or a week while packets are reordered, repeated and lost. A monitor computes every key and opens every packet. A case is one handshake, one set of tampered packets, or one history around a renewal.",
  assumptions: ["Values between the two usual readings of the safety bound (2^1983 to 2^1984) are not judged", "Erasure is observed in the storage, not in the memory of the process"],
  quickSeconds: 90,
  thoroughSeconds: 700,
});
const settings = (r: any) => ({ persistCache: r.bool(0.7), guaranteeUpdateDelivery: r.bool() });
let texts = 0;
const text = () => "x" + ++texts;
const has = (s: Side, m: any) => s.messages.filter((v) => v.m.id === String(m.random_id)).length;

/** an exponent whose power or shared key starts with zeros */
function zeroed(r: any, base: bigint, n = 1): bigint {
  for (let i = 0; i < 2000; i++) {
    const e = r.big(64) | 1n << 63n;
    if (powmod(base, e, P) >> BigInt(2048 - 8 * n) === 0n) return e;
  }
  return r.big(64) | 1n << 63n;
}
const badValues = (r: any): [string, Uint8Array] =>
  r.pick([
    ["zero", toBe(0n, 256)],
    ["one", toBe(1n, 256)],
    ["p-1", toBe(P - 1n, 256)],
    ["p", toBe(P, 256)],
    ["p+5", toBe(P + 5n, 256)],
    ["small", toBe(r.big(r.pick([8, 64, 1024, 1980])), 256)],
    ["near p", toBe(P - r.big(r.pick([8, 64, 1024, 1980])), 256)],
    ["long", new Uint8Array([1, ...toBe(r.big(2000), 256)])],
  ]);
async function works(t: any, a: Side, peer: Peer) {
  const chat = peer.chat!;
  t.ensure(peer.key, "no-key", "no key was agreed on");
  const n = peer.inbox.length, txt = text();
  await run(a.client.sendSecretMessage(chat.id, txt, { parseMode: null }), 600000, "sendSecretMessage()");
  await advance(2000);
  t.ensure(peer.inbox.slice(n).some((m) => m.message === txt), "unreadable", "the other party cannot read a message with the key agreed on");
  const m = peer.text();
  peer.send(m);
  await advance(3000);
  t.ensure(has(a, m) === 1, "not-delivered", () => `a message under the key agreed on was delivered ${has(a, m)} times`);
}
async function silent(t: any, relay: Relay, a: Side, id: number, why: string) {
  const n = relay.packets.length, refused = relay.refused;
  let error: any = null;
  await run(a.client.sendSecretMessage(id, "must not leave", { parseMode: null }).then(() => {}, (e: any) => void (error = e)), 600000, "sendSecretMessage()");
  await advance(1000);
  t.ensure(error, "sent-without-key", () => `a message could be sent in a chat whose key was not agreed on (${why})`);
  t.ensure(relay.packets.length === n && relay.refused === refused && !relay.calls.some(([, q]) => /sendEncrypted/.test(q._) && q.peer.chat_id === id && contains(q, new TextEncoder().encode("must not leave"))), "packet-without-key", () => `a packet was sent in a chat whose key was not agreed on (${why})`);
}

ck.part("handshake", { quick: 300, thorough: 12000, weight: 2, rejections: true }, async (t) => {
  texts = 0;
  const r = t.rng, site = new Site(t), full = r.bool(0.1);
  const relay = new Relay(site, t, full);
  const a = new Side(relay, site.account(77n), settings(r));
  const peer = new Peer(relay, site.account(88n));
  await a.start();
  relay.known(a.acc, peer.acc);
  await advance(5000);
  const asks = r.bool(), x = r.int(0, 9);
  relay.g = r.pick(GENERATORS);
  const requests = () => relay.calls.filter(([id, q]) => id === 77n && (q._ === "messages.requestEncryption" || q._ === "messages.acceptEncryption"));
  const fails = async (p: Promise<any>) => {
    let e: any = null;
    await run(p.then(() => {}, (err) => void (e = err ?? new Error("?"))), 600000, "the handshake");
    return e;
  };
  let what = "";
  if (x < 3) {
    // an unsafe group
    const [name, p, g] = r.pick([
      ["composite", toBe(P - 2n, 256), 3],
      ["not safe", toBe(BigInt("0x" + PRIMES.prime[0]), 256), 4],
      ["half not prime", toBe(BigInt("0x" + (PRIMES.halfPrime[0] ?? PRIMES.prime[0])), 256), 4],
      ["2047 bits", toBe(BigInt("0x" + PRIMES.safe2047[0]), 256), 4],
      ["2040 bits", toBe(BigInt("0x" + PRIMES.safe2040[0]), 255), 4],
      ["2049 bits", toBe(BigInt("0x" + PRIMES.safe2049[0]), 257), 4],
      ["1024 bits", toBe(BigInt("0x" + PRIMES.safe1024[0]), 128), 4],
      ["g", toBe(P, 256), r.pick([0, 1, 8, -1, 100, ...[3, 5, 7].filter((g) => !GENERATORS.includes(g)), ...(P % 8n === 7n ? [] : [2])])],
      ["empty", new Uint8Array(), 3],
    ]) as [string, Uint8Array, number];
    what = "group: " + name;
    const n = requests().length;
    relay.dh = () => ({ _: "messages.dhConfig", g, p, version: 3, random: r.bytes(256) });
    let e;
    if (asks) e = await fails(a.client.requestSecretChat(88));
    else {
      peer.request(a.acc);
      await advance(5000);
      e = await fails(a.client.acceptSecretChat(peer.chat!.id));
    }
    t.ensure(e, "unsafe-group", () => `a group with an unsafe parameter (${name}) was accepted`);
    t.ensure(requests().length === n, "unsafe-group-used", () => `a public value was sent for an unsafe group (${name})`);
    if (!asks) await silent(t, relay, a, peer.chat!.id, what);
    // the next attempt with a good group works
    relay.dh = null;
    if (asks) await meet(a, peer, true);
    else {
      await run(a.client.acceptSecretChat(peer.chat!.id), 600000, "acceptSecretChat()");
      await advance(5000);
    }
    await works(t, a, peer);
  } else if (x < 6) {
    // an unsafe value or a wrong fingerprint from the other party
    if (asks) {
      const c = await run(a.client.requestSecretChat(88), 600000, "requestSecretChat()") as any;
      await advance(2000);
      const wrong = r.bool();
      if (wrong) {
        const f = fingerprint(toBe(powmod(be(peer.chat!.gA), 12345n, P), 256));
        peer.accept({ fp: r.pick([0n, f, f ^ 1n]) });
        what = "fingerprint";
      } else {
        const [name, v] = badValues(r);
        what = "g_b: " + name;
        peer.accept({ gB: v as any, ...(r.bool() ? { fp: fingerprint(toBe(powmod(be(v) || 0n, relay.exps.behind(be(peer.chat!.gA), relay.g) ?? 1n, P), 256)) } : {}) });
      }
      await advance(5000);
      t.ensure(peer.chat!.state === "discarded" && peer.chat!.endedBy === a.acc, "not-aborted", () => `a chat was not ended by an unfitting answer (${what})`);
      t.ensure(!a.chats.some((v) => v.id === c.id && v.type === "active"), "reported-active", () => `a chat was reported active after an unfitting answer (${what})`);
      await silent(t, relay, a, c.id, what);
    } else {
      const [name, v] = badValues(r);
      what = "g_a: " + name;
      const chat = peer.request(a.acc);
      chat.gA = v as any;
      await advance(5000);
      const n = requests().length;
      const e = await fails(a.client.acceptSecretChat(chat.id));
      await advance(2000);
      t.ensure(e, "accepted-unsafe", () => `an unsafe public value (${name}) was accepted`);
      t.ensure(requests().length === n, "accepted-unsafe", () => `a chat with an unsafe public value (${name}) was accepted`);
      t.ensure(chat.state === "discarded", "not-aborted", () => `a chat with an unsafe public value (${name}) was not ended`);
      await silent(t, relay, a, chat.id, what);
    }
  } else if (x < 8) {
    // conforming values, also unusual ones
    const zero = r.pick(["none", "none", "key", "value"]);
    what = `good: ${asks} ${zero}`;
    const g = BigInt(relay.g);
    if (asks) {
      if (zero === "value") relay.exps.next.push(zeroed(r, g));
      const c = await run(a.client.requestSecretChat(88), 600000, "requestSecretChat()") as any;
      await advance(2000);
      const chat = peer.chat!;
      t.ensure(inRange(be(chat.gA)), "unsafe-value-sent", "an unsafe public value was sent");
      t.ensure(chat.gA.length === 256, "value-length", () => `a public value of ${chat.gA.length} bytes was sent`);
      if (zero === "key") {
        const e = zeroed(r, be(chat.gA)), big = peer.r.big;
        peer.r.big = ((n: number) => n === 80 ? (peer.r.big = big, e) : big.call(peer.r, n)) as any;
        peer.accept();
        peer.r.big = big;
      } else peer.accept();
      await advance(5000);
      t.ensure(chat.state === "active", "aborted", "a conforming handshake was given up");
      t.ensure(a.chats.some((v) => v.id === c.id && v.type === "active"), "accept-not-reported", "an accepted chat was not reported");
    } else {
      peer.request(a.acc);
      const chat = peer.chat!;
      if (zero !== "none") relay.exps.next.push(zeroed(r, zero === "key" ? be(chat.gA) : g));
      await advance(5000);
      await run(a.client.acceptSecretChat(chat.id), 600000, "acceptSecretChat()");
      await advance(5000);
      t.ensure(inRange(be(chat.gB)), "unsafe-value-sent", "an unsafe public value was sent");
      t.ensure(chat.gB.length === 256, "value-length", () => `a public value of ${chat.gB.length} bytes was sent`);
      t.ensure(chat.fp === fingerprint(peer.key!), "wrong-fingerprint", () => `the fingerprint announced is ${chat.fp} instead of ${fingerprint(peer.key!)}`);
    }
    await works(t, a, peer);
    // the exponent was not used twice
    if (r.bool(0.3)) {
      const before = peer.chat!;
      const peer2 = new Peer(relay, site.account(99n));
      await meet(a, peer2, asks);
      t.ensure(hex(asks ? peer2.chat!.gA : peer2.chat!.gB) !== hex(asks ? before.gA : before.gB), "value-reuse", "two chats use the same public value");
    }
  } else if (x < 9) {
    // the service says a chat is active although no key was agreed on
    what = "no handshake";
    const id = r.u32() | 0, key = r.bytes(256);
    const asked = r.bool();
    const chat: any = { id, admin: asked ? a.acc : peer.acc, other: asked ? peer.acc : a.acc, hash: [1n, 1n], state: "active", gA: toBe(r.big(2046), 256), gB: toBe(r.big(2046), 256), g: relay.g, fp: fingerprint(key), date: 1, keys: new Map(), order: [], requests: new Map(), endedBy: null, changed: 0 };
    relay.chats.set(id, chat);
    peer.chat = chat;
    if (r.bool() && !asked) {
      relay.news(a.acc, { ...relay.view({ ...chat, state: "waiting" }, a.acc) });
      await advance(1000);
    }
    relay.news(a.acc, relay.view(chat, a.acc));
    await advance(5000);
    relay.strict = false;
    await silent(t, relay, a, id, what);
    // nor is anything read that is "encrypted" without a key
    const m = peer.text();
    for (const k of [new Uint8Array(), new Uint8Array(256)]) for (const c of [true, false]) relay.inject(a.acc, id, seal(r, k, c, TL.encode(S, { _: "decryptedMessageLayer", random_bytes: r.bytes(15), layer: 144, in_seq_no: asked ? 1 : 0, out_seq_no: asked ? 0 : 1, message: m }), { keyId: k.length ? undefined : r.bool() ? new Uint8Array() : keyId(k) }));
    await advance(2000);
    t.ensure(!has(a, m), "read-without-key", "a message was read without a key");
  } else {
    // the request is withdrawn before the answer
    what = "withdrawn";
    const c: any = asks ? await run(a.client.requestSecretChat(88), 600000, "requestSecretChat()") : peer.request(a.acc);
    await advance(3000);
    if (asks && r.bool()) await run(a.client.endSecretChat(c.id), 600000, "endSecretChat()");
    else relay.end(relay.chats.get(c.id)!, peer.acc);
    await advance(3000);
    if (!asks) t.ensure(await fails(a.client.acceptSecretChat(c.id)), "accepted-ended", "a chat that had ended was accepted");
    await silent(t, relay, a, c.id, what);
    for (const e of relay.exps.all) t.ensure(!a.holds(toBe(e, 256), e), "exponent-kept", "the secret of a chat that was withdrawn is still stored");
  }
  t.sig(`${what}/${asks}/${full}`);
  t.state("handshakes", what);
  t.count("handshakes");
  t.sample({ what, asks });
});

ck.part("tamper", { quick: 120, thorough: 5000, weight: 2, rejections: true }, async (t) => {
  texts = 0;
  const r = t.rng, site = new Site(t);
  const relay = new Relay(site, t);
  const a = new Side(relay, site.account(77n), settings(r));
  const peer = new Peer(relay, site.account(88n)), other = new Peer(relay, site.account(99n));
  await a.start();
  await meet(a, peer, r.bool());
  await meet(a, other, r.bool());
  const chat = peer.chat!;
  for (let i = r.int(0, 3); i > 0; i--) await works(t, a, peer);
  let n = 0;
  for (let round = 0; round < 3; round++) {
    const m = peer.make(peer.text(text()));
    const bytes = m.bytes, body = peer.sent.get(m.raw)!.body, key = peer.key!;
    const ids: any[] = [];
    const fake = (msg = peer.text("fake")) => (ids.push(msg), peer.layer(msg, { out: 2 * m.raw + (peer.creator ? 1 : 0) }));
    const l: Uint8Array[] = [];
    const flips = r.int(5, 40);
    for (let i = 0; i < flips; i++) {
      const b = bytes.slice();
      b[r.pick([r.int(0, 7), r.int(8, 23), r.int(24, b.length - 1)])] ^= 1 << r.int(0, 7);
      l.push(b);
    }
    for (let i = 0; i < 8; i++) l.push(bytes.slice(0, r.pick([0, 1, 8, 24, 40, bytes.length - 1, bytes.length - 16, r.int(0, bytes.length - 1)])));
    l.push(new Uint8Array([...bytes, ...r.bytes(r.pick([1, 4, 16, 32]))]));
    {
      // two blocks exchanged
      const b = bytes.slice(), k = (b.length - 24) / 16, i = r.int(0, k - 1), j = r.int(0, k - 1);
      const x = b.slice(24 + 16 * i, 40 + 16 * i);
      b.set(b.slice(24 + 16 * j, 40 + 16 * j), 24 + 16 * i);
      b.set(x, 24 + 16 * j);
      if (i !== j) l.push(b);
    }
    // another key under this key's name, this key under another name
    l.push(seal(r, r.bytes(256), peer.creator, fake(), { keyId: keyId(key) }));
    l.push(seal(r, other.key!, peer.creator, fake(), { keyId: keyId(key) }));
    l.push(seal(r, other.key!, peer.creator, fake()));
    l.push(seal(r, key, peer.creator, fake(), { keyId: r.bytes(8) }));
    l.push(seal(r, new Uint8Array(256), peer.creator, fake()), seal(r, new Uint8Array(0), peer.creator, fake()));
    // the wrong direction, wrong padding, wrong length
    l.push(seal(r, key, !peer.creator, fake()));
    l.push(seal(r, key, peer.creator, fake(), { x: r.pick([4, 16, 1]) }));
    const f = fake();
    l.push(seal(r, key, peer.creator, f, { pad: 1040 }), seal(r, key, peer.creator, f, { pad: 0, length: f.length + r.pick([0, 1]) }));
    if ((4 + f.length) % 16 >= 5) l.push(seal(r, key, peer.creator, f, { pad: 0 }));
    l.push(seal(r, key, peer.creator, f, { length: r.pick([-1, -4, 1e6, f.length + 2000]) }));
    // what this client sent itself, and what belongs to the other chat
    const own = relay.packets.filter((p) => p.from === a.acc);
    if (own.length) l.push(r.pick(own).bytes);
    const foreign = other.make(other.text("foreign"));
    ids.push(foreign.message);
    l.push(foreign.bytes);
    const valid = (b: Uint8Array) => {
      try {
        return typeof unseal(key, peer.creator, b) !== "string";
      } catch {
        return false;
      }
    };
    for (const b of r.shuffle(l)) {
      if (valid(b)) continue; // the rounding of a padding can make it long enough
      if (round === 0 && r.bool(0.1)) relay.inject(a.acc, r.pick([12345, other.chat!.id]), bytes);
      relay.inject(a.acc, chat.id, b);
      n++;
      if (r.bool(0.05)) await advance(100);
    }
    await advance(3000);
    for (const q of ids) t.ensure(!has(a, q), "tampered-delivered", () => `a packet that is not the other party's was delivered: ${show(q)}`);
    t.ensure(!has(a, m.message), "tampered-delivered", "an altered packet was delivered");
    t.ensure(chat.state === "active", "ended-by-tampering", "altered packets ended the chat");
    // the genuine packets are still read
    relay.arrived(chat, peer.creator, m.raw);
    relay.arrived(other.chat!, other.creator, foreign.raw);
    relay.inject(a.acc, chat.id, bytes);
    relay.inject(a.acc, other.chat!.id, foreign.bytes);
    await advance(3000);
    t.ensure(has(a, m.message) === 1 && a.messages.at(-1)!.m.chatId === other.chat!.id, "not-delivered", () => `the genuine packet was delivered ${has(a, m.message)} times after altered ones`);
    t.ensure(has(a, foreign.message) === 1, "not-delivered", () => `another chat's packet was delivered ${has(a, foreign.message)} times`);
    void body;
  }
  // nothing of what is sent can be read without the key
  const secret = "secret-" + hex(r.bytes(8));
  const k = relay.packets.length;
  await run(a.client.sendSecretMessage(chat.id, secret, { parseMode: null }), 600000, "sendSecretMessage()");
  for (const p of relay.packets.slice(k)) t.ensure(!contains(p.bytes, new TextEncoder().encode(secret.slice(0, 12)) as any), "readable", "a packet contains the message in the clear");
  t.count("tampered packets", n);
  t.sig(`${n}/${chat.fp}`);
});

/** Whether anything from which old keys follow is still stored. */
function erased(t: any, relay: Relay, chat: any, sides: Side[], current: string, exceptExps = new Set<bigint>()) {
  for (const s of sides) {
    for (const [id, key] of chat.keys) if (id !== current) t.ensure(!s.holds(key), "old-key-kept", () => `a key replaced before is still in the storage of ${s.acc.id}`);
    for (const e of relay.exps.all) if (!exceptExps.has(e) && e) t.ensure(!s.holds(toBe(e, 256), e), "exponent-kept", () => `a secret from which a former key follows is still in the storage of ${s.acc.id}`);
  }
}

ck.part("renewal", { quick: 80, thorough: 3000, weight: 3, rejections: true }, async (t) => {
  texts = 0;
  const r = t.rng, site = new Site(t);
  const relay = new Relay(site, t);
  const o = { slow: r.pick([0, 0, 2]) };
  const a = new Side(relay, site.account(77n), { ...settings(r), persistCache: true }, o), b = new Side(relay, site.account(88n), { ...settings(r), persistCache: true }, o);
  await a.start();
  await b.start();
  const lat = r.pick([0, 5, 200]);
  const chat = await establish(a, b);
  const sides = [a, b];
  const late = r.pick([0, 50, 1000]), drop = r.pick([0, 0, 0.1]), twice = r.pick([0, 0.2]);
  let faults = false;
  relay.carry = (p: Packet) => {
    if (faults && r.bool(drop)) return;
    for (let i = faults && r.bool(twice) ? 2 : 1; i > 0; i--) setTimeout(() => relay.deliver(p), faults ? r.int(0, late) : 0);
  };
  // calls that fail, with or without effect
  const failing = r.pick([0, 0, 0.15]), which = r.pick(["all", "service"]);
  let failed = 0;
  relay.lossy = failing > 0;
  relay.fault = (c) => {
    if (!faults || !failing || !/^messages\.sendEncrypted/.test(c.call._) || which === "service" && c.call._ !== "messages.sendEncryptedService" || !r.bool(which === "service" ? 3 * failing : failing)) return;
    failed++;
    const e: [number, string] = r.pick([[500, "WORKER_BUSY_TOO_LONG_RETRY"], [420, "FLOOD_WAIT_1000"], [400, "MSG_WAIT_FAILED"]]);
    return r.bool(0.6) ? { before: e } : { after: e };
  };
  const first = chat.order[0];
  const week = r.bool(0.4);
  let sent = 0;
  const fly: Promise<any>[] = [];
  const say = async (s: Side, wait = true) => {
    sent++;
    const k = failed;
    const p = s.client.sendSecretMessage(chat.id, "n" + sent, { parseMode: null }).catch((e: any) => {
      if (failed === k) throw e;
    });
    if (wait) await run(p, 600000, "sendSecretMessage()");
    else fly.push(p);
  };
  if (week) {
    for (let i = r.int(1, 5); i > 0; i--) await say(r.pick(sides));
    await advance(10000);
    for (const s of sides) await run(s.client.disconnect(), 600000, "disconnect()");
    vclock.step(r.pick([7, 8, 30]) * 86400_000 + 60_000);
    for (const s of sides) await s.start();
    await advance(5000);
  } else {
    // one or both sides; a use is a message sent or received
    const both = r.int(0, 2);
    const burst = r.bool();
    for (let i = 0; i < 98; i++) {
      await say(both === 2 ? r.pick(sides) : sides[both], !burst);
      if (i % 20 === 19) await advance(500), await run(Promise.all(fly), 600000, "the sends");
    }
    await advance(10000);
  }
  t.ensure(chat.order.length === 1, "renewed-early", () => `a key was renewed after ${sent} messages`);
  // around the renewal
  faults = true;
  site.server.latency = () => lat ? r.int(0, lat) : 0;
  let uses = week ? sent : 98;
  for (let i = r.int(12, 30); i > 0; i--) {
    await say(r.pick(sides), r.bool(0.6));
    uses++;
    if (r.bool(0.3)) await advance(r.pick([1, 100, 2000]));
    if (r.bool(0.1) && o.slow === 0 && !fly.length) {
      // a regular restart
      const s = r.pick(sides);
      await advance(15000);
      await run(s.client.disconnect(), 600000, "disconnect()");
      await s.start();
    }
  }
  for (let i = 0; i < 4; i++) await advance(10000);
  await run(Promise.all(fly), 600000, "the sends");
  faults = false;
  for (let i = 0; i < 8; i++) {
    for (const s of sides) await say(s), uses++;
    await advance(20000);
  }
  t.ensure(chat.state === "active", "ended", () => `a chat was ended around a renewal by ${chat.endedBy?.id}`);
  if (relay.unfollowed) {
    t.ensure(relay.exps.all.length === 0, "foreign-key", () => "packets were sent under a key nobody agreed on");
    return;
  }
  // both use one new key
  const last = sides.map((s) => relay.packets.filter((p) => p.from === s.acc).at(-1)!.bytes).map((v) => hex(v.slice(0, 8)));
  t.ensure(last[0] !== first && last[1] !== first, "not-renewed", () => `the first key is still used after ${uses} messages${week ? " and a week" : ""}`);
  t.ensure(last[0] === last[1], "keys-differ", "the two parties use different keys after a renewal");
  for (const [s, other, byCreator] of [[a, b, true], [b, a, false]] as const) {
    const wire = [...relay.dir(chat, byCreator).bodies.values()].sort((x, y) => x.raw - y.raw).filter((p) => p.layer.message._ === "decryptedMessage").map((p) => p.layer.message.message);
    const got = other.messages.map((v) => v.m.text);
    t.ensure(show(wire, 1e6) === show(got, 1e6), "lost-around-renewal", () => `handlers of ${other.acc.id} got ${got.length} of ${wire.length} messages of ${s.acc.id}, the first difference at ${wire.findIndex((v, i) => v !== got[i])}`);
  }
  erased(t, relay, chat, sides, last[0]);
  // what is kept from before cannot be used any more
  const old = chat.keys.get(first)!;
  for (const s of sides) {
    const byCreator = s === b, d = relay.dir(chat, byCreator);
    const m = { _: "decryptedMessage", random_id: r.big(62), ttl: 0, message: "old" };
    relay.inject(s.acc, chat.id, seal(r, old, byCreator, TL.encode(S, { _: "decryptedMessageLayer", random_bytes: r.bytes(15), layer: 144, in_seq_no: 2 * d.lastIn + (byCreator ? 0 : 1), out_seq_no: 2 * d.next + (byCreator ? 1 : 0), message: m })));
    await advance(3000);
    t.ensure(!has(s, m), "old-key-accepted", "a message under a replaced key was accepted long after the renewal");
  }
  t.ensure(chat.order.length <= 2 + uses / 90, "renewed-too-often", () => `${chat.order.length} keys for ${uses} messages`);
  t.count("failed calls", failed);
  t.count("renewals", chat.order.length - 1);
  t.count("messages around renewals", sent);
  t.sig(`${week}/${late}/${drop}/${twice}/${sent}/${relay.packets.length}`);
  t.sample({ week, late, drop, twice, sent, packets: relay.packets.length, keys: chat.order.length });
});

// Renewals with a reference party, which may misbehave.
ck.part("partner", { quick: 100, thorough: 4000, weight: 3, rejections: true }, async (t) => {
  texts = 0;
  const r = t.rng, site = new Site(t);
  const relay = new Relay(site, t);
  const a = new Side(relay, site.account(77n), { ...settings(r), persistCache: true }), peer = new Peer(relay, site.account(88n));
  await a.start();
  const chat = await meet(a, peer, r.bool());
  const first = chat.order[0];
  const actions = (name: string, from = 0) => relay.packets.slice(from).filter((p) => p.from === a.acc && p.layer?.message.action?._ === "decryptedMessageAction" + name);
  const say = async () => {
    const s = text(), n = peer.inbox.length;
    await run(a.client.sendSecretMessage(chat.id, s, { parseMode: null }), 600000, "sendSecretMessage()");
    await advance(1000);
    if (chat.state === "active") t.ensure(peer.inbox.slice(n).some((m) => m.message === s), "unreadable", "the other party cannot read a message");
  };
  const hear = async () => {
    const m = peer.text(text());
    peer.send(m);
    await advance(1000);
    if (chat.state === "active") t.ensure(has(a, m) === 1, "not-delivered", () => `a message was delivered ${has(a, m)} times`);
  };
  const talk = async (n: number) => {
    for (let i = 0; i < n; i++) await (r.bool() ? say() : hear());
  };
  const bulk = async (n: number) => {
    for (let i = 0; i < n; i++) r.bool(0.5) ? peer.send(peer.text(text())) : await run(a.client.sendSecretMessage(chat.id, text(), { parseMode: null }), 600000, "sendSecretMessage()");
    await advance(3000);
  };
  const x = r.int(0, 6);
  let what = "";
  const g = BigInt(relay.g), value = (e: bigint) => toBe(powmod(g, e, P), 256);
  const settle = async () => {
    await talk(5);
    await hear();
    await say();
    const last = hex(keyId(peer.key!));
    const mine = hex(relay.packets.filter((p) => p.from === a.acc).at(-1)!.bytes.slice(0, 8));
    t.ensure(mine === last, "keys-differ", "the two parties use different keys after a renewal");
    return last;
  };
  if (x === 0) {
    what = "client renews";
    await bulk(104);
    await talk(4);
    t.ensure(actions("RequestKey").length >= 1, "not-renewed", "no new key was asked for after more than 100 uses");
    const last = await settle();
    t.ensure(last !== first, "not-renewed", "the first key is still used");
    erased(t, relay, chat, [a], last);
  } else if (x === 1) {
    what = "partner renews";
    await talk(r.int(0, 3));
    peer.startRekey();
    if (r.bool()) peer.send(peer.text(text()));
    await advance(2000);
    const last = await settle();
    t.ensure(last !== first, "not-renewed", "a renewal asked for by the other party did not happen");
    erased(t, relay, chat, [a], last);
  } else if (x === 2) {
    what = "bad answer to the client";
    peer.auto = false;
    await bulk(104);
    const q = actions("RequestKey")[0]?.layer.message.action;
    t.ensure(q, "not-renewed", "no new key was asked for after more than 100 uses");
    const kind = r.pick(["value", "fingerprint", "exchange"]);
    what += ": " + kind;
    const b = r.big(80), key = toBe(powmod(be(q.g_a), b, P), 256);
    const n = relay.packets.length;
    const [, bad] = badValues(r);
    peer.send(peer.service({ _: "decryptedMessageActionAcceptKey", exchange_id: kind === "exchange" ? q.exchange_id ^ 1n : q.exchange_id, g_b: kind === "value" ? bad : value(b), key_fingerprint: kind === "fingerprint" ? fingerprint(key) ^ 1n : kind === "value" ? fingerprint(toBe(powmod(be(bad), relay.exps.behind(be(q.g_a), relay.g) ?? 1n, P), 256)) : fingerprint(key) }));
    await advance(2000);
    t.ensure(!actions("CommitKey", n).length, "bad-answer-committed", () => `a key from an unfitting answer (${kind}) was committed to`);
    if (kind !== "exchange") t.ensure(actions("AbortKey", n).some((p) => p.layer.message.action.exchange_id === q.exchange_id), "not-aborted", () => `an unfitting answer (${kind}) did not abort the renewal`);
    t.ensure(chat.state === "active", "ended", "an aborted renewal ended the chat");
    peer.auto = true;
    // a later one succeeds; it may have been asked for right away
    const again = actions("RequestKey", n).at(-1);
    if (kind === "exchange") peer.react({ action: q });
    else if (again) peer.react(again.layer.message);
    await talk(4);
    const last = await settle();
    t.ensure(last !== first, "not-renewed", "after an aborted renewal no other one succeeds");
  } else if (x === 3) {
    what = "bad request of the partner";
    const [name, bad] = badValues(r);
    what += ": " + name;
    const id = r.big(62), n = relay.packets.length;
    peer.send(peer.service({ _: "decryptedMessageActionRequestKey", exchange_id: id, g_a: bad }));
    await advance(2000);
    t.ensure(!actions("AcceptKey", n).length, "bad-request-accepted", () => `a request with an unsafe value (${name}) was accepted`);
    t.ensure(actions("AbortKey", n).length === 1, "not-aborted", () => `a request with an unsafe value (${name}) was not refused`);
    await talk(2);
    peer.startRekey();
    await advance(2000);
    t.ensure(await settle() !== first, "not-renewed", "after a refused renewal no other one succeeds");
  } else if (x === 4) {
    what = "partner gives up";
    // the partner asks, gets an answer, and aborts; then someone renews again
    peer.auto = false;
    const id = r.big(62);
    peer.rekey = { id, a: r.big(80) };
    peer.send(peer.service({ _: "decryptedMessageActionRequestKey", exchange_id: id, g_a: value(peer.rekey.a) }));
    await advance(2000);
    t.ensure(actions("AcceptKey").length === 1, "not-accepted", "a request for a new key was not answered");
    peer.rekey = null;
    peer.send(peer.service({ _: "decryptedMessageActionAbortKey", exchange_id: id }));
    await advance(2000);
    peer.auto = true;
    await talk(4);
    if (r.bool()) {
      peer.startRekey();
      await advance(2000);
    } else await bulk(104), what += ", the client renews";
    const last = await settle();
    t.ensure(last !== first, "not-renewed", "after the other party gave a renewal up no other one succeeds");
    erased(t, relay, chat, [a], last);
  } else if (x === 5) {
    what = "wrong commit";
    peer.auto = false;
    const id = r.big(62), e = r.big(80);
    peer.send(peer.service({ _: "decryptedMessageActionRequestKey", exchange_id: id, g_a: value(e) }));
    await advance(2000);
    const ans = actions("AcceptKey")[0]?.layer.message.action;
    t.ensure(ans, "not-accepted", "a request for a new key was not answered");
    const key = toBe(powmod(be(ans.g_b), e, P), 256);
    t.ensure(ans.key_fingerprint === fingerprint(key), "wrong-fingerprint", "the fingerprint in the answer to a renewal is not the key's");
    t.ensure(inRange(be(ans.g_b)), "unsafe-value-sent", "an unsafe public value was sent");
    peer.send(peer.service({ _: "decryptedMessageActionCommitKey", exchange_id: id, key_fingerprint: fingerprint(key) ^ 1n }));
    await advance(2000);
    const m = peer.text("under the other key");
    const l = peer.layer(m);
    peer.out++;
    relay.inject(a.acc, chat.id, seal(r, key, peer.creator, l));
    await advance(2000);
    t.ensure(chat.state === "discarded", "not-ended", "a commitment to another key did not end the chat");
    t.ensure(!has(a, m), "delivered-after-mismatch", "a message was delivered after a commitment to another key");
    await silent(t, relay, a, chat.id, what);
  } else {
    what = "both at once";
    // the client's request crosses the partner's
    await bulk(98);
    peer.auto = false;
    const n = relay.packets.length;
    for (let i = 0; i < 8 && !actions("RequestKey", n).length; i++) await run(a.client.sendSecretMessage(chat.id, text(), { parseMode: null }), 600000, "sendSecretMessage()");
    const q = actions("RequestKey", n)[0]?.layer.message.action;
    t.ensure(q, "not-renewed", "no new key was asked for after more than 100 uses");
    const smaller = r.bool();
    what += smaller ? ", smaller" : ", larger";
    peer.auto = true;
    peer.startRekey(smaller ? q.exchange_id - 1n - r.big(20) : q.exchange_id + 1n + r.big(20));
    if (smaller) {
      // the partner sees the client's larger number and steps back
      await advance(2000);
      peer.react({ action: q });
    }
    await advance(3000);
    const last = await settle();
    t.ensure(last !== first, "not-renewed", "after two requests at once no key was renewed");
    erased(t, relay, chat, [a], last);
  }
  t.sig(`${what}/${peer.creator}/${relay.packets.length}`);
  t.state("renewals", what);
  t.sample({ what, packets: relay.packets.length });
});
await ck.main();
