// deno-lint-ignore-file no-explicit-any
import "../lib/env.ts";
import { Check, show } from "../lib/core.ts";
import { advance, Disk, run, Site, vclock } from "../lib/site.ts";
import * as Api from "file:///repo/tl/2_telegram.ts";
import { getUsername } from "file:///repo/client/0_utilities.ts";

const ck = new Check("C40", {
  level: "exploration",
  rule: "Identifiers at and around all range boundaries and at random are mapped from every kind of peer object and back; usernames in every documented spelling, and invalid ones, are compared with a grammar; complete clients see histories of full, minimal and changed users, groups, channels and usernames in results and updates, and every resolution they do in between is compared with a model of what was seen and what the server was asked. A case is one batch of identifiers, one username in all its spellings, or one history.",
  assumptions: ["Group identifiers are at most 999999999999, channel identifiers at most 3000000000000, user identifiers are exact as numbers", "A cached username is trusted for at most a day"],
  quickSeconds: 45,
  thoroughSeconds: 400,
});
const ZERO = -1000000000000, MAX_CHAT = 999999999999n, MAX_CHANNEL = 3000000000000n, MAX_USER = 0xffffffffffn;
const chatIdOf = (kind: string, id: bigint) => kind === "user" ? Number(id) : kind === "chat" ? -Number(id) : ZERO - Number(id);
const near = (r: any, points: bigint[], max: bigint) => {
  let v = r.bool() ? r.pick(points) + BigInt(r.int(-3, 3)) : r.bool() ? BigInt(Math.floor(r.f() * Number(max))) : BigInt(Math.floor(Number(max) ** r.f()));
  if (v < 1n) v = 1n;
  if (v > max) v = max;
  return v as bigint;
};

ck.part("map", { quick: 30000, thorough: 2000000 }, (t) => {
  const r = t.rng;
  const kind = r.pick(["user", "chat", "channel"]);
  const max = kind === "user" ? MAX_USER : kind === "chat" ? MAX_CHAT : MAX_CHANNEL;
  const id = near(r, [1n, 0x7fffffffn, 0x80000000n, 0xffffffffn, 997852516352n, 1002147483649n, 1000000000000n, max], max);
  const forms: any[] = kind === "user" ? [{ _: "peerUser", user_id: id }, { _: "inputPeerUser", user_id: id, access_hash: 1n }, { user_id: id }, { _: "user", id }, { _: "inputPeerUserFromMessage", peer: { _: "inputPeerChannel", channel_id: 5n, access_hash: 0n }, msg_id: 1, user_id: id }, { _: "updateUserName", user_id: id, first_name: "", last_name: "", usernames: [] }] : kind === "chat" ? [{ _: "peerChat", chat_id: id }, { _: "inputPeerChat", chat_id: id }, { chat_id: id }, { _: "chat", id, title: "" }, { _: "chatForbidden", id, title: "" }] : [{ _: "peerChannel", channel_id: id }, { _: "inputPeerChannel", channel_id: id, access_hash: 1n }, { channel_id: id }, { _: "channel", id, title: "" }, { _: "channelForbidden", id, title: "", access_hash: 1n }, { _: "inputPeerChannelFromMessage", peer: { _: "inputPeerChannel", channel_id: 5n, access_hash: 0n }, msg_id: 1, channel_id: id }];
  const want = chatIdOf(kind, id);
  for (const f of forms) {
    const n = Api.peerToChatId(f);
    t.ensure(n === want, "to-id", () => `${show(f)} became the identifier ${n}, expected ${want}`);
  }
  const p: any = Api.chatIdToPeer(want);
  t.ensure(p._ === forms[0]._ && (p.user_id ?? p.chat_id ?? p.channel_id) === id, "to-peer", () => `identifier ${want} became ${show(p)}, expected ${show(forms[0])}`);
  t.ensure(Api.chatIdToPeerId(want) === id, "to-peer-id", () => `identifier ${want} gave ${Api.chatIdToPeerId(want)}, expected ${id}`);
  t.ensure(Api.getChatIdPeerType(want) === kind, "peer-type", () => `identifier ${want} was taken for ${Api.getChatIdPeerType(want)}, expected ${kind}`);
  if (kind === "channel") t.ensure(Api.getChannelChatId(id) === want, "channel-id", () => `channel ${id} gave ${Api.getChannelChatId(id)}`);
  for (const f of forms) {
    if (!f._?.startsWith("inputPeer")) continue;
    const q: any = Api.inputPeerToPeer(f);
    t.ensure(q._ === forms[0]._ && (q.user_id ?? q.chat_id ?? q.channel_id) === id, "input-to-peer", () => `${show(f)} became ${show(q)}`);
  }
  t.state("magnitude", `${kind}${id.toString(2).length}`);
  t.sig(String(want));
  t.sample({ kind, id, want });
});

/** letters, digits and single inner underscores, at most 32, starting with a letter */
const valid = (s: string) => s.length <= 32 && /^[a-zA-Z](_?[a-zA-Z0-9])*$/.test(s);
const refused = (f: () => unknown) => {
  try {
    f();
    return undefined;
  } catch (e) {
    return e as Error;
  }
};
ck.part("usernames", { quick: 20000, thorough: 1000000 }, (t) => {
  const r = t.rng;
  const alphabet = r.pick(["ab", "aZ09_", "a_", "abcxyzABCXYZ0189_", "a-", "aé", "a ", "a.", "a@", "а", "a\u0000", "K_0İ"]);
  let u = "";
  for (let n = r.pick([1, 2, 3, 5, 8, 31, 32, 33, 34]); n > 0; n--) u += r.pick([...alphabet]);
  const ok = valid(u);
  const pad = () => r.pick(["", "", " ", "\t", "\n "]);
  const scheme = r.pick(["https://", "http://", "HTTPS://"]);
  const host = r.pick(["t.me", "telegram.me", "telegram.dog", "T.me"]);
  const tail = r.pick(["", "/", "/12", "?start=x", "#y", "/a/b"]);
  const port = r.pick(["", "", ":443", ":8080"]);
  const spellings: [string, string][] = [
    [pad() + u + pad(), u],
    [pad() + "@" + u + pad(), u],
    [`${scheme}${host}${port}/${u}${tail}`, u],
    [`${host}/${u}${tail}`, u],
    [`${scheme}${u}.t.me${port}${tail}`, u.toLowerCase()],
    [`${u}.t.me${tail}`, u.toLowerCase()],
  ];
  for (const [s, want] of spellings) {
    let got: any;
    const e = refused(() => got = getUsername(s));
    if (ok) {
      t.ensure(!e, "refused", () => `${show(s)} is a valid spelling of ${want} and was refused: ${e}`);
      t.ensure(got === want, "different", () => `${show(s)} became ${show(got)}, expected ${want}`);
      t.count("accepted");
    } else if (!e) {
      // an invalid name may read as something else within a link ("a@b", "a.b"), but never as an invalid name
      t.ensure(valid(got), "invalid-accepted", () => `${show(s)} was taken for ${show(got)}`);
      const plain = s.trim().replace(/^@/, "");
      t.ensure(s.includes("t.me") || s.includes("telegram.") || s.includes("T.me") || plain.trim() === got, "other-name", () => `${show(s)} was taken for ${show(got)}`);
    } else {
      t.ensure(e.name === "InputError", "error-class", () => `${show(s)} was refused with ${e}`);
      t.count("refused");
    }
  }
  if (ok) {
    for (const s of [`https://example.com/${u}`, `https://xt.me/${u}`, `https://t.me.example.com/${u}`, `https://${u}.${u}.t.me`, `ftp://t.me/${u}`, `@@${u}`, `https://t.me/+${u}`, `https://t.me/`, `https://t.me`, `tg://${u}`, `${u}.telegram.me`]) {
      let got: any;
      const e = refused(() => got = getUsername(s));
      t.ensure(e, "foreign-accepted", () => `${s} was taken for the username ${show(got)}`);
    }
  }
  t.state("shape", (ok ? "valid" : "invalid") + u.length);
  t.sig(u);
  t.sample({ u, ok });
});

let tags = 1;
ck.part("resolve", { quick: 260, thorough: 12000, rejections: true }, async (t) => {
  const r = t.rng;
  const site = new Site(t), sv = site.server;
  const bot = r.bool(0.4), persistCache = r.bool();
  const acc = site.account(77n, bot);
  const disk = new Disk();
  const params: any = { authString: site.authString(site.login(acc)), persistCache };
  const diskOptions = { slow: r.pick([0, 0, 3]), serialize: r.bool() };
  let p = site.proc({ disk, params, diskOptions });

  // the world
  interface Entity { kind: "user" | "chat" | "channel"; id: bigint; hash: bigint; names: string[]; phone?: string; mega?: boolean }
  const world: Entity[] = [];
  const ids = [1n, 5000n, 0x7fffffffn, 997852516352n, 1002147483649n, 2999999999999n, 3000000000000n, 123456789n, 99n];
  const pool = ["alice", "Bob", "CAROL", "dAve_1", "erin", "Frank"];
  for (const id of ids) {
    world.push({ kind: "user", id, hash: r.big(63) + 1n, names: [], phone: r.bool(0.3) ? "49" + id % 1000000007n + "1" : undefined });
    world.push({ kind: "channel", id, hash: r.big(63) + 1n, names: [], mega: r.bool() });
    if (id <= MAX_CHAT) world.push({ kind: "chat", id, hash: 0n, names: [] });
  }
  for (const n of pool) if (r.bool(0.8)) r.pick(world.filter((e) => e.kind !== "chat")).names.push(n);
  const owner = (n: string) => world.find((e) => e.names.some((x) => x.toLowerCase() === n.toLowerCase()));
  const of = (kind: string, id: bigint) => world.find((e) => e.kind === kind && e.id === id);
  const named = (e: Entity): any => {
    if (!e.names.length) return {};
    return e.names.length === 1 && r.bool(0.7) ? { username: e.names[0] } : r.bool() || e.names.length === 1 ? { usernames: e.names.map((username, i) => ({ _: "username", active: true, editable: i === 0 || undefined, username })) } : { username: e.names[0], usernames: e.names.map((username, i) => ({ _: "username", active: true, editable: i === 0 || undefined, username })) };
  };
  const obj = (e: Entity, form: "full" | "min" | "bare" | "forbidden"): any => {
    const { id } = e;
    if (e.kind === "chat") return form === "forbidden" ? { _: "chatForbidden", id, title: "t" } : { _: "chat", id, title: "t", photo: { _: "chatPhotoEmpty" }, participants_count: 1, date: 1, version: 1 };
    if (e.kind === "user") return form === "min" ? { _: "user", min: true, id, access_hash: e.hash ^ 0x55n, first_name: "Min", ...(r.bool() ? { username: "wrong" } : {}) } : { _: "user", id, access_hash: form === "bare" ? undefined : e.hash, first_name: "F" + id, phone: e.phone, ...named(e) };
    if (form === "forbidden") return { _: "channelForbidden", id, access_hash: e.hash, title: "t", megagroup: e.mega || undefined, broadcast: e.mega ? undefined : true };
    return { _: "channel", id, title: "t", access_hash: form === "bare" ? undefined : form === "min" ? e.hash ^ 0x55n : e.hash, min: form === "min" || undefined, megagroup: e.mega || undefined, broadcast: e.mega ? undefined : true, photo: { _: "chatPhotoEmpty" }, date: 1, ...(form === "min" ? r.bool() ? { username: "wrong" } : {} : named(e)) };
  };

  // what the client has seen
  let peers = new Map<number, { kind: string; hash: bigint }>();
  let names = new Map<string, { id: number; at: number }>();
  let phones = new Map<string, { id: number; at: number }>();
  let refs: { chat: number; sender: number; message: number }[] = [];
  const see = (o: any) => {
    if (o.min) return;
    const kind = o._ === "user" ? "user" : o._.startsWith("chat") && !o._.startsWith("channel") ? o._ === "chat" || o._ === "chatForbidden" ? "chat" : "channel" : "channel";
    const id = chatIdOf(kind, o.id);
    peers.set(id, { kind, hash: o.access_hash ?? 0n });
    for (const n of [o.username, ...(o.usernames ?? []).map((x: any) => x.username)]) if (n) names.set(n.toLowerCase(), { id, at: vclock.mono });
  };
  const chats = (l: any[]) => l.filter((o) => o._ !== "user"), users = (l: any[]) => l.filter((o) => o._ === "user");
  const scripted = new Map<string, any>();
  let asked: any[] = [];
  site.on = (c) => {
    const q = c.call;
    if (q._ === "contacts.search") return site.ok(c, scripted.get(q.q));
    if (q._ === "messages.getHistory") return site.ok(c, scripted.get(String(q.hash)));
    if (q._ === "contacts.resolveUsername") {
      asked.push(q);
      const e = owner(q.username);
      if (!e) return { error: [400, "USERNAME_NOT_OCCUPIED"] };
      const o = obj(e, "full");
      see(o);
      names.set(q.username.toLowerCase(), { id: chatIdOf(e.kind, e.id), at: vclock.mono });
      return site.ok(c, { _: "contacts.resolvedPeer", peer: e.kind === "user" ? { _: "peerUser", user_id: e.id } : { _: "peerChannel", channel_id: e.id }, chats: chats([o]), users: users([o]) });
    }
    if (q._ === "contacts.resolvePhone") {
      asked.push(q);
      const e = world.find((e) => e.phone === q.phone);
      if (!e) return { error: [400, "PHONE_NOT_OCCUPIED"] };
      const o = obj(e, "full");
      see(o);
      phones.set(q.phone, { id: Number(e.id), at: vclock.mono });
      return site.ok(c, { _: "contacts.resolvedPeer", peer: { _: "peerUser", user_id: e.id }, chats: [], users: [o] });
    }
    if (q._ === "users.getUsers" && q.id.every((u: any) => u._ === "inputUser")) {
      asked.push(q);
      return site.ok(c, q.id.map((u: any) => {
        const e = of("user", u.user_id), o = e ? obj(e, "full") : { _: "userEmpty", id: u.user_id };
        if (e) see(o);
        return o;
      }));
    }
    if (q._ === "channels.getChannels") {
      asked.push(q);
      const l = q.id.map((u: any) => of("channel", u.channel_id)).filter(Boolean).map((e: any) => obj(e, "full"));
      l.forEach(see);
      return l.length ? site.ok(c, { _: "messages.chats", chats: l }) : { error: [400, "CHANNEL_INVALID"] };
    }
    return undefined;
  };
  await run(p.client.start(), 600000, "start()");
  await advance(3000);
  const log: string[] = [];
  const forms = (e: Entity) => obj(e, r.pick(["full", "full", "min", "min", "min", "bare", "forbidden"] as const));

  const check = async (id: any, e: Entity | undefined, what: string) => {
    asked = [];
    let got: any, err: any;
    try {
      got = await run(p.client.getInputPeer(id), 600000, `getInputPeer(${id})`);
    } catch (x) {
      err = x;
    }
    const res = got ? show(got) : String(err);
    t.count("resolved");
    if (typeof id === "string") {
      const phone = what === "phone";
      const key = phone ? id.replace("+", "") : getUsername(id).toLowerCase();
      const map = phone ? phones : names;
      const call = asked.find((q) => q._.startsWith("contacts."));
      let target: Entity | undefined;
      if (call) {
        t.ensure((phone ? call.phone : call.username.toLowerCase()) === key, "asked", () => `resolving ${id}, the server was asked for ${show(call)}`);
        target = phone ? world.find((e) => e.phone === key) : owner(key);
        if (!target) {
          t.ensure(err && /NOT_OCCUPIED/.test(String(err.errorMessage ?? err)), "unoccupied", () => `${id} does not exist and resolved to ${res}`);
          return;
        }
        t.count("asked");
      } else {
        const c = map.get(key);
        t.ensure(c, "made-up", () => `${id} was resolved to ${res} without asking although it was never seen`);
        t.ensure(vclock.mono - c.at < 86_400_000, "stale", () => `${id} was resolved from something seen ${vclock.mono - c.at} ms ago`);
        target = world.find((e) => chatIdOf(e.kind, e.id) === c.id)!;
        t.count("from_cache");
      }
      e = target;
    }
    if (!e) {
      t.ensure(err && (err.name === "InputError" || err.name === "AccessError"), "out-of-range", () => `${id} resolved to ${res}`);
      return;
    }
    const n = chatIdOf(e.kind, e.id);
    if (e.kind === "chat") {
      t.ensure(got?._ === "inputPeerChat" && got.chat_id === e.id, "chat", () => `${id} resolved to ${res}`);
      return;
    }
    const known = peers.get(n);
    const field = e.kind === "user" ? "user_id" : "channel_id", ctor = e.kind === "user" ? "inputPeerUser" : "inputPeerChannel";
    if (known?.hash) {
      t.ensure(got?._ === ctor && got[field] === e.id, e.kind, () => `${id} resolved to ${res} (${what})`);
      t.ensure(got.access_hash === known.hash, "access-hash", () => `${id} resolved to ${res}, the last full object had the access hash ${known.hash}`);
      return;
    }
    if (got?._ === ctor + "FromMessage") {
      const chat = peers.get(ZERO - Number(got.peer.channel_id));
      t.ensure(got[field] === e.id && chat?.kind === "channel" && got.peer._ === "inputPeerChannel" && got.peer.access_hash === chat.hash && refs.some((x) => x.chat === ZERO - Number(got.peer.channel_id) && x.sender === n && x.message === got.msg_id), "reference", () => `${id} resolved to ${res}, which is no message seen from it in a known channel`);
      t.count("by_reference");
      return;
    }
    if (bot && got) {
      // the server answers bots without an access hash
      t.ensure(asked.some((q) => q._ === "users.getUsers" || q._ === "channels.getChannels") && got._ === ctor && got[field] === e.id && got.access_hash === e.hash, "bot-hash", () => `${id} resolved to ${res}`);
      return;
    }
    t.ensure(!bot && err?.name === "AccessError", "inaccessible", () => `${id}, of which no access hash is known, resolved to ${res}`);
    const usable = refs.filter((x) => x.sender === n);
    t.ensure(!usable.length || usable.some((x) => peers.get(x.chat)?.kind !== "channel"), "reference-unused", () => `${id} was seen in a message of a known channel and resolved to ${res}`);
  };

  for (let k = r.pick([5, 15, 40]); k > 0; k--) {
    const x = r.f();
    if (x < 0.3) {
      // objects come in a result or an update
      const l = Array.from({ length: r.int(1, 4) }, () => forms(r.pick(world)));
      if (r.bool()) {
        const tag = "q" + tags++;
        scripted.set(tag, { _: "contacts.found", my_results: [], results: [], chats: chats(l), users: users(l) });
        await run(p.client.invoke({ _: "contacts.search", q: tag, limit: 1 }), 600000, "contacts.search");
      } else {
        site.push(acc, { _: "updates", updates: [{ _: "updateConfig" }], users: users(l), chats: chats(l), date: acc.date, seq: 0 });
        await advance(1000);
      }
      // chats are processed before users
      for (const o of [...chats(l), ...users(l)]) see(o);
      log.push("objects");
      t.count("objects", l.length);
    } else if (x < 0.42) {
      // messages of somebody in some chat
      const chat = r.pick(world), from = r.pick(world.filter((e) => e.kind !== "chat"));
      const tag = BigInt(tags++), id = tags++;
      const peer = (e: Entity) => e.kind === "user" ? { _: "peerUser", user_id: e.id } : e.kind === "chat" ? { _: "peerChat", chat_id: e.id } : { _: "peerChannel", channel_id: e.id };
      const l = r.bool() ? [obj(chat, "full"), obj(from, "min")] : [obj(from, "min")];
      const messages = [{ _: "message", id, from_id: peer(from), peer_id: peer(chat), date: 1, message: "m" }];
      scripted.set(String(tag), chat.kind === "channel" ? { _: "messages.channelMessages", pts: 1, count: 1, messages, topics: [], chats: chats(l), users: users(l) } : { _: "messages.messages", messages, topics: [], chats: chats(l), users: users(l) });
      await run(p.client.invoke({ _: "messages.getHistory", peer: { _: "inputPeerSelf" }, offset_id: 0, offset_date: 0, add_offset: 0, limit: 1, max_id: 0, min_id: 0, hash: tag }), 600000, "messages.getHistory");
      for (const o of [...chats(l), ...users(l)]) see(o);
      refs.push({ chat: chatIdOf(chat.kind, chat.id), sender: chatIdOf(from.kind, from.id), message: id });
      log.push("message");
    } else if (x < 0.5) {
      // the server changes an owner or an access hash
      if (r.bool()) {
        const n = r.pick(pool);
        for (const e of world) e.names = e.names.filter((v) => v !== n);
        const e = r.pick(world.filter((e) => e.kind !== "chat"));
        e.names.push(n);
        if (e.kind === "user" && r.bool()) {
          site.push(acc, { _: "updates", updates: [{ _: "updateUserName", user_id: e.id, first_name: "a", last_name: "b", usernames: e.names.map((username) => ({ _: "username", active: true, username })) }], users: [], chats: [], date: acc.date, seq: 0 });
          await advance(1000);
          for (const n of e.names) names.set(n.toLowerCase(), { id: Number(e.id), at: vclock.mono });
          // the client may look a user up it hears of
          log.push("renamed");
        }
      } else r.pick(world).hash = r.big(63) + 1n;
    } else if (x < 0.55) {
      await advance(r.pick([100, 50_000, 90_000, 3_600_000, 86_500_000]));
      log.push("wait");
    } else if (x < 0.6) {
      await run(p.client.disconnect(), 600000, "disconnect()");
      if (r.bool()) {
        p.kill();
        p = site.proc({ disk, params, diskOptions });
        if (!persistCache) {
          peers = new Map();
          names = new Map();
          phones = new Map();
          refs = [];
        }
      }
      await run(p.client.start(), 600000, "start()");
      await advance(3000);
      log.push("restart");
      t.count("restarts");
    } else if (x < 0.72) {
      const n = r.pick([...pool, "nobody1"]);
      const v = r.pick([n, n.toLowerCase(), n.toUpperCase(), "@" + n, `https://t.me/${n}`, `${n}.t.me`]);
      await check(v, undefined, "username");
      log.push("name");
    } else if (x < 0.76) {
      const n = r.pick([...world.filter((e) => e.phone).map((e) => e.phone!), "999999"]);
      await check(r.bool() ? "+" + n : n, undefined, "phone");
      log.push("phone");
    } else if (x < 0.78) {
      await check(r.pick([ZERO - 3000000000001, -9007199254740991, -5e12, NaN]), undefined, "out of range");
    } else {
      const e = r.pick(world);
      await check(chatIdOf(e.kind, e.id), e, "identifier");
      log.push("id");
    }
    t.state("seen", `${peers.size}/${names.size}/${refs.length}`);
    await advance(r.pick([1, 1, 1000]));
  }
  t.sig(log.join(";"));
  t.sample({ bot, persistCache, log });
  p.kill();
  void sv;
});

await ck.main();
