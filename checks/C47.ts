// deno-lint-ignore-file no-explicit-any
import "../lib/env.ts";
import { Check, show } from "../lib/core.ts";
import { advance, Disk, run, Site } from "../lib/site.ts";
import { deserializeFileId } from "file:///repo/types/_file_id.ts";

const ck = new Check("C47", {
  level: "exploration",
  rule: "Complete clients look things up (chats, members, video chats, translations, custom emojis, answers of bots, transcriptions, business connections) while the service changes them and tells so; every answer is compared with the service's state, and every request with what the client could still know. A case is one history of changes and look-ups.",
  assumptions: ["Nothing changes while a look-up of it is under way", "Changes are announced by the updates the protocol has for them", "Restarts are regular stops during which nothing changes"],
  quickSeconds: 50,
  thoroughSeconds: 400,
});
const enc = new TextEncoder(), dec = new TextDecoder();
const none = { _: "photoEmpty", id: 1n }, notify = { _: "peerNotifySettings" };

ck.part("history", { quick: 800, thorough: 15000, rejections: true }, async (t) => {
  const r = t.rng, site = new Site(t), sv = site.server, bot = r.bool(0.2), persistCache = r.bool();
  const acc = site.account(77n, bot);
  const langCode = "xx", langPack = "web";
  const params: any = { authString: site.authString(site.login(acc)), persistCache, ...(bot ? {} : { platform: langPack, language: langCode }) };
  const disk = new Disk(), diskOptions = { slow: r.pick([0, 0, 3]), serialize: r.bool() };
  const lat = r.pick([0, 10, 400]);
  sv.latency = () => lat ? r.int(0, lat) : 0;
  const log: string[] = [];
  let delivered: any[] = [], serial = 0;
  const next = () => ++serial;

  // --- the service's state
  const users = [5000n, 5001n, 5002n], group = 31n, channel = 32n;
  acc.channel(channel);
  const groupObject = () => ({ _: "chat", id: group, title: "G", photo: { _: "chatPhotoEmpty" }, participants_count: 3, date: 1, version: 1 });
  const known = () => ({ users: users.map((u) => acc.user(u)), chats: [groupObject(), acc.chat(channel)] });
  type Full = { id: number; birthday?: any; address?: string; photo?: bigint; call?: bigint };
  const fulls = new Map<number, Full>();
  for (const u of users) fulls.set(Number(u), { id: Number(u) });
  fulls.set(-Number(group), { id: -Number(group) }), fulls.set(-1000000000000 - Number(channel), { id: -1000000000000 - Number(channel) });
  let members = [{ id: users[0], role: "Creator" }, { id: users[1], role: "" }];
  let version = 1;
  const participants = () => ({ _: "chatParticipants", chat_id: group, version, participants: members.map((m) => ({ _: "chatParticipant" + m.role, user_id: m.id, ...(m.role === "Creator" ? {} : { inviter_id: users[0], date: 5 }) })) });
  type Call = { id: bigint; hash: bigint; chat: number; count: number; title?: string; ended?: number };
  const calls = new Map<bigint, Call>();
  const callObject = (c: Call): any => c.ended !== undefined ? { _: "groupCallDiscarded", id: c.id, access_hash: c.hash, duration: c.ended } : { _: "groupCall", id: c.id, access_hash: c.hash, participants_count: c.count, unmuted_video_limit: 9, version: 1, title: c.title };
  const photo = (id: bigint) => ({ _: "photo", id, access_hash: 1n, file_reference: new Uint8Array(4), date: 5, dc_id: 2, sizes: [{ _: "photoSize", type: "x", w: 9, h: 9, size: 99 }] });
  const fullObject = (f: Full): any => {
    const call = f.call ? { _: "inputGroupCall", id: f.call, access_hash: calls.get(f.call)!.hash } : undefined;
    if (f.id > 0) return { _: "userFull", id: BigInt(f.id), settings: { _: "peerSettings" }, notify_settings: notify, common_chats_count: 0, birthday: f.birthday && { _: "birthday", ...f.birthday }, business_location: f.address && { _: "businessLocation", address: f.address }, profile_photo: f.photo ? photo(f.photo) : undefined };
    if (f.id > -1000000000000) return { _: "chatFull", id: group, about: "", participants: participants(), notify_settings: notify, chat_photo: f.photo ? photo(f.photo) : undefined, call };
    return { _: "channelFull", id: channel, about: "", read_inbox_max_id: 0, read_outbox_max_id: 0, unread_count: 0, chat_photo: f.photo ? photo(f.photo) : none, notify_settings: notify, bot_info: [], pts: acc.channel(channel).pts, call };
  };
  const connections = new Map<string, any>();
  const emojis = new Map<bigint, any>();
  for (let i = 0; i < 6; i++) emojis.set(r.bool(0.3) ? -BigInt(1000 + i) : BigInt(1000 + i), 0);
  const emoji = (id: bigint) => ({ _: "document", id, access_hash: id * 3n, file_reference: enc.encode("ref" + emojis.get(id)), date: 5, mime_type: "video/webm", size: 99n, dc_id: 2, attributes: [{ _: "documentAttributeImageSize", w: 9, h: 9 }, { _: "documentAttributeCustomEmoji", alt: "a" + id, stickerset: { _: "inputStickerSetEmpty" } }] });
  type Pack = { version: number; strings: Map<string, any>; history: { version: number; string: any }[] };
  const packs = new Map<string, Pack>();
  const string = (key: string) => {
    const n = next(), plain = { _: "langPackString", key, value: "v" + n };
    if (r.bool(0.5)) return plain;
    const o: any = { _: "langPackStringPluralized", key, other_value: "v" + n };
    for (const k of ["zero", "one", "two", "few", "many"]) if (r.bool()) o[k + "_value"] = k + n;
    return o;
  };
  for (const l of [langCode, "yy"]) {
    const p: Pack = { version: r.int(1, 9), strings: new Map(), history: [] };
    for (let i = r.int(0, 5); i > 0; i--) p.strings.set("k" + i, string("k" + i));
    packs.set(l, p);
  }
  const translation = (s: any) => s._ === "langPackString" ? { key: s.key, value: s.value } : JSON.parse(JSON.stringify({ key: s.key, value: s.other_value, ...Object.fromEntries(["zero", "one", "two", "few", "many"].map((k) => [k, s[k + "_value"]])) }));
  const sorted = (l: any[]) => l.map((v) => Object.fromEntries(Object.entries(v).filter(([, x]) => x !== undefined).sort(([a], [b]) => a < b ? -1 : 1))).sort((a: any, b: any) => a.key < b.key ? -1 : 1);
  const voices = new Map<number, { id: number; transcription?: { id: bigint; text: string; pending: boolean } }>();
  const voice = (id: number) => ({ _: "message", id, peer_id: { _: "peerUser", user_id: users[0] }, from_id: { _: "peerUser", user_id: users[0] }, date: 1000 + id, message: "", media: { _: "messageMediaDocument", voice: true, document: { ...emoji(1n), mime_type: "audio/ogg", attributes: [{ _: "documentAttributeAudio", voice: true, duration: 3 }] } } });
  for (const i of [901, 902]) voices.set(i, { id: i });

  // --- what the client may still know
  let cached = new Map<string, any>(); // things it has and need not ask for
  let maybe = new Set<string>(); // things it may have
  let asked: any[] = [];
  const answers: any[] = [];
  site.on = (c) => {
    const q: any = c.call, k = known();
    const ok = (v: any) => (asked.push(q), site.ok(c, v));
    switch (q._) {
      case "users.getFullUser":
        return ok({ _: "users.userFull", full_user: fullObject(fulls.get(Number(q.id.user_id))!), ...k });
      case "messages.getFullChat":
        return ok({ _: "messages.chatFull", full_chat: fullObject(fulls.get(-Number(group))!), ...k });
      case "channels.getFullChannel":
        return ok({ _: "messages.chatFull", full_chat: fullObject(fulls.get(-1000000000000 - Number(channel))!), ...k });
      case "phone.getGroupCall":
        if (!calls.has(q.call.id) || calls.get(q.call.id)!.hash !== q.call.access_hash) return { error: [400, "GROUPCALL_INVALID"] };
        return ok({ _: "phone.groupCall", call: callObject(calls.get(q.call.id)!), participants: [], participants_next_offset: "", ...k });
      case "account.getBotBusinessConnection":
        if (!connections.has(q.connection_id)) return { error: [400, "CONNECTION_ID_INVALID"] };
        return ok({ _: "updates", updates: [{ _: "updateBotBusinessConnect", connection: connections.get(q.connection_id), qts: 0 }], ...k, date: acc.date, seq: 0 });
      case "messages.getCustomEmojiDocuments": {
        const l = q.document_id.filter((id: bigint) => emojis.has(id)).map(emoji);
        return ok(mixed ? r.shuffle(l) : l);
      }
      case "langpack.getLangPack": {
        const p = packs.get(q.lang_code)!;
        return ok({ _: "langPackDifference", lang_code: q.lang_code, from_version: 0, version: p.version, strings: [...p.strings.values()] });
      }
      case "langpack.getDifference": {
        const p = packs.get(q.lang_code)!, l = new Map<string, any>();
        for (const h of p.history) if (h.version > q.from_version) l.set(h.string.key, h.string);
        return ok({ _: "langPackDifference", lang_code: q.lang_code, from_version: q.from_version, version: p.version, strings: [...l.values()] });
      }
      case "messages.getBotCallbackAnswer":
        return ok(answers[answers.push({ _: "messages.botCallbackAnswer", message: "m" + next(), alert: r.bool() || undefined, url: r.bool() ? "u" + serial : undefined, cache_time: seconds }) - 1]);
      case "messages.getInlineBotResults":
        return ok(answers[answers.push({ _: "messages.botResults", query_id: BigInt(next()), results: [], cache_time: seconds, users: [], next_offset: r.bool() ? "o" : undefined }) - 1]);
      case "messages.transcribeAudio": {
        const v = voices.get(q.msg_id)!;
        v.transcription ??= { id: BigInt(next()), text: "t" + serial, pending: r.bool() };
        return ok({ _: "messages.transcribedAudio", transcription_id: v.transcription.id, text: v.transcription.text, pending: v.transcription.pending || undefined });
      }
      case "messages.getMessages":
        return site.ok(c, { _: "messages.messages", messages: q.id.map((x: any) => voices.has(x.id) ? voice(x.id) : { _: "messageEmpty", id: x.id }), topics: [], ...k });
    }
    return undefined;
  };
  let mixed = false, seconds = 0;
  let p = site.proc({ disk, params, diskOptions, handler: (u: any) => void delivered.push(u) });
  const push = async (...updates: any[]) => {
    for (const u of updates) log.push(`${u._} ${show(u.connection?.connection_id ?? u.call?.id ?? "")}`);
    site.push(acc, { _: "updates", updates, ...known(), date: acc.date, seq: 0 });
    await advance(lat + 1000);
  };
  const start = async () => {
    await run(p.client.start(), 600000, "start()");
    await advance(20000);
    await push({ _: "updateConfig" });
  };
  await start();
  /** looks something up, checking whether the server had to be asked */
  const look = async (key: string, f: () => Promise<any>, expectAsk?: boolean, alone = false) => {
    asked = [];
    let got: any, err: any;
    const times = !alone && r.bool(0.15) ? 2 : 1;
    try {
      got = (await run(Promise.all(Array.from({ length: times }, f)), 600000, key)).at(-1);
    } catch (e) {
      err = e;
    }
    log.push(`look ${key}${asked.length ? " (asked)" : ""}`);
    t.count("look-ups");
    if (asked.length) t.count("asked");
    else t.count("answered without asking");
    const ask = expectAsk ?? !cached.has(key);
    if (!maybe.has(key)) {
      t.ensure(ask || !asked.length, "needless", () => `${key} had been answered and has not changed, but the server is asked again: ${show(asked)}`, { log });
      t.ensure(!ask || asked.length || err, "outdated", () => `${key} has changed or was never asked for, and is answered without asking: ${show(got)}`, { log });
    }
    return { got, err };
  };
  const good = (key: string, x: { got: any; err: any }) => {
    t.ensure(!x.err, "failed", () => `${key} failed with ${x.err?.stack ?? show(x.err)}`, { log, asked });
    cached.set(key, true), maybe.delete(key);
    return x.got;
  };
  const stale = (key: string) => (cached.delete(key), maybe.delete(key));
  const drop = (chat: number) => stale("full:" + chat);
  const readChat = async (id: number) => {
    const f = fulls.get(id)!, key = "full:" + id;
    const got = good(key, await look(key, () => p.client.getChat(id)));
    const want = { id, birthday: f.birthday, address: f.address, photo: !!f.photo, call: f.call && String(f.call) };
    const have = { id: got.id, birthday: got.birthday && { day: got.birthday.day, month: got.birthday.month }, address: got.address, photo: !!got.photo, call: got.videoChatId };
    t.ensure(show(want) === show(have), "chat", () => `chat ${id} is ${show(want)} and read as ${show(have)}`, { log });
    if (f.call && asked.length) callKnown(f.call, false);
  };
  const callKnown = (id: bigint, whole: boolean) => {
    if (whole) cached.set("call:" + id, true);
    hashes.add(id);
  };
  const hashes = new Set<bigint>();
  const readMembers = async () => {
    const key = "full:-" + group, admins = r.bool();
    const got = good(key, await look(key, () => admins ? p.client.getChatAdministrators(-Number(group)) : p.client.getChatMembers(-Number(group))));
    const want = members.filter((m) => !admins || m.role).map((m) => `${m.id}:${m.role === "Creator" ? "creator" : m.role ? "administrator" : "member"}`);
    const have = got.map((m: any) => `${(m.member ?? m.user ?? m.chat)?.id}:${m.status}`);
    t.ensure(want.join() === have.join(), "members", () => `the members of the group are ${want} and read as ${have} (${show(got[0])})`, { log });
    if (asked.length && fulls.get(-Number(group))!.call) callKnown(fulls.get(-Number(group))!.call!, false);
  };
  const versionOf = new Map<string, Map<string, any>>();
  const chats = [...fulls.keys()];
  const actions: Record<string, () => Promise<void>> = {
    chat: () => readChat(r.pick(chats)),
    changeChat: async () => {
      const id = r.pick(chats), f = fulls.get(id)!;
      f.photo = r.bool() ? BigInt(next()) : undefined;
      if (id > 0) f.birthday = r.bool() ? { day: r.int(1, 28), month: r.int(1, 12) } : undefined, f.address = r.bool() ? "a" + next() : undefined;
      drop(id);
      if (id > 0) await push(r.bool() ? { _: "updateUser", user_id: BigInt(id) } : { _: "updateUserName", user_id: BigInt(id), first_name: "U", last_name: "", usernames: [] });
      else await push(id === -Number(group) ? { _: "updateChat", chat_id: group } : { _: "updateChannel", channel_id: channel });
    },
    members: readMembers,
    changeMembers: async () => {
      version++;
      const out = users.filter((u) => !members.some((m) => m.id === u)), rest = members.filter((m) => m.role !== "Creator"), x = r.int(0, 3);
      let u: any;
      if (x === 0 && out.length) {
        const id = r.pick(out);
        members = [...members, { id, role: "" }], u = { _: "updateChatParticipantAdd", chat_id: group, user_id: id, inviter_id: users[0], date: 5, version };
      } else if (x === 1 && rest.length) {
        const m = r.pick(rest);
        members = members.filter((v) => v !== m), u = { _: "updateChatParticipantDelete", chat_id: group, user_id: m.id, version };
      } else if (x === 2 && rest.length) {
        const m = r.pick(rest);
        m.role = m.role ? "" : "Admin", u = { _: "updateChatParticipantAdmin", chat_id: group, user_id: m.id, is_admin: !!m.role, version };
      } else {
        if (out.length && r.bool()) members = [...members, { id: out[0], role: r.pick(["", "Admin"]) }];
        else if (rest.length) members = members.filter((v) => v !== rest[0]);
        u = { _: "updateChatParticipants", participants: participants() };
      }
      drop(-Number(group));
      maybe.add("full:-" + group);
      await push(u);
    },
    emojis: async () => {
      const ids = r.shuffle([...emojis.keys(), 5n]).slice(0, r.int(1, 4));
      mixed = r.bool(0.3);
      const now = sv.now(), all = ids.every((id) => cached.has("emoji:" + id)), age = Math.max(...ids.map((id) => now - (cached.get("emoji:" + id)?.at ?? 0)));
      const unsure = ids.some((id) => maybe.has("emoji:" + id)) || Math.abs(age - 1800) < 10;
      const key = "emojis:" + ids;
      maybe.delete(key);
      if (unsure) maybe.add(key);
      const x = await look(key, () => p.client.getCustomEmojiStickers(ids.map(String)), !all || age > 1800);
      const got = good(key, x);
      if (asked.length) for (const id of ids) if (emojis.has(id)) cached.set("emoji:" + id, { at: now, ref: emojis.get(id) }), maybe.delete("emoji:" + id);
      const want = ids.filter((id) => emojis.has(id));
      const have = got.map((s: any) => s.customEmojiId);
      t.ensure([...have].sort().join() === want.map(String).sort().join() && (asked.length && mixed || have.join() === want.join()), "emojis", () => `looking up custom emojis ${ids}, of which ${want} exist, gives ${have}`, { log });
      for (const s of got) {
        const id = BigInt(s.customEmojiId), f: any = deserializeFileId(s.fileId);
        t.ensure(f.location.id === id && s.emoji === "a" + id, "emoji", () => `custom emoji ${id} is given as ${show(s)} of document ${f.location.id}`, { log });
        if (!maybe.has("emoji:" + id)) t.ensure(dec.decode(f.fileReference) === "ref" + cached.get("emoji:" + id).ref, "emoji-version", () => `custom emoji ${id} has the reference ${dec.decode(f.fileReference)}`, { log });
      }
    },
    changeEmoji: async () => void emojis.set(r.pick([...emojis.keys()]), next()),
    wait: () => advance(r.pick([2, 9, 40, 400, 1000, 2000]) * 1000),
  };
  const timed = async (key: string, f: () => Promise<any>, check: (got: any, answer: any) => boolean, zero: boolean) => {
    seconds = r.pick([0, 1, 5, 60, 3600]);
    const c = cached.get(key), age = c ? sv.now() - c.at : 0, slack = 1 + lat / 1000 * 4;
    const ask = !c || age > c.answer.cache_time;
    const was = maybe.has(key);
    if (c && Math.abs(age - c.answer.cache_time) < slack) maybe.add(key);
    const x = await look(key, f, ask, true);
    if (!was) maybe.delete(key);
    t.ensure(!x.err, "failed", () => `${key} failed with ${x.err?.stack ?? show(x.err)}`, { log });
    const a = asked.length ? answers.at(-1) : c?.answer;
    t.ensure(a && check(x.got, a), "answer", () => `${key} is answered with ${show(x.got)}, the service said ${show(a)}`, { log });
    if (asked.length) {
      maybe.delete(key), cached.delete(key);
      if (seconds > 0 || zero) cached.set(key, { at: sv.now() - lat / 1000 * 2, answer: a });
    }
  };
  if (bot) {
    actions.connection = async () => {
      const id = r.pick(["b1", "b2"]), key = "connection:" + id;
      if (!connections.has(id)) return;
      const got = good(key, await look(key, () => p.client.getBusinessConnection(id))), c = connections.get(id);
      // whether a disabled one is kept is up to the client
      if (c.disabled) cached.delete(key), maybe.add(key);
      t.ensure(got.id === id && got.user.id === Number(c.user_id) && got.date === c.date && got.canReply === !!c.rights?.reply && got.isEnabled === !c.disabled, "connection", () => `business connection ${show(c)} is read as ${show(got)}`, { log });
    };
    actions.changeConnection = async () => {
      const id = r.pick(["b1", "b2"]), key = "connection:" + id;
      const c = { _: "botBusinessConnection", connection_id: id, user_id: r.pick(users), dc_id: 2, date: 1000 + next(), rights: r.bool() ? { _: "businessBotRights", reply: true } : undefined, disabled: r.bool(0.3) || undefined };
      connections.set(id, c);
      stale(key);
      if (!c.disabled) cached.set(key, true);
      else maybe.add(key);
      const qts = ++acc.qts, u = { _: "updateBotBusinessConnect", connection: c, qts };
      const k = known();
      acc.events.push({ box: "q", n: qts, count: 1, tag: acc.nextTag++, kind: "other", update: u, at: sv.now() | 0, users: k.users, chats: k.chats });
      delivered = [];
      await push(u);
      const d = delivered.filter((v) => v.businessConnection);
      t.ensure(d.length === 1 && d[0].businessConnection.id === id && d[0].businessConnection.isEnabled === !c.disabled && d[0].businessConnection.date === c.date, "connection-update", () => `the change to ${show(c)} was delivered as ${show(d)}`, { log });
    };
  } else {
    actions.callback = async () => {
      const b = r.pick(users), m = r.int(1, 2), q = r.pick([{ type: "button", data: "x" }, { type: "button", data: "y" }, { type: "game" }]);
      await timed(`callback:${b}:${m}:${show(q)}`, () => p.client.sendCallbackQuery(Number(b), m, q), (got, a) => got.text === a.message && got.isAlert === !!a.alert && got.url === (a.url ?? ""), true);
    };
    actions.inline = async () => {
      const b = r.pick(users), c = r.pick([Number(users[0]), -Number(group)]), query = r.pick(["", "q"]), offset = r.pick([undefined, "o"]);
      await timed(`inline:${b}:${c}:${query}:${offset}`, () => p.client.sendInlineQuery(Number(b), c, { query, offset }), (got, a) => got.id === String(a.query_id) && got.nextOffset === a.next_offset, false);
    };
    actions.translations = async () => {
      const language = r.pick([langCode, langCode, undefined, "yy"]), l = language ?? langCode, key = "translations:" + l;
      const got = good(key, await look(key, () => p.client.getTranslations(r.bool() ? { platform: langPack, language } : language ? { language } : undefined)));
      if (asked.length) versionOf.set(l, new Map(packs.get(l)!.strings));
      const want = sorted([...versionOf.get(l)!.values()].map(translation));
      t.ensure(show(sorted(got)) === show(want), "translations", () => `the translations of ${l} are ${show(want)} and read as ${show(sorted(got))}`, { log });
    };
    actions.changeTranslations = async () => {
      const l = r.pick([langCode, langCode, "yy"]), pk = packs.get(l)!, from = pk.version, strings: any[] = [];
      for (const key of r.shuffle(["k1", "k2", "k3", "k4", "k5", "k6"]).slice(0, r.int(1, 3))) {
        const s = r.bool(0.25) ? { _: "langPackStringDeleted", key } : string(key);
        strings.push(s);
        s._ === "langPackStringDeleted" ? pk.strings.delete(key) : pk.strings.set(key, s);
      }
      pk.version += r.int(1, 3);
      for (const s of strings) pk.history.push({ version: pk.version, string: s });
      const had = versionOf.has(l), kind = r.pick(["difference", "difference", "long", "lost"]);
      if (kind === "lost") return;
      delivered = [], asked = [];
      if (kind === "long") {
        await push({ _: "updateLangPackTooLong", lang_code: l });
        versionOf.set(l, new Map(pk.strings)), cached.set("translations:" + l, true), maybe.delete("translations:" + l);
      } else {
        await push({ _: "updateLangPack", difference: { _: "langPackDifference", lang_code: l, from_version: from, version: pk.version, strings } });
        if (l !== langCode) return;
        // unknown before: nothing to apply it to
        if (!had) return;
        if (!cached.has("translations:" + l)) {
          if (!delivered.some((v) => v.translations)) return;
        }
        versionOf.set(l, new Map(pk.strings)), cached.set("translations:" + l, true), maybe.delete("translations:" + l);
      }
      const d = delivered.filter((v) => v.translations), want = sorted([...pk.strings.values()].map(translation));
      t.ensure(d.length === 1 && d[0].language === l && d[0].platform === langPack && show(sorted(d[0].translations)) === show(want), "translations-update", () => `the change of ${l} to ${show(want)} was delivered as ${show(d)}`, { log });
    };
    actions.call = async () => {
      if (!calls.size) return;
      const c = r.pick([...calls.values()]), key = "call:" + c.id;
      const x = await look(key, () => p.client.getVideoChat(String(c.id)), hashes.has(c.id) && !cached.has(key));
      if (!hashes.has(c.id)) {
        if (maybe.has(key)) return;
        return t.ensure(x.err && !asked.length, "call-unknown", () => `video chat ${c.id}, which is ${c.ended === undefined ? "unknown" : "over"}, is read as ${show(x.got)}`, { log });
      }
      t.ensure(!x.err, "failed", () => `reading video chat ${c.id} failed with ${x.err?.stack}`, { log });
      t.ensure(x.got.id === String(c.id) && x.got.type === (c.ended === undefined ? "active" : "ended") && x.got.participantCount === c.count && x.got.title === (c.title ?? ""), "call", () => `video chat ${show(c)} is read as ${show(x.got)}`, { log });
    };
    actions.changeCall = async () => {
      const f = fulls.get(r.pick([-Number(group), -1000000000000 - Number(channel)]))!;
      let c: Call;
      if (!f.call) {
        c = { id: BigInt(7000 + next()), hash: BigInt(next()), chat: f.id, count: r.int(0, 9), title: r.bool() ? "c" + next() : undefined };
        calls.set(c.id, c), f.call = c.id;
      } else {
        c = calls.get(f.call)!;
        if (r.bool(0.3)) c.ended = r.int(1, 99), f.call = undefined;
        else c.count = r.int(0, 99), c.title = "c" + next();
      }
      delivered = [];
      await push({ _: "updateGroupCall", peer: f.id === -Number(group) ? { _: "peerChat", chat_id: group } : { _: "peerChannel", channel_id: channel }, call: callObject(c) });
      if (c.ended === undefined) callKnown(c.id, true), maybe.delete("call:" + c.id);
      else stale("call:" + c.id), hashes.delete(c.id);
      const d = delivered.filter((v) => v.videoChat);
      t.ensure(d.length === 1 && d[0].videoChat.id === String(c.id) && d[0].videoChat.type === (c.ended === undefined ? "active" : "ended"), "call-update", () => `the change to ${show(c)} was delivered as ${show(d)}`, { log });
    };
    actions.voice = async () => {
      const v = r.pick([...voices.values()]), key = "voice:" + v.id;
      const x = await look(key, () => p.client.transcribeVoice(Number(users[0]), v.id), !cached.get(key));
      t.ensure(!x.err, "failed", () => `transcribing ${v.id} failed with ${x.err?.stack}`, { log });
      maybe.delete(key);
      t.ensure(x.got.id === String(v.transcription!.id) && x.got.text === v.transcription!.text && x.got.isCompleted === !v.transcription!.pending, "voice", () => `transcription ${show(v.transcription)} is given as ${show(x.got)}`, { log });
      if (v.transcription!.pending) cached.delete(key);
      else cached.set(key, true);
      heard.add(v.id);
    };
    const heard = new Set<number>();
    actions.changeVoice = async () => {
      const l = [...voices.values()].filter((v) => v.transcription?.pending);
      if (!l.length) return;
      const v = r.pick(l), tr = v.transcription!;
      tr.text = "t" + next(), tr.pending = r.bool(0.4);
      delivered = [];
      await push({ _: "updateTranscribedAudio", peer: { _: "peerUser", user_id: users[0] }, msg_id: v.id, transcription_id: tr.id, text: tr.text, pending: tr.pending || undefined });
      if (!tr.pending && heard.has(v.id)) {
        if (!maybe.has("voice:" + v.id)) cached.set("voice:" + v.id, true);
      }
      const d = delivered.filter((x) => x.voiceTranscription);
      t.ensure(d.length === 1 && d[0].voiceTranscription.text === tr.text && d[0].voiceTranscription.isCompleted === !tr.pending, "voice-update", () => `the change to ${show(tr)} was delivered as ${show(d)}`, { log });
    };
  }
  const names = Object.keys(actions);
  for (let k = r.pick([5, 15, 40]); k > 0; k--) {
    if (r.bool(0.04)) {
      await run(p.client.disconnect(), 600000, "disconnect()");
      if (r.bool()) {
        p.kill();
        // what was known may be known still
        for (const key of cached.keys()) maybe.add(key);
        for (const id of calls.keys()) maybe.add("call:" + id);
        for (const v of voices.keys()) maybe.add("voice:" + v);
        if (!persistCache) hashes.clear(), versionOf.clear();
        else if (versionOf.size) for (const l of versionOf.keys()) maybe.add("translations:" + l);
        p = site.proc({ disk, params, diskOptions, handler: (u: any) => void delivered.push(u) });
      }
      await start();
      log.push("restart");
      t.count("restarts");
    } else {
      const a = r.pick(names);
      t.state("actions", a);
      await actions[a]();
    }
  }
  t.sig(log.join("|"));
  t.sample({ bot, persistCache, log: log.slice(0, 30) });
  await run(p.client.disconnect(), 600000, "disconnect()");
});
await ck.main();
