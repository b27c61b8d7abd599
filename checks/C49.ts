// deno-lint-ignore-file no-explicit-any
import "../lib/env.ts";
import { Check, hex, show } from "../lib/core.ts";
import { advance, API, run, Site } from "../lib/site.ts";
import { Disk } from "../lib/disk.ts";
import * as TL from "../lib/tl.ts";
import { FileType, serializeFileId } from "file:///repo/types/_file_id.ts";

const ck = new Check("C49", {
  level: "exploration",
  rule: "Complete clients of users and bots administer chats, topics, stories, contacts, profiles, settings, bots, gifts and sticker sets with random parameters, before and after restarts; the calls that reach the service are decoded by an independent codec and compared field by field with what the parameters stand for, and what the methods return with what the service answered. A case is one client with a batch of calls.",
  assumptions: ["The parameters follow their declared types"],
  quickSeconds: 50,
  thoroughSeconds: 400,
});
const enc = new TextEncoder();
const USER = 5000n, OTHER = 5001n, GROUP = 31n, CHANNEL = 32n, SECOND = 33n;

/** a comparable form: no absent fields, no false flags, no empty lists */
function norm(v: any): any {
  if (v instanceof Uint8Array) return "#" + hex(v);
  if (typeof v === "bigint") return v + "n";
  if (Array.isArray(v)) return v.map(norm);
  if (v && typeof v === "object") {
    const o: any = {};
    for (const k of Object.keys(v).sort()) {
      const x = v[k];
      if (x === undefined || x === null || x === false || Array.isArray(x) && !x.length) continue;
      o[k] = norm(x);
    }
    return o;
  }
  return v;
}
const same = (a: any, b: any) => JSON.stringify(norm(a)) === JSON.stringify(norm(b));
type Job = {
  args: any[];
  /** the calls expected, or null when it must be refused */
  want: any[] | null;
  /** what the service answers to the last of them */
  reply?: any;
  /** what the method must return */
  result?: any;
  /** answers to earlier calls */
  before?: Record<string, any>;
};
type Entry = { who: "user" | "bot" | "any"; make: () => Job };

ck.part("calls", { quick: 260, thorough: 8000, rejections: true }, async (t) => {
  const r = t.rng, site = new Site(t), sv = site.server, bot = r.bool(0.3);
  const acc = site.account(77n, bot);
  const mode = r.pick([undefined, null, "HTML"] as const);
  const lat = r.pick([0, 10, 300]);
  sv.latency = () => lat ? r.int(0, lat) : 0;
  acc.user(USER), acc.user(OTHER), acc.channel(CHANNEL), acc.channel(SECOND);
  const group = { _: "chat", id: GROUP, title: "G", photo: { _: "chatPhotoEmpty" }, participants_count: 3, date: 1, version: 1 };
  const known = () => ({ users: [acc.user(77n), acc.user(USER), acc.user(OTHER)], chats: [group, acc.chat(CHANNEL), acc.chat(SECOND)] });
  let serial = 1000;
  const next = () => ++serial;
  const big = () => BigInt(next()) * 1000000007n;
  const maybe = <T>(f: () => T, p = 0.5): T | undefined => r.bool(p) ? f() : undefined;
  const pairs = (o: any) => Object.fromEntries(Object.entries(o).filter(([, v]) => v !== undefined)) as any;
  const flags = (...names: string[]) => pairs(Object.fromEntries(names.map((n) => [n, r.pick([undefined, undefined, true, false])])));
  const word = () => "w" + next();

  // --- whom and where
  const inputUser = (u: bigint) => ({ _: "inputUser", user_id: u, access_hash: acc.user(u).access_hash });
  const users = [USER, OTHER].map((u) => ({ id: Number(u), input: { _: "inputPeerUser", user_id: u, access_hash: acc.user(u).access_hash }, user: inputUser(u), peer: { _: "peerUser", user_id: u }, raw: u }));
  const channelOf = (c: bigint) => ({ id: -1000000000000 - Number(c), input: { _: "inputPeerChannel", channel_id: c, access_hash: acc.channel(c).access }, channel: { _: "inputChannel", channel_id: c, access_hash: acc.channel(c).access }, peer: { _: "peerChannel", channel_id: c } });
  const channels = [channelOf(CHANNEL), channelOf(SECOND)];
  const basic = { id: -Number(GROUP), input: { _: "inputPeerChat", chat_id: GROUP }, peer: { _: "peerChat", chat_id: GROUP } };
  const me = { id: "me", input: { _: "inputPeerSelf" }, user: { _: "inputUserSelf" }, peer: { _: "peerUser", user_id: 77n }, raw: 77n };
  const self = () => ({ ...me, id: r.pick<any>(["me", 77]) });
  const user = (): any => r.pick(users), channel = (): any => r.pick(channels);
  const anyUser = (): any => r.bool(0.15) ? self() : user();
  const chat = (): any => r.pick<any>([...users, ...channels, basic]);
  const where = (): any => r.pick<any>([...channels, basic]);

  // --- the service
  let calls: { call: any; connection?: string; takeout?: bigint }[] = [];
  let job: Job | null = null;
  const uploads = new Map<bigint, Uint8Array[]>();
  const errors: string[] = [];
  site.on = (c) => {
    let q: any = c.call, connection: string | undefined, takeout: bigint | undefined;
    if (q._ === "invokeWithBusinessConnection") connection = q.connection_id, q = q.query;
    if (q._ === "invokeWithTakeout") takeout = q.takeout_id, q = q.query;
    if (!job) return undefined;
    const ok = (type: string, v: any) => {
      try {
        return { result: TL.encodeType(API, type, v) };
      } catch (e) {
        errors.push(`${q._}: ${e}`);
        return { error: [500, "INTERNAL"] as [number, string] };
      }
    };
    if (q._ === "upload.saveFilePart") {
      const l = uploads.get(q.file_id) ?? [];
      l[q.file_part] = q.bytes;
      uploads.set(q.file_id, l);
      return ok("Bool", true);
    }
    if (q._.startsWith("updates.") || q._ === "ping" || q._.startsWith("users.getUsers")) return undefined;
    // what a returned message refers to is looked up in addition
    if (/^(messages|channels)\.getMessages$/.test(q._) && !job.want?.some((w) => w._ === q._)) {
      const id = q.id[0]?.id;
      const messages = q._[0] === "c" && id !== undefined ? [{ _: "messageService", id, from_id: { _: "peerUser", user_id: OTHER }, peer_id: { _: "peerChannel", channel_id: q.channel.channel_id }, date: 5, action: { _: "messageActionTopicCreate", title: "old", icon_color: 77 } }] : [];
      return ok(API.d[q._][2], q._[0] === "c" ? { _: "messages.channelMessages", pts: acc.channel(q.channel.channel_id).pts, count: 1, messages, topics: [], ...known() } : { _: "messages.messages", messages, topics: [], ...known() });
    }
    calls.push({ call: q, connection, takeout });
    const type = API.d[q._][2], early = job.before?.[q._];
    if (early !== undefined) return ok(type, early);
    if (calls.length === job.want?.length && job.reply !== undefined) return ok(type, job.reply);
    if (type === "Bool") return ok(type, true);
    if (type === "Updates") return ok(type, { _: "updates", updates: [], ...known(), date: acc.date, seq: 0 });
    try {
      return ok(type, TL.randType(API, r, type, { depth: 2, optional: 0.3, vecMax: 2 }));
    } catch {
      return { error: [500, "INTERNAL"] as [number, string] };
    }
  };
  const disk = new Disk();
  const persistCache = r.bool();
  const auth = site.authString(site.login(acc)), params: any = { persistCache, ...(mode === undefined ? {} : { parseMode: mode }) };
  let p = site.proc({ disk, params: { authString: auth, ...params } });
  await run(p.client.start(), 600000, "start()");
  await advance(20000);
  site.push(acc, { _: "updates", updates: [{ _: "updateConfig" }], ...known(), date: acc.date, seq: 0 });
  await advance(lat + 2000);
  if (r.bool(0.4)) {
    await run(p.client.disconnect(), 300000, "disconnect()");
    p.kill();
    p = site.proc({ disk, params });
    await run(p.client.start(), 600000, "start() again");
    await advance(5000);
    if (!persistCache) {
      site.push(acc, { _: "updates", updates: [{ _: "updateConfig" }], ...known(), date: acc.date, seq: 0 });
      await advance(lat + 2000);
    }
    t.count("restarts");
  }

  // --- pieces
  const text = (): any => {
    const w = word(), effective = mode === undefined ? null : mode;
    return r.pick<() => any>([
      () => ({ text: `<b>${w}</b> x`, parseMode: "HTML", plain: `${w} x`, ents: [{ _: "messageEntityBold", offset: 0, length: w.length }] }),
      () => {
        const u = user();
        if (r.bool(0.3)) return { text: `<a href="tg://user?id=${u.id}">${w}</a> q`, parseMode: "HTML", plain: `${w} q`, ents: [{ _: "inputMessageEntityMentionName", offset: 0, length: w.length, user_id: u.user }] };
        return { text: w + " z", entities: [{ type: "textMention", offset: 0, length: w.length, userId: u.id }], plain: w + " z", ents: [{ _: "inputMessageEntityMentionName", offset: 0, length: w.length, user_id: u.user }] };
      },
      () => ({ text: `<b>${w}</b>`, parseMode: null, plain: `<b>${w}</b>`, ents: [] }),
      () => ({ text: `${w} y`, entities: [{ type: "italic", offset: 0, length: w.length }], plain: `${w} y`, ents: [{ _: "messageEntityItalic", offset: 0, length: w.length }] }),
      () => ({ text: `<i>${w}</i>`, plain: effective === "HTML" ? w : `<i>${w}</i>`, ents: effective === "HTML" ? [{ _: "messageEntityItalic", offset: 0, length: w.length }] : [] }),
    ])();
  };
  const formatted = (x: any) => ({ _: "textWithEntities", text: x.plain, entities: x.ents });
  const inParams = (x: any, m = "parseMode", e = "entities") => pairs({ ..."parseMode" in x ? { [m]: x.parseMode } : {}, ...x.entities ? { [e]: x.entities } : {} });
  const document = () => {
    const id = big();
    return { id, access_hash: id * 3n, file_reference: enc.encode("r" + id) };
  };
  const fileId = (type: number, d: any) => serializeFileId({ type, dcId: 2, fileReference: d.file_reference, location: { type: "common", id: d.id, accessHash: d.access_hash } } as any);
  const limit = () => r.pick([undefined, 1, 100, 0, 101, r.int(2, 99)]);
  const limited = (l: number | undefined) => l === undefined ? 100 : Math.max(1, Math.min(100, l));
  const upload = () => {
    const content = r.bytes(r.int(1, 60)), fileName = `n${next()}.bin`;
    return { content, fileName, file: { _: "inputFile", name: fileName, content: "#" + hex(content) } };
  };
  const resolved = (v: any): any => {
    if (v instanceof Uint8Array || typeof v !== "object" || v === null) return v;
    if (Array.isArray(v)) return v.map(resolved);
    if (v._ === "inputFile") {
      const parts = uploads.get(v.id) ?? [];
      return { _: "inputFile", name: v.name, content: "#" + parts.map((x) => hex(x)).join("") };
    }
    return Object.fromEntries(Object.entries(v).map(([k, x]) => [k, resolved(x)]));
  };
  const privacy = (): [any, any[]] => {
    const some = r.shuffle([...users]).slice(0, r.int(0, 2));
    return r.pick<() => [any, any[]]>([
      () => [{ type: "everyone", except: some.map((u) => u.id) }, [...some.length ? [{ _: "inputPrivacyValueDisallowUsers", users: some.map((u) => u.user) }] : [], { _: "inputPrivacyValueAllowAll" }]],
      () => [{ type: "contacts", except: some.map((u) => u.id) }, [...some.length ? [{ _: "inputPrivacyValueDisallowUsers", users: some.map((u) => u.user) }] : [], { _: "inputPrivacyValueAllowContacts" }]],
      () => [{ type: "closeFriends" }, [{ _: "inputPrivacyValueAllowCloseFriends" }]],
      () => [{ type: "only", only: [users[0].id] }, [{ _: "inputPrivacyValueAllowUsers", users: [users[0].user] }]],
    ])();
  };
  const position = (): [any, any] => {
    const [x, y, w, h, rotation] = Array.from({ length: 5 }, () => r.int(0, 200) / 2);
    return [{ xPercentage: x, yPercentage: y, widthPercentage: w, heightPercentage: h, rotationAngle: rotation }, { _: "mediaAreaCoordinates", x, y, w, h, rotation }];
  };
  const area = (): [any, any] => {
    const [position_, coordinates] = position(), n = next();
    return r.pick<() => [any, any]>([
      () => [{ type: "location", position: position_, location: { latitude: 1.5, longitude: n / 64 } }, { _: "mediaAreaGeoPoint", coordinates, geo: { _: "geoPoint", lat: 1.5, long: n / 64, access_hash: 0n } }],
      () => [{ type: "venue", position: position_, venue: { location: { latitude: 2.5, longitude: n / 64 }, title: "t" + n, address: "a" + n, foursquareId: "f" + n, foursquareType: "y" + n } }, { _: "mediaAreaVenue", coordinates, geo: { _: "geoPoint", lat: 2.5, long: n / 64, access_hash: 0n }, address: "a" + n, provider: "foursquare", title: "t" + n, venue_id: "f" + n, venue_type: "y" + n }],
      () => [{ type: "reaction", position: position_, reaction: { type: "emoji", emoji: "e" + n }, isDark: n % 2 === 0, isFlipped: n % 3 === 0 }, { _: "mediaAreaSuggestedReaction", coordinates, reaction: { _: "reactionEmoji", emoticon: "e" + n }, dark: n % 2 === 0, flipped: n % 3 === 0 }],
      () => {
        const c = channels.find((v) => v.id % 2)!; // the broadcast channel
        return [{ type: "messageReference", position: position_, messageReference: { chatId: c.id, messageId: n } }, { _: "inputMediaAreaChannelPost", coordinates, channel: c.channel, msg_id: n }];
      },
      () => [{ type: "link", position: position_, link: "https://l.test/" + n }, { _: "mediaAreaUrl", coordinates, url: "https://l.test/" + n }],
      () => [{ type: "weather", position: position_, emoji: "m" + n, temperature: n / 4, color: n }, { _: "mediaAreaWeather", coordinates, emoji: "m" + n, temperature_c: n / 4, color: n }],
      () => [{ type: "gift", position: position_, slug: "s" + n }, { _: "mediaAreaStarGift", coordinates, slug: "s" + n }],
    ])();
  };
  const areas = (): [any[] | undefined, any[]] => {
    const l = Array.from({ length: r.int(0, 2) }, area);
    return [l.length || r.bool() ? l.map((v) => v[0]) : undefined, l.map((v) => v[1])];
  };
  const storyItem = (id: number, caption?: string) => ({ _: "storyItem", public: true, id, date: 5, expire_date: 99999999, caption, media: { _: "messageMediaPhoto", photo: { _: "photo", id: 8n, access_hash: 9n, file_reference: new Uint8Array(3), date: 5, dc_id: 2, sizes: [{ _: "photoSize", type: "x", w: 9, h: 9, size: 99 }] } } });
  const content = (): [any, any] => {
    const isVideo = r.bool(), stickers = Array.from({ length: r.int(0, 2) }, document);
    const attachedStickerFileIds = stickers.length ? stickers.map((d) => fileId(FileType.Sticker, d)) : undefined, inputs = stickers.map((d) => ({ _: "inputDocument", ...d }));
    const isAnimation = r.pick([undefined, true, false]), duration = r.int(1, 60);
    if (r.bool()) {
      const d = document();
      if (isVideo) return [{ content: pairs({ type: "video", video: fileId(FileType.Video, d), duration, isAnimation, attachedStickerFileIds }) }, { _: "inputMediaUploadedDocument", nosound_video: true, file: { _: "inputFileStoryDocument", id: { _: "inputDocument", ...d } }, attributes: [{ _: "documentAttributeFilename", file_name: "video.mp4" }, { _: "documentAttributeVideo", w: 720, h: 1280, duration, nosound: isAnimation }], mime_type: "video/mp4", stickers: inputs }];
      const id = serializeFileId({ type: FileType.Photo, dcId: 2, fileReference: d.file_reference, location: { type: "photo", id: d.id, accessHash: d.access_hash, source: { type: 1, fileType: FileType.Photo, thumbnailType: 120 } } } as any);
      return [{ content: { type: "photo", photo: id } }, { _: "inputMediaPhoto", id: { _: "inputPhoto", ...d } }];
    }
    const bytes = r.bytes(r.int(1, 50)), fileName = `n${next()}.webm`, file = { _: "inputFile", name: fileName, content: "#" + hex(bytes) };
    if (isVideo) return [{ content: pairs({ type: "video", video: bytes, duration, isAnimation, attachedStickerFileIds }), own: { fileName } }, { _: "inputMediaUploadedDocument", nosound_video: true, file, attributes: [{ _: "documentAttributeFilename", file_name: fileName }, { _: "documentAttributeVideo", w: 720, h: 1280, duration, nosound: isAnimation }], mime_type: "video/webm", stickers: inputs }];
    return [{ content: pairs({ type: "photo", photo: bytes, attachedStickerFileIds }), own: { fileName } }, { _: "inputMediaUploadedPhoto", file, stickers: inputs }];
  };
  const gift = (): [any, any] => {
    const n = next(), c = chat();
    return r.pick<[any, any]>([[{ type: "slug", slug: "g" + n }, { _: "inputSavedStarGiftSlug", slug: "g" + n }], [{ type: "chat", chatId: c.id, id: String(n) }, { _: "inputSavedStarGiftChat", peer: c.input, saved_id: BigInt(n) }], [{ type: "user", messageId: n }, { _: "inputSavedStarGiftUser", msg_id: n }]]);
  };
  const status = (): [any, any, any] => {
    const until = maybe(() => r.int(1e6, 2e9)), id = big();
    return r.bool() ? [{ type: "customEmoji", customEmojiId: String(id) }, pairs({ until }), { _: "emojiStatus", document_id: id, until }] : [{ type: "gift", giftId: String(id) }, pairs({ until }), { _: "inputEmojiStatusCollectible", collectible_id: id, until }];
  };
  const scope = (): [any, any] => {
    const u = user(), c = chat(), w = where();
    return r.pick<[any, any]>([
      [undefined, { _: "botCommandScopeDefault" }],
      [{ type: "default" }, { _: "botCommandScopeDefault" }],
      [{ type: "allPrivateChats" }, { _: "botCommandScopeUsers" }],
      [{ type: "allGroupChats" }, { _: "botCommandScopeChats" }],
      [{ type: "allChatAdministrators" }, { _: "botCommandScopeChatAdmins" }],
      [{ type: "chat", chatId: c.id }, { _: "botCommandScopePeer", peer: c.input }],
      [{ type: "chatAdministrators", chatId: w.id }, { _: "botCommandScopePeerAdmins", peer: w.input }],
      [{ type: "chatMember", chatId: w.id, userId: u.id }, { _: "botCommandScopePeerUser", peer: w.input, user_id: u.user }],
    ]);
  };
  const recipients = (): [any, any] => {
    const own = flags("existingChats", "newChats", "contacts", "nonContacts", "excludeSelected"), l = r.shuffle([...users]).slice(0, r.int(0, 2));
    if (l.length || r.bool()) own.userIds = l.map((u) => u.id);
    return [own, { _: "inputBusinessRecipients", existing_chats: own.existingChats, new_chats: own.newChats, contacts: own.contacts, non_contacts: own.nonContacts, exclude_selected: own.excludeSelected, users: l.map((u) => u.user) }];
  };
  const sound = (): [any, any] => {
    const n = next();
    return r.pick<[any, any]>([[{ type: "default" }, { _: "notificationSoundDefault" }], [{ type: "none" }, { _: "notificationSoundNone" }], [{ type: "local", title: "t" + n, data: "d" + n }, { _: "notificationSoundLocal", title: "t" + n, data: "d" + n }], [{ type: "ringtone", id: String(n) }, { _: "notificationSoundRingtone", id: BigInt(n) }]]);
  };
  const invited = (missing: any[]) => ({ _: "messages.invitedUsers", updates: { _: "updates", updates: [], ...known(), date: acc.date, seq: 0 }, missing_invitees: missing });
  const RIGHTS: Record<string, string> = { canSendMessages: "send_plain", canSendAudio: "send_audios", canSendDocuments: "send_docs", canSendPhotos: "send_photos", canSendVideos: "send_videos", canSendVideoNotes: "send_roundvideos", canSendVoice: "send_voices", canSendPolls: "send_polls", canSendStickers: "send_stickers", canSendAnimations: "send_gifs", canSendGames: "send_games", canSendInlineBotResults: "send_inline", canAddWebPagePreviews: "embed_links", canMakeReactions: "send_reactions", canEditMemberTag: "edit_rank", canChangeInfo: "change_info", canInviteUsers: "invite_users", canPinMessages: "pin_messages", canManageTopics: "manage_topics", canManageLinkedChats: "manage_linked_peers" };
  const ADMIN: Record<string, string> = { isAnonymous: "anonymous", canManageChat: "other", canDeleteMessages: "delete_messages", canManageVideoChats: "manage_call", canRestrictMembers: "ban_users", canPromoteMembers: "add_admins", canChangeInfo: "change_info", canInviteUsers: "invite_users", canPostMessages: "post_messages", canEditMessages: "edit_messages", canPinMessages: "pin_messages", canManageTopics: "manage_topics", canPostStories: "post_stories", canEditStories: "edit_stories", canDeleteStories: "delete_stories", canManageDirectMessages: "manage_direct_messages", canManageTags: "manage_ranks", canManageLinkedChats: "manage_linked_peers" };
  const ACTIONS: Record<string, string[]> = { isRestrict: ["ban", "demote", "kick", "promote", "unban", "unkick"], isDelete: ["delete"], isMemberTag: ["edit_rank"], isEdit: ["edit"], isForum: ["forums"], isVideoChat: ["group_call"], isChatSettings: ["info", "settings"], isInvite: ["invite", "invites"], isJoin: ["join"], isLeave: ["leave"], isPin: ["pinned"], isNewMessage: ["send"] };
  const REASONS: Record<string, string> = { spam: "Spam", violence: "Violence", pornography: "Pornography", childAbuse: "ChildAbuse", other: "Other", copyright: "Copyright", locationIrrelevant: "GeoIrrelevant", fake: "Fake", illegalDrugs: "IllegalDrugs", personalDetails: "PersonalDetails" };
  const KEYS: Record<string, string> = { phoneNumber: "PhoneNumber", bio: "About", birthday: "Birthday", profilePhoto: "ProfilePhoto", forwards: "Forwards", invitation: "ChatInvite", findByPhoneNumber: "AddedByPhone", voiceMessage: "VoiceMessages", paidMessageException: "NoPaidMessages", peerToPeerCall: "PhoneP2P", gifts: "StarGiftsAutoSave", savedMusic: "SavedMusic", phoneCall: "PhoneCall", lastSeen: "StatusTimestamp" };
  const DURATIONS: Record<string, number> = { "10s": 10, "30s": 30, "1m": 60, "5m": 300, "15m": 900, "1h": 3600 };
  const ALL_BANNED = ["view_messages", "send_stickers", "send_gifs", "send_games", "send_inline", "embed_links", "send_polls", "change_info", "invite_users", "pin_messages", "manage_topics", "send_photos", "send_videos", "send_roundvideos", "send_audios", "send_voices", "send_docs", "send_plain"];
  const withFlags = (names: string[], table: Record<string, string | string[]>, on: (v: any) => boolean): [any, any] => {
    const own = flags(...names), fields: any = {};
    for (const [k, v] of Object.entries(own)) if (on(v)) for (const f of [table[k]].flat()) fields[f] = true;
    return [own, fields];
  };
  /** passes the parameters only when there are some, or at random */
  const opt = (o: any): any[] => Object.keys(o).length || r.bool() ? [o] : [];
  const by = (w: any, onChannel: any, onBasic: any) => w.channel ? onChannel : onBasic;
  const ids = () => Array.from({ length: r.int(1, 4) }, next);
  const updates = (list: any[]) => r.bool(0.2) && list.length === 1 ? { _: "updateShort", update: list[0], date: acc.date } : r.bool(0.8) ? { _: "updates", updates: list, ...known(), date: acc.date, seq: 0 } : { _: "updatesCombined", updates: list, ...known(), date: acc.date, seq_start: 0, seq: 0 };

  const on = (who: Entry["who"], make: () => Job): Entry => ({ who, make });
  /** a pair of methods that differ in one switch */
  const E: Record<string, Entry> = {
    // join requests and invite links
    approveJoinRequest: on("any", () => {
      const c = chat(), u = user();
      return { args: [c.id, u.id], want: [{ _: "messages.hideChatJoinRequest", peer: c.input, user_id: u.user, approved: true }] };
    }),
    declineJoinRequest: on("any", () => {
      const c = chat(), u = user();
      return { args: [c.id, u.id], want: [{ _: "messages.hideChatJoinRequest", peer: c.input, user_id: u.user }] };
    }),
    approveJoinRequests: on("user", () => {
      const c = chat(), own = pairs({ inviteLink: maybe(word) });
      return { args: [c.id, ...opt(own)], want: [{ _: "messages.hideAllChatJoinRequests", peer: c.input, approved: true, link: own.inviteLink }] };
    }),
    declineJoinRequests: on("user", () => {
      const c = chat(), own = pairs({ inviteLink: maybe(word) });
      return { args: [c.id, ...opt(own)], want: [{ _: "messages.hideAllChatJoinRequests", peer: c.input, link: own.inviteLink }] };
    }),
    getJoinRequests: on("user", () => {
      const c = where(), u = maybe(user), own = pairs({ inviteLink: maybe(word, 0.4), search: maybe(word, 0.4), fromDate: maybe(() => r.int(1, 1e9)), fromUserId: u?.id, limit: limit() });
      if (own.inviteLink && own.search) return { args: [c.id, own], want: null };
      const n = r.int(0, 2), importers = users.slice(0, n).map((x, i) => ({ _: "chatInviteImporter", requested: true, user_id: x.raw, date: 100 + i, about: "b" + i }));
      return {
        args: [c.id, ...opt(own)],
        want: [{ _: "messages.getChatInviteImporters", requested: true, peer: c.input, link: own.inviteLink, q: own.search, offset_date: own.fromDate ?? 0, offset_user: u?.user ?? { _: "inputUserEmpty" }, limit: limited(own.limit) }],
        reply: { _: "messages.chatInviteImporters", count: n, importers, users: known().users },
        result: (v: any) => same(v.map((x: any) => [x.from?.id, x.bio, x.chat?.id]), importers.map((x) => [Number(x.user_id), x.about, c.id])),
      };
    }),
    createInviteLink: on("any", () => {
      const c = where(), own = pairs({ title: maybe(word), expireAt: maybe(() => r.int(1, 2e9)), limit: maybe(() => r.int(1, 999), 0.4), ...flags("isApprovalRequired") });
      if (own.limit && own.isApprovalRequired) return { args: [c.id, own], want: null };
      const link = "https://t.me/+" + next();
      return {
        args: [c.id, ...opt(own)],
        want: [{ _: "messages.exportChatInvite", peer: c.input, title: own.title, expire_date: own.expireAt, request_needed: own.isApprovalRequired, usage_limit: own.limit }],
        reply: { _: "chatInviteExported", link, admin_id: 77n, date: 5, title: own.title },
        result: (v: any) => v.inviteLink === link && v.title === own.title,
      };
    }),
    getCreatedInviteLinks: on("user", () => {
      const c = where(), u = maybe(anyUser), own = pairs({ ...flags("isRevoked"), by: u?.id, limit: limit(), afterDate: maybe(() => r.int(1, 1e9), 0.4), afterInviteLink: maybe(word, 0.4) });
      if ((own.afterDate === undefined) !== (own.afterInviteLink === undefined)) return { args: [c.id, own], want: null };
      const links = ids().map((n) => ({ _: "chatInviteExported", link: "l" + n, admin_id: 77n, date: 5 }));
      return {
        args: [c.id, ...opt(own)],
        want: [{ _: "messages.getExportedChatInvites", peer: c.input, revoked: own.isRevoked, admin_id: u?.user ?? { _: "inputUserEmpty" }, limit: limited(own.limit), offset_date: own.afterDate, offset_link: own.afterInviteLink }],
        reply: { _: "messages.exportedChatInvites", count: links.length, invites: links, users: known().users },
        result: (v: any) => same(v.map((x: any) => x.inviteLink), links.map((x) => x.link)),
      };
    }),
    deleteRevokedInviteLinks: on("user", () => {
      const c = where(), u = anyUser();
      return { args: [c.id, u.id], want: [{ _: "messages.deleteRevokedExportedChatInvites", peer: c.input, admin_id: u.user }] };
    }),
    // members
    leaveChat: on("any", () => {
      const c = chat();
      return { args: [c.id], want: c.user ? null : [by(c, { _: "channels.leaveChannel", channel: c.channel }, { _: "messages.deleteChatUser", chat_id: GROUP, user_id: { _: "inputUserSelf" } })] };
    }),
    banChatMember: on("any", () => {
      const c = chat(), u = r.bool(0.85) ? user() : channel(), own = pairs({ until: maybe(() => r.int(1e6, 2e9)), deleteMessages: r.pick([undefined, false, c.channel ? undefined : true]) });
      if (c.user || !c.channel && !u.user) return { args: [c.id, u.id, ...opt(own)], want: null };
      return {
        args: [c.id, u.id, ...opt(own)],
        want: [by(c, { _: "channels.editBanned", channel: c.channel, participant: u.input, banned_rights: { _: "chatBannedRights", until_date: own.until ?? 0, ...Object.fromEntries(ALL_BANNED.map((k) => [k, true])) } }, { _: "messages.deleteChatUser", chat_id: GROUP, user_id: u.user, revoke_history: own.deleteMessages })],
      };
    }),
    unbanChatMember: on("any", () => {
      const c = channel(), u = chat();
      return { args: [c.id, u.id], want: [{ _: "channels.editBanned", channel: c.channel, participant: u.input, banned_rights: { _: "chatBannedRights", until_date: 0 } }] };
    }),
    setChatMemberRights: on("any", () => {
      const c = channel(), u = user(), [rights, fields] = withFlags(Object.keys(RIGHTS), RIGHTS, (v) => v === false), own = pairs({ rights: r.bool(0.9) ? rights : undefined, until: maybe(() => r.int(1e6, 2e9)) });
      return { args: [c.id, u.id, ...opt(own)], want: [{ _: "channels.editBanned", channel: c.channel, participant: u.input, banned_rights: { _: "chatBannedRights", until_date: own.until ?? 0, ...(own.rights ? fields : {}) } }] };
    }),
    promoteChatMember: on("any", () => {
      const c = channel(), u = user(), [own, fields] = withFlags(Object.keys(ADMIN), ADMIN, (v) => v);
      const title = maybe(word);
      return { args: [c.id, u.id, ...opt(pairs({ ...own, title }))], want: [{ _: "channels.editAdmin", channel: c.channel, user_id: u.user, admin_rights: { _: "chatAdminRights", ...fields }, rank: title ?? "" }] };
    }),
    setChatMemberTag: on("any", () => {
      const c = where(), u = user(), own = pairs({ tag: maybe(word) });
      return { args: [c.id, u.id, ...opt(own)], want: [{ _: "messages.editChatParticipantRank", peer: c.input, participant: u.input, rank: own.tag ?? "" }] };
    }),
    addChatMember: on("user", () => {
      const c = chat(), u = user(), own = pairs({ historyLimit: maybe(() => r.int(0, 99)) }), missing = r.bool();
      if (c.user) return { args: [c.id, u.id], want: null };
      return {
        args: [c.id, u.id, ...opt(own)],
        want: [by(c, { _: "channels.inviteToChannel", channel: c.channel, users: [u.user] }, { _: "messages.addChatUser", chat_id: GROUP, user_id: u.user, fwd_limit: own.historyLimit ?? 0 })],
        reply: invited(missing ? [{ _: "missingInvitee", user_id: u.raw }] : []),
        result: (v: any) => same(v.map((x: any) => x.userId), missing ? [u.id] : []),
      };
    }),
    addChatMembers: on("user", () => {
      const c = chat(), l = r.shuffle([...users]);
      if (!c.channel) return { args: [c.id, l.map((u) => u.id)], want: null };
      return { args: [c.id, l.map((u) => u.id)], want: [{ _: "channels.inviteToChannel", channel: c.channel, users: l.map((u) => u.user) }], reply: invited([{ _: "missingInvitee", user_id: l[1].raw }]), result: (v: any) => same(v.map((x: any) => x.userId), [l[1].id]) };
    }),
    // settings
    setAvailableReactions: on("user", () => {
      const c = where(), n = next(), some = [{ type: "emoji", emoji: "e" + n }, { type: "custom", id: String(n) }, { type: "paid" }].slice(0, r.int(1, 3)), maxReactionCount = maybe(() => r.int(1, 20));
      const [own, available, paid] = r.pick<[any, any, boolean]>([
        [{ type: "none" }, { _: "chatReactionsNone" }, false],
        [pairs({ type: "all", maxReactionCount }), { _: "chatReactionsAll" }, true],
        [pairs({ type: "some", reactions: some, maxReactionCount }), { _: "chatReactionsSome", reactions: some.map((v) => v.type === "emoji" ? { _: "reactionEmoji", emoticon: v.emoji } : v.type === "custom" ? { _: "reactionCustomEmoji", document_id: BigInt(n) } : { _: "reactionPaid" }) }, some.length === 3],
      ]);
      return { args: [c.id, own], want: [{ _: "messages.setChatAvailableReactions", peer: c.input, available_reactions: available, paid_enabled: paid, reactions_limit: own.maxReactionCount }] };
    }),
    setBoostsRequiredToCircumventRestrictions: on("user", () => {
      const c = channel(), n = r.int(0, 8);
      return { args: [c.id, n], want: [{ _: "channels.setBoostsToUnblockRestrictions", channel: c.channel, boosts: n }] };
    }),
    setChatStickerSet: on("any", () => {
      const c = channel(), n = word();
      return { args: [c.id, n], want: [{ _: "channels.setStickers", channel: c.channel, stickerset: { _: "inputStickerSetShortName", short_name: n } }] };
    }),
    deleteChatStickerSet: on("any", () => {
      const c = channel();
      return { args: [c.id], want: [{ _: "channels.setStickers", channel: c.channel, stickerset: { _: "inputStickerSetEmpty" } }] };
    }),
    setSlowMode: on("user", () => {
      const c = channel(), d = r.pick(Object.keys(DURATIONS));
      return { args: [c.id, d], want: [{ _: "channels.toggleSlowMode", channel: c.channel, seconds: DURATIONS[d] }] };
    }),
    disableSlowMode: on("user", () => {
      const c = channel();
      return { args: [c.id], want: [{ _: "channels.toggleSlowMode", channel: c.channel, seconds: 0 }] };
    }),
    setChatTitle: on("any", () => {
      const c = chat(), n = word();
      return { args: [c.id, n], want: c.user ? null : [by(c, { _: "channels.editTitle", channel: c.channel, title: n }, { _: "messages.editChatTitle", chat_id: GROUP, title: n })] };
    }),
    setChatDescription: on("any", () => {
      const c = chat(), n = r.pick([word(), ""]);
      return { args: [c.id, n], want: c.user ? null : [{ _: "messages.editChatAbout", peer: c.input, about: n }] };
    }),
    enableTopics: on("user", () => {
      const c = channel(), tabs = r.bool();
      return { args: [c.id, tabs], want: [{ _: "channels.toggleForum", channel: c.channel, enabled: true, tabs }] };
    }),
    disableTopics: on("user", () => {
      const c = channel();
      return { args: [c.id], want: [{ _: "channels.toggleForum", channel: c.channel, enabled: false, tabs: false }] };
    }),
    enableSignatures: on("user", () => {
      const c = channel(), own = flags("showAuthorProfile");
      return { args: [c.id, ...opt(own)], want: [{ _: "channels.toggleSignatures", channel: c.channel, signatures_enabled: true, profiles_enabled: own.showAuthorProfile }] };
    }),
    disableSignatures: on("user", () => {
      const c = channel();
      return { args: [c.id], want: [{ _: "channels.toggleSignatures", channel: c.channel }] };
    }),
    deleteChat: on("user", () => {
      const c = chat();
      return { args: [c.id], want: c.user ? null : [by(c, { _: "channels.deleteChannel", channel: c.channel }, { _: "messages.deleteChat", chat_id: GROUP })] };
    }),
    setDiscussionChat: on("user", () => {
      const [a, b] = r.shuffle([...channels]);
      return { args: [a.id, b.id], want: [{ _: "channels.setDiscussionGroup", broadcast: a.channel, group: b.channel }] };
    }),
    deleteChatPhoto: on("any", () => {
      const c = where();
      return { args: [c.id], want: [by(c, { _: "channels.editPhoto", channel: c.channel, photo: { _: "inputChatPhotoEmpty" } }, { _: "messages.editChatPhoto", chat_id: GROUP, photo: { _: "inputChatPhotoEmpty" } })] };
    }),
    setChatPhoto: on("any", () => {
      const c = where(), u = upload(), photo = { _: "inputChatUploadedPhoto", file: u.file };
      return { args: [c.id, u.content, { fileName: u.fileName }], want: [by(c, { _: "channels.editPhoto", channel: c.channel, photo }, { _: "messages.editChatPhoto", chat_id: GROUP, photo })] };
    }),
    getOnlineCount: on("user", () => {
      const c = where(), n = r.int(0, 999);
      return { args: [c.id], want: [{ _: "messages.getOnlines", peer: c.input }], reply: { _: "chatOnlines", onlines: n }, result: (v: any) => v === n };
    }),
    setDefaultSendAs: on("user", () => {
      const c = where(), s = r.pick<any>([self(), channel()]);
      return { args: [c.id, s.id], want: [{ _: "messages.saveDefaultSendAs", peer: c.input, send_as: s.input }] };
    }),
    reportChat: on("user", () => {
      const c = chat(), k = r.pick(Object.keys(REASONS)), own = pairs({ text: maybe(word) });
      return { args: [c.id, { type: k }, ...opt(own)], want: [{ _: "account.reportPeer", peer: c.input, reason: { _: "inputReportReason" + REASONS[k] }, message: own.text ?? "" }] };
    }),
    markChatAsUnread: on("user", () => {
      const c = chat();
      return { args: [c.id], want: [{ _: "messages.markDialogUnread", peer: { _: "inputDialogPeer", peer: c.input }, unread: true }] };
    }),
    markChatAsRead: on("user", () => {
      const c = chat();
      return { args: [c.id], want: [{ _: "messages.markDialogUnread", peer: { _: "inputDialogPeer", peer: c.input } }] };
    }),
    markAllMentionsAsRead: on("user", () => {
      const c = chat(), own = pairs({ topicId: maybe(next) });
      return { args: [c.id, ...opt(own)], want: [{ _: "messages.readMentions", peer: c.input, top_msg_id: own.topicId }], reply: { _: "messages.affectedHistory", pts: acc.pts, pts_count: 0, offset: 0 } };
    }),
    getAdministeredChats: on("user", () => {
      const own = flags("isForPersonalChannel");
      return { args: opt(own), want: [{ _: "channels.getAdminedPublicChannels", for_personal: own.isForPersonalChannel }], reply: { _: "messages.chats", chats: [acc.chat(SECOND), acc.chat(CHANNEL)] }, result: (v: any) => same(v.map((x: any) => x.id), [channels[1].id, channels[0].id]) };
    }),
    getRecentActions: on("user", () => {
      const c = channel(), [own, fields] = withFlags(Object.keys(ACTIONS), ACTIONS, (v) => v), l = maybe(() => r.shuffle([...users]).slice(0, r.int(1, 2))), extra = pairs({ limit: limit(), offsetId: maybe(() => String(big())), admins: l?.map((u) => u.id) });
      return { args: [c.id, ...opt({ ...own, ...extra })], want: [{ _: "channels.getAdminLog", channel: c.channel, q: "", min_id: 0n, max_id: BigInt(extra.offsetId ?? 0), limit: limited(extra.limit), admins: l?.map((u) => u.user), events_filter: { _: "channelAdminLogEventsFilter", ...fields } }], reply: { _: "channels.adminLogResults", events: [], chats: [], users: [] }, result: (v: any) => v.length === 0 };
    }),
    boostChat: on("user", () => {
      const c = where(), own = pairs({ slots: maybe(ids) });
      return { args: [c.id, ...opt(own)], want: [{ _: "premium.applyBoost", peer: c.input, slots: own.slots }], reply: { _: "premium.myBoosts", my_boosts: [], chats: [], users: [] } };
    }),
    resolveInviteLink: on("user", () => {
      const h = "h" + next(), form = r.pick([h, "https://t.me/+" + h, "https://t.me/joinchat/" + h, "tg+x://t/" + h].slice(0, 3));
      return { args: [form], want: [{ _: "messages.checkChatInvite", hash: h }], reply: { _: "chatInviteAlready", chat: acc.chat(CHANNEL) }, result: (v: any) => v.id === channels[0].id };
    }),
    setNotificationSettings: on("user", () => {
      const c = chat(), s = maybe(sound), s2 = maybe(sound), own = pairs({ ...flags("showsPreviews", "isSilent", "mutesStories", "hidesStories"), muteUntil: maybe(() => r.int(0, 2e9)), sound: s?.[0], storySound: s2?.[0] });
      return { args: [c.id, { settings: own }], want: [{ _: "account.updateNotifySettings", peer: { _: "inputNotifyPeer", peer: c.input }, settings: { _: "inputPeerNotifySettings", show_previews: own.showsPreviews, silent: own.isSilent, mute_until: own.muteUntil, sound: s?.[1], stories_muted: own.mutesStories, stories_hide_sender: own.hidesStories, stories_sound: s2?.[1] } }] };
    }),
    getNotificationSettings: on("user", () => {
      const c = chat(), n = next();
      return { args: [c.id], want: [{ _: "account.getNotifySettings", peer: { _: "inputNotifyPeer", peer: c.input } }], reply: { _: "peerNotifySettings", mute_until: n, android_sound: { _: "notificationSoundRingtone", id: BigInt(n) } }, result: (v: any) => v.muteUntil === n && same(v.androidSound, { type: "ringtone", id: String(n) }) };
    }),
    // topics
    createTopic: on("any", () => {
      const c = channel(), title = word(), s = maybe(channel), given = r.pick([title, ` ${title}  `, "  "]), own = pairs({ color: maybe(() => r.int(1, 0xffffff)), customEmojiId: maybe(() => String(big())), sendAs: s?.id });
      if (!given.trim() || bot && s) return { args: [c.id, given, own], want: null };
      const m = topicMessage(c, { _: "messageActionTopicCreate", title, icon_color: 77, icon_emoji_id: undefined });
      return { args: [c.id, given, ...opt(own)], want: [{ _: "messages.createForumTopic", peer: c.input, title, icon_color: own.color, icon_emoji_id: own.customEmojiId && BigInt(own.customEmojiId), send_as: s?.input, random_id: "random" }], reply: m.reply, result: (v: any) => v.id === m.id && v.name === title && v.color === 77 };
    }),
    editTopic: on("any", () => {
      const c = channel(), title = word(), id = r.pick([next(), next(), next(), 0, 1, -1, 2.5]), own = pairs({ customEmojiId: maybe(() => String(big())) });
      if (id < 2 || id % 1) return { args: [c.id, id, title, own], want: null };
      const m = topicMessage(c, { _: "messageActionTopicEdit", title }, id);
      return { args: [c.id, id, title, ...opt(own)], want: [{ _: "messages.editForumTopic", peer: c.input, topic_id: id, title, icon_emoji_id: own.customEmojiId && BigInt(own.customEmojiId) }], reply: m.reply, result: (v: any) => v.id === id && v.name === title && v.color === 77 && v.creator.id === Number(OTHER) };
    }),
    deleteTopic: on("any", () => {
      const c = channel(), id = r.pick([next(), next(), 1, 0, 2.5]);
      return { args: [c.id, id], want: id < 2 || id % 1 ? null : [{ _: "messages.deleteTopicHistory", peer: c.input, top_msg_id: id }], reply: { _: "messages.affectedHistory", pts: acc.channel(-BigInt(c.id) - 1000000000000n).pts, pts_count: 0, offset: 0 } };
    }),
    getTopics: on("user", () => {
      const c = channel(), own = pairs({ offsetId: maybe(next), offsetDate: maybe(next), offsetTopicId: maybe(next), limit: limit() });
      return { args: [c.id, ...opt(own)], want: [{ _: "messages.getForumTopics", peer: c.input, offset_id: own.offsetId ?? 0, offset_date: own.offsetDate ?? 0, offset_topic: own.offsetTopicId ?? 0, limit: limited(own.limit) }], reply: { _: "messages.forumTopics", count: 0, topics: [], messages: [], chats: [], users: [], pts: 1 }, result: (v: any) => v.items.length === 0 };
    }),
    getTopicsById: on("user", () => {
      const c = channel(), l = ids();
      return { args: [c.id, l], want: [{ _: "messages.getForumTopicsByID", peer: c.input, topics: l }], reply: { _: "messages.forumTopics", count: 0, topics: [], messages: [], chats: [], users: [], pts: 1 }, result: (v: any) => v.items.length === 0 };
    }),
    // stories
    createStory: on("user", () => {
      const c = r.pick<any>([self(), ...channels]), [x, media] = content(), cap = maybe(text), [priv, rules] = r.bool(0.7) ? privacy() : [undefined, [{ _: "inputPrivacyValueAllowAll" }]], [list, media_areas] = areas(), from = maybe(chat, 0.3), id = next();
      const own = pairs({ ...x.own, caption: cap?.text, ...(cap ? inParams(cap, "parseMode", "captionEntities") : {}), privacy: priv, interactiveAreas: list, ...flags("isContentProtected", "highlight"), activeFor: maybe(() => r.pick([21600, 43200, 86400])), albumIds: maybe(ids, 0.3), forwardedFromChatId: from?.id, forwardedFromStoryId: r.bool(0.9) ? from && next() : maybe(next), ...from ? flags("isRepostedStoryModified") : {} });
      if ((own.forwardedFromChatId === undefined) !== (own.forwardedFromStoryId === undefined)) return { args: [c.id, x.content, own], want: null };
      return {
        args: [c.id, x.content, ...opt(own)],
        want: [{ _: "stories.sendStory", peer: c.input, random_id: "random", media, privacy_rules: rules, caption: cap?.plain, entities: cap?.ents, noforwards: own.isContentProtected, period: own.activeFor, pinned: own.highlight, media_areas, albums: own.albumIds, fwd_from_id: from?.input, fwd_from_story: own.forwardedFromStoryId, fwd_modified: own.isRepostedStoryModified }],
        reply: updates([{ _: "updateStory", peer: c.peer, story: storyItem(id, cap?.plain) }]),
        result: (v: any) => v.id === id && v.caption === cap?.plain,
      };
    }),
    editStory: on("user", () => {
      const c = r.pick<any>([self(), ...channels]), m = maybe(content), cap = maybe(text), pr = maybe(privacy), [list, media_areas] = areas(), id = r.pick([next(), next(), 0, -1, 1.5]);
      const own = pairs({ ...m?.[0].own, content: m?.[0].content, caption: cap?.text, ...(cap ? inParams(cap, "parseMode", "captionEntities") : {}), privacy: pr?.[0], interactiveAreas: list });
      if (id < 1 || id % 1) return { args: [c.id, id, own], want: null };
      return { args: [c.id, id, ...opt(own)], want: [{ _: "stories.editStory", peer: c.input, id, media: m?.[1], privacy_rules: pr?.[1], caption: cap?.plain, entities: cap?.ents, media_areas: list && media_areas }], reply: updates([{ _: "updateStory", peer: c.peer, story: storyItem(id, cap?.plain) }]), result: (v: any) => v.id === id };
    }),
    getStories: on("user", () => {
      const c = chat(), l = ids(), back = l.filter(() => r.bool(0.7));
      return { args: [c.id, l], want: [{ _: "stories.getStoriesByID", peer: c.input, id: l }], reply: { _: "stories.stories", count: back.length, stories: back.map((n) => storyItem(n)), ...known() }, result: (v: any) => same(v.map((x: any) => [x.id, x.chat?.id]), back.map((n) => [n, c.id])) };
    }),
    getStory: on("user", () => {
      const c = chat(), id = next(), found = r.bool();
      return { args: [c.id, id], want: [{ _: "stories.getStoriesByID", peer: c.input, id: [id] }], reply: { _: "stories.stories", count: 0, stories: found ? [storyItem(id)] : [], ...known() }, result: (v: any) => found ? v?.id === id : v === null };
    }),
    deleteStories: on("user", () => {
      const c = chat(), l = r.bool(0.8) ? ids() : [next(), 0];
      return { args: [c.id, l], want: l.includes(0) ? null : [{ _: "stories.deleteStories", peer: c.input, id: l }], reply: l };
    }),
    reportStories: on("user", () => {
      const c = chat(), l = ids(), o = r.bytes(r.int(1, 5)), own = pairs({ text: maybe(word), option: maybe(() => btoa(String.fromCharCode(...o)).replace(/\+/g, "-").replace(/\//g, "_").replace(/=+$/, "")) });
      return { args: [c.id, l, ...opt(own)], want: [{ _: "stories.report", peer: c.input, id: l, message: own.text ?? "", option: own.option ? o : new Uint8Array() }], reply: { _: "reportResultReported" } };
    }),
    // story albums
    createStoryAlbum: album((c, l, n) => [[c.id, n, l], { _: "stories.createAlbum", title: n, stories: l }]),
    setStoryAlbumName: album((c, _, n, a) => [[c.id, a, n], { _: "stories.updateAlbum", album_id: a, title: n }]),
    addStoriesToAlbum: album((c, l, _, a) => [[c.id, a, l], { _: "stories.updateAlbum", album_id: a, add_stories: l }]),
    addStoryToAlbum: album((c, l, _, a) => [[c.id, a, l[0]], { _: "stories.updateAlbum", album_id: a, add_stories: [l[0]] }]),
    removeStoriesFromAlbum: album((c, l, _, a) => [[c.id, a, l], { _: "stories.updateAlbum", album_id: a, delete_stories: l }]),
    removeStoryFromAlbum: album((c, l, _, a) => [[c.id, a, l[0]], { _: "stories.updateAlbum", album_id: a, delete_stories: [l[0]] }]),
    reorderStoriesInAlbum: album((c, l, _, a) => [[c.id, a, l], { _: "stories.updateAlbum", album_id: a, order: l }]),
    reorderStoryAlbums: on("user", () => {
      const c = chat(), l = ids();
      return { args: [c.id, l], want: [{ _: "stories.reorderAlbums", peer: c.input, order: l }] };
    }),
    deleteStoryAlbum: on("user", () => {
      const c = chat(), n = next();
      return { args: [c.id, n], want: [{ _: "stories.deleteAlbum", peer: c.input, album_id: n }] };
    }),
    getStoriesInAlbum: on("user", () => {
      const c = chat(), n = next(), own = pairs({ offset: maybe(next), limit: limit() }), l = ids();
      return { args: [c.id, n, ...opt(own)], want: [{ _: "stories.getAlbumStories", peer: c.input, album_id: n, offset: own.offset ?? 0, limit: limited(own.limit) }], reply: { _: "stories.stories", count: 9, stories: l.map((i) => storyItem(i)), ...known() } };
    }),
    // contacts
    addContact: on("user", () => {
      const u = user(), note = maybe(text), own = pairs({ lastName: maybe(word), phoneNumber: maybe(word), ...flags("isPhoneNumberShared"), note: note?.text, ...(note ? inParams(note, "noteParseMode", "noteEntities") : {}) }), n = word();
      return { args: [u.id, n, ...opt(own)], want: [{ _: "contacts.addContact", id: u.user, first_name: n, last_name: own.lastName ?? "", phone: own.phoneNumber ?? "", add_phone_privacy_exception: own.isPhoneNumberShared, note: note && formatted(note) }] };
    }),
    setContactNote: on("user", () => {
      const u = user(), note = maybe(text), own = pairs({ note: note?.text, ...(note ? inParams(note, "noteParseMode", "noteEntities") : {}) });
      return { args: [u.id, ...opt(own)], want: [{ _: "contacts.updateContactNote", id: u.user, note: note ? formatted(note) : { _: "textWithEntities", text: "", entities: [] } }] };
    }),
    deleteContacts: on("user", () => {
      const l = r.shuffle([...users]).slice(0, r.int(1, 2));
      return { args: [l.map((u) => u.id)], want: [{ _: "contacts.deleteContacts", id: l.map((u) => u.user) }] };
    }),
    deleteContact: on("user", () => {
      const u = user();
      return { args: [u.id], want: [{ _: "contacts.deleteContacts", id: [u.user] }] };
    }),
    getContacts: on("user", () => ({ args: [], want: [{ _: "contacts.getContacts", hash: 0n }], reply: { _: "contacts.contacts", contacts: [], saved_count: 0, users: [acc.user(OTHER), acc.user(USER)] }, result: (v: any) => same(v.map((x: any) => x.id), [Number(OTHER), Number(USER)]) })),
    setCloseFriends: on("user", () => {
      const l = r.shuffle([...users]).slice(0, r.int(0, 2));
      return { args: [l.map((u) => u.id)], want: [{ _: "contacts.editCloseFriends", id: l.map((u) => u.raw) }] };
    }),
    // profile
    checkUsername: on("user", () => {
      const c = maybe(channel), n = word(), v = r.bool();
      return { args: [n, ...opt(pairs({ chatId: c?.id }))], want: [c ? { _: "channels.checkUsername", channel: c.channel, username: n } : { _: "account.checkUsername", username: n }], reply: v, result: (x: any) => x === v };
    }),
    showUsername: on("user", () => toggleUsername(true)),
    hideUsername: on("user", () => toggleUsername(false)),
    reorderUsernames: on("user", () => {
      const c = r.pick<any>([self(), ...channels, ...users]), order = [word(), word()];
      return { args: [c.id, order], want: [c.channel ? { _: "channels.reorderUsernames", channel: c.channel, order } : c.raw === 77n ? { _: "account.reorderUsernames", order } : { _: "bots.reorderUsernames", bot: c.user, order }], result: (v: any) => v === true };
    }),
    hideUsernames: on("user", () => {
      const c = chat();
      return { args: [c.id], want: c.channel ? [{ _: "channels.deactivateAllUsernames", channel: c.channel }] : null };
    }),
    setUsername: on("user", () => {
      const n = word();
      return { args: [n], want: [{ _: "account.updateUsername", username: n }], reply: acc.user(77n) };
    }),
    removeUsername: on("user", () => ({ args: [], want: [{ _: "account.updateUsername", username: "" }], reply: acc.user(77n) })),
    setIsOnline: on("user", () => {
      const v = r.bool();
      return { args: [v], want: [{ _: "account.updateStatus", offline: !v }] };
    }),
    setEmojiStatus: on("user", () => {
      const [s, own, want] = status();
      return { args: [s, ...opt(own)], want: [{ _: "account.updateEmojiStatus", emoji_status: want }] };
    }),
    removeEmojiStatus: on("user", () => ({ args: [], want: [{ _: "account.updateEmojiStatus", emoji_status: { _: "emojiStatusEmpty" } }] })),
    setChannelEmojiStatus: on("user", () => {
      const [s, own, want] = status(), c = channel();
      return { args: [c.id, s, ...opt(own)], want: [{ _: "channels.updateEmojiStatus", channel: c.channel, emoji_status: want }] };
    }),
    removeChannelEmojiStatus: on("user", () => {
      const c = channel();
      return { args: [c.id], want: [{ _: "channels.updateEmojiStatus", channel: c.channel, emoji_status: { _: "emojiStatusEmpty" } }] };
    }),
    setUserEmojiStatus: on("bot", () => {
      const [s, own, want] = status(), u = user();
      return { args: [u.id, s, ...opt(own)], want: [{ _: "bots.updateUserEmojiStatus", user_id: u.user, emoji_status: want }] };
    }),
    removeUserEmojiStatus: on("bot", () => {
      const u = user();
      return { args: [u.id], want: [{ _: "bots.updateUserEmojiStatus", user_id: u.user, emoji_status: { _: "emojiStatusEmpty" } }] };
    }),
    updateProfile: on("user", () => {
      const own = pairs({ firstName: maybe(word), lastName: maybe(() => r.pick([word(), ""])), bio: maybe(() => r.pick([word() + " z", ""])) }), spaced = Object.fromEntries(Object.entries(own).map(([k, v]) => [k, r.bool(0.3) ? ` ${v} ` : v]));
      return { args: [spaced], want: Object.keys(own).length ? [{ _: "account.updateProfile", first_name: own.firstName, last_name: own.lastName, about: own.bio }] : null, reply: acc.user(77n) };
    }),
    setBirthday: on("user", () => {
      const b = maybe(() => pairs({ day: r.int(1, 28), month: r.int(1, 12), year: maybe(() => r.int(1900, 2020)) }), 0.8);
      return { args: opt(pairs({ birthday: b })), want: [{ _: "account.updateBirthday", birthday: b && { _: "birthday", ...b } }] };
    }),
    suggestBirthday: on("user", () => {
      const b = pairs({ day: r.int(1, 28), month: r.int(1, 12), year: maybe(() => r.int(1900, 2020)) }), u = user();
      return { args: [u.id, b], want: [{ _: "users.suggestBirthday", id: u.user, birthday: { _: "birthday", ...b } }] };
    }),
    setPersonalChannel: on("user", () => {
      const c = maybe(channel);
      return { args: opt(pairs({ chatId: c?.id })), want: [{ _: "account.updatePersonalChannel", channel: c?.channel ?? { _: "inputChannelEmpty" } }] };
    }),
    setNameColor: on("user", () => colored(false)),
    setProfileColor: on("user", () => colored(true)),
    setLocation: on("user", () => {
      const geo = r.bool(), own = pairs({ address: maybe(() => r.pick([word(), word(), "x".repeat(96), "x".repeat(97), "  "])), latitude: geo ? r.int(-90, 90) : undefined, longitude: geo ? r.int(-180, 180) : undefined });
      if (own.address !== undefined && (!own.address.trim() || own.address.length > 96)) return { args: [own], want: null };
      return { args: opt(own), want: [{ _: "account.updateBusinessLocation", address: own.address, geo_point: geo ? { _: "inputGeoPoint", lat: own.latitude, long: own.longitude } : undefined }] };
    }),
    setBusinessAwayMessage: on("user", () => {
      const n = next(), [rec, want] = recipients(), a = r.int(1, 1e9), own = flags("isOfflineOnly");
      const [s, schedule] = r.pick<[any, any]>([[{ type: "always" }, { _: "businessAwayMessageScheduleAlways" }], [{ type: "outsideWorkingHours" }, { _: "businessAwayMessageScheduleOutsideWorkHours" }], [{ type: "custom", startsAt: a, endsAt: a + 5 }, { _: "businessAwayMessageScheduleCustom", start_date: a, end_date: a + 5 }]]);
      return { args: [n, s, rec, ...opt(own)], want: [{ _: "account.updateBusinessAwayMessage", message: { _: "inputBusinessAwayMessage", shortcut_id: n, schedule, recipients: want, offline_only: own.isOfflineOnly } }] };
    }),
    removeBusinessAwayMessage: on("user", () => ({ args: [], want: [{ _: "account.updateBusinessAwayMessage" }] })),
    setBusinessGreetingMessage: on("user", () => {
      const n = next(), d = r.int(1, 99), [rec, want] = recipients();
      return { args: [n, rec, d], want: [{ _: "account.updateBusinessGreetingMessage", message: { _: "inputBusinessGreetingMessage", shortcut_id: n, recipients: want, no_activity_days: d } }] };
    }),
    removeBusinessGreetingMessage: on("user", () => ({ args: [], want: [{ _: "account.updateBusinessGreetingMessage" }] })),
    setBusinessIntro: on("user", () => {
      const d = maybe(document), a = word(), b = word(), wrong = d && r.bool(0.2);
      return { args: [a, b, ...opt(pairs({ sticker: d && fileId(wrong ? FileType.Video : FileType.Sticker, d) }))], want: wrong ? null : [{ _: "account.updateBusinessIntro", intro: { _: "inputBusinessIntro", title: a, description: b, sticker: d && { _: "inputDocument", ...d } } }] };
    }),
    removeBusinessIntro: on("user", () => ({ args: [], want: [{ _: "account.updateBusinessIntro" }] })),
    addBotToAttachmentsMenu: on("user", () => {
      const u = user(), own = flags("isWriteAllowed");
      return { args: [u.id, ...opt(own)], want: [{ _: "messages.toggleBotInAttachMenu", bot: u.user, write_allowed: own.isWriteAllowed, enabled: true }] };
    }),
    removeBotFromAttachmentsMenu: on("user", () => {
      const u = user();
      return { args: [u.id], want: [{ _: "messages.toggleBotInAttachMenu", bot: u.user, enabled: false }] };
    }),
    updateProfilePhoto: on("any", () => {
      const x = upload(), u = bot ? undefined : maybe(user), own = pairs({ fileName: x.fileName, botId: u?.id, ...(bot ? {} : flags("isPublic")) });
      return { args: [x.content, own], want: [{ _: "photos.uploadProfilePhoto", fallback: own.isPublic, file: x.file, bot: u?.user }], reply: { _: "photos.photo", photo: { _: "photoEmpty", id: 4n }, users: [] } };
    }),
    removeProfilePhoto: on("any", () => {
      const u = maybe(user);
      return { args: opt(pairs({ botId: u?.id })), want: bot && u ? null : [{ _: "photos.updateProfilePhoto", id: { _: "inputPhotoEmpty" }, bot: u?.user }], reply: { _: "photos.photo", photo: { _: "photoEmpty", id: 4n }, users: [] } };
    }),
    getProfilePhotos: on("any", () => {
      const u = anyUser(), own = pairs({ offset: maybe(next), limit: limit() });
      return { args: [u.id, ...opt(own)], want: [{ _: "photos.getUserPhotos", user_id: u.user, offset: own.offset ?? 0, limit: limited(own.limit), max_id: 0n }], reply: { _: "photos.photos", photos: [], users: [] } };
    }),
    removeAuthorizationSession: on("user", () => {
      const n = big();
      return { args: [String(n)], want: [{ _: "account.resetAuthorization", hash: n }] };
    }),
    disconnectConnectedWebsite: on("user", () => {
      const n = big();
      return { args: [String(n)], want: [{ _: "account.resetWebAuthorization", hash: n }] };
    }),
    disconnectConnectedWebsites: on("user", () => ({ args: [], want: [{ _: "account.resetWebAuthorizations" }] })),
    getAccountTtl: on("user", () => {
      const n = next();
      return { args: [], want: [{ _: "account.getAccountTTL" }], reply: { _: "accountDaysTTL", days: n }, result: (v: any) => v === n };
    }),
    setAccountTtl: on("user", () => {
      const n = next();
      return { args: [n], want: [{ _: "account.setAccountTTL", ttl: { _: "accountDaysTTL", days: n } }] };
    }),
    setDefaultMessageTtl: on("user", () => {
      const n = next();
      return { args: [n], want: [{ _: "messages.setDefaultHistoryTTL", period: n }] };
    }),
    allowUnpaidMessagesFromUser: on("user", () => {
      const u = user(), c = maybe(where), own = pairs({ parentChatId: c?.id, ...flags("isRefunded") });
      return { args: [u.id, ...opt(own)], want: [{ _: "account.toggleNoPaidMessagesException", user_id: u.user, parent_peer: c?.input, refund_charged: own.isRefunded }] };
    }),
    disallowUnpaidMessagesFromUser: on("user", () => {
      const u = user(), c = maybe(where), own = pairs({ parentChatId: c?.id });
      return { args: [u.id, ...opt(own)], want: [{ _: "account.toggleNoPaidMessagesException", user_id: u.user, parent_peer: c?.input, require_payment: true }] };
    }),
    getPrivacySetting: on("user", () => {
      const k = r.pick(Object.keys(KEYS));
      return { args: [k], want: [{ _: "account.getPrivacy", key: { _: "inputPrivacyKey" + KEYS[k] } }], reply: { _: "account.privacyRules", rules: [{ _: "privacyValueAllowAll" }], ...known() }, result: (v: any) => v.length === 1 && v[0].type === "everybody" && v[0].isAllowed === true };
    }),
    setPrivacySetting: on("user", () => {
      const k = r.pick(Object.keys(KEYS)), isAllowed = r.bool(), a = isAllowed ? "Allow" : "Disallow", u = user(), c = channel();
      const rules = r.shuffle<[any, any]>([
        [{ type: "contacts", isAllowed }, { _: `inputPrivacyValue${a}Contacts` }],
        [{ type: "everybody", isAllowed }, { _: `inputPrivacyValue${a}All` }],
        [{ type: "bots", isAllowed }, { _: `inputPrivacyValue${a}Bots` }],
        [{ type: "users", usersId: [u.id], isAllowed }, { _: `inputPrivacyValue${a}Users`, users: [u.user] }],
        [{ type: "chatMembers", chatIds: [c.id, basic.id], isAllowed }, { _: `inputPrivacyValue${a}ChatParticipants`, chats: [c.peer.channel_id, GROUP] }],
        [{ type: "closeFriends" }, { _: "inputPrivacyValueAllowCloseFriends" }],
        [{ type: "premium" }, { _: "inputPrivacyValueAllowPremium" }],
      ]).slice(0, r.int(1, 4));
      return { args: [k, rules.map((v) => v[0])], want: [{ _: "account.setPrivacy", key: { _: "inputPrivacyKey" + KEYS[k] }, rules: rules.map((v) => v[1]) }], reply: { _: "account.privacyRules", rules: [{ _: "privacyValueDisallowContacts" }], ...known() }, result: (v: any) => v.length === 1 && v[0].type === "contacts" && v[0].isAllowed === false };
    }),
    setReadDatePrivacy: on("user", () => globals((v) => [[v], { hide_read_marks: !v }])),
    setArchiveAndMuteNewChatsFromUnknownUsers: on("user", () => globals((v) => [[v], { archive_and_mute_new_noncontact_peers: v }])),
    setNewChatPrivacy: on("user", () =>
      globals((v) => {
        const price = r.pick([0, 5, 1000000, 1000001, -3, r.int(1, 999)]), n = Math.max(0, Math.min(1000000, price));
        return [[{ isNewChatFromNonPremiumUsersAllowed: v, messagePrice: price }], { new_noncontact_peers_require_premium: !v, noncontact_peers_paid_stars: n ? BigInt(n) : undefined }];
      })),
    setGiftPrivacy: on("user", () =>
      globals((v) => {
        const own: any = flags("isRegularGiftAccepted", "isLimitedGiftAccepted", "isUpgradedGiftAccepted", "isGiftFromChannelAccepted", "isPremiumGiftAccepted");
        return [[{ ...own, isGiftButtonDisplayed: v }], { display_gifts_button: v, disallowed_gifts: { _: "disallowedGiftsSettings", disallow_unlimited_stargifts: own.isRegularGiftAccepted === false, disallow_limited_stargifts: own.isLimitedGiftAccepted === false, disallow_unique_stargifts: own.isUpgradedGiftAccepted === false, disallow_stargifts_from_channels: own.isGiftFromChannelAccepted === false, disallow_premium_gifts: own.isPremiumGiftAccepted === false } }];
      })),
    getReadDatePrivacy: on("user", () => {
      const v = r.bool();
      return { args: [], want: [{ _: "account.getGlobalPrivacySettings" }], reply: { _: "globalPrivacySettings", hide_read_marks: v || undefined }, result: (x: any) => x === !v };
    }),
    getNewChatPrivacy: on("user", () => {
      const v = r.bool(), n = r.int(0, 9);
      return { args: [], want: [{ _: "account.getGlobalPrivacySettings" }], reply: { _: "globalPrivacySettings", new_noncontact_peers_require_premium: v || undefined, noncontact_peers_paid_stars: n ? BigInt(n) : undefined }, result: (x: any) => x.isNewChatFromNonPremiumUsersAllowed === !v && x.messagePrice === n };
    }),
    addSavedNotificationSound: on("user", () => {
      const d = document(), x = upload();
      if (r.bool()) return { args: [fileId(FileType.Ringtone, d)], want: [{ _: "account.saveRingtone", id: { _: "inputDocument", ...d }, unsave: false }], reply: { _: "account.savedRingtone" } };
      return { args: [x.content, { fileName: "a.mp3" }], want: [{ _: "account.uploadRingtone", file: { ...x.file, name: "a.mp3" }, file_name: "a.mp3", mime_type: "audio/mpeg" }, { _: "account.saveRingtone", id: { _: "inputDocument", ...d }, unsave: false }], before: { "account.uploadRingtone": { _: "document", ...d, date: 5, mime_type: "audio/mpeg", size: 9n, dc_id: 2, attributes: [] } }, reply: { _: "account.savedRingtone" } };
    }),
    removeSavedNotificationSound: on("user", () => {
      const d = document(), ok = r.bool(0.8);
      return { args: [fileId(ok ? FileType.Ringtone : FileType.Audio, d)], want: ok ? [{ _: "account.saveRingtone", id: { _: "inputDocument", ...d }, unsave: true }] : null, reply: { _: "account.savedRingtone" } };
    }),
    addMusicToProfile: on("user", () => {
      const d = document(), e = maybe(document), ok = r.bool(0.8);
      return { args: [fileId(ok ? FileType.Audio : FileType.Video, d), ...opt(pairs({ afterFileId: e && fileId(FileType.Audio, e) }))], want: ok ? [{ _: "account.saveMusic", id: { _: "inputDocument", ...d }, after_id: e && { _: "inputDocument", ...e } }] : null };
    }),
    removeMusicFromProfile: on("user", () => {
      const d = document();
      return { args: [fileId(FileType.Audio, d)], want: [{ _: "account.saveMusic", id: { _: "inputDocument", ...d }, unsave: true }] };
    }),
    getProfileMusic: on("user", () => {
      const u = anyUser(), own = pairs({ offset: maybe(next), limit: limit() });
      return { args: [u.id, ...opt(own)], want: [{ _: "users.getSavedMusic", id: u.user, offset: own.offset ?? 0, limit: limited(own.limit), hash: 0n }], reply: { _: "users.savedMusic", count: 0, documents: [] }, result: (v: any) => v.length === 0 };
    }),
    resolveUsername: on("any", () => {
      const n = word(), own = pairs({ referrer: maybe(word) }), c = r.pick<any>([...users, ...channels]);
      return { args: [n, ...opt(own)], want: [{ _: "contacts.resolveUsername", username: n, referer: own.referrer }], reply: { _: "contacts.resolvedPeer", peer: c.peer, ...known() }, result: (v: any) => v.id === c.id };
    }),
    resolvePhoneNumber: on("user", () => {
      const n = word(), c = user();
      return { args: [n], want: [{ _: "contacts.resolvePhone", phone: n }], reply: { _: "contacts.resolvedPeer", peer: c.peer, ...known() }, result: (v: any) => v.id === c.id };
    }),
    getApplicationConfiguration: on("any", () => {
      const n = next();
      return {
        args: [],
        want: [{ _: "help.getAppConfig", hash: 0 }],
        reply: { _: "help.appConfig", hash: 1, config: { _: "jsonObject", value: [{ _: "jsonObjectValue", key: "a", value: { _: "jsonArray", value: [{ _: "jsonNumber", value: n }, { _: "jsonNull" }, { _: "jsonBool", value: false }] } }, { _: "jsonObjectValue", key: "b", value: { _: "jsonString", value: "s" + n } }] } },
        result: (v: any) => JSON.stringify(v) === JSON.stringify({ a: [n, null, false], b: "s" + n }),
      };
    }),
    // bots
    setMyDescription: on("bot", () => myInfo("description", "description")),
    setMyName: on("bot", () => myInfo("name", "name")),
    setMyShortDescription: on("bot", () => myInfo("shortDescription", "about")),
    getMyDescription: on("bot", () => getMyInfo("description")),
    getMyName: on("bot", () => getMyInfo("name")),
    getMyShortDescription: on("bot", () => getMyInfo("about")),
    setMyCommands: on("bot", () => {
      const [s, want] = scope(), l = ids().map((n) => pairs({ command: "c" + n, description: "d" + n, ...flags("isEphemeral") })), own = pairs({ scope: s, languageCode: maybe(() => "l" + next()) });
      return { args: [l, ...opt(own)], want: [{ _: "bots.setBotCommands", scope: want, lang_code: own.languageCode ?? "", commands: l.map((v) => ({ _: "botCommand", command: v.command, description: v.description, ephemeral: v.isEphemeral })) }] };
    }),
    getMyCommands: on("bot", () => {
      const [s, want] = scope(), l = ids(), own = pairs({ scope: s, languageCode: maybe(() => "l" + next()) });
      return { args: opt(own), want: [{ _: "bots.getBotCommands", scope: want, lang_code: own.languageCode ?? "" }], reply: l.map((n) => ({ _: "botCommand", command: "c" + n, description: "d" + n })), result: (v: any) => same(v.map((x: any) => [x.command, x.description]), l.map((n) => ["c" + n, "d" + n])) };
    }),
    deleteMyCommands: on("bot", () => {
      const [s, want] = scope(), own = pairs({ scope: s, languageCode: maybe(() => "l" + next()) });
      return { args: opt(own), want: [{ _: "bots.resetBotCommands", scope: want, lang_code: own.languageCode ?? "" }] };
    }),
    answerPreCheckoutQuery: on("bot", () => {
      const n = r.pick([big(), big(), 0n]), ok = r.bool(), own = pairs({ error: maybe(word) });
      return { args: [String(n), ok, ...opt(own)], want: n && (ok || own.error) ? [{ _: "messages.setBotPrecheckoutResults", query_id: n, success: ok, error: own.error }] : null };
    }),
    refundStarPayment: on("bot", () => {
      const u = user(), n = word();
      return { args: [u.id, n], want: [{ _: "payments.refundStarsCharge", user_id: u.user, charge_id: n }] };
    }),
    sendCustomRequest: on("bot", () => {
      const a = word(), b = word(), c = word();
      return { args: [a, b], want: [{ _: "bots.sendCustomRequest", custom_method: a, params: { _: "dataJSON", data: b } }], reply: { _: "dataJSON", data: c }, result: (v: any) => v === c };
    }),
    getStarTransactions: on("any", () => transactions(false)),
    getTonTransactions: on("any", () => transactions(true)),
    getManagedBotToken: on("bot", () => token(false)),
    revokeManagedBotToken: on("bot", () => token(true)),
    setManagedBotAccessSettings: on("bot", () => {
      const u = user(), v = r.bool(), l = maybe(() => r.shuffle([...users]).slice(0, r.int(1, 2)));
      return { args: [u.id, v, ...opt(pairs({ usersWithAccess: l?.map((x) => x.id) }))], want: [{ _: "bots.editAccessSettings", bot: u.user, restricted: v, add_users: l?.map((x) => x.user) }] };
    }),
    // gift collections
    createGiftCollection: collection((c, _, n, l) => [[c.id, n, l.map((v) => v[0])], { _: "payments.createStarGiftCollection", title: n, stargift: l.map((v) => v[1]) }]),
    setGiftCollectionName: collection((c, a, n) => [[c.id, a, n], { _: "payments.updateStarGiftCollection", collection_id: a, title: n }]),
    addGiftsToCollection: collection((c, a, _, l) => [[c.id, a, l.map((v) => v[0])], { _: "payments.updateStarGiftCollection", collection_id: a, add_stargift: l.map((v) => v[1]) }]),
    removeGiftsFromCollection: collection((c, a, _, l) => [[c.id, a, l.map((v) => v[0])], { _: "payments.updateStarGiftCollection", collection_id: a, delete_stargift: l.map((v) => v[1]) }]),
    reorderGiftsInCollection: collection((c, a, _, l) => [[c.id, a, l.map((v) => v[0])], { _: "payments.updateStarGiftCollection", collection_id: a, order: l.map((v) => v[1]) }]),
    reorderGiftCollections: on("user", () => {
      const c = chat(), l = ids();
      return { args: [c.id, l], want: [{ _: "payments.reorderStarGiftCollections", peer: c.input, order: l }] };
    }),
    deleteGiftCollection: on("user", () => {
      const c = chat(), n = next();
      return { args: [c.id, n], want: [{ _: "payments.deleteStarGiftCollection", peer: c.input, collection_id: n }] };
    }),
    // checklists, polls, reactions, takeout
    addToChecklist: on("user", () => {
      const c = chat(), n = next(), l = Array.from({ length: r.int(1, 3) }, text);
      return { args: [c.id, n, l.map((x) => ({ text: x.text, ...inParams(x) }))], want: [{ _: "messages.appendTodoList", peer: c.input, msg_id: n, list: l.map((x) => ({ _: "todoItem", id: 0, title: formatted(x) })) }] };
    }),
    updateChecklist: on("user", () => {
      const c = chat(), n = next(), own = pairs({ itemsToCheck: maybe(ids), itemsToUncheck: maybe(ids) });
      return { args: [c.id, n, own], want: own.itemsToCheck || own.itemsToUncheck ? [{ _: "messages.toggleTodoCompleted", peer: c.input, msg_id: n, completed: own.itemsToCheck, incompleted: own.itemsToUncheck }] : null };
    }),
    checkChecklistItem: on("user", () => {
      const c = chat(), n = next(), i = next();
      return { args: [c.id, n, i], want: [{ _: "messages.toggleTodoCompleted", peer: c.input, msg_id: n, completed: [i] }] };
    }),
    uncheckChecklistItems: on("user", () => {
      const c = chat(), n = next(), l = ids();
      return { args: [c.id, n, l], want: [{ _: "messages.toggleTodoCompleted", peer: c.input, msg_id: n, incompleted: l }] };
    }),
    addPollOption: on("user", () => {
      const c = chat(), n = next(), x = text();
      return { args: [c.id, n, { text: x.text, ...inParams(x) }], want: [{ _: "messages.addPollAnswer", peer: c.input, msg_id: n, answer: { _: "inputPollAnswer", text: formatted(x) } }] };
    }),
    getPollVoters: on("user", () => {
      const c = chat(), n = next(), own = pairs({ optionIndex: maybe(() => r.int(0, 9)), offset: maybe(word), limit: limit() });
      return { args: [c.id, n, ...opt(own)], want: [{ _: "messages.getPollVotes", peer: c.input, id: n, option: own.optionIndex === undefined ? undefined : enc.encode(String(own.optionIndex)), offset: own.offset, limit: limited(own.limit) }], reply: { _: "messages.votesList", count: 0, votes: [], chats: [], users: [] } };
    }),
    reportReaction: on("user", () => {
      const c = where(), n = next(), u = user();
      return { args: [c.id, n, u.id], want: [{ _: "messages.reportReaction", peer: c.input, id: n, reaction_peer: u.input }] };
    }),
    startTakeoutSession: on("user", () => {
      const own = pairs({ ...flags("isExportingContacts", "isExportingPrivateChats", "isExportingGroupChats", "isExportingSupergroupChats", "isExportingChannelChats", "isExportingFiles"), maxFileSize: maybe(next) }), id = big();
      const bad = own.isExportingFiles ? own.maxFileSize === undefined : own.maxFileSize !== undefined;
      return { args: [own], want: bad ? null : [{ _: "account.initTakeoutSession", contacts: own.isExportingContacts, message_users: own.isExportingPrivateChats, message_chats: own.isExportingGroupChats, message_megagroups: own.isExportingSupergroupChats, message_channels: own.isExportingChannelChats, files: own.isExportingFiles, file_max_size: own.maxFileSize && BigInt(own.maxFileSize) }], reply: { _: "account.takeout", id }, result: (v: any) => v === String(id) };
    }),
    endTakeoutSession: on("user", () => {
      const id = big(), own = flags("isFailed");
      return { args: [String(id), ...opt(own)], want: [{ _: "account.finishTakeoutSession", success: !own.isFailed, takeout: id }] };
    }),
    getLeftChannels: on("user", () => {
      const id = big(), own = pairs({ offset: maybe(next) });
      return { args: [String(id), ...opt(own)], want: [{ _: "channels.getLeftChannels", offset: own.offset ?? 0, takeout: id }], reply: { _: "messages.chats", chats: [] } };
    }),
    // sticker sets
    checkStickerSetSlug: on("any", () => slugged((s, v) => [[v], { _: "stickers.checkShortName", short_name: s }])),
    deleteStickerSet: on("any", () => slugged((s, v) => [[v], { _: "stickers.deleteStickerSet", stickerset: { _: "inputStickerSetShortName", short_name: s } }])),
    setStickerSetTitle: on("any", () => slugged((s, v, n) => [[v, n], { _: "stickers.renameStickerSet", stickerset: { _: "inputStickerSetShortName", short_name: s }, title: n }], true)),
    setCustomEmojiAsStickerSetThumbnail: on("any", () => slugged((s, v) => [[v, "77"], { _: "stickers.setStickerSetThumb", stickerset: { _: "inputStickerSetShortName", short_name: s }, thumb_document_id: 77n }], true)),
    addStickerSet: on("user", () => slugged((s, v) => [[v], { _: "messages.installStickerSet", stickerset: { _: "inputStickerSetShortName", short_name: s }, archived: false }], { _: "messages.stickerSetInstallResultSuccess" })),
    archiveStickerSet: on("user", () => slugged((s, v) => [[v], { _: "messages.installStickerSet", stickerset: { _: "inputStickerSetShortName", short_name: s }, archived: true }], { _: "messages.stickerSetInstallResultSuccess" })),
    unarchiveStickerSet: on("user", () => slugged((s, v) => [[v], { _: "messages.installStickerSet", stickerset: { _: "inputStickerSetShortName", short_name: s }, archived: false }], { _: "messages.stickerSetInstallResultSuccess" })),
    removeStickerSet: on("user", () => slugged((s, v) => [[v], { _: "messages.uninstallStickerSet", stickerset: { _: "inputStickerSetShortName", short_name: s } }])),
    removeStickerFromStickerSet: on("any", () => {
      const d = document();
      return { args: [fileId(FileType.Sticker, d)], want: [{ _: "stickers.removeStickerFromSet", sticker: { _: "inputDocument", ...d } }], reply: set() };
    }),
    replaceStickerEmoji: on("any", () => {
      const d = document(), e = word();
      return { args: [fileId(FileType.Sticker, d), e], want: [{ _: "stickers.changeSticker", sticker: { _: "inputDocument", ...d }, emoji: e }], reply: set() };
    }),
    changeStickerPositionInStickerSet: on("any", () => {
      const d = document(), n = next();
      return { args: [fileId(FileType.Sticker, d), n], want: [{ _: "stickers.changeStickerPosition", sticker: { _: "inputDocument", ...d }, position: n }], reply: set() };
    }),
  };
  // pairs of switches on a channel
  const SWITCH: [string, string, any, any, Entry["who"], "channel" | "peer"][] = [
    ["enableJoinRequests", "disableJoinRequests", { _: "channels.toggleJoinRequest", enabled: true }, { _: "channels.toggleJoinRequest", enabled: false }, "user", "channel"],
    ["hideMemberList", "showMemberList", { _: "channels.toggleParticipantsHidden", enabled: true }, { _: "channels.toggleParticipantsHidden", enabled: false }, "user", "channel"],
    ["enableAntispam", "disableAntispam", { _: "channels.toggleAntiSpam", enabled: true }, { _: "channels.toggleAntiSpam", enabled: false }, "user", "channel"],
    ["disableChatHistoryForNewMembers", "enableChatHistoryForNewMembers", { _: "channels.togglePreHistoryHidden", enabled: true }, { _: "channels.togglePreHistoryHidden", enabled: false }, "user", "channel"],
    ["disableSharing", "enableSharing", { _: "messages.toggleNoForwards", enabled: true }, { _: "messages.toggleNoForwards", enabled: false }, "user", "peer"],
    ["hideGeneralTopic", "showGeneralTopic", { _: "messages.editForumTopic", topic_id: 1, hidden: true }, { _: "messages.editForumTopic", topic_id: 1, hidden: false }, "any", "peer"],
    ["pauseBusinessBotConnection", "resumeBusinessBotConnection", { _: "account.toggleConnectedBotPaused", paused: true }, { _: "account.toggleConnectedBotPaused", paused: false }, "user", "peer"],
  ];
  for (const [a, b, wa, wb, who, key] of SWITCH) {
    for (const [name, want] of [[a, wa], [b, wb]]) {
      E[name] = on(who, () => {
        const c = channel();
        return { args: [c.id], want: [{ ...want, ...(key === "channel" ? { channel: c.channel } : { peer: c.input }) }] };
      });
    }
  }
  for (const [name, field, value, call] of [["closeTopic", "closed", true, "messages.editForumTopic"], ["reopenTopic", "closed", false, "messages.editForumTopic"], ["pinTopic", "pinned", true, "messages.updatePinnedForumTopic"], ["unpinTopic", "pinned", false, "messages.updatePinnedForumTopic"]] as const) {
    E[name] = on("any", () => {
      const c = channel(), id = r.pick([next(), 1, 0, 1.5]);
      return { args: [c.id, id], want: id < 1 || id % 1 ? null : [{ _: call, peer: c.input, topic_id: id, [field]: value }] };
    });
  }
  for (const [name, pinned] of [["addStoriesToHighlights", true], ["removeStoriesFromHighlights", false]] as const) {
    E[name] = on("user", () => {
      const c = chat(), l = ids();
      return { args: [c.id, l], want: [{ _: "stories.togglePinned", peer: c.input, id: l, pinned }], reply: l };
    });
  }
  for (const [name, enabled] of [["allowBotToSetCustomEmojiStatus", true], ["disallowBotToSetCustomEmojiStatus", false]] as const) {
    E[name] = on("user", () => {
      const u = user();
      return { args: [u.id], want: [{ _: "bots.toggleUserEmojiStatusPermission", bot: u.user, enabled }] };
    });
  }
  for (const [name, enabled] of [["enableSponsoredMessages", true], ["disableSponsoredMessages", false]] as const) E[name] = on("user", () => ({ args: [], want: [{ _: "account.toggleSponsoredMessages", enabled }] }));

  function topicMessage(c: any, action: any, top?: number) {
    const id = next(), ch = acc.channel(-BigInt(c.id) - 1000000000000n);
    ch.pts++;
    const message = { _: "messageService", out: true, id, from_id: { _: "peerUser", user_id: 77n }, peer_id: c.peer, date: acc.date, action, reply_to: top === undefined ? undefined : { _: "messageReplyHeader", forum_topic: true, reply_to_msg_id: top } };
    const update = { _: "updateNewChannelMessage", message, pts: ch.pts, pts_count: 1 };
    ch.events.push({ box: "h" + c.peer.channel_id, n: ch.pts, count: 1, tag: 0, kind: "message", update, at: 0, users: known().users, chats: known().chats } as any);
    return { id, reply: updates([update]) };
  }
  function album(f: (c: any, l: number[], n: string, a: number) => [any[], any]): Entry {
    return on("user", () => {
      const c = chat(), l = ids(), a = next(), n = word(), [args, want] = f(c, l, n, a);
      return { args, want: [{ peer: c.input, ...want }], reply: { _: "storyAlbum", album_id: a, title: n }, result: (v: any) => v.id === a && (v.name ?? v.title) === n };
    });
  }
  function collection(f: (c: any, a: number, n: string, l: [any, any][]) => [any[], any]): Entry {
    return on("user", () => {
      const c = chat(), a = next(), n = word(), l = Array.from({ length: r.int(1, 3) }, gift), [args, want] = f(c, a, n, l);
      return { args, want: [{ peer: c.input, ...want }], reply: { _: "starGiftCollection", collection_id: a, title: n, gifts_count: 1, hash: 0n }, result: (v: any) => v.id === a && (v.name ?? v.title) === n };
    });
  }
  function toggleUsername(active: boolean): Job {
    const c = r.pick<any>([self(), ...channels, ...users]), n = word();
    return { args: [c.id, n], want: [c.channel ? { _: "channels.toggleUsername", channel: c.channel, username: n, active } : c.raw === 77n ? { _: "account.toggleUsername", username: n, active } : { _: "bots.toggleUsername", bot: c.user, username: n, active }] };
  }
  function colored(for_profile: boolean): Job {
    const color = r.int(0, 20), own = pairs({ customEmojiId: maybe(() => String(big())) });
    return { args: [color, ...opt(own)], want: [{ _: "account.updateColor", for_profile, color: { _: "peerColor", color, background_emoji_id: own.customEmojiId && BigInt(own.customEmojiId) } }] };
  }
  function globals(f: (v: boolean) => [any[], any]): Job {
    const old = { _: "globalPrivacySettings", ...Object.fromEntries(["archive_and_mute_new_noncontact_peers", "keep_archived_unmuted", "keep_archived_folders", "hide_read_marks", "new_noncontact_peers_require_premium", "display_gifts_button"].map((k) => [k, r.bool() || undefined])), noncontact_peers_paid_stars: r.bool() ? 9n : undefined };
    const [args, change] = f(r.bool());
    return { args, want: [{ _: "account.getGlobalPrivacySettings" }, { _: "account.setGlobalPrivacySettings", settings: { ...old, ...change } }], before: { "account.getGlobalPrivacySettings": old }, reply: old };
  }
  function myInfo(key: string, field: string): Job {
    const own = pairs({ [key]: maybe(() => r.pick([word(), ""]), 0.8), languageCode: maybe(word) });
    return { args: opt(own), want: [{ _: "bots.setBotInfo", [field]: own[key], lang_code: own.languageCode ?? "" }] };
  }
  function getMyInfo(field: string): Job {
    const own = pairs({ languageCode: maybe(word) }), reply: any = { _: "bots.botInfo", name: word(), about: word(), description: word() };
    return { args: opt(own), want: [{ _: "bots.getBotInfo", lang_code: own.languageCode ?? "" }], reply, result: (v: any) => v === reply[field] };
  }
  function transactions(ton: boolean): Job {
    const c = r.pick<any>([self(), ...channels]), own = pairs({ offset: maybe(word), limit: limit(), ...flags("isInbound", "isOutbound", "isAscending"), subscriptionId: ton ? undefined : maybe(word) });
    return { args: [c.id, ...opt(own)], want: [{ _: "payments.getStarsTransactions", peer: c.input, ton, offset: own.offset ?? "", limit: limited(own.limit), inbound: own.isInbound, outbound: own.isOutbound, ascending: own.isAscending, subscription_id: own.subscriptionId }], reply: { _: "payments.starsStatus", balance: ton ? { _: "starsTonAmount", amount: 5n } : { _: "starsAmount", amount: 5n, nanos: 0 }, chats: [], users: [] } };
  }
  function token(revoke: boolean): Job {
    const u = user(), n = word();
    return { args: [u.id], want: [{ _: "bots.exportBotToken", bot: u.user, revoke }], reply: { _: "bots.exportedBotToken", token: n }, result: (v: any) => v === n };
  }
  function set(): any {
    return { _: "messages.stickerSet", set: { _: "stickerSet", id: 1n, access_hash: 2n, title: "T", short_name: "s", count: 0, hash: 0 }, packs: [], keywords: [], documents: [] };
  }
  function slugged(f: (slug: string, given: string, n: string) => [any[], any], reply?: any): Job {
    const s = "s" + next(), bad = r.bool(0.15), given = bad ? r.pick(["https://x.test/addstickers/" + s, "https://t.me/addemoji/" + s, "https://t.me/addstickers/", "a/b", "ftp://t.me/addstickers/" + s]) : r.pick([s, "https://t.me/addstickers/" + s, "http://t.me/addstickers/" + s, `https://t.me/addstickers/${s}/`]);
    const [args, want] = f(s, given, word());
    return { args, want: bad ? null : [want], reply: reply === true ? set() : reply };
  }

  // --- the workload
  const names = Object.keys(E), missing: string[] = [];
  const randoms = new Set<bigint>();
  const steps = r.int(25, 60), c: any = p.client;
  for (let step = 0; step < steps; step++) {
    const name = r.pick(names), { who, make } = E[name];
    if (typeof c[name] !== "function") {
      missing.push(name);
      continue;
    }
    const wrong = who !== "any" && (who === "bot") !== bot;
    if (wrong && r.bool(0.7)) continue;
    const now: Job = make(), given = show(now.args);
    if (wrong) now.want = null;
    calls = [], job = now;
    let got: any, err: any;
    try {
      got = await run(c[name](...now.args), 300000, name);
    } catch (e) {
      err = e;
    }
    job = null;
    t.ensure(!errors.length, "harness", errors.join());
    t.count("calls"), t.state("method", name), t.sig(`${name} ${now.args.map((a) => typeof a === "object" && a ? Object.keys(a).sort().join() : typeof a).join(" ")}`);
    if (now.want === null) {
      t.ensure(err !== undefined && !calls.length, `${name}.refused`, () => `${name}(${given}) by ${bot ? "a bot" : "a user"} is not refused before a request: ${show(calls.map((x) => x.call._))}`);
      t.count("refused");
      continue;
    }
    t.ensure(calls.length <= now.want.length || !err, `${name}.calls`, () => `${name}(${given}) makes the calls ${show(calls.map((x) => x.call._))}`);
    t.ensure(err === undefined, `${name}.failed`, () => `${name}(${given}) fails with ${err}`);
    t.ensure(calls.length === now.want.length, `${name}.calls`, () => `${name}(${given}) makes the calls ${show(calls.map((x) => x.call._))}`);
    for (const [i, w] of now.want.entries()) {
      const raw: any = resolved(calls[i].call), g: any = { ...raw, takeout: calls[i].takeout };
      if (w.random_id === "random") {
        t.ensure(!randoms.has(g.random_id), "random-id", `${name} uses the random identifier ${g.random_id} again`);
        randoms.add(g.random_id), delete g.random_id, delete w.random_id;
      }
      // rights that a ban may take away in addition
      if (name === "banChatMember" && g.banned_rights) delete g.banned_rights.edit_rank, delete g.banned_rights.send_reactions, delete g.banned_rights.send_messages, delete g.banned_rights.send_media, delete g.banned_rights.manage_linked_peers;
      const a = norm(g), b = norm(w);
      for (const k of new Set([...Object.keys(a), ...Object.keys(b)])) {
        t.ensure(JSON.stringify(a[k]) === JSON.stringify(b[k]), `${name}.${k}`, () => `${name}(${given}) makes a call with ${k} = ${show(a[k])} instead of ${show(b[k])}`);
      }
    }
    if (now.result) t.ensure(now.result(got), `${name}.result`, () => `${name}(${given}) returns ${show(got)} for ${show(norm(now.reply))}`);
  }
  t.count("clients"), t.count("unavailable", missing.length);
  t.state("workload", `${bot} ${mode} ${steps}`);
  t.sample({ bot, mode: mode ?? "default", steps });
});
await ck.main();
