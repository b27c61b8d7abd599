// deno-lint-ignore-file no-explicit-any
import "../lib/env.ts";
import { Check, hex, show } from "../lib/core.ts";
import { advance, API, run, Site } from "../lib/site.ts";
import * as TL from "../lib/tl.ts";
import { FileType, serializeFileId } from "file:///repo/types/_file_id.ts";

const ck = new Check("C48", {
  level: "exploration",
  rule: "Complete clients send, forward, edit, pin and delete messages with random parameters; the calls that reach the service are decoded by an independent codec and compared field by field with what the parameters stand for, and what the methods return with the messages the service reports. A case is one client with a batch of calls.",
  assumptions: ["The parameters follow their declared types", "The service reports the resulting messages in the result of the call, as the protocol says"],
  quickSeconds: 50,
  thoroughSeconds: 400,
});
const enc = new TextEncoder();
const USER = 5000n, OTHER = 5001n, GROUP = 31n, CHANNEL = 32n;

/** a comparable form: no absent fields, no false flags, no empty lists */
function norm(v: any): any {
  if (v instanceof Uint8Array) return "#" + hex(v);
  if (typeof v === "bigint") return v + "n";
  if (Array.isArray(v)) return v.map(norm);
  if (v && typeof v === "object") {
    const o: any = {};
    for (const k of Object.keys(v).sort()) {
      const x = v[k];
      if (x === undefined || x === null || x === false || Array.isArray(x) && !x.length) continue;
      o[k] = norm(x);
    }
    return o;
  }
  return v;
}
const same = (a: any, b: any) => JSON.stringify(norm(a)) === JSON.stringify(norm(b));

type Method = {
  name: string;
  args: any[];
  /** the parameters of this method only */
  own: any;
  media?: any;
  message?: string;
  entities?: any[];
  /** other fields of the call */
  fields?: any;
  call?: string;
  type: string;
  result: any;
  ephemeral?: boolean;
  markup?: boolean;
  userOnly?: boolean;
  botOnly?: boolean;
};

const document = (id: bigint, attributes: any[]) => ({ _: "document", id, access_hash: id * 3n, file_reference: enc.encode("r" + id), date: 5, mime_type: "video/mp4", size: 99n, dc_id: 2, attributes });
const photo = (id: bigint) => ({ _: "photo", id, access_hash: id * 3n, file_reference: enc.encode("r" + id), date: 5, dc_id: 2, sizes: [{ _: "photoSize", type: "x", w: 9, h: 9, size: 99 }] });
const ATTR: Record<string, any[]> = {
  document: [{ _: "documentAttributeFilename", file_name: "f" }],
  video: [{ _: "documentAttributeVideo", w: 1, h: 1, duration: 1 }],
  videoNote: [{ _: "documentAttributeVideo", round_message: true, w: 1, h: 1, duration: 1 }],
  audio: [{ _: "documentAttributeAudio", duration: 1 }],
  voice: [{ _: "documentAttributeAudio", voice: true, duration: 1 }],
  animation: [{ _: "documentAttributeAnimated" }, { _: "documentAttributeVideo", w: 1, h: 1, duration: 1 }],
  sticker: [{ _: "documentAttributeSticker", alt: "a", stickerset: { _: "inputStickerSetEmpty" } }, { _: "documentAttributeImageSize", w: 9, h: 9 }],
};
const MIME: Record<string, string[]> = { video: ["video/mp4"], videoNote: ["video/mp4"], audio: ["audio/mpeg", "audio/mp4"], voice: ["audio/ogg", "audio/mpeg"], animation: ["image/gif", "video/mp4"], sticker: ["image/webp", "video/webm"], document: ["text/plain", "application/zip"], photo: ["image/jpeg"] };
const TYPES: Record<string, number> = { video: FileType.Video, videoNote: FileType.VideoNote, audio: FileType.Audio, voice: FileType.VoiceNote, animation: FileType.Animation, sticker: FileType.Sticker, document: FileType.Document, photo: FileType.Photo };

ck.part("send", { quick: 260, thorough: 8000, rejections: true }, async (t) => {
  const r = t.rng, site = new Site(t), sv = site.server, bot = r.bool();
  const acc = site.account(77n, bot);
  const mode = r.pick([undefined, null, "HTML"] as const);
  const lat = r.pick([0, 10, 300]);
  sv.latency = () => lat ? r.int(0, lat) : 0;
  acc.user(USER), acc.user(OTHER), acc.channel(CHANNEL);
  const group = { _: "chat", id: GROUP, title: "G", photo: { _: "chatPhotoEmpty" }, participants_count: 3, date: 1, version: 1 };
  const known = () => ({ users: [acc.user(77n), acc.user(USER), acc.user(OTHER)], chats: [group, acc.chat(CHANNEL)] });
  let serial = 1000;
  const next = () => ++serial;

  const chats = [
    { id: Number(USER), input: { _: "inputPeerUser", user_id: USER, access_hash: acc.user(USER).access_hash }, peer: { _: "peerUser", user_id: USER } },
    { id: -Number(GROUP), input: { _: "inputPeerChat", chat_id: GROUP }, peer: { _: "peerChat", chat_id: GROUP } },
    { id: -1000000000000 - Number(CHANNEL), input: { _: "inputPeerChannel", channel_id: CHANNEL, access_hash: acc.channel(CHANNEL).access }, peer: { _: "peerChannel", channel_id: CHANNEL } },
  ];
  type Chat = typeof chats[number];
  const input = (id: number) => chats.find((c) => c.id === id)?.input ?? { _: "inputPeerUser", user_id: OTHER, access_hash: acc.user(OTHER).access_hash };
  const inputUser = (u: bigint) => ({ _: "inputUser", user_id: u, access_hash: acc.user(u).access_hash });

  // --- the service
  const uploads = new Map<bigint, Uint8Array[]>();
  let calls: { call: any; connection?: string; dc: number }[] = [];
  let reply: ((q: any, connection?: string) => any) | null = null;
  let uploaded: { q: any; media: any }[] = [];
  const stored = new Map<string, any>(); // what getMessages returns
  const RESULTS = new Set(["messages.sendMessage", "messages.sendMedia", "messages.sendMultiMedia", "messages.forwardMessages", "ephemeral.sendMessage", "messages.editMessage", "ephemeral.editMessage", "messages.startBot", "messages.sendScheduledMessages"]);
  const errors: string[] = [];
  site.on = (c) => {
    let q: any = c.call, connection: string | undefined;
    if (q._ === "invokeWithBusinessConnection") connection = q.connection_id, q = q.query;
    const ok = (type: string, v: any) => {
      try {
        return { result: TL.encodeType(API, type, v) };
      } catch (e) {
        errors.push(`${q._}: ${e}`);
        return { error: [500, "INTERNAL"] as [number, string] };
      }
    };
    if (q._ === "upload.saveFilePart") {
      const l = uploads.get(q.file_id) ?? [];
      l[q.file_part] = q.bytes;
      uploads.set(q.file_id, l);
      return ok("Bool", true);
    }
    if (q._ === "messages.uploadMedia") {
      const isPhoto = q.media._ === "inputMediaUploadedPhoto";
      const kind = isPhoto ? "photo" : "document";
      const media = { _: isPhoto ? "messageMediaPhoto" : "messageMediaDocument", [kind]: isPhoto ? photo(BigInt(next())) : document(BigInt(next()), ATTR.document) };
      uploaded.push({ q, media: media[kind] });
      return ok("MessageMedia", media);
    }
    if (q._ === "messages.getMessages" || q._ === "channels.getMessages") {
      const box = q._[0];
      const messages = q.id.map((x: any) => stored.get(box + x.id) ?? { _: "messageEmpty", id: x.id });
      return ok("messages.Messages", box === "c" ? { _: "messages.channelMessages", pts: acc.channel(CHANNEL).pts, count: messages.length, messages, topics: [], ...known() } : { _: "messages.messages", messages, topics: [], ...known() });
    }
    if (q._.startsWith("messages.") || q._.startsWith("channels.deleteMessages") || q._.startsWith("channels.readHistory") || q._.startsWith("ephemeral.")) {
      calls.push({ call: q, connection, dc: Math.abs(c.link.dcId) % 10000 });
      if (RESULTS.has(q._) && reply) return ok("Updates", reply(q, connection));
      if (q._ === "messages.sendReaction") return ok("Updates", { _: "updates", updates: [], ...known(), date: acc.date, seq: 0 });
      if (q._ === "messages.updatePinnedMessage") return ok("Updates", { _: "updates", updates: [], ...known(), date: acc.date, seq: 0 });
      if (q._ === "messages.deleteMessages" || q._ === "channels.deleteMessages" || q._ === "messages.readHistory") return ok("messages.AffectedMessages", { _: "messages.affectedMessages", pts: q._[0] === "c" ? acc.channel(CHANNEL).pts : acc.pts, pts_count: 0 });
      if (q._ === "messages.unpinAllMessages") return ok("messages.AffectedHistory", { _: "messages.affectedHistory", pts: acc.pts, pts_count: 0, offset: 0 });
      if (q._ === "messages.deleteScheduledMessages") return ok("Updates", { _: "updates", updates: [], ...known(), date: acc.date, seq: 0 });
      return ok("Bool", true);
    }
    return undefined;
  };
  const p = site.proc({ params: { authString: site.authString(site.login(acc)), ...(mode === undefined ? {} : { parseMode: mode }) } });
  await run(p.client.start(), 600000, "start()");
  await advance(20000);
  site.push(acc, { _: "updates", updates: [{ _: "updateConfig" }], ...known(), date: acc.date, seq: 0 });
  await advance(lat + 2000);

  // --- pieces
  const text = (isEmptyAllowed = false): { text: string; params: any; plain: string; entities: any[] } => {
    const w = "w" + next();
    const effective = mode === undefined ? null : mode;
    return r.pick<() => any>([
      () => ({ text: `<b>${w}</b> x`, params: { parseMode: "HTML" }, plain: `${w} x`, entities: [{ _: "messageEntityBold", offset: 0, length: w.length }] }),
      () => ({ text: `<b>${w}</b>`, params: { parseMode: null }, plain: `<b>${w}</b>`, entities: [] }),
      () => ({ text: `${w} y`, params: { entities: [{ type: "italic", offset: 0, length: w.length }] }, plain: `${w} y`, entities: [{ _: "messageEntityItalic", offset: 0, length: w.length }] }),
      () => ({ text: `<i>${w}</i>`, params: {}, plain: effective === "HTML" ? w : `<i>${w}</i>`, entities: effective === "HTML" ? [{ _: "messageEntityItalic", offset: 0, length: w.length }] : [] }),
      () => isEmptyAllowed ? { text: "", params: {}, plain: "", entities: [] } : { text: w, params: {}, plain: w, entities: [] },
    ])();
  };
  const withEntities = (x: { plain: string; entities: any[] }) => ({ _: "textWithEntities", text: x.plain, entities: x.entities });
  const prefixed = (x: any, prefix: string) => {
    const o: any = {};
    if ("parseMode" in x.params) o[prefix ? prefix + "ParseMode" : "parseMode"] = x.params.parseMode;
    if ("entities" in x.params) o[prefix + (prefix ? "Entities" : "entities")] = x.params.entities;
    return o;
  };
  const captioned = (x: any) => {
    const o: any = { caption: x.text };
    if ("parseMode" in x.params) o.parseMode = x.params.parseMode;
    if ("entities" in x.params) o.captionEntities = x.params.entities;
    return o;
  };
  const maybe = <T>(f: () => T, p = 0.5): T | undefined => r.bool(p) ? f() : undefined;
  const pairs = (o: any) => Object.fromEntries(Object.entries(o).filter(([, v]) => v !== undefined)) as any;
  const flags = (...names: string[]) => pairs(Object.fromEntries(names.map((n) => [n, r.pick([undefined, undefined, true, false])])));
  const markup = (): [any, any] => {
    const n = "k" + next();
    return r.pick<() => [any, any]>([
      () => [{ type: "inlineKeyboard", inlineKeyboard: [[{ type: "url", text: n, url: "https://u.test/" + n }]] }, { _: "replyInlineMarkup", rows: [{ _: "keyboardButtonRow", buttons: [{ _: "keyboardButtonUrl", text: n, url: "https://u.test/" + n }] }] }],
      () => {
        const isSelective = r.bool();
        return [{ type: "removeKeyboard", isSelective }, { _: "replyKeyboardHide", selective: isSelective }];
      },
      () => {
        const isSelective = r.bool();
        return [{ type: "forceReply", inputFieldPlaceholder: n, isSelective }, { _: "replyKeyboardForceReply", single_use: undefined, selective: isSelective, placeholder: n }];
      },
    ])();
  };
  /** a file in one of its forms: what is passed, with what parameters, and the media it becomes */
  const source = (kind: string, o: { spoiler?: boolean; ttl?: number; attributes?: any[]; query?: string; thumb?: boolean; url?: boolean; name?: boolean } = {}) => {
    const isPhoto = kind === "photo", form = r.pick(o.url === false ? ["id", "upload"] : ["id", "url", "upload"]);
    const common = { spoiler: o.spoiler || undefined, ttl_seconds: o.ttl };
    if (form === "id") {
      const id = BigInt(next()), accessHash = id * 5n, fileReference = enc.encode("ref" + id);
      const type = isPhoto ? FileType.Photo : TYPES[kind];
      const location = isPhoto ? { type: "photo", id, accessHash, source: { type: 1, fileType: FileType.Photo, thumbnailType: 120 } } : { type: "common", id, accessHash };
      const arg = serializeFileId({ type, dcId: 2, fileReference, location } as any);
      const ref = { _: isPhoto ? "inputPhoto" : "inputDocument", id, access_hash: accessHash, file_reference: fileReference };
      return { form, arg, own: {}, ref, media: isPhoto ? { _: "inputMediaPhoto", id: ref, ...common } : { _: "inputMediaDocument", id: ref, ...common, query: o.query || undefined } };
    }
    if (form === "url") {
      const url = "https://f.test/" + next();
      return { form, arg: url, own: {}, media: isPhoto ? { _: "inputMediaPhotoExternal", url, ...common } : { _: "inputMediaDocumentExternal", url, ...common } };
    }
    const content = r.bytes(r.int(1, 60)), fileName = `n${next()}.bin`, mimeType = r.pick(MIME[kind]);
    const thumbnail = o.thumb && r.bool(0.4) ? r.bytes(r.int(1, 30)) : undefined;
    const file = { _: "inputFile", name: fileName, content: "#" + hex(content) };
    return {
      form,
      arg: content,
      own: pairs({ fileName, mimeType, thumbnail }),
      media: isPhoto ? { _: "inputMediaUploadedPhoto", file, ...common } : { _: "inputMediaUploadedDocument", file, thumb: thumbnail && { _: "inputFile", content: "#" + hex(thumbnail) }, attributes: [{ _: "documentAttributeFilename", file_name: fileName }, ...(o.attributes ?? [])], mime_type: mimeType, force_file: kind === "document", ...common },
    };
  };
  /** uploaded files in place of references to them */
  const resolved = (v: any, thumb = false): any => {
    if (v instanceof Uint8Array || typeof v !== "object" || v === null) return v;
    if (Array.isArray(v)) return v.map((x) => resolved(x));
    if (v._ === "inputFile") {
      const parts = uploads.get(v.id) ?? [];
      const o: any = { _: "inputFile", content: "#" + parts.map((x) => hex(x)).join("") };
      if (parts.length !== v.parts) o.parts = v.parts;
      if (!thumb) o.name = v.name;
      return o;
    }
    return Object.fromEntries(Object.entries(v).map(([k, x]) => [k, resolved(x, k === "thumb")]));
  };
  const ttlOf = (v: any) => v === "afterOpen" ? 2147483647 : v;
  const selfDestruct = () => r.pick([undefined, undefined, "afterOpen", r.int(1, 60)]);

  const documentMethod = (name: string, kind: string, attributes: (own: any) => any[], own: any, o: any = {}): Method => {
    const s = source(kind, { spoiler: own.isSpoiler, ttl: ttlOf(own.selfDestruct), attributes: attributes(own), thumb: kind !== "sticker", ...o });
    const c = kind === "sticker" ? undefined : maybe(() => text(true), 0.6);
    let media: any = s.media, stars: number | undefined;
    if (kind === "video" && r.bool(0.2)) stars = r.int(1, 50), media = { _: "inputMediaPaidMedia", stars_amount: BigInt(stars), extended_media: [media] };
    let result: any = { _: "messageMediaDocument", document: document(BigInt(next()), ATTR[kind]) };
    if (stars) result = { _: "messageMediaPaidMedia", stars_amount: BigInt(stars), extended_media: [{ _: "messageExtendedMedia", media: result }] };
    return { name, args: [s.arg], own: pairs({ ...own, ...s.own, ...(c ? captioned(c) : {}), starCount: stars }), media, message: c?.plain ?? "", entities: c?.entities, type: kind, result, ephemeral: true, markup: true };
  };
  const num = (a: number, b: number) => maybe(() => r.int(a, b));
  const geo = () => ({ latitude: r.int(-800, 800) / 10, longitude: r.int(-1700, 1700) / 10 });
  const GEO = { _: "geoPoint", long: 1, lat: 2, access_hash: 3n };
  const METHODS: Record<string, () => Method> = {
    sendMessage: () => {
      const x = text();
      const lp = maybe(() => pairs({ type: "input", isDisabled: r.pick([undefined, undefined, true, false]), url: maybe(() => "https://l.test/" + next()), mediaSize: maybe(() => r.pick(["large", "small"])), isAboveText: r.pick([undefined, true, false]) }));
      const media = lp?.url && !lp.isDisabled ? { _: "inputMediaWebPage", url: lp.url, force_large_media: lp.mediaSize === "large", force_small_media: lp.mediaSize === "small" } : undefined;
      return { name: "sendMessage", args: [x.text], own: pairs({ ...x.params, linkPreview: lp }), call: media ? "messages.sendMedia" : "messages.sendMessage", media, message: x.plain, entities: x.entities, fields: { no_webpage: lp?.isDisabled || undefined, invert_media: lp?.isAboveText || undefined }, type: "text", result: undefined, ephemeral: true, markup: true };
    },
    sendRichText: () => {
      const n = "n" + next(), f = flags("isRtl", "isAutomaticLinkDetectionDisabled"), html = r.bool();
      const rich_message = { _: html ? "inputRichMessageHTML" : "inputRichMessageMarkdown", [html ? "html" : "markdown"]: n, rtl: f.isRtl, noautolink: f.isAutomaticLinkDetectionDisabled };
      return { name: "sendRichText", args: [{ type: html ? "html" : "markdown", [html ? "html" : "markdown"]: n, ...f }], own: {}, call: "messages.sendMessage", message: "", fields: { rich_message }, type: "richText", result: undefined, markup: true };
    },
    sendVenue: () => {
      const g = geo(), own = pairs({ foursquareId: maybe(() => "f" + next()), foursquareType: maybe(() => "t" + next()) });
      return { name: "sendVenue", args: [g.latitude, g.longitude, "T" + next(), "A" + next()], own, media: { _: "inputMediaVenue", geo_point: { _: "inputGeoPoint", lat: g.latitude, long: g.longitude }, title: "T" + (serial - 1), address: "A" + serial, provider: "foursquare", venue_id: own.foursquareId ?? "", venue_type: own.foursquareType ?? "" }, type: "venue", result: { _: "messageMediaVenue", geo: GEO, title: "t", address: "a", provider: "foursquare", venue_id: "", venue_type: "" }, ephemeral: true, markup: true };
    },
    sendContact: () => {
      const own = pairs({ lastName: maybe(() => "l" + next()), vcard: maybe(() => "v" + next()) }), f = "F" + next(), n = "+1" + next();
      return { name: "sendContact", args: [f, n], own, media: { _: "inputMediaContact", phone_number: n, first_name: f, last_name: own.lastName ?? "", vcard: own.vcard ?? "" }, type: "contact", result: { _: "messageMediaContact", phone_number: n, first_name: f, last_name: "", vcard: "", user_id: 0n }, ephemeral: true, markup: true };
    },
    sendDice: () => {
      const own = pairs({ emoji: maybe(() => r.pick(["🎯", "🏀", "🎲"])) });
      return { name: "sendDice", args: [], own, media: { _: "inputMediaDice", emoticon: own.emoji ?? "🎲" }, type: "dice", result: { _: "messageMediaDice", value: 3, emoticon: "🎲" }, markup: true };
    },
    sendLocation: () => {
      const g = geo(), live = r.bool(), own = pairs({ horizontalAccuracy: num(1, 1500), ...(live ? { livePeriod: r.int(80, 800000), heading: num(1, 350), proximityAlertRadius: num(1, 1000) } : {}) });
      const point = { _: "inputGeoPoint", lat: g.latitude, long: g.longitude, accuracy_radius: own.horizontalAccuracy };
      return { name: "sendLocation", args: [g.latitude, g.longitude], own, media: live ? { _: "inputMediaGeoLive", geo_point: point, heading: own.heading, period: own.livePeriod, proximity_notification_radius: own.proximityAlertRadius } : { _: "inputMediaGeoPoint", geo_point: point }, type: "location", result: live ? { _: "messageMediaGeoLive", geo: GEO, period: 90 } : { _: "messageMediaGeo", geo: GEO }, ephemeral: true, markup: true };
    },
    sendDocument: () => documentMethod("sendDocument", "document", () => [], {}),
    sendVideo: () => documentMethod("sendVideo", "video", (o) => [{ _: "documentAttributeVideo", supports_streaming: o.isStreamingSupported, w: o.width ?? 0, h: o.height ?? 0, duration: o.duration ?? 0 }], pairs({ width: num(1, 99), height: num(1, 99), duration: num(1, 99), selfDestruct: selfDestruct(), ...flags("isSpoiler", "isStreamingSupported") })),
    sendAnimation: () => documentMethod("sendAnimation", "animation", (o) => [{ _: "documentAttributeAnimated" }, { _: "documentAttributeVideo", supports_streaming: true, w: o.width ?? 0, h: o.height ?? 0, duration: o.duration ?? 0 }], pairs({ width: num(1, 99), height: num(1, 99), duration: num(1, 99), ...flags("isSpoiler") })),
    sendVideoNote: () => documentMethod("sendVideoNote", "videoNote", (o) => [{ _: "documentAttributeVideo", round_message: true, w: o.length ?? 0, h: o.length ?? 0, duration: o.duration ?? 0 }], pairs({ length: num(1, 99), duration: num(1, 99) }), { url: false }),
    sendAudio: () => documentMethod("sendAudio", "audio", (o) => [{ _: "documentAttributeAudio", duration: o.duration ?? 0, performer: o.performer, title: o.title }], pairs({ duration: num(1, 99), performer: maybe(() => "p" + next()), title: maybe(() => "t" + next()) })),
    sendVoice: () => documentMethod("sendVoice", "voice", (o) => [{ _: "documentAttributeAudio", voice: true, duration: o.duration ?? 0 }], pairs({ duration: num(1, 99) })),
    sendSticker: () => {
      const emoji = maybe(() => "e" + next());
      return documentMethod("sendSticker", "sticker", () => [{ _: "documentAttributeSticker", alt: emoji ?? "", stickerset: { _: "inputStickerSetEmpty" } }], pairs({ emoji }), { query: emoji });
    },
    sendPhoto: () => {
      const own = pairs({ selfDestruct: selfDestruct(), ...flags("isSpoiler") });
      const s = source("photo", { spoiler: own.isSpoiler, ttl: ttlOf(own.selfDestruct) }), c = maybe(() => text(true), 0.6), stars = maybe(() => r.int(1, 50), 0.2);
      const photo_ = { _: "messageMediaPhoto", photo: photo(BigInt(next())) };
      return { name: "sendPhoto", args: [s.arg], own: pairs({ ...own, ...s.own, ...(c ? captioned(c) : {}), starCount: stars }), media: stars ? { _: "inputMediaPaidMedia", stars_amount: BigInt(stars), extended_media: [s.media] } : s.media, message: c?.plain ?? "", entities: c?.entities, type: "photo", result: stars ? { _: "messageMediaPaidMedia", stars_amount: BigInt(stars), extended_media: [{ _: "messageExtendedMedia", media: photo_ }] } : photo_, ephemeral: true, markup: true };
    },
    sendPoll: () => {
      const q = text(), options = Array.from({ length: r.int(1, 4) }, () => ({ x: text(), media: maybe(pollMedia, 0.3) })), quiz = r.bool();
      const explanation = maybe(() => text()), description = maybe(() => text()), attached = maybe(pollMedia, 0.3), solution = maybe(pollMedia, 0.3);
      const own: any = pairs({
        type: r.bool() ? quiz ? "quiz" : "regular" : quiz ? "quiz" : undefined,
        ...flags("isAnonymous", "isMultipleAnswersAllowed", "isClosed", "isRevotingAllowed", "isShuffled", "isResultHidden", "isAddingOptionsAllowed", "isSubscriberOnly"),
        openPeriod: num(5, 600),
        closeDate: num(1000, 2000),
        countries: maybe(() => ["NL", "DE"]),
        correctOptionIndexes: quiz ? [0] : undefined,
      });
      Object.assign(own, prefixed(q, "question"));
      if (explanation) own.explanation = explanation.text, Object.assign(own, prefixed(explanation, "explanation"));
      if (description) own.description = description.text, Object.assign(own, prefixed(description, "description"));
      if (attached) own.media = attached.input;
      if (solution && explanation) own.explanationMedia = solution.input;
      const poll = { _: "poll", closed: own.isClosed, public_voters: own.isAnonymous === false, multiple_choice: own.isMultipleAnswersAllowed, quiz, open_answers: own.isAddingOptionsAllowed, revoting_disabled: own.isRevotingAllowed === false, shuffle_answers: own.isShuffled, hide_results_until_close: own.isResultHidden, subscribers_only: own.isSubscriberOnly, question: withEntities(q), answers: options.map((o) => ({ _: "inputPollAnswer", text: withEntities(o.x), media: o.media?.media })), close_period: own.openPeriod, close_date: own.closeDate, countries_iso2: own.countries, hash: 0n };
      const media = { _: "inputMediaPoll", poll, correct_answers: own.correctOptionIndexes, attached_media: attached?.media, solution: explanation?.plain, solution_entities: explanation?.entities, solution_media: own.explanationMedia && solution!.media };
      return { name: "sendPoll", args: [q.text, options.map((o) => pairs({ text: o.x.text, ...o.x.params, media: o.media?.input }))], own, media, message: description?.plain ?? "", entities: description?.entities, type: "poll", result: { _: "messageMediaPoll", poll: { _: "poll", id: BigInt(next()), question: withEntities(q), answers: [{ _: "pollAnswer", text: withEntities(q), option: enc.encode("0") }], hash: 0n }, results: { _: "pollResults" } }, markup: true };
    },
    sendChecklist: () => {
      const title = text(), items = Array.from({ length: r.int(1, 4) }, () => text()), own = { ...prefixed(title, "title"), ...flags("isExtendableByOthers", "isCompletableByOthers") };
      const todo = { _: "todoList", others_can_append: own.isExtendableByOthers, others_can_complete: own.isCompletableByOthers, title: withEntities(title), list: items.map((x, i) => ({ _: "todoItem", id: i + 1, title: withEntities(x) })) };
      return { name: "sendChecklist", args: [title.text, items.map((x) => ({ text: x.text, ...x.params }))], own, media: { _: "inputMediaTodo", todo }, type: "checklist", result: { _: "messageMediaToDo", todo } };
    },
    sendInvoice: () => {
      const n = next(), tip = r.bool(), own: any = pairs({
        providerToken: maybe(() => "p" + next()),
        maxTipAmount: tip ? r.int(1, 9999) : undefined,
        suggestedTipAmounts: tip && r.bool() ? [1, r.int(2, 99)] : undefined,
        startParameter: maybe(() => "s" + next()),
        providerData: maybe(() => `{"a":${next()}}`),
        ...flags("isNameNeeded", "isPhoneNumberNeeded", "isEmailNeeded", "isShippingAddressNeeded", "isPhoneNumberSentToProvider", "isEmailSentToProvider", "isFlexible"),
        ...(r.bool() ? { photoUrl: "https://p.test/" + next(), photoSize: num(1, 99), photoWidth: num(1, 99), photoHeight: num(1, 99) } : {}),
      });
      const prices = [{ label: "a" + n, amount: r.int(1, 100000) }, { label: "b", amount: -5 }].slice(0, r.int(1, 2));
      const invoice = { _: "invoice", currency: "EUR", prices: prices.map((v) => ({ _: "labeledPrice", label: v.label, amount: BigInt(v.amount) })), name_requested: own.isNameNeeded, phone_requested: own.isPhoneNumberNeeded, email_requested: own.isEmailNeeded, shipping_address_requested: own.isShippingAddressNeeded, flexible: own.isFlexible, phone_to_provider: own.isPhoneNumberSentToProvider, email_to_provider: own.isEmailSentToProvider, max_tip_amount: own.maxTipAmount && BigInt(own.maxTipAmount), suggested_tip_amounts: own.suggestedTipAmounts?.map(BigInt) ?? (tip ? [] : undefined) };
      const media = { _: "inputMediaInvoice", title: "T" + n, description: "D" + n, photo: own.photoUrl && { _: "inputWebDocument", url: own.photoUrl, size: own.photoSize ?? 0, mime_type: "image/jpeg", attributes: [{ _: "documentAttributeImageSize", w: own.photoWidth ?? 0, h: own.photoHeight ?? 0 }] }, invoice, payload: enc.encode("P" + n), provider: own.providerToken ?? "", provider_data: { _: "dataJSON", data: own.providerData ?? "null" }, start_param: own.startParameter };
      return { name: "sendInvoice", args: ["T" + n, "D" + n, "P" + n, "EUR", prices], own, media, type: "invoice", result: { _: "messageMediaInvoice", title: "T", description: "D", currency: "EUR", total_amount: 5n, start_param: "" }, ephemeral: true, markup: true, botOnly: true };
    },
  };
  function pollMedia(): { input: any; media: any } {
    return r.pick<() => any>([
      () => {
        const g = geo(), horizontalAccuracy = num(1, 500);
        return { input: pairs({ type: "location", ...g, horizontalAccuracy }), media: { _: "inputMediaGeoPoint", geo_point: { _: "inputGeoPoint", lat: g.latitude, long: g.longitude, accuracy_radius: horizontalAccuracy } } };
      },
      () => {
        const g = geo(), n = next(), o: any = pairs({ foursquareId: maybe(() => "f" + n), foursquareType: maybe(() => "t" + n) });
        return { input: { type: "venue", ...g, title: "T" + n, address: "A" + n, ...o }, media: { _: "inputMediaVenue", geo_point: { _: "inputGeoPoint", lat: g.latitude, long: g.longitude }, title: "T" + n, address: "A" + n, provider: "foursquare", venue_id: o.foursquareId ?? "", venue_type: o.foursquareType ?? "" } };
      },
      () => {
        const url = "https://q.test/" + next();
        return { input: { type: "link", url }, media: { _: "inputMediaWebPage", url } };
      },
      () => {
        const f = flags("isSpoiler"), kind = r.pick(["photo", "video", "animation", "sticker"]);
        if (kind === "sticker") delete f.isSpoiler;
        for (;;) {
          const s = source(kind, { spoiler: f.isSpoiler });
          if (s.form !== "id") continue;
          return { input: { type: kind, [kind]: s.arg, ...f }, media: s.media };
        }
      },
    ])();
  }

  // --- parameters every method has
  type Common = { params: any; fields: any; connection?: string; receiver?: boolean; refuse?: string; schedule?: boolean };
  const replyTo = (params: any): any => {
    const monoforum = params.directMessagesTopicId ? input(params.directMessagesTopicId) : undefined, to = params.replyTo;
    if (!to) return params.messageThreadId ? { _: "inputReplyToMessage", reply_to_msg_id: params.messageThreadId, top_msg_id: params.messageThreadId } : monoforum ? { _: "inputReplyToMonoForum", monoforum_peer_id: monoforum } : undefined;
    if (to.type === "story") return { _: "inputReplyToStory", peer: input(to.chatId), story_id: to.storyId };
    if (to.type === "ephemeralMessage") return { _: "inputReplyToEphemeralMessage", id: to.messageId };
    return { _: "inputReplyToMessage", reply_to_msg_id: to.messageId, top_msg_id: params.messageThreadId, quote_text: to.quote?.text, quote_entities: to.quote?.entities.map((e: any) => ({ _: "messageEntityBold", offset: e.offset, length: e.length })), quote_offset: to.quote?.offset, monoforum_peer_id: monoforum, poll_option: to.pollOptionIndex !== undefined ? enc.encode(String(to.pollOptionIndex)) : undefined, todo_item_id: to.checklistItemId };
  };
  const common = (m: { markup?: boolean; ephemeral?: boolean; business?: boolean }, receivers = true): Common => {
    const params: any = {}, fields: any = {}, o: Common = { params, fields };
    const mayReceive = receivers && bot && r.bool(0.2);
    if (r.bool(0.4)) params.isSilent = r.bool(0.8), fields.silent = params.isSilent;
    if (r.bool(0.4)) params.isContentProtected = r.bool(0.8), fields.noforwards = params.isContentProtected;
    if (r.bool(0.4)) params.effectId = r.pick([String(next()), "5104841245755180586"]), fields.effect = BigInt(params.effectId);
    if (r.bool(0.3)) params.messageThreadId = r.int(1, 500);
    if (r.bool(0.2)) params.directMessagesTopicId = Number(r.pick([USER, OTHER]));
    if (r.bool(0.4)) {
      params.replyTo = r.pick<() => any>([
        () => pairs({ type: "message", messageId: r.int(1, 900), quote: maybe(() => ({ text: "q" + next(), offset: r.int(0, 5), entities: r.bool() ? [] : [{ type: "bold", offset: 0, length: 2 }] })), pollOptionIndex: maybe(() => r.int(0, 12), 0.2), checklistItemId: maybe(() => r.int(1, 30), 0.2) }),
        () => ({ type: "story", chatId: r.pick(chats).id, storyId: r.int(1, 99) }),
        () => ({ type: "ephemeralMessage", messageId: r.int(1, 99) }),
      ])();
    }
    fields.reply_to = replyTo(params);
    if (bot) {
      if (r.bool(0.3)) params.isPaidBroadcast = r.bool(0.8), fields.allow_paid_floodskip = params.isPaidBroadcast;
      if (m.business !== false && r.bool(0.3)) params.businessConnectionId = o.connection = "bc" + next();
      if (m.markup && r.bool(0.4)) [params.replyMarkup, fields.reply_markup] = markup();
    } else {
      if (r.bool(0.3)) params.sendAs = r.pick(chats).id, fields.send_as = input(params.sendAs);
      if (r.bool(0.3)) params.sendAt = 2000000000 + next(), fields.schedule_date = params.sendAt, o.schedule = true;
    }
    if (mayReceive) {
      // only one person gets it
      params.receiverId = Number(r.pick([USER, OTHER]));
      o.receiver = true, o.connection = undefined;
      delete params.businessConnectionId;
      for (const k of ["silent", "noforwards", "effect", "allow_paid_floodskip", "send_as", "schedule_date"]) delete fields[k];
      fields.receiver_id = inputUser(BigInt(params.receiverId));
      if (r.bool(0.4)) params.callbackQueryId = String(next()), fields.query_id = BigInt(params.callbackQueryId);
      if (!m.ephemeral) o.refuse = "no ephemeral form";
    }
    if (r.bool(0.06)) {
      // what this kind of account cannot do
      const k = bot ? r.pick(["sendAs", "sendAt"]) : r.pick(m.markup ? ["isPaidBroadcast", "businessConnectionId", "replyMarkup"] : ["isPaidBroadcast", ...(m.business !== false ? ["businessConnectionId"] : [])]);
      params[k] = ({ sendAs: chats[0].id, sendAt: 2000000000, isPaidBroadcast: true, businessConnectionId: "x", replyMarkup: { type: "removeKeyboard" } } as any)[k];
      o.refuse = `${k} with this account`;
    }
    return o;
  };

  // --- what the service reports
  const event = (box: string, update: any) => {
    if (box === "h") {
      const c = acc.channel(CHANNEL);
      c.pts++;
      c.events.push({ box: "h" + CHANNEL, n: c.pts, count: 1, tag: 0, kind: update._.includes("New") ? "message" : "other", update: { ...update, pts: c.pts, pts_count: 1 }, at: 0, users: known().users, chats: known().chats });
      return c.events.at(-1)!.update;
    }
    acc.pts++;
    acc.events.push({ box: "c", n: acc.pts, count: 1, tag: 0, kind: update._.includes("New") ? "message" : "other", update: { ...update, pts: acc.pts, pts_count: 1 }, at: 0, users: known().users, chats: known().chats });
    return acc.events.at(-1)!.update;
  };
  const made = (chat: Chat, o: any) => ({ _: "message", out: true, id: next(), from_id: { _: "peerUser", user_id: 77n }, peer_id: chat.peer, date: acc.date, ...o });
  const wrap = (updates: any[], combined = true): any => {
    if (combined && updates.length === 1 && r.bool(0.15)) return { _: "updateShort", update: updates[0], date: acc.date };
    return r.bool(0.85) ? { _: "updates", updates, ...known(), date: acc.date, seq: 0 } : { _: "updatesCombined", updates, ...known(), date: acc.date, seq_start: 0, seq: 0 };
  };
  const report = (chat: Chat, list: any[], how: { schedule?: boolean; receiver?: bigint; connection?: string; edit?: boolean }, randomIds: bigint[] = []): any => {
    const kind = how.edit ? "Edit" : "New";
    const l = list.map((m) => {
      if (how.receiver !== undefined) {
        const { id, from_id, peer_id, date, message, media, entities } = m;
        return { _: `update${kind}EphemeralMessage`, message: { _: "ephemeralMessage", out: true, id, from_id, peer_id, date, message, media, entities, receiver_id: how.receiver } };
      }
      if (how.connection) return { _: `updateBot${kind}BusinessMessage`, connection_id: how.connection, message: m, qts: 0 };
      if (how.schedule) return { _: "updateNewScheduledMessage", message: m };
      return event(chat === chats[2] ? "h" : "c", { _: `update${kind}${chat === chats[2] ? "Channel" : ""}Message`, message: m });
    });
    const before = randomIds.map((random_id, i) => ({ _: "updateMessageID", id: list[i].id, random_id }));
    const extra = r.bool(0.2) ? [{ _: "updateUserStatus", user_id: USER, status: { _: "userStatusRecently" } }] : [];
    return wrap([...before, ...extra, ...l]);
  };
  const compare = (name: string, what: string, got: any, want: any, detail: unknown) => {
    const g = norm(got), w = norm(want);
    for (const k of new Set([...Object.keys(g), ...Object.keys(w)])) {
      t.ensure(JSON.stringify(g[k]) === JSON.stringify(w[k]), `${name}.${what}.${k}`, `${name}: ${what} has ${k} = ${show(g[k])} instead of ${show(w[k])} (${show(detail)})`);
    }
  };
  const randoms = new Set<bigint>();
  const random = (name: string, v: bigint) => {
    t.ensure(!randoms.has(v), "random-id", `${name} uses the random identifier ${v} again`);
    randoms.add(v);
  };
  const attempt = async (f: () => Promise<any>, what: string): Promise<{ got?: any; err?: any }> => {
    calls = [], uploaded = [];
    try {
      return { got: await run(f(), 300000, what) };
    } catch (err) {
      return { err };
    }
  };
  const checkMessage = (name: string, m: any, want: any, type: string, how: any) => {
    t.ensure(m && m.id === want.id && m.type === type, `${name}.result`, `${name} returns ${show(m && { id: m.id, type: m.type })} for the ${type} message ${want.id}`);
    const chat = chats.find((c) => same(c.peer, want.peer_id))!;
    t.ensure(m.chat?.id === chat.id, `${name}.chat`, `${name} returns a message of ${m.chat?.id} instead of ${chat.id}`);
    t.ensure((m.isScheduled ?? false) === !!how.schedule, `${name}.scheduled`, `${name} returns isScheduled = ${m.isScheduled} for a message which ${how.schedule ? "is" : "is not"} scheduled`);
    t.ensure(m.businessConnectionId === how.connection, `${name}.connection`, `${name} returns businessConnectionId = ${m.businessConnectionId} instead of ${how.connection}`);
    if (type === "text") t.ensure(m.text === want.message, `${name}.text`, `${name} returns the text ${m.text} instead of ${want.message}`);
  };
  const c = p.client;

  const steps = r.int(8, 24);
  for (let step = 0; step < steps; step++) {
    const chat = r.pick(chats);
    const which = r.int(0, 99);
    if (which < 55) {
      // one new message
      const m = METHODS[r.pick(Object.keys(METHODS))]();
      const o = common(m);
      if (m.botOnly && !bot) o.refuse = "only for bots";
      const params = { ...m.own, ...o.params };
      let want: any;
      reply = (q, connection) => {
        want = made(chat, { message: m.media === undefined || m.type === "text" ? m.message : m.message ?? "", entities: m.entities?.length ? m.entities : undefined, media: m.result, rich_message: m.type === "richText" ? { _: "richMessage", blocks: [{ _: "pageBlockParagraph", text: { _: "textPlain", text: "x" } }], photos: [], documents: [] } : undefined, from_scheduled: o.schedule });
        return report(chat, [want], { schedule: o.schedule, receiver: o.receiver ? BigInt(params.receiverId) : undefined, connection }, o.receiver ? [] : [q.random_id]);
      };
      const { got, err } = await attempt(() => c[m.name](chat.id, ...m.args, params), m.name);
      t.count(m.name), t.sig(`${m.name} ${Object.keys(params).sort().join()}`);
      t.ensure(!errors.length, "harness", errors.join());
      if (o.refuse) {
        t.ensure(err !== undefined && !calls.length, `${m.name}.refused`, `${m.name} with ${o.refuse} is not refused: ${show(calls.map((c) => c.call._))} (${show(params)})`);
        t.count("refused");
        continue;
      }
      t.ensure(err === undefined, `${m.name}.failed`, `${m.name} fails with ${err} (${show(params)})`);
      t.ensure(calls.length === 1, `${m.name}.calls`, `${m.name} makes the calls ${show(calls.map((c) => c.call._))}`);
      const { call, connection } = calls[0], { random_id, _, ...fields } = resolved(call);
      const name = o.receiver ? "ephemeral.sendMessage" : m.call ?? "messages.sendMedia";
      t.ensure(_ === name, `${m.name}.call`, `${m.name} calls ${_} instead of ${name} (${show(params)})`);
      random(m.name, random_id);
      t.ensure(connection === o.connection, `${m.name}.connection`, `${m.name} is made for the business connection ${connection} instead of ${o.connection}`);
      const own = { ...(m.fields ?? {}) };
      if (m.name === "sendMessage" && m.media) delete own.no_webpage;
      if (o.receiver) delete own.no_webpage, delete own.invert_media;
      const media = fields.media && { ...fields.media };
      delete fields.media;
      if (media?._ === "inputMediaPoll") media.poll = { ...media.poll, id: undefined };
      compare(m.name, "the call", fields, { peer: chat.input, message: m.message ?? "", entities: m.entities, ...own, ...o.fields }, params);
      compare(m.name, "its media", media ?? {}, m.media ?? {}, params);
      checkMessage(m.name, got, want, m.type, o);
    } else if (which < 63) {
      // a group of media
      const kinds = r.pick([["photo", "video"], ["document"], ["audio"]]);
      const list = Array.from({ length: r.int(1, 4) }, () => {
        const kind = r.pick(kinds), o: any = kind === "document" || kind === "audio" ? {} : pairs({ ...flags("isSpoiler"), selfDestruct: selfDestruct() });
        const own: any = kind === "video" ? pairs({ width: num(1, 99), height: num(1, 99), duration: num(1, 99), ...flags("isStreamingSupported") }) : kind === "audio" ? pairs({ duration: num(1, 99), performer: maybe(() => "p" + next()), title: maybe(() => "t" + next()) }) : {};
        const attributes = kind === "video" ? [{ _: "documentAttributeVideo", supports_streaming: own.isStreamingSupported, w: own.width ?? 0, h: own.height ?? 0, duration: own.duration ?? 0 }] : kind === "audio" ? [{ _: "documentAttributeAudio", duration: own.duration ?? 0, performer: own.performer, title: own.title }] : [];
        const s = source(kind, { spoiler: o.isSpoiler, ttl: ttlOf(o.selfDestruct), attributes, thumb: kind !== "photo" }), x = maybe(() => text(true), 0.6);
        return { kind, s, x, input: { type: kind, [kind]: s.arg, ...o, ...own, ...s.own, ...(x ? captioned(x) : {}) } };
      });
      const o = common({ markup: false });
      const want: any[] = [];
      reply = (q, connection) => {
        const grouped_id = BigInt(next());
        for (const v of list) want.push(made(chat, { message: v.x?.plain ?? "", grouped_id, media: v.kind === "photo" ? { _: "messageMediaPhoto", photo: photo(BigInt(next())) } : { _: "messageMediaDocument", document: document(BigInt(next()), ATTR[v.kind]) }, from_scheduled: o.schedule }));
        return report(chat, want, { schedule: o.schedule, connection }, q.multi_media.map((v: any) => v.random_id));
      };
      const { got, err } = await attempt(() => c.sendMediaGroup(chat.id, list.map((v) => v.input), o.params), "sendMediaGroup");
      t.count("sendMediaGroup"), t.ensure(!errors.length, "harness", errors.join());
      if (o.refuse) {
        t.ensure(err !== undefined && !calls.length, "sendMediaGroup.refused", `sendMediaGroup with ${o.refuse} is not refused`);
        continue;
      }
      t.ensure(err === undefined, "sendMediaGroup.failed", `sendMediaGroup fails with ${err}`);
      t.ensure(calls.length === 1 && calls[0].call._ === "messages.sendMultiMedia", "sendMediaGroup.calls", `sendMediaGroup makes the calls ${show(calls.map((c) => c.call._))}`);
      const { _, multi_media, ...fields } = calls[0].call;
      t.ensure(calls[0].connection === o.connection, "sendMediaGroup.connection", `sendMediaGroup is made for the business connection ${calls[0].connection} instead of ${o.connection}`);
      compare("sendMediaGroup", "the call", fields, { peer: chat.input, ...o.fields }, o.params);
      t.ensure(multi_media.length === list.length, "sendMediaGroup.length", `sendMediaGroup sends ${multi_media.length} of ${list.length} media`);
      for (const [i, v] of list.entries()) {
        random("sendMediaGroup", multi_media[i].random_id);
        let media: any = v.s.media;
        if (v.s.form === "upload") {
          // uploaded first, and referred to then
          const of = uploaded.find((u) => same(resolved(u.q.media), media));
          t.ensure(of, "sendMediaGroup.upload", `sendMediaGroup uploads ${show(uploaded.map((u) => norm(resolved(u.q.media))))}, not ${show(norm(media))}`);
          t.ensure(same(of!.q.peer, chat.input) && of!.q.business_connection_id === o.connection, "sendMediaGroup.upload-peer", `sendMediaGroup uploads for ${show(of!.q.peer)} and ${of!.q.business_connection_id}`);
          const { id, access_hash, file_reference } = of!.media;
          media = { _: v.kind === "photo" ? "inputMediaPhoto" : "inputMediaDocument", id: { _: v.kind === "photo" ? "inputPhoto" : "inputDocument", id, access_hash, file_reference }, spoiler: media.spoiler, ttl_seconds: media.ttl_seconds };
        }
        compare("sendMediaGroup", "an item", { ...multi_media[i], random_id: undefined }, { _: "inputSingleMedia", media, message: v.x?.plain ?? "", entities: v.x?.entities }, v.input);
      }
      t.ensure(Array.isArray(got) && got.length === want.length, "sendMediaGroup.result", `sendMediaGroup returns ${got?.length} messages of ${want.length}`);
      for (const [i, w] of want.entries()) checkMessage("sendMediaGroup", got[i], w, list[i].kind, o);
    } else if (which < 71) {
      // forwards
      const from = r.pick(chats), ids = Array.from({ length: r.int(1, 4) }, () => next());
      const o = common({ markup: false, business: false }, false), f = flags("isSenderNameDropped", "isCaptionDropped");
      const want: any[] = [];
      reply = (q) => {
        for (const id of ids) want.push(made(chat, { message: "f" + id, from_scheduled: o.schedule }));
        return report(chat, want, { schedule: o.schedule }, q.random_id);
      };
      const single = ids.length === 1 && r.bool();
      const { got, err } = await attempt(() => single ? c.forwardMessage(from.id, chat.id, ids[0], { ...o.params, ...f }).then((v: any) => [v]) : c.forwardMessages(from.id, chat.id, ids, { ...o.params, ...f }), "forwardMessages");
      t.count("forwardMessages"), t.ensure(!errors.length, "harness", errors.join());
      if (o.refuse) {
        t.ensure(err !== undefined && !calls.length, "forwardMessages.refused", `forwardMessages with ${o.refuse} is not refused`);
        continue;
      }
      t.ensure(err === undefined, "forwardMessages.failed", `forwardMessages fails with ${err}`);
      t.ensure(calls.length === 1 && calls[0].call._ === "messages.forwardMessages", "forwardMessages.calls", `forwardMessages makes the calls ${show(calls.map((c) => c.call._))}`);
      const { _, random_id, ...fields } = calls[0].call;
      t.ensure(random_id.length === ids.length, "forwardMessages.random", `forwardMessages uses ${random_id.length} random identifiers for ${ids.length} messages`);
      for (const x of random_id) random("forwardMessages", x);
      compare("forwardMessages", "the call", fields, { from_peer: from.input, to_peer: chat.input, id: ids, drop_author: f.isSenderNameDropped, drop_media_captions: f.isCaptionDropped, top_msg_id: o.params.messageThreadId, ...o.fields }, o.params);
      t.ensure(got.length === want.length, "forwardMessages.result", `forwardMessages returns ${got.length} messages of ${want.length}`);
      for (const [i, w] of want.entries()) checkMessage("forwardMessages", got[i], w, "text", o);
    } else if (which < 90) await edit(chat);
    else await other(chat);
  }

  /** what is changed, and what it should be afterwards */
  async function edit(chat: Chat) {
    const params: any = {}, fields: any = {};
    let connection: string | undefined;
    const kind = r.pick(["Text", "Caption", "ReplyMarkup", "Media", "LiveLocation", "RichText", "stopPoll"]);
    const targets = kind === "stopPoll" ? ["message"] : kind === "LiveLocation" || kind === "RichText" ? ["message", "inline"] : ["message", "inline", "ephemeral"];
    const target = bot ? r.pick(targets) : "message";
    if (bot && r.bool(0.4)) [params.replyMarkup, fields.reply_markup] = markup();
    if (bot && target === "message" && r.bool(0.3)) params.businessConnectionId = connection = "bc" + next();
    // the message as it is now
    const id = next();
    const before: Record<string, any> = {
      Text: { message: "old" },
      Caption: { message: "old", media: { _: "messageMediaPhoto", photo: photo(1n) } },
      ReplyMarkup: { message: "old" },
      Media: { message: "", media: { _: "messageMediaPhoto", photo: photo(1n) } },
      LiveLocation: { message: "", media: { _: "messageMediaGeoLive", geo: GEO, period: 900 } },
      RichText: { message: "", rich_message: { _: "richMessage", blocks: [{ _: "pageBlockParagraph", text: { _: "textPlain", text: "x" } }], photos: [], documents: [] } },
      stopPoll: { message: "", media: { _: "messageMediaPoll", poll: { _: "poll", id: BigInt(id), question: { _: "textWithEntities", text: "q", entities: [] }, answers: [{ _: "pollAnswer", text: { _: "textWithEntities", text: "a", entities: [] }, option: enc.encode("0") }], hash: 0n }, results: { _: "pollResults" } } },
    };
    const old = made(chat, { ...before[kind], id });
    stored.set((chat === chats[2] ? "c" : "m") + id, old);
    const after: any = { ...old, edit_date: acc.date };
    let args: any[] = [], type = "text", media: any;
    switch (kind) {
      case "Text": {
        const x = text(), lp = maybe(() => pairs({ type: "input", isDisabled: r.pick([undefined, undefined, true, false]), url: maybe(() => "https://l.test/" + next()), mediaSize: maybe(() => r.pick(["large", "small"])), isAboveText: r.pick([undefined, true, false]) }));
        args = [x.text], Object.assign(params, x.params), fields.message = x.plain, fields.entities = x.entities;
        if (lp) params.linkPreview = lp;
        if (target !== "ephemeral") fields.no_webpage = lp?.isDisabled, fields.invert_media = lp?.isAboveText;
        if (lp?.url && !lp.isDisabled) media = { _: "inputMediaWebPage", url: lp.url, force_large_media: lp.mediaSize === "large", force_small_media: lp.mediaSize === "small" };
        after.message = x.plain;
        break;
      }
      case "Caption": {
        const x = maybe(() => text(true), 0.8);
        if (x) Object.assign(params, { caption: x.text }, x.params);
        fields.message = after.message = x?.plain ?? "", fields.entities = x?.entities;
        type = "photo";
        break;
      }
      case "ReplyMarkup":
        break;
      case "RichText": {
        const n = "n" + next(), f = flags("isRtl", "isAutomaticLinkDetectionDisabled");
        args = [{ type: "html", html: n, ...f }], fields.rich_message = { _: "inputRichMessageHTML", html: n, rtl: f.isRtl, noautolink: f.isAutomaticLinkDetectionDisabled };
        type = "richText";
        break;
      }
      case "LiveLocation": {
        const g = geo();
        args = [g.latitude, g.longitude], Object.assign(params, pairs({ horizontalAccuracy: num(1, 500), heading: num(1, 350), proximityAlertRadius: num(1, 500) }));
        media = { _: "inputMediaGeoLive", geo_point: { _: "inputGeoPoint", lat: g.latitude, long: g.longitude, accuracy_radius: params.horizontalAccuracy }, heading: params.heading, proximity_notification_radius: params.proximityAlertRadius };
        type = "location";
        break;
      }
      case "Media": {
        const k = r.pick(["photo", "video", "document"]), o: any = k === "document" ? {} : pairs({ ...flags("isSpoiler"), selfDestruct: selfDestruct() });
        const s = source(k, { spoiler: o.isSpoiler, ttl: ttlOf(o.selfDestruct), thumb: k !== "photo", attributes: k === "video" ? [{ _: "documentAttributeVideo", w: 0, h: 0, duration: 0 }] : [] }), x = maybe(() => text(true), 0.6);
        args = [{ type: k, [k]: s.arg, ...o, ...s.own, ...(x ? captioned(x) : {}) }];
        media = s.media;
        if (x) fields.message = x.plain, fields.entities = x.entities;
        after.message = x?.plain ?? old.message;
        type = k;
        after.media = k === "photo" ? { _: "messageMediaPhoto", photo: photo(BigInt(next())) } : { _: "messageMediaDocument", document: document(BigInt(next()), ATTR[k]) };
        break;
      }
      case "stopPoll":
        media = { _: "inputMediaPoll", poll: { _: "poll", id: BigInt(id), closed: true, question: { _: "textWithEntities", text: "", entities: [] }, answers: [], hash: 0n } };
        type = "poll";
        after.media = { ...old.media, poll: { ...old.media.poll, closed: true } };
        break;
    }
    const receiver = r.pick([USER, OTHER]), dc = r.pick([2, 2, 4]);
    const inlineId = r.bool() ? { _: "inputBotInlineMessageID", dc_id: dc, id: BigInt(next()), access_hash: BigInt(next()) } : { _: "inputBotInlineMessageID64", dc_id: dc, owner_id: BigInt(next()), id: next(), access_hash: BigInt(next()) };
    const name = kind === "stopPoll" ? "stopPoll" : `edit${target === "inline" ? "Inline" : target === "ephemeral" ? "Ephemeral" : ""}Message${kind}`;
    const all = target === "inline" ? [inlineString(inlineId), ...args, params] : target === "ephemeral" ? [chat.id, Number(receiver), id, ...args, params] : [chat.id, id, ...args, params];
    reply = (_q, connection) => report(chat, [after], { connection, edit: true, receiver: target === "ephemeral" ? receiver : undefined });
    let refuse = "";
    if (!bot && r.bool(0.06)) params.replyMarkup = { type: "removeKeyboard" }, refuse = "a reply markup";
    const { got, err } = await attempt(() => c[name](...all), name);
    t.count(name), t.sig(`${name} ${Object.keys(params).sort().join()}`), t.ensure(!errors.length, "harness", errors.join());
    if (refuse) {
      t.ensure(err !== undefined && !calls.length, `${name}.refused`, `${name} with ${refuse} is not refused`);
      return;
    }
    t.ensure(err === undefined, `${name}.failed`, `${name} fails with ${err} (${show(params)} ${show(args)})`);
    const call = target === "inline" ? "messages.editInlineBotMessage" : target === "ephemeral" ? "ephemeral.editMessage" : "messages.editMessage";
    t.ensure(calls.length === 1 && calls[0].call._ === call, `${name}.calls`, `${name} makes the calls ${show(calls.map((c) => c.call._))}`);
    const { _, media: gotMedia, ...rest } = resolved(calls[0].call);
    t.ensure(calls[0].connection === connection, `${name}.connection`, `${name} is made for the business connection ${calls[0].connection} instead of ${connection}`);
    if (target === "inline") {
      t.ensure(calls[0].dc === dc, `${name}.dc`, `${name} is made in the data centre ${calls[0].dc} instead of ${dc}`);
      if (media?._.startsWith("inputMediaUploaded")) {
        const of = uploaded.find((u) => same(resolved(u.q.media), media));
        t.ensure(of, `${name}.upload`, `${name} uploads ${show(uploaded.map((u) => norm(resolved(u.q.media))))}, not ${show(norm(media))}`);
        const { id, access_hash, file_reference } = of!.media, isPhoto = type === "photo";
        media = { _: isPhoto ? "inputMediaPhoto" : "inputMediaDocument", id: { _: isPhoto ? "inputPhoto" : "inputDocument", id, access_hash, file_reference }, spoiler: media.spoiler, ttl_seconds: media.ttl_seconds };
      }
      compare(name, "the call", rest, { id: inlineId, ...fields }, params);
    } else compare(name, "the call", rest, { id, peer: chat.input, receiver_id: target === "ephemeral" ? inputUser(receiver) : undefined, ...fields }, params);
    compare(name, "its media", gotMedia ?? {}, media ?? {}, params);
    if (target === "inline") return;
    if (kind === "stopPoll") t.ensure(got?.id === String(id) && got.isClosed === true, "stopPoll.result", `stopPoll returns ${show(got)}`);
    else checkMessage(name, got, after, type, { connection });
  }

  /** calls without messages */
  async function other(chat: Chat) {
    const ids = Array.from({ length: r.int(1, 3) }, () => next()), channel = chat === chats[2], params: any = {};
    let connection: string | undefined;
    const business = () => bot && r.bool(0.4) ? params.businessConnectionId = connection = "bc" + next() : undefined;
    const kinds: Record<string, () => [string, any[], any]> = {
      pinMessage: () => {
        business(), Object.assign(params, flags("isSilent", "isForBothSides"));
        return ["pinMessage", [ids[0]], { _: "messages.updatePinnedMessage", peer: chat.input, id: ids[0], silent: params.isSilent, pm_oneside: params.isForBothSides === false }];
      },
      unpinMessage: () => (business(), ["unpinMessage", [ids[0]], { _: "messages.updatePinnedMessage", peer: chat.input, id: ids[0], unpin: true }]),
      unpinMessages: () => {
        if (r.bool()) params.topicId = next();
        return ["unpinMessages", [], { _: "messages.unpinAllMessages", peer: chat.input, top_msg_id: params.topicId }];
      },
      deleteMessages: () => {
        Object.assign(params, flags("isOnlyForMe"));
        return ["deleteMessages", [ids], channel ? { _: "channels.deleteMessages", channel: { ...chat.input, _: "inputChannel" }, id: ids } : { _: "messages.deleteMessages", id: ids, revoke: !params.isOnlyForMe }];
      },
      setReactions: () => {
        Object.assign(params, flags("isBig", "addToRecents"));
        const l = [{ type: "emoji", emoji: "e" + next() }, { type: "custom", id: String(next()) }, { type: "paid" }].slice(0, r.int(0, 3));
        return ["setReactions", [ids[0], l], { _: "messages.sendReaction", peer: chat.input, msg_id: ids[0], big: params.isBig, add_to_recent: params.addToRecents, reaction: l.map((v: any) => v.type === "emoji" ? { _: "reactionEmoji", emoticon: v.emoji } : v.type === "custom" ? { _: "reactionCustomEmoji", document_id: BigInt(v.id) } : { _: "reactionPaid" }) }];
      },
      addReaction: () => reaction(true),
      removeReaction: () => reaction(false),
      sendChatAction: () => {
        business();
        if (r.bool()) params.messageThreadId = next();
        const [type, action, progress] = r.pick<[string, string, boolean]>([["typing", "Typing", false], ["uploadingPhoto", "UploadPhoto", true], ["recordingVideo", "RecordVideo", false], ["uploadingVideo", "UploadVideo", true], ["recordingVoice", "RecordAudio", false], ["uploadingAudio", "UploadAudio", true], ["uploadingDocument", "UploadDocument", true], ["choosingSticker", "ChooseSticker", false], ["choosingLocation", "GeoLocation", false], ["recordingVideoNote", "RecordRound", false], ["uploadingVideoNote", "UploadRound", true], ["playingGame", "GamePlay", false], ["cancel", "Cancel", false]]);
        const n = progress ? num(1, 99) : undefined;
        return ["sendChatAction", [pairs({ type, progress: n })], { _: "messages.setTyping", peer: chat.input, top_msg_id: params.messageThreadId, action: { _: `sendMessage${action}Action`, progress: progress ? n ?? 0 : undefined } }];
      },
      ...(bot
        ? {
          sendMessageDraft: () => {
            const x = text();
            if (r.bool()) params.messageThreadId = next();
            Object.assign(params, x.params);
            return ["sendMessageDraft", [ids[0], x.text], { _: "messages.setTyping", peer: chat.input, top_msg_id: params.messageThreadId, action: { _: "sendMessageTextDraftAction", random_id: BigInt(ids[0]), text: withEntities(x) } }];
          },
        }
        : {
          deleteScheduledMessages: () => ["deleteScheduledMessages", [ids], { _: "messages.deleteScheduledMessages", peer: chat.input, id: ids }],
          readMessages: () => ["readMessages", [ids[0]], channel ? { _: "channels.readHistory", channel: { ...chat.input, _: "inputChannel" }, max_id: ids[0] } : { _: "messages.readHistory", peer: chat.input, max_id: ids[0] }],
        } as any),
    };
    function reaction(add: boolean): [string, any[], any] {
      const all = ["a", "b", "c"].map((e) => ({ type: "emoji", emoji: e + ids[0] })), chosen = r.shuffle(all).slice(0, r.int(0, 2)), it = r.pick(all);
      stored.set((channel ? "c" : "m") + ids[0], made(chat, { id: ids[0], message: "x", reactions: { _: "messageReactions", results: all.map((v) => ({ _: "reactionCount", count: 2, reaction: { _: "reactionEmoji", emoticon: v.emoji }, chosen_order: chosen.includes(v) ? chosen.indexOf(v) + 1 : undefined })) } }));
      const has = chosen.includes(it), kept = chosen.filter((v) => v !== it);
      if (add) Object.assign(params, flags("isBig", "addToRecents"));
      return [add ? "addReaction" : "removeReaction", [ids[0], it], add === has ? null : { _: "messages.sendReaction", peer: chat.input, msg_id: ids[0], big: params.isBig, add_to_recent: params.addToRecents, reaction: new Set((add ? [...kept, it] : kept).map((v) => v.emoji)) }];
    }
    const [name, args, want] = kinds[r.pick(Object.keys(kinds))]();
    const withParams = !["deleteScheduledMessages", "readMessages", "removeReaction"].includes(name);
    const { err } = await attempt(() => c[name](chat.id, ...args, ...(withParams ? [params] : [])), name);
    t.count(name), t.ensure(!errors.length, "harness", errors.join());
    t.ensure(err === undefined, `${name}.failed`, `${name} fails with ${err} (${show(params)} ${show(args)})`);
    if (want === null) {
      t.ensure(!calls.length, `${name}.calls`, `${name} makes the calls ${show(calls.map((c) => c.call._))} although nothing changes`);
      return;
    }
    t.ensure(calls.length === 1, `${name}.calls`, `${name} makes the calls ${show(calls.map((c) => c.call._))}`);
    t.ensure(calls[0].connection === connection, `${name}.connection`, `${name} is made for the business connection ${calls[0].connection} instead of ${connection}`);
    const call = { ...calls[0].call };
    if (want.reaction instanceof Set) {
      // their order is not said
      const g = (call.reaction ?? []).map((v: any) => v.emoticon).sort(), w = [...want.reaction].sort();
      t.ensure(JSON.stringify(g) === JSON.stringify(w), `${name}.reactions`, `${name} sets the reactions ${g} instead of ${w}`);
      delete call.reaction, delete want.reaction;
    }
    compare(name, "the call", call, want, params);
  }
  t.state("workload", `${bot} ${mode} ${steps}`);
  t.count("clients");
  t.sample({ bot, mode: mode ?? "default", steps });
});
await ck.main();
function inlineString(o: any): string {
  return btoa(String.fromCharCode(...TL.encode(API, o))).replace(/\+/g, "-").replace(/\//g, "_").replace(/=+$/, "");
}
