import { Rng } from "../lib/env.ts";
import { Check, deep, show } from "../lib/core.ts";
import { canon, canonAll, denote, order, outside, piece, tree, URLS } from "../lib/format.ts";
import { MessageManager } from "file:///repo/client/3_message_manager.ts";
import { SecretChatManager } from "file:///repo/client/3_secret_chat_manager.ts";
import { constructMessageEntity, messageEntityToTlObject, sortMessageEntities } from "file:///repo/types/2_message_entity.ts";
import { constructSecretMessageEntity, secretMessageEntityToTlObject, sortSecretMessageEntities } from "file:///repo/types/0_secret_message_entity.ts";
import { InputError } from "file:///repo/4_errors.ts";
import { Api, SecretChats } from "file:///repo/2_tl.ts";
// deno-lint-ignore no-explicit-any
type A = any;

const ck = new Check("C32", {
  level: "exploration",
  rule: "Random texts and entity lists go through the real preparation, conversion and sorting functions of both message kinds and are compared with the definition; protocol objects additionally go through the real serialiser. A case is one text or list.",
  assumptions: ["Entities given by the caller have an offset of at least zero"],
  quickSeconds: 40,
  thoroughSeconds: 400,
});
const PLAIN = ["mention", "hashtag", "botCommand", "url", "email", "bold", "italic", "code", "cashtag", "phoneNumber", "underline", "strikethrough", "bankCard", "spoiler"];
const PR: Record<string, number> = { mention: 50, hashtag: 50, botCommand: 50, url: 50, email: 50, bold: 90, italic: 91, code: 20, pre: 11, textLink: 49, textMention: 49, cashtag: 50, phoneNumber: 50, underline: 92, strikethrough: 93, blockquote: 0, bankCard: 50, spoiler: 94, customEmoji: 99, dateTime: 30 };
const TL: Record<string, string> = { mention: "Mention", hashtag: "Hashtag", botCommand: "BotCommand", url: "Url", email: "Email", bold: "Bold", italic: "Italic", code: "Code", cashtag: "Cashtag", phoneNumber: "Phone", underline: "Underline", strikethrough: "Strike", bankCard: "BankCard", spoiler: "Spoiler", pre: "Pre", textLink: "TextUrl", textMention: "MentionName", blockquote: "Blockquote", customEmoji: "CustomEmoji", dateTime: "FormattedDate" };
const FORMATS = [undefined, "r", "w", "d", "D", "t", "T", "wd", "wD", "wt", "dt", "dT", "Dt", "DT", "wdt", "wdT", "wDt", "wDT", "wT"];
function entity(r: Rng, span: number, secret: boolean): A {
  const offset = r.bool(0.1) ? r.int(0, 2 ** 31 - 2) : r.int(0, span), length = r.bool(0.05) ? r.int(1, 2 ** 31 - 1) : r.int(1, Math.max(1, span));
  const type = r.pick([...PLAIN, "pre", "textLink", "textMention", "blockquote", "customEmoji", ...(secret ? [] : ["dateTime"])]);
  const e: A = { type, offset, length };
  if (type === "pre") e.language = r.pick(["", "js", "c++"]);
  if (type === "textLink") e.url = r.pick([...URLS, "not a url", "tg://user", "tg://userx?id=5", "https://user/?id=5", "tg://user/x?id=5"].slice(0, secret ? -4 : 99));
  if (type === "textMention") e.userId = secret ? r.int(1, 2 ** 31 - 1) : r.pick([r.int(1, 2 ** 31 - 1), r.int(2 ** 31, 2 ** 42)]);
  if (type === "blockquote" && !secret && r.bool()) e.collapsible = true;
  if (type === "customEmoji") e.customEmojiId = String(BigInt.asIntN(64, r.big(64)));
  if (type === "dateTime") {
    e.dateTime = r.int(1, 2 ** 31 - 1);
    const f = r.pick(FORMATS);
    if (f) e.format = f;
  }
  return e;
}
const hash = (id: bigint | number) => BigInt(id) * 7919n + 3n;
const getPeer = (known: Set<bigint> | null) => (p: A): A => {
  const id = BigInt(p.user_id);
  return p._ === "peerUser" && id > 0n && (!known || known.has(id)) ? [{ id: Number(id), type: "private", firstName: "x" }, hash(id)] : null;
};
/** what the protocol form must be */
function wantTl(e: A, secret: boolean): A {
  const o: A = { _: "messageEntity" + TL[e.type], offset: e.offset, length: e.length };
  if (e.type === "pre") o.language = e.language;
  if (e.type === "textLink") o.url = e.url;
  if (e.type === "textMention") secret ? o.user_id = e.userId : (o._ = "inputMessageEntityMentionName", o.user_id = { _: "inputUser", user_id: BigInt(e.userId), access_hash: hash(e.userId) });
  if (e.type === "blockquote" && e.collapsible) o.collapsed = true;
  if (e.type === "customEmoji") o.document_id = BigInt(e.customEmojiId);
  if (e.type === "dateTime") {
    o.date = e.dateTime;
    const f = e.format ?? "";
    for (const [c, n] of [["r", "relative"], ["w", "day_of_week"], ["d", "short_date"], ["D", "long_date"], ["t", "short_time"], ["T", "long_time"]]) if (f.includes(c)) o[n] = true;
  }
  return o;
}
const clean = (o: A) => Object.fromEntries(Object.entries(o).filter(([, v]) => v !== undefined && v !== false));
ck.part("conversion", { quick: 40000, thorough: 800000, weight: 2 }, async (t) => {
  const r = t.rng, secret = r.bool(0.4);
  const e = entity(r, 60, secret), before = canon(e);
  t.sig(before);
  t.state("types", (secret ? "s:" : "") + e.type + (e.format ?? "") + (e.collapsible ? "c" : ""));
  const tl: A = secret ? secretMessageEntityToTlObject(e) : messageEntityToTlObject(e, getPeer(null) as A);
  t.ensure(canon(e) === before, "modified", `converting ${before} modifies it to ${canon(e)}`);
  const want = wantTl(e, secret);
  t.ensure(deep(clean(tl), clean(want)), "to-protocol", `${before} becomes ${show(tl)}, should be ${show(want)}`);
  // through the wire; the server answers a mention with the receiving form
  const bytes: A = secret ? SecretChats.serializeObject(tl) : Api.serializeObject(tl);
  let back: A = secret ? await SecretChats.deserializeType("MessageEntity" as A, bytes) : await Api.deserializeType("MessageEntity" as A, bytes);
  if (back._ === "inputMessageEntityMentionName") {
    t.ensure(back.user_id.access_hash === hash(e.userId), "hash", `${before} carries access hash ${back.user_id.access_hash}`);
    back = { _: "messageEntityMentionName", offset: back.offset, length: back.length, user_id: back.user_id.user_id };
  }
  const again: A = secret ? constructSecretMessageEntity(back) : constructMessageEntity(back);
  t.ensure(again && canon(again) === before, "round-trip", `${before} comes back as ${again && canon(again)} (by ${show(back)})`);
  if (!secret) {
    // a link to a known user is a mention, to an unknown one a link
    const id = BigInt(r.int(1, 1e9)), known = r.bool();
    const l = { type: "textLink", offset: 1, length: 2, url: `tg://user?id=${id}` } as A;
    const got: A = messageEntityToTlObject(l, getPeer(known ? new Set([id]) : new Set()) as A);
    t.ensure(known ? got._ === "inputMessageEntityMentionName" && got.user_id.user_id === id && got.user_id.access_hash === hash(id) : got._ === "messageEntityTextUrl" && got.url === l.url, "user-link", `a link to ${known ? "a known" : "an unknown"} user becomes ${show(got)}`);
  }
});
ck.part("unknown-entities", { quick: 1, thorough: 1 }, (t) => {
  t.sig("unknown");
  const u: A = constructMessageEntity({ _: "messageEntityUnknown", offset: 0, length: 1 } as A);
  t.ensure(u === null, "unknown", `an unknown entity becomes ${show(u)}`);
});
ck.part("order", { quick: 15000, thorough: 300000 }, (t) => {
  const r = t.rng, secret = r.bool(0.4);
  const l: A[] = [];
  for (let i = r.int(0, 12); i > 0; i--) {
    const e = entity(r, 3, secret);
    e.offset = r.int(0, 3), e.length = r.int(1, 3);
    l.push(e);
  }
  t.sig(canonAll(l));
  const input = [...l];
  const out: A[] = secret ? sortSecretMessageEntities(input) : sortMessageEntities(input);
  t.ensure(out.length === l.length && canonAll([...out].sort((a, b) => canon(a) < canon(b) ? -1 : 1)) === canonAll([...l].sort((a, b) => canon(a) < canon(b) ? -1 : 1)), "members", `sorting ${canonAll(l)} gives ${canonAll(out)}`);
  for (let i = 1; i < out.length; i++) {
    const a = out[i - 1], b = out[i];
    const ok = a.offset < b.offset || (a.offset === b.offset && (a.length > b.length || (a.length === b.length && PR[a.type] <= PR[b.type])));
    t.ensure(ok, "order", `sorting puts ${canon(a)} before ${canon(b)}`);
  }
  t.count("sorted", out.length);
});
const WS = [" ", "\n", "\t", "\u00a0", "\r", "\u2028", "\uFEFF", "  ", "\u3000"];
ck.part("trimming", { quick: 40000, thorough: 800000, weight: 2 }, (t) => {
  const r = t.rng, secret = r.bool(0.4);
  const M: A = secret ? SecretChatManager : MessageManager;
  let text = r.bool(0.1) ? "" : piece(r, 8);
  for (let i = r.int(0, 6); i > 0; i--) text += r.bool(0.6) ? r.pick(WS) : piece(r, 2);
  if (r.bool(0.1)) text = r.pick(WS).repeat(r.int(1, 5));
  const given: A[] = [];
  for (let i = r.int(0, 5); i > 0; i--) given.push(entity(r, text.length + 2, secret));
  for (const e of given) if (e.length > 1000) e.length = r.int(1, 1000); // the real code shrinks one by one
  const empty = r.bool(), frozen = given.map(canon).join(" "), same = [...given];
  t.sig(text + frozen + empty);
  const want = text.trimEnd();
  let out: A;
  try {
    out = M.parseText(text, given, null, empty);
  } catch (e) {
    t.ensure(e instanceof InputError && want === "" && !empty, "refused", `preparing ${show(text)} throws ${e}`);
    t.count("refused");
    return;
  }
  t.ensure(want !== "" || empty, "empty-accepted", `the text ${show(text)} is accepted as ${show(out[0])}`);
  t.ensure(out[0] === want, "text", `the text ${show(text)} becomes ${show(out[0])}`);
  const wantE = given.map((e) => ({ ...e, length: Math.min(e.length, want.length - e.offset) })).filter((e) => e.length > 0);
  t.ensure(given.length === same.length && given.every((e, i) => e === same[i]) && given.map(canon).join(" ") === frozen, "caller", `preparing ${show(text)} changes the caller's entities from ${frozen} to ${given.map(canon).join(" ")}`);
  t.ensure(canonAll(out[1]) === canonAll(wantE), "entities", `in ${show(text)} ${frozen} becomes ${canonAll(out[1])}, should be ${canonAll(wantE)}`);
  t.ensure(!outside(out[0], out[1]), "outside", `in ${show(out[0])} the entity ${outside(out[0], out[1])} is outside of the text`);
  t.count("prepared");
});
const escH = (s: string) => s.replace(/[&<>"]/g, (c) => ({ "&": "&amp;", "<": "&lt;", ">": "&gt;", "\"": "&quot;" })[c]!);
ck.part("formatted", { quick: 10000, thorough: 200000 }, (t) => {
  // formatting with white space at the end of the text
  const r = t.rng, secret = r.bool(0.4), M: A = secret ? SecretChatManager : MessageManager, md = r.bool();
  const nodes = tree(r, { kinds: ["bold", "strikethrough", "spoiler"], maxDepth: 3 }, new Set(), 0);
  nodes.unshift("x");
  let last: A = nodes.at(-1);
  while (last.kids && r.bool(0.8)) {
    if (typeof last.kids.at(-1) === "string") break;
    last = last.kids.at(-1);
  }
  const ws = WS[r.int(0, WS.length - 1)].repeat(r.int(0, 4));
  if (last.kids) last.kids.push(ws);
  // HTML trims its source, so a final plain run of white space is not part of the text there; it would be trimmed anyway
  else nodes.push(ws);
  const H: A = { bold: "b", strikethrough: "s", spoiler: "tg-spoiler" }, K: A = { bold: "*", strikethrough: "~", spoiler: "||" };
  const html = (n: A): string => typeof n === "string" ? escH(n) : `<${H[n.kind]}>${n.kids.map(html).join("")}</${H[n.kind]}>`;
  const mdown = (n: A): string => typeof n === "string" ? n.replace(/[_*\[\]()~`>#+\-=|{}.!\\]/g, "\\$&") : `${K[n.kind]}${n.kids.map(mdown).join("")}${K[n.kind]}`;
  const src = nodes.map(md ? mdown : html).join("");
  t.sig(src);
  const all = denote(nodes), want = all.text.trimEnd();
  const wantE = all.entities.map((e) => ({ ...e, length: Math.min(e.length, want.length - e.offset) })).filter((e) => e.length > 0);
  const given: A[] = [];
  const out: A = M.parseText(src, given, md ? "Markdown" : "HTML");
  t.ensure(out[0] === want, "text", `${show(src)} becomes ${show(out[0])}, should be ${show(want)}`);
  t.ensure(given.length === 0, "caller", `preparing ${show(src)} adds ${canonAll(given)} to the caller's list`);
  t.ensure(canonAll(order(out[1])) === canonAll(order(wantE)), "entities", `${show(src)} gives ${canonAll(out[1])}, should be ${canonAll(wantE)}`);
});
await ck.main();
