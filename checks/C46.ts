import { Rng } from "../lib/env.ts";
import { Check, show } from "../lib/core.ts";
import { Context } from "file:///repo/client/4_context.ts";
// deno-lint-ignore no-explicit-any
type A = any;

const ck = new Check("C46", {
  level: "exploration",
  rule: "Every shortcut of the context is called on random updates of every kind, with a client that records calls; the one call it makes, and the result it gives back, are compared with a table of what each shortcut stands for. A case is one update with a batch of shortcuts.",
  assumptions: ["Updates carry the fields their types declare"],
  quickSeconds: 40,
  thoroughSeconds: 300,
});
/**
 * What the arguments of the client's method are, and the shortcuts that have this form (`shortcut>method`, or one name for both).
 * C chat, M message, U the person behind the update, W the sender of its message, S secret chat, I inline message, B business connection,
 * Q… the query, a number a positional argument of the shortcut, P the parameters (+b in the business connection, +r as a reply, +s as a reply in a secret chat, +C with the chat)
 */
const SPEC: Record<string, string> = {
  "0 C 1 P": "translateMessage translateMessages",
  "B": "getBusinessConnection",
  "C": "archive>archiveChat close>closeChat deleteChat deleteChatPhoto deleteChatStickerSet disableAntispam disableBusinessBots disableChatHistoryForNewMembers disableJoinRequests disableSharing disableSignatures disableSlowMode disableTopics enableAntispam enableBusinessBots enableChatHistoryForNewMembers enableJoinRequests enableSharing getChat getChatAdministrators getChatSettings getCommonChats getNotificationSettings getOnlineCount getScheduledMessages getSimilarBots getSimilarChannels getStarBalance getStoryAlbums getTonBalance hideGeneralTopic hideMemberList joinChat leaveChat markChatAsRead markChatAsUnread open>openChat pauseBusinessBotConnection requestSecretChat resumeBusinessBotConnection showGeneralTopic showMemberList unarchive>unarchiveChat unpinMessages",
  "C 0": "addMembers>addChatMembers addStoriesToHighlights addStoryToHighlights closeTopic deleteChatMemberMessages deleteRevokedInviteLinks deleteScheduledMessage deleteScheduledMessages deleteStories deleteStory deleteStoryAlbum deleteTopic enableTopics getChatMember getMessage getMessageCounters getMessageReactions getMessageReadDate getMessages getMessagesCounters getRichText getStories getStory getTopic getTopicsById kickChatMember pinTopic removeStoriesFromHighlights removeStoryFromHighlights removeUserReactions reopenTopic reorderStoryAlbums retractVote sendScheduledMessage sendScheduledMessages sendScreenshotNotification setAvailableReactions setBoostsRequiredToCircumventRestrictions setChatDescription setChatStickerSet setChatTitle setDefaultSendAs setDiscussionChat setMessageTtl setSlowMode transcribeVoice unbanChatMember unpinMessage unpinTopic viewMessage viewMessages",
  "C 0 1": "addPollOption addStoriesToAlbum addStoryToAlbum addToChecklist checkChecklistItem checkChecklistItems createStoryAlbum deleteEphemeralMessage removePollOption removeReaction removeStoriesFromAlbum removeStoryFromAlbum removeUserReaction reorderStoriesInAlbum reportReaction setStoryAlbumName transferOwnership>transferChatOwnership uncheckChecklistItem uncheckChecklistItems vote",
  "C 0 1 2 3 4 P+rb": "replyInvoice>sendInvoice",
  "C 0 1 2 3 P+rb": "replyVenue>sendVenue",
  "C 0 1 2 P+b": "editEphemeralMessageMedia editEphemeralMessageText editMessageLiveLocation",
  "C 0 1 P": "addReaction editTopic forwardMessage forwardMessages setReactions",
  "C 0 1 P+b": "editEphemeralMessageCaption editEphemeralMessageReplyMarkup editMessageMedia editMessageRichText editMessageText",
  "C 0 1 P+r": "replyDraft>sendMessageDraft replyRichTextDraft>sendRichTextDraft",
  "C 0 1 P+rb": "replyChecklist>sendChecklist replyContact>sendContact replyLivePhoto>sendLivePhoto replyLocation>sendLocation replyPoll>sendPoll",
  "C 0 M P": "forward>forwardMessage",
  "C 0 P": "addMember>addChatMember banChatMember createStory createTopic deleteMessage deleteMessages editStory getPollVoters getStoriesInAlbum gift>sendGift pinMessage promoteChatMember reportChat reportEphemeralMessage reportStories reportStory saveDraft saveRichTextDraft scheduleVideoChat sendChatAction setChatMemberRights setChatPhoto stopPoll summarizeText updateChecklist",
  "C 0 P+b": "editMessageCaption editMessageReplyMarkup",
  "C 0 P+rb": "reply>sendMessage replyAnimation>sendAnimation replyAudio>sendAudio replyDocument>sendDocument replyMediaGroup>sendMediaGroup replyPhoto>sendPhoto replyRichText>sendRichText replySticker>sendSticker replyVideo>sendVideo replyVideoNote>sendVideoNote replyVoice>sendVoice",
  "C 0 b": "transferGift",
  "C M": "delete>deleteMessage read>readMessages",
  "C M 0 P": "react>setReactions",
  "C M P+b": "pin>pinMessage",
  "C M b": "unpin>unpinMessage",
  "C P": "approveJoinRequests boostChat createInviteLink declineJoinRequests enableSignatures getChatMembers getClaimedGifts getCreatedInviteLinks getHistory getJoinRequests getRecentActions getSavedMessages getStarTransactions getTonTransactions getTopics setNotificationSettings startVideoChat",
  "C P+rb": "replyDice>sendDice",
  "C U": "approveJoinRequest declineJoinRequest",
  "C W": "kickSender>kickChatMember",
  "C W P": "banSender>banChatMember setMemberTag>setChatMemberTag setSenderRights>setChatMemberRights",
  "I 0 1 P": "editInlineMessageLiveLocation",
  "I 0 P": "editInlineMessageMedia editInlineMessageRichText editInlineMessageText",
  "I P": "editInlineMessageCaption editInlineMessageReplyMarkup",
  "P+C": "searchMessages",
  "Q:callbackQuery P": "answerCallbackQuery",
  "Q:guestQuery 0": "answerGuestQuery",
  "Q:inlineQuery 0 P": "answerInlineQuery",
  "Q:preCheckoutQuery 0 P": "answerPreCheckoutQuery",
  "S": "acceptSecretChat",
  "S 0": "sendSecretScreenshotNotification",
  "S 0 1 2 3 P+s": "replySecretVenue>sendSecretVenue",
  "S 0 1 P+s": "replySecretContact>sendSecretContact replySecretLocation>sendSecretLocation",
  "S 0 P+s": "replySecret>sendSecretMessage replySecretAnimation>sendSecretAnimation replySecretAudio>sendSecretAudio replySecretDocument>sendSecretDocument replySecretPhoto>sendSecretPhoto replySecretSticker>sendSecretSticker replySecretVideo>sendSecretVideo replySecretVideoNote>sendSecretVideoNote replySecretVoice>sendSecretVoice",
  "S P": "endSecretChat",
  "U": "blockUser removeAsContact>deleteContact unblockUser",
  "U 0": "refundStarPayment",
  "U 0 P": "addAsContact>addContact",
  "U P": "allowUnpaidMessages>allowUnpaidMessagesFromUser disallowUnpaidMessages>disallowUnpaidMessagesFromUser",
};
const TABLE = Object.entries(SPEC).flatMap(([form, names]) => names.split(" ").map((n) => ({ form: form.split(" "), name: n.split(">")[0], method: n.split(">")[1] ?? n.split(">")[0] })));

function world(r: Rng) {
  let next = r.int(1, 1000);
  const id = () => (next += r.int(1, 50));
  const user = (): A => ({ type: "private", id: id(), firstName: "u", isBot: false });
  const chat = (): A => r.pick([() => ({ type: "private", id: id(), firstName: "p" }), () => ({ type: "group", id: -id(), title: "g" }), () => ({ type: "supergroup", id: -1000000000000 - id(), title: "s" }), () => ({ type: "channel", id: -1000000000000 - id(), title: "c" })])();
  const message = (): A => {
    const c = chat(), m: A = { type: "text", id: id(), chat: c, from: c.type === "private" && r.bool() ? c : r.bool(0.15) ? chat() : user(), isOutgoing: r.bool(0.3), text: "t", date: 1 };
    if (r.bool(0.3)) m.businessConnectionId = "bc" + id();
    if (r.bool(0.4)) m.threadId = id();
    if (r.bool(0.2)) m.directMessagesTopicId = id();
    if (r.bool(0.15)) m.receiver = user();
    return m;
  };
  const kinds: Record<string, () => A> = {
    message: () => ({ message: message() }),
    editedMessage: () => ({ editedMessage: message() }),
    scheduledMessage: () => ({ scheduledMessage: message() }),
    callbackQuery: () => ({ callbackQuery: { id: "cb" + id(), from: user(), chatInstance: "1", ...r.pick([() => ({ message: message() }), () => ({ message: message() }), () => ({ inlineMessageId: "im" + id() })])() } }),
    guestQuery: () => ({ guestQuery: { id: "gq" + id(), message: message() } }),
    inlineQuery: () => ({ inlineQuery: { id: "iq" + id(), from: user(), query: "", offset: "" } }),
    preCheckoutQuery: () => ({ preCheckoutQuery: { id: "pq" + id(), from: user(), currency: "XTR", totalAmount: 1, invoicePayload: "" } }),
    chosenInlineResult: () => ({ chosenInlineResult: { resultId: "x", from: user(), query: "", ...(r.bool(0.7) ? { inlineMessageId: "im" + id() } : {}) } }),
    messageInteractions: () => ({ messageInteractions: { chatId: chat().id, messageId: id(), reactions: [], views: 1, forwards: 1 } }),
    messageReactions: () => ({ messageReactions: { chat: chat(), messageId: id(), user: user(), date: 1, oldReactions: [], newReactions: [] } }),
    messageReactionCount: () => ({ messageReactionCount: { chat: chat(), messageId: id(), date: 1, reactions: [] } }),
    chatMember: () => ({ chatMember: { chat: chat(), from: user(), date: 1 } }),
    myChatMember: () => ({ myChatMember: { chat: chat(), from: user(), date: 1 } }),
    joinRequest: () => ({ joinRequest: { chat: chat(), from: user(), date: 1 } }),
    story: () => ({ story: { id: id(), chat: chat(), date: 1 } }),
    deletedStory: () => ({ deletedStory: { chatId: chat().id, storyId: id() } }),
    newChat: () => ({ newChat: { chat: chat(), order: "1", pinned: -1 } }),
    editedChat: () => ({ editedChat: { chat: chat(), order: "1", pinned: -1 } }),
    deletedChat: () => ({ deletedChat: { chatId: chat().id } }),
    botCommands: () => ({ botCommands: { chatId: chat().id, botId: id(), commands: [] } }),
    chatAction: () => ({ chatAction: { chatId: chat().id, type: "type", userId: id() } }),
    businessConnection: () => ({ businessConnection: { id: "bc" + id(), user: user() } }),
    pollAnswer: () => ({ pollAnswer: { pollId: "1", from: user(), optionIndexes: [0] } }),
    secretMessage: () => ({ secretMessage: { chatId: id(), id: String(id()), type: "text", text: "" } }),
    secretChat: () => ({ secretChat: { id: id(), state: "requested" } }),
    deletedMessages: () => ({ deletedMessages: [{ chatId: chat().id, messageId: id() }] }),
    connectionState: () => ({ connectionState: "ready" }),
  };
  const type = r.pick([...Object.keys(kinds), ...["message", "editedMessage", "callbackQuery", "callbackQuery", "guestQuery", "secretMessage"]]);
  return { type, ...kinds[type]() } as A;
}
/** what the update is about */
function about(u: A) {
  const b = u[u.type];
  const msg: A = u.type === "message" || u.type === "editedMessage" || u.type === "scheduledMessage" ? b : u.type === "callbackQuery" || u.type === "guestQuery" ? b.message : undefined;
  const chat = msg?.chat ?? (["messageReactions", "messageReactionCount", "chatMember", "myChatMember", "joinRequest", "story", "newChat", "editedChat"].includes(u.type) ? b.chat : undefined);
  const chatId = chat?.id ?? (["messageInteractions", "deletedStory", "deletedChat", "botCommands", "chatAction"].includes(u.type) ? b.chatId : undefined);
  const from = ["callbackQuery", "inlineQuery", "chosenInlineResult", "chatMember", "myChatMember", "preCheckoutQuery", "joinRequest", "pollAnswer"].includes(u.type) ? b.from : ["messageReactions", "businessConnection"].includes(u.type) ? b.user : msg?.from;
  return { b, msg, chat, chatId, from };
}
const NONE = Symbol("none");
/** an argument: the value it must have; `NONE` if the update does not carry it; optional: the shortcut may also refuse */
function argument(u: A, tok: string, pos: A[], params: A): { v: A; optional?: boolean } {
  const { b, msg, chat, chatId, from } = about(u);
  const or = (v: A, optional = false) => v === undefined ? { v: NONE } : { v, optional };
  const business = { businessConnectionId: msg?.businessConnectionId };
  if (/^\d$/.test(tok)) return { v: pos[Number(tok)] };
  if (tok === "C") return or(chatId, chat === undefined && u.type !== "messageInteractions");
  if (tok === "M") return msg ? { v: msg.id } : u.type === "messageInteractions" ? { v: b.messageId } : or(b?.messageId, true);
  if (tok === "U") return or(from?.id, !["callbackQuery", "chosenInlineResult", "joinRequest"].includes(u.type) && !msg);
  if (tok === "W") return or(msg?.from?.id);
  if (tok === "S") return u.type === "secretChat" ? { v: b.id } : u.type === "secretMessage" ? { v: b.chatId } : { v: NONE };
  if (tok === "I") return or(u.type === "chosenInlineResult" || u.type === "callbackQuery" ? b.inlineMessageId : undefined);
  if (tok === "B") return u.type === "businessConnection" ? { v: b.id, optional: true } : or(msg?.businessConnectionId);
  if (tok.startsWith("Q:")) return u.type === tok.slice(2) ? { v: b.id } : { v: NONE };
  if (tok === "P") return { v: params };
  if (tok === "b") return { v: business };
  if (tok === "P+b") return { v: { ...params, ...business } };
  if (tok === "P+C") return chatId === undefined ? { v: NONE } : { v: { ...params, chatId }, optional: chat === undefined && u.type !== "messageInteractions" };
  if (tok === "P+s") return u.type === "secretMessage" ? { v: { ...params, replyToMessageId: params?.isQuoted ? b.id : undefined } } : { v: NONE };
  // a reply: in the topic of the message; quoting it if asked for, or unless told not to in a group or channel
  const more = tok.endsWith("b") ? business : {};
  if (u.type === "story") return { v: { ...params, replyTo: { type: "story", chatId: b.chat.id, storyId: b.id }, ...more } };
  if (msg?.receiver) {
    return { v: { ...params, receiverId: (msg.isOutgoing ? msg.receiver : msg.from).id, replyTo: msg.isOutgoing ? undefined : { type: "ephemeralMessage", messageId: msg.id }, callbackQueryId: u.type === "callbackQuery" ? b.id : undefined, ...more } };
  }
  const messageId = msg?.id ?? b?.messageId;
  if (messageId === undefined) return { v: NONE };
  return { v: { ...params, messageThreadId: msg?.threadId, directMessagesTopicId: msg?.directMessagesTopicId, replyTo: params?.isQuoted ?? chatId < 0 ? { type: "message", messageId } : undefined, ...more }, optional: !msg && u.type !== "messageInteractions" };
}
/** without fields that are absent, and without what only the shortcut itself understands */
const tidy = (v: A): A => {
  if (Array.isArray(v)) return v.map(tidy);
  if (v === null || typeof v !== "object") return v;
  return Object.fromEntries(Object.entries(v).filter(([k, x]) => x !== undefined && k !== "isQuoted").map(([k, x]) => [k, tidy(x)] as const).sort(([a], [b]) => a < b ? -1 : 1));
};
const args = (a: A[], hasParams: boolean) => {
  const list = a.map(tidy);
  if (hasParams && list.length) {
    const last = list.at(-1);
    if (last === undefined || (typeof last === "object" && last !== null && !Array.isArray(last) && !Object.keys(last).length)) list.pop();
  }
  while (list.length && list.at(-1) === undefined) list.pop();
  return JSON.stringify(list);
};
ck.part("shortcuts", { quick: 12000, thorough: 120000, weight: 4 }, async (t) => {
  const r = t.rng, u = world(r), before = JSON.stringify(u);
  t.sig(before);
  t.state("updates", u.type);
  const { b, msg, chat, chatId, from } = about(u);
  let calls: A[] = [], answer: A, fail = false;
  const client: A = new Proxy({}, { get: (_, p) => p === "then" ? undefined : (...a: A[]) => (calls.push([p, a]), fail ? Promise.reject(answer) : Promise.resolve(answer)) });
  const me = { id: 1, type: "private" };
  const c: A = new (Context as A)(client, me, u);
  t.ensure(c.update === u && c.client === client && c.me === me, "self", "the context does not hold its update, client or user");
  for (const [k, v] of Object.entries({ msg, chat, chatId, from, message: u.message, editedMessage: u.editedMessage, scheduledMessage: u.scheduledMessage, secretMessage: u.secretMessage, secretChat: u.secretChat, guestQuery: u.guestQuery, callbackQuery: u.callbackQuery, inlineQuery: u.inlineQuery, chosenInlineResult: u.chosenInlineResult })) {
    t.ensure(c[k] === v, "getter", `${k} of ${before} is ${show(c[k])}`);
  }
  for (const row of r.shuffle([...TABLE]).slice(0, 40)) {
    if (typeof c[row.name] !== "function") {
      t.count("missing");
      continue;
    }
    const last = row.form.at(-1)!, hasParams = /^P/.test(last);
    const pos = row.form.filter((x) => /^\d$/.test(x)).map((_, i) => ({ arg: i, n: r.int(0, 99) }));
    const params: A = !hasParams || r.bool(0.3) ? undefined : { mark: r.int(0, 99), ...(/\+[rs]/.test(last) ? r.pick([{}, { isQuoted: true }, { isQuoted: false }, { isQuoted: undefined }]) : {}) };
    let want = { method: row.method, args: [] as A[], optional: false };
    for (const tok of row.form) {
      const { v, optional } = argument(u, tok, pos, params);
      want.args.push(v);
      if (optional) want.optional = true;
    }
    if (row.name === "delete" && msg?.receiver) want = { method: "deleteEphemeralMessage", args: [msg.chat.id, (msg.isOutgoing ? msg.receiver : msg.from).id, msg.id], optional: false };
    calls = [], answer = { result: r.int(0, 1e9) }, fail = r.bool(0.1);
    let got: A, err: A, threw = false;
    const given = params && last !== "P+C" ? JSON.stringify(params) : "";
    try {
      const p = hasParams ? c[row.name](...pos, ...(params ? [params] : [])) : c[row.name](...pos);
      t.ensure(p instanceof Promise, "sync", `${row.name} does not return a promise`);
      got = await p;
    } catch (e) {
      err = e, threw = true;
    }
    const what = `${row.name} on ${before}`;
    t.count("calls");
    t.ensure(!given || JSON.stringify(params) === given, "params", `${what} changes its parameters from ${given} to ${show(params)}`);
    if (want.args.includes(NONE)) {
      t.ensure(threw && !calls.length, "lacking", `${what}, which has nothing to act on, calls ${show(calls)}`);
      t.count("nothing to act on");
      continue;
    }
    if (want.optional && threw && !calls.length) {
      t.count("refused");
      continue;
    }
    t.ensure(calls.length === 1, "calls", `${what} makes ${calls.length} calls: ${show(calls)} ${threw ? show(err) : ""}`);
    const [method, list] = calls[0];
    t.ensure(method === want.method, "method", `${what} calls ${String(method)} instead of ${want.method}`);
    t.ensure(args(list, hasParams || last === "b") === args(want.args, hasParams || last === "b"), "arguments", `${what} with ${show([...pos, params])} calls ${want.method} with ${args(list, false)}, should be ${args(want.args, false)}`);
    t.ensure(fail ? threw && err === answer : !threw && got === answer, "result", `${what}: the client answers ${show(answer)}, the shortcut ${threw ? "throws " + show(err) : show(got)}`);
    t.state("shortcuts", row.name);
  }
  t.ensure(JSON.stringify(u) === before, "modified", `the update is changed: ${before} becomes ${JSON.stringify(u)}`);
  t.sample({ update: u.type, shortcuts: 40 });
});
await ck.main();
