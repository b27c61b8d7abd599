import { Rng } from "../lib/env.ts";
import { Check, show } from "../lib/core.ts";
import { Composer } from "file:///repo/client/5_composer.ts";
import { Context } from "file:///repo/client/4_context.ts";
import { InputError } from "file:///repo/4_errors.ts";
// deno-lint-ignore no-explicit-any
type A = any;

const ck = new Check("C33", {
  level: "exploration",
  rule: "Random compositions of recording handlers are registered on the real composer in varied ways and run on many concurrent updates with random delays; each update's trace must equal the one of a reference interpreter. Filters are compared with their documented definition. A case is one composition or one filter question.",
  assumptions: ["Handlers await the next handler or do not call it", "Filters are compared on updates of the documented shapes"],
  quickSeconds: 50,
  thoroughSeconds: 500,
});

/* --- updates --- */
const MSG = ["text", "photo", "link", "livePhoto", "groupCreated", "supergroupCreated", "unsupported", "screenshotTaken", "video", "newChatMembers", "videoChatStarted", "poll", "deletedChatPhoto"];
const FIELD: Record<string, string | null> = { link: "linkPreview", livePhoto: "photo", groupCreated: "newChatMembers", supergroupCreated: null, unsupported: null, screenshotTaken: null, videoChatStarted: null, deletedChatPhoto: null };
const CHAT = ["private", "group", "supergroup", "channel"];
const user = (r: Rng) => ({ id: r.int(1, 9), firstName: "u" });
const chat = (r: Rng): A => ({ id: r.int(-9, 9), type: r.pick(CHAT) });
const WORDS = ["start", "START", "help", "starting", "star", "", "st/art", "a.b", "x", "start/x", "!start"];
const NAMES = ["bot", "BOT", "Bot", "other", "", "bot_x"];
function text(r: Rng): string {
  let s = r.pick(["/", "/", "\\", "!", ".", "", "..", "//", "!!", " /"]) + r.pick(WORDS);
  if (r.bool(0.4)) s += "@" + r.pick(NAMES);
  if (r.bool(0.1)) s += "@bot";
  if (r.bool(0.5)) s += r.pick([" ", "\n", "\t", "  "]) + r.pick(["arg", "/start", "@bot"]);
  return s;
}
function message(r: Rng): A {
  const type = r.pick(MSG), f = type in FIELD ? FIELD[type] : type;
  const m: A = { id: r.int(1, 99), type, chat: chat(r), from: user(r) };
  if (f) m[f] = type === "text" ? text(r) : {};
  if (type !== "text" && r.bool(0.3)) m.caption = "c", m.text = undefined, delete m.text;
  return m;
}
const DATA = ["a", "ab", "A", "b:1", "b:22", "", "x\ny"];
const SMSG = ["text", "photo", "webPage", "location", "sticker"];
const RAW = ["updateNewMessage", "updateUserStatus", "updateConfig", "message", "text"];
const UPDATES: Record<string, (r: Rng) => A> = {
  message: (r) => ({ message: message(r) }),
  editedMessage: (r) => ({ editedMessage: message(r) }),
  scheduledMessage: (r) => ({ scheduledMessage: message(r) }),
  callbackQuery: (r) => ({ callbackQuery: { id: "1", from: user(r), ...(r.bool() ? { message: message(r) } : { inlineMessageId: "i" }), ...(r.bool(0.8) ? { data: r.pick(DATA) } : { gameShortName: "g" }) } }),
  chosenInlineResult: (r) => ({ chosenInlineResult: { from: user(r), query: r.pick(DATA), ...(r.bool() ? { inlineMessageId: "x" } : {}) } }),
  inlineQuery: (r) => ({ inlineQuery: { id: "1", from: user(r), query: r.pick(DATA) } }),
  guestQuery: (r) => ({ guestQuery: { message: message(r) } }),
  secretMessage: (r) => {
    const type = r.pick(SMSG);
    return { secretMessage: { id: "1", chatId: 5, type, ...(type === "webPage" ? { url: "x", ...(r.bool() ? { text: "t" } : {}) } : { [type]: {} }) } };
  },
  update: (r) => ({ update: { _: r.pick(RAW) } }),
  connectionState: () => ({ connectionState: "ready" }),
  authorizationState: (r) => ({ authorizationState: { isAuthorized: r.bool() } }),
  deletedMessages: () => ({ deletedMessages: [{ chatId: 1, messageId: 2 }] }),
  messageReactions: (r) => ({ messageReactions: { chat: chat(r), user: user(r) } }),
  messageReactionCount: (r) => ({ messageReactionCount: { chat: chat(r) } }),
  chatMember: (r) => ({ chatMember: { chat: chat(r), from: user(r) } }),
  myChatMember: (r) => ({ myChatMember: { chat: chat(r), from: user(r) } }),
  joinRequest: (r) => ({ joinRequest: { chat: chat(r), from: user(r) } }),
  preCheckoutQuery: (r) => ({ preCheckoutQuery: { from: user(r) } }),
  pollAnswer: (r) => ({ pollAnswer: { from: user(r) } }),
  emojiStatus: () => ({ emojiStatus: {}, userId: 5 }),
  emojiStatusRemoved: () => ({ userId: 5 }),
  secretTyping: () => ({ chatId: 5 }),
  managedBot: (r) => ({ user: user(r), bot: user(r) }),
  secretChat: () => ({ secretChat: { id: 5 } }),
  translations: () => ({ translations: [], platform: "a", language: "en" }),
  chatAction: () => ({ chatAction: { chatId: 7 } }),
  messageInteractions: () => ({ messageInteractions: { chatId: 8, messageId: 1 } }),
  deletedChat: () => ({ deletedChat: { chatId: 3 } }),
  poll: () => ({ poll: {} }),
};
const TYPES = Object.keys(UPDATES);
const update = (r: Rng): A => {
  const type = r.bool(0.5) ? r.pick(TYPES.slice(0, 8)) : r.pick(TYPES);
  return { type, ...UPDATES[type](r) };
};
/* --- the documented meaning of the filters --- */
const FILTERS = [...TYPES, ...RAW.slice(0, 3), ...["", "message", "editedMessage", "scheduledMessage"].flatMap((a) => MSG.map((b) => a + ":" + b)), ...SMSG.map((s) => "secretMessage:" + s), "callbackQuery:message", "callbackQuery:inlineMessageId", "callbackQuery:data", "callbackQuery:gameShortName", "chosenInlineResult:inlineMessageId"];
const MESSAGES = ["message", "editedMessage", "scheduledMessage"];
function matches(f: string, u: A): boolean {
  const [a, b] = f.split(":");
  if (b === undefined) return u.type === a || (u.type === "update" && u.update._ === a);
  if (a === "" ? !MESSAGES.includes(u.type) : u.type !== a) return false;
  const v = u[u.type];
  return MESSAGES.includes(u.type) || u.type === "secretMessage" ? v.type === b : v[b] !== undefined;
}
const one = (p: A, s: string) => (Array.isArray(p) ? p : [p]).some((x) => typeof x === "string" ? x === s : new RegExp(x.source, x.flags.replace("g", "")).test(s));
function command(names: A, prefixes: A, me: A, u: A): boolean {
  if (u.type !== "message" || u.message.type !== "text") return false;
  const word = u.message.text.split(/\s/)[0];
  let list = prefixes === undefined ? [] : Array.isArray(prefixes) ? prefixes : [prefixes];
  if (!list.length) list = [me.isBot ? "/" : "\\"];
  const p = list.find((x: string) => word.startsWith(x));
  if (p === undefined) return false;
  const [head, at] = word.split("@");
  if (at !== undefined && at.toLowerCase() !== me.username?.toLowerCase()) return false;
  const name = head.slice(p.length).toLowerCase();
  return (Array.isArray(names) ? names : [names]).some((n) => typeof n === "string" ? n.toLowerCase() === name : new RegExp(n.source, n.flags.replace("g", "")).test(name));
}
const chatOf = (u: A) => ["message", "editedMessage", "scheduledMessage"].includes(u.type) ? u[u.type].chat : ["callbackQuery", "guestQuery"].includes(u.type) ? u[u.type].message?.chat : ["messageReactions", "messageReactionCount", "chatMember", "myChatMember", "joinRequest"].includes(u.type) ? u[u.type].chat : undefined;
const msgOf = (u: A) => ["message", "editedMessage", "scheduledMessage"].includes(u.type) ? u[u.type] : ["callbackQuery", "guestQuery"].includes(u.type) ? u[u.type].message : undefined;
const fromOf = (u: A) => u.type === "messageReactions" ? u.messageReactions.user : ["callbackQuery", "inlineQuery", "chosenInlineResult", "preCheckoutQuery", "joinRequest", "pollAnswer", "chatMember", "myChatMember"].includes(u.type) ? u[u.type].from : msgOf(u)?.from;
const idOf = (u: A) => chatOf(u)?.id ?? (["messageInteractions", "deletedChat", "chatAction"].includes(u.type) ? u[u.type].chatId : undefined);

const NAMESETS: (() => A)[] = [() => "start", () => "START", () => ["help", "start"], () => /^star/, () => /^star/g, () => [/^x$/, "a.b"], () => /A/i, () => /a$/y, () => [], () => ""];
const PREFIXSETS: A[] = [undefined, "/", "!", ["!", "."], [], ["/", "!"], "..", ["!!"]];
const DATASETS: (() => A)[] = [() => "a", () => ["b:1", /^a$/i], () => /^b:(\d+)$/g, () => "", () => /x/m, () => [], () => ["A", "ab"]];
const mes = [{ id: 1, isBot: true, username: "Bot" }, { id: 2, isBot: false, username: "bot" }, { id: 3, isBot: true }, { id: 4, isBot: false }];
let nextClient = 0;
const client = (me: A, calls: { n: number }) => ({ n: nextClient++, getMe: async () => (calls.n++, await null, me) }) as A;

ck.part("filters", { quick: 40000, thorough: 800000 }, (t) => {
  const r = t.rng, u = update(r), me = r.pick(mes), ctx = new Context({} as A, me as A, u) as A;
  const f = r.bool(0.7) ? r.pick(FILTERS.filter((x) => x.startsWith(u.type) || x[0] === ":")) : r.pick(FILTERS);
  t.sig(f + JSON.stringify(u));
  const got = r.bool() ? Context.has.filterQuery(f as A)(ctx) : ctx.hasFilterQuery(f);
  t.ensure(got === matches(f, u), "filter", `the filter "${f}" ${got ? "matches" : "does not match"} ${show(u)}`);
  t.state("filters", f + got);
  const names = r.pick(NAMESETS)(), own = r.pick(PREFIXSETS), fall = r.pick(PREFIXSETS);
  const viaObject = r.bool();
  const p = viaObject ? (own === undefined ? fall : own) : fall;
  const arg = viaObject && own !== undefined ? { names, prefixes: own } : names;
  const h = Context.has.command(arg, fall);
  for (let i = 0; i < 2; i++) {
    const c = h(ctx), w = command(names, p, me, u);
    t.ensure(c === w, "command", `command ${show(names)} with prefixes ${show(p)} for ${show(me)} ${c ? "matches" : "does not match"} ${show(u.message?.text ?? u)}`);
    if (w) t.count("command-matches");
  }
  const d = r.pick(DATASETS)();
  for (const [name, type, field] of [["callbackQuery", "callbackQuery", "data"], ["inlineQuery", "inlineQuery", "query"], ["chosenInlineResult", "chosenInlineResult", "query"]]) {
    const has = (Context.has as A)[name](d);
    for (let i = 0; i < 2; i++) {
      const w = u.type === type && u[type][field] !== undefined && (Array.isArray(d) ? d : [d]).length > 0 && one(d, u[type][field]);
      const c = has(ctx);
      t.ensure(c === w, name, `${name} with ${show(d)} ${c ? "matches" : "does not match"} ${show(u)}`);
    }
  }
  const ct = r.bool() ? r.pick(CHAT) : r.shuffle([...CHAT]).slice(0, r.int(0, 3));
  const w = chatOf(u) !== undefined && (Array.isArray(ct) ? ct : [ct]).includes(chatOf(u).type);
  t.ensure(Context.has.chatType(ct as A)(ctx) === w, "chat-type", `chat type ${show(ct)} is wrong for ${show(u)}`);
  t.ensure(ctx.chat === chatOf(u) && ctx.msg === msgOf(u) && ctx.from === fromOf(u) && ctx.chatId === idOf(u), "shortcuts", `the shortcuts of ${show(u)} are chat ${show(ctx.chat)}, message ${show(ctx.msg)}, from ${show(ctx.from)}, chat id ${ctx.chatId}`);
  for (const k of ["message", "editedMessage", "scheduledMessage", "secretMessage", "callbackQuery", "inlineQuery", "chosenInlineResult", "guestQuery", "secretChat"]) t.ensure(ctx[k] === (u.type === k ? u[k] : undefined), "shortcuts", `ctx.${k} of ${show(u)} is ${show(ctx[k])}`);
});
ck.part("prefix-conflicts", { quick: 500, thorough: 5000 }, (t) => {
  const r = t.rng, set = r.shuffle(["/", "!", "..", ".", "!!", "a", "ab", "b"]).slice(0, r.int(1, 4));
  t.sig(set.join());
  const bad = set.some((a, i) => set.some((b, j) => i !== j && (a.startsWith(b) || b.startsWith(a))));
  let got = false;
  try {
    Context.has.command({ names: "x", prefixes: set }, undefined);
  } catch (e) {
    t.ensure(e instanceof InputError, "class", `prefixes ${set} throw ${e}`);
    got = true;
  }
  t.ensure(got === bad, "conflict", `the prefixes ${show(set)} are ${got ? "refused" : "accepted"}`);
});

/* --- compositions --- */
interface N {
  k: string;
  id: number;
  b?: string;
  q?: A;
  kids: N[];
  late: boolean;
  how: number;
}
let ids = 0;
const PREDS = ["sync", "async", "throws"];
function gen(r: Rng, depth: number): N {
  const n: N = { k: "h", id: ids++, kids: [], late: false, how: r.int(0, 5) };
  if (depth < 3 && r.bool(0.45)) {
    n.k = r.pick(["use", "use", "filter", "branch", "on", "on", "command", "callbackQuery", "inlineQuery", "chatType", "mw"]);
    n.b = r.bool(0.06) ? "throws" : r.pick(PREDS.slice(0, 2));
    n.late = r.bool(0.3);
    n.kids = Array.from({ length: n.k === "branch" ? 2 : r.int(n.k === "mw" ? 1 : 0, 3) }, () => gen(r, depth + 1));
    if (n.k === "filter" || n.k === "branch") n.q = r.int(0, 3);
    if (n.k === "on") n.q = r.pick(FILTERS.slice(0, 60));
    if (n.k === "command") n.q = r.pick(NAMESETS)();
    if (n.k === "callbackQuery" || n.k === "inlineQuery") n.q = r.pick(DATASETS)();
    if (n.k === "chatType") n.q = r.pick(CHAT);
  } else n.b = r.bool(0.75) ? "next" : r.pick(["stop", "twice", "both", "retry", "throwBefore", "throwAfter", "catch", "set"]);
  return n;
}
interface Run {
  log: string[];
  rng: Rng;
  bag: string[];
}
const runs = new WeakMap<object, Run>();
const pause = async (r: Rng) => {
  for (let i = r.int(0, 3); i > 0; i--) await null;
};
/** the body of a recording handler: used by the real handlers and by the reference */
async function body(n: N, run: Run, next: () => Promise<A>) {
  const say = (s: string) => run.log.push(s + n.id);
  say("enter");
  await pause(run.rng);
  if (n.b === "throwBefore") throw new Error("e" + n.id);
  if (n.b === "set") run.bag.push("s" + n.id);
  if (n.b === "catch") {
    try {
      await next();
    } catch (e) {
      say("caught " + (e as Error).message + " by ");
    }
  } else if (n.b === "both") {
    await Promise.all([next(), next()]);
  } else if (n.b === "retry") {
    try {
      await next();
    } catch (e) {
      say("retried " + (e as Error).message + " by ");
      await next();
    }
  } else if (n.b !== "stop") {
    await next();
    if (n.b === "twice") await next();
  }
  await pause(run.rng);
  if (n.b === "throwAfter") throw new Error("e" + n.id);
  say("leave");
}
function pred(n: N, run: Run, u: A): boolean {
  run.log.push("ask" + n.id);
  if (n.b === "throws") throw new Error("p" + n.id);
  return ((u.salt >> n.q) & 1) === 1;
}
function real(n: N): A {
  const h = n.k === "h" ? (ctx: A, next: A) => body(n, runs.get(ctx.update)!, next) : null;
  if (h) return n.how === 0 ? { middleware: () => h } : n.how === 1 ? new Composer(h) : h;
  const c = new Composer() as A;
  register(c, n);
  return c;
}
const later: (() => void)[] = [];
function register(c: A, n: N) {
  if (n.k === "h") return void c.use(real(n));
  if (n.k === "mw") {
    const inner = new Composer(...n.kids.map(real));
    return void c.use({ middleware: () => inner.middleware() });
  }
  const p = n.b === "async" ? async (ctx: A) => (await pause(runs.get(ctx.update)!.rng), pred(n, runs.get(ctx.update)!, ctx.update)) : (ctx: A) => pred(n, runs.get(ctx.update)!, ctx.update);
  if (n.k === "branch") return void c.branch(p, real(n.kids[0]), real(n.kids[1]));
  const args = n.late ? [] : n.kids.map(real);
  const sub = n.k === "use" ? c.use(...args) : n.k === "filter" ? c.filter(p, ...args) : c[n.k](n.q, ...args);
  if (n.late) for (const k of n.kids) n.how & 1 ? later.push(() => register(sub, k)) : register(sub, k);
}
/** the reference: what a list of nodes does to an update */
async function ref(list: N[], run: Run, u: A, me: A, next: () => Promise<void>): Promise<void> {
  if (!list.length) return await next();
  const [n, ...rest] = list;
  let called = false;
  const on = async () => {
    if (called) return;
    called = true;
    await ref(rest, run, u, me, next);
  };
  if (n.k === "h") return await body(n, run, on);
  if (n.k === "branch") return await ref([n.kids[pred(n, run, u) ? 0 : 1]], run, u, me, on);
  const yes = n.k === "use" || n.k === "mw" || (n.k === "filter" ? pred(n, run, u) : n.k === "on" ? matches(n.q, u) : n.k === "command" ? command(n.q, undefined, me, u) : n.k === "callbackQuery" ? u.type === "callbackQuery" && u.callbackQuery.data !== undefined && one(n.q, u.callbackQuery.data) : n.k === "inlineQuery" ? u.type === "inlineQuery" && one(n.q, u.inlineQuery.query) : n.q === chatOf(u)?.type);
  return yes ? await ref(n.kids, run, u, me, on) : await on();
}
const kinds = (l: N[]): string => l.map((n) => n.k[0] + (n.b?.[0] ?? "") + (n.kids.length ? `(${kinds(n.kids)})` : "")).join("");
ck.part("composition", { quick: 6000, thorough: 120000, weight: 5 }, async (t) => {
  const r = t.rng;
  ids = 0;
  later.length = 0;
  const list = Array.from({ length: r.int(1, 6) }, () => gen(r, 0));
  t.sig(kinds(list) + r.u32());
  t.state("shapes", kinds(list).slice(0, 40));
  let c: A;
  if (r.bool(0.3)) c = new Composer(...list.map(real));
  else {
    c = new Composer();
    for (const n of list) register(c, n);
  }
  // each group of late registrations keeps its own order
  for (const f of later.splice(0)) {
    f();
    while (later.length) later.shift()!();
  }
  const calls = { n: 0 }, me = r.pick(mes), cl = client(me, calls);
  const updates = Array.from({ length: r.int(1, 6) }, () => ({ ...update(r), salt: r.int(0, 15) }));
  const outcome = (p: Promise<A>) => p.then(() => "", (e: Error) => e.message);
  const gate = r.bool();
  const results = updates.map((u) => {
    runs.set(u, { log: [], rng: new Rng(r.u32()), bag: [] });
    return () => outcome(c.handleUpdate(cl, u));
  });
  const errs: string[] = [];
  if (gate) errs.push(...await Promise.all(results.map((f) => f())));
  else for (const f of results) errs.push(await f());
  for (let i = 0; i < updates.length; i++) {
    const run: Run = { log: [], rng: new Rng(1), bag: [] };
    const err = await outcome(ref(list, run, updates[i], me, () => Promise.resolve()));
    const got = runs.get(updates[i])!;
    t.ensure(got.log.join() === run.log.join(), "trace", `composition ${kinds(list)}: the update ${show(updates[i])} goes ${got.log.join(" ")}, should go ${run.log.join(" ")}`);
    t.ensure(errs[i] === err, "error", `composition ${kinds(list)}: handling ends with "${errs[i]}", should end with "${err}"`);
    t.count("handler-events", got.log.length);
  }
  const needs = updates.some((u) => u.type !== "connectionState" && !(u.type === "authorizationState" && !u.authorizationState.isAuthorized));
  t.ensure((calls.n > 0) === needs && (gate || calls.n <= 1), "me", `the account was read ${calls.n} times for ${updates.map((u) => u.type)}`);
  t.count("updates", updates.length);
});
ck.part("context", { quick: 800, thorough: 10000 }, async (t) => {
  // one context per update, shared along the chain only
  const r = t.rng, c = new Composer() as A, seen: A[] = [];
  t.sig(String(t.index));
  c.use(async (ctx: A, next: A) => {
    t.ensure(ctx.mark === undefined, "shared", "a context carries data of another update");
    ctx.mark = ctx.update.salt;
    await pause(r);
    await next();
    t.ensure(ctx.mark === ctx.update.salt, "shared", "a context was changed by another update");
  });
  c.on("message", async (ctx: A, next: A) => (await pause(r), seen.push(ctx.mark === ctx.update.salt && ctx.me.id === ctx.client.want), next()));
  c.use((ctx: A) => void seen.push(ctx.mark === ctx.update.salt));
  const us = Array.from({ length: 8 }, (_, i) => ({ ...update(r), salt: i }));
  const cls = [0, 1].map((i) => ({ ...client(mes[i], { n: 0 }), want: mes[i].id }));
  await Promise.all(us.map((u) => c.handleUpdate(r.pick(cls), u)));
  t.ensure(seen.length >= 8 && seen.every((x) => x), "shared", `contexts mix: ${seen}`);
});
await ck.main();
