import { Rng } from "../lib/env.ts";
import { Check, show } from "../lib/core.ts";
import { canonAll, denote, type Node, order, outside, tree } from "../lib/format.ts";
import { parseMarkdown } from "file:///repo/client/0_markdown.ts";
import { InputError } from "file:///repo/4_errors.ts";
// deno-lint-ignore no-explicit-any
type A = any;

const ck = new Check("C31", {
  level: "exploration",
  rule: "Random formatted texts are rendered as Telegram Markdown by an independent renderer and parsed by the real parser, which must give back text and entities; random and damaged inputs must give entities inside the text or an input error, and return. A case is one text.",
  assumptions: ["Markdown escapes every reserved character of plain text; adjacent underscore runs are kept apart by an empty entity as the format documents"],
  quickSeconds: 40,
  thoroughSeconds: 500,
});
const RESERVED = "_*[]()~`>#+-=|{}.!\\";
function esc(r: Rng, s: string): string {
  let out = "";
  for (const ch of s) out += RESERVED.includes(ch) || (ch >= "\u0001" && ch <= "~" && r.bool(0.05)) ? "\\" + ch : ch;
  return out;
}
const escCode = (s: string) => s.replace(/[`\\]/g, "\\$&");
const escUrl = (r: Rng, s: string) => [...s].map((c) => c === ")" || c === "\\" || (c >= "\u0001" && c <= "~" && r.bool(0.03)) ? "\\" + c : c).join("");
const MARK: Record<string, string> = { bold: "*", italic: "_", underline: "__", strikethrough: "~", spoiler: "||" };
/** appends with an empty entity between two pieces whose marks would run together */
function join(r: Rng, out: string, next: string, open: string[]): string {
  const escaped = /(^|[^\\])(\\\\)*\\.$/s.test(out);
  const a = out.at(-1), b = next[0];
  if (!escaped && a === b && "_*|~`".includes(a ?? " ")) {
    const free = ["**", "~~", "||||"].filter((m) => !open.includes(m.slice(0, m.length / 2)) && m[0] !== a);
    return out + r.pick(free.length ? free : ["[]()"]) + next;
  }
  return out + next;
}
function render(r: Rng, nodes: (Node | string)[], open: string[]): string {
  let out = "";
  for (const n of nodes) out = join(r, out, one(r, n, open), open);
  return out;
}
function one(r: Rng, n: Node | string, open: string[]): string {
  if (typeof n === "string") return esc(r, n);
  if (n.kind === "code") return "`" + escCode(n.kids[0] as string) + "`";
  if (n.kind === "pre") return "```" + n.info.language + r.pick(["\n", "\n", "\r\n", "\n\r", "\r"]) + escCode(n.kids[0] as string) + "```";
  if (MARK[n.kind]) {
    const m = MARK[n.kind];
    const inner = render(r, n.kids, [...open, m]);
    return join(r, join(r, m, inner, [...open, m]), m, [...open, m]);
  }
  const inner = render(r, n.kids, [...open, "["]);
  const dest = n.kind === "textLink" ? n.info.url : n.kind === "textMention" ? "tg://user?id=" + n.info.userId : n.kind === "customEmoji" ? "tg://emoji?id=" + n.info.customEmojiId : `tg://time?unix=${n.info.dateTime}${n.info.format ? "&format=" + n.info.format : ""}`;
  return (n.kind === "customEmoji" || n.kind === "dateTime" ? "!" : "") + "[" + inner + "](" + escUrl(r, dest) + ")";
}
const KINDS = ["bold", "italic", "underline", "strikethrough", "spoiler", "code", "pre", "customEmoji", "textLink", "textMention"];
/** what the tree means once a link's address is in its canonical form and a code block's leading line break belongs to the fence */
function settle(nodes: (Node | string)[]): void {
  for (const n of nodes) {
    if (typeof n === "string") continue;
    if (n.kind === "textLink") n.info.url = new URL(n.info.url).href;
    if (n.kind === "pre" || n.kind === "code") n.kids = [(n.kids[0] as string).replace(/^[\r\n]+/, "q").replace(/\0/g, "")];
    settle(n.kids);
  }
}
const corpus: string[] = [];
ck.part("formatted", { quick: 25000, thorough: 500000, weight: 3 }, (t) => {
  const r = t.rng, secret = r.bool(0.3);
  const nodes = tree(r, { kinds: secret ? KINDS : [...KINDS, "dateTime"], maxDepth: 4 }, new Set(), 0);
  settle(nodes);
  const want = denote(nodes);
  const md = render(r, nodes, []);
  if (corpus.length < 200) corpus.push(md);
  else corpus[r.int(0, 199)] = md;
  t.sig(md);
  t.state("shapes", want.entities.map((e) => e.type[0] + e.type.at(-1)).join("").slice(0, 16));
  const [text, entities]: A = secret ? parseMarkdown(md, true) : parseMarkdown(md);
  t.ensure(text === want.text, "text", `${show(md)} gives text ${show(text)}, should be ${show(want.text)}`);
  t.ensure(canonAll(entities) === canonAll(want.entities), canonAll(order(entities)) === canonAll(want.entities) ? "order" : "entities", `${show(md)} gives ${canonAll(entities)}, should be ${canonAll(want.entities)}`);
  t.count("entities", entities.length);
});
const BITS = [..."_*[]()~`>#+-=|{}.!\\", "__", "||", "```", "```js\n", "```js", "![", "](", "](tg://user?id=1)", "](tg://user?id=99999999999999999999)", "](tg://emoji?id=5)", "](tg://emoji?id=0)", "](tg://time?unix=5)", "](http://a.b)", "](x)", "x", "y ", "\n", "\r", "😀", "é", "\uD800", "\0", "\\😀", "\\_", "**", "a", "漢", "\\\\"];
ck.part("arbitrary", { quick: 30000, thorough: 600000, weight: 2 }, (t) => {
  const r = t.rng;
  let s = "";
  if (r.bool(0.5) && corpus.length) {
    s = r.pick(corpus);
    for (let i = r.int(1, 4); i > 0; i--) {
      const a = r.int(0, s.length), b = Math.min(s.length, a + r.int(0, 6));
      s = s.slice(0, a) + (r.bool() ? r.pick(BITS) : "") + s.slice(b);
    }
  } else for (let i = r.int(0, 16); i > 0; i--) s += r.pick(BITS);
  t.sig(s);
  let out: A;
  try {
    out = r.bool(0.3) ? parseMarkdown(s, true) : parseMarkdown(s);
  } catch (e) {
    t.ensure(e instanceof InputError, "error-class", `parsing ${show(s)} throws ${e}`);
    t.count("refused");
    return;
  }
  t.count("accepted");
  t.ensure(typeof out[0] === "string" && !outside(out[0], out[1]), "outside", `${show(s)} gives text ${show(out[0])} with an entity outside of it: ${outside(out[0], out[1])}`);
  t.ensure(out[1].every((e: A, i: number) => !i || out[1][i - 1].offset < e.offset || (out[1][i - 1].offset === e.offset && out[1][i - 1].length >= e.length)), "order", `${show(s)} gives unsorted entities ${canonAll(out[1])}`);
  t.ensure(!out[0].includes("\uFFFD") || s.includes("\uFFFD") || /[\uD800-\uDFFF]/.test(s.replace(/[\uD800-\uDBFF][\uDC00-\uDFFF]/g, "")), "broken-character", `${show(s)} gives the broken text ${show(out[0])}`);
});
ck.part("long", { quick: 8, thorough: 60 }, (t) => {
  const r = t.rng;
  const unit = r.pick(["*x*", "\\_", "[z](http://x.y)", "`x`", "x", "||s||", "![a](tg://emoji?id=5)", "_é_"]);
  const s = unit.repeat(20000 / unit.length | 0);
  const t0 = performance.now();
  try {
    parseMarkdown(s);
  } catch (e) {
    t.ensure(e instanceof InputError, "error-class", `a long input throws ${e}`);
  }
  t.ensure(performance.now() - t0 < 20000, "slow", `parsing ${s.length} characters made of ${unit} takes ${performance.now() - t0 | 0} ms`);
  t.sig(unit + t.index);
});
await ck.main();
