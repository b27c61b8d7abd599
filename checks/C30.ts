import { Rng } from "../lib/env.ts";
import { Check, show } from "../lib/core.ts";
import { canonAll, denote, type Node, order, outside, tree } from "../lib/format.ts";
import { parseHtml } from "file:///repo/client/0_html.ts";
import { InputError } from "file:///repo/4_errors.ts";
// deno-lint-ignore no-explicit-any
type A = any;

const ck = new Check("C30", {
  level: "exploration",
  rule: "Random formatted texts are rendered as HTML by an independent renderer and parsed by the real parser, which must give back text and entities; random and damaged inputs must give entities inside the text or an input error, and return. A case is one text.",
  assumptions: ["Text at the very beginning and end of a message has no white space (it is trimmed)"],
  quickSeconds: 40,
  thoroughSeconds: 500,
});
const NAMED: Record<string, string> = { "&": "amp", "<": "lt", ">": "gt", "\"": "quot" };
function esc(r: Rng, s: string, attr = false): string {
  let out = "";
  for (const ch of s) {
    const must = ch in NAMED || (attr && ch === "'");
    if (must || r.bool(0.08)) {
      const cp = ch.codePointAt(0)!;
      const forms = [`&#${cp};`, `&#x${cp.toString(16)};`, `&#x${cp.toString(16).toUpperCase()};`].filter((f) => f.length <= 10);
      if (ch in NAMED) forms.push(`&${NAMED[ch]};`, `&${NAMED[ch]};`, `&${NAMED[ch]};`);
      // the character after an unterminated reference must not extend it, so references always end with ";"
      out += forms.length ? r.pick(forms) : ch;
    } else out += ch;
  }
  return out;
}
const TAGS: Record<string, string[]> = { bold: ["b", "strong"], italic: ["i", "em"], underline: ["u", "ins"], strikethrough: ["s", "strike", "del"], spoiler: ["tg-spoiler", "span"], code: ["code"], blockquote: ["blockquote"], customEmoji: ["tg-emoji"], textLink: ["a"], textMention: ["a"], dateTime: ["a"] };
function attr(r: Rng, name: string, v: string) {
  const q = r.pick(['"', "'"]);
  const sp = r.pick(["", "", " "]);
  return ` ${name}${sp}=${sp}${q}${esc(r, v, true)}${q}`;
}
function render(r: Rng, n: Node | string): string {
  if (typeof n === "string") return esc(r, n);
  const inner = n.kids.map((k) => render(r, k)).join("");
  const cased = (t: string) => r.bool(0.2) ? t.toUpperCase() : t;
  const close = (t: string) => r.bool(0.1) ? "</>" : `</${cased(t)}${r.pick(["", "", " "])}>`;
  if (n.kind === "pre") {
    if (!n.info.language) return `<pre>${inner}</pre>`;
    return r.bool() ? `<pre><code${attr(r, "class", "language-" + n.info.language)}>${inner}</code></pre>` : `<code${attr(r, "class", "language-" + n.info.language)}><pre>${inner}</pre></code>`;
  }
  const tag = r.pick(TAGS[n.kind]);
  let attrs = "";
  if (tag === "span") attrs = attr(r, "class", "tg-spoiler");
  if (n.kind === "textLink") attrs = attr(r, "href", n.info.url);
  if (n.kind === "textMention") attrs = attr(r, "href", "tg://user?id=" + n.info.userId);
  if (n.kind === "dateTime") attrs = attr(r, "href", `tg://time?unix=${n.info.dateTime}${n.info.format ? "&format=" + n.info.format : ""}`);
  if (n.kind === "customEmoji") attrs = attr(r, "emoji-id", n.info.customEmojiId);
  if (n.info?.collapsible) attrs = r.pick([" expandable", ' expandable=""', " expandable=1"]);
  if (r.bool(0.1)) attrs += attr(r, "data-x", "1 2");
  return `<${cased(tag)}${attrs}>${inner}${close(tag)}`;
}
const KINDS = ["bold", "italic", "underline", "strikethrough", "spoiler", "code", "pre", "blockquote", "customEmoji", "textLink", "textMention"];
let corpus: string[] = [];
ck.part("formatted", { quick: 25000, thorough: 500000, weight: 3 }, (t) => {
  const r = t.rng, secret = r.bool(0.3);
  const nodes = tree(r, { kinds: secret ? KINDS : [...KINDS, "dateTime"], maxDepth: 4 }, new Set(), 0);
  nodes.unshift("x");
  nodes.push("y");
  const want = denote(nodes);
  if (secret) for (const e of want.entities) void e;
  const html = nodes.map((n) => render(r, n)).join("");
  if (corpus.length < 200) corpus.push(html);
  else corpus[r.int(0, 199)] = html;
  t.sig(html);
  t.state("shapes", want.entities.map((e) => e.type[0] + e.type.at(-1)).join("").slice(0, 16));
  const [text, entities]: A = secret ? parseHtml(html, true) : parseHtml(html);
  t.ensure(text === want.text, "text", `${show(html)} gives text ${show(text)}, should be ${show(want.text)}`);
  t.ensure(canonAll(entities) === canonAll(want.entities), canonAll(order(entities)) === canonAll(want.entities) ? "order" : "entities", `${show(html)} gives ${canonAll(entities)}, should be ${canonAll(want.entities)}`);
  t.count("entities", entities.length);
});
const BITS = ["<", ">", "</", "/>", "&", "&#", "&#x", "&amp", ";", "\"", "'", "=", "<b>", "</b>", "<i", "<a href=", "<a href=\"http://x.y\">", "</a>", "<code class=language-x>", "<pre>", "</pre>", "</code>", "<span class=\"tg-spoiler\">", "<tg-emoji emoji-id=5>", "</tg-emoji>", "<blockquote expandable>", "<>", "</>", "< >", "<B>", "x", " ", "\n", "😀", "\uD800", "&#0;", "&#55296;", "&#x10ffff;", "&#9999999;", "&#1114111;", "&#1114112;", "&#x110000;", "&#xd800;", "&#xdfff;", "&#65536;", "&#x0041;", "&#00000065;", "<a>", "<a href=tg://user?id=1e99>", "<a href=tg://time?unix=0>", "<a href=tg://time?unix=5>", "\0", "<a href=\"", "__proto__", "<constructor>", "<tg-emoji>", "<a __proto__=x>", "&lt;b&gt;"];
ck.part("arbitrary", { quick: 25000, thorough: 500000, weight: 2 }, (t) => {
  const r = t.rng;
  let s = "";
  if (r.bool(0.5) && corpus.length) {
    s = r.pick(corpus);
    for (let i = r.int(1, 4); i > 0; i--) {
      const a = r.int(0, s.length), b = Math.min(s.length, a + r.int(0, 6));
      s = s.slice(0, a) + (r.bool() ? r.pick(BITS) : "") + s.slice(b);
    }
  } else for (let i = r.int(0, 20); i > 0; i--) s += r.pick(BITS);
  t.sig(s);
  let out: A;
  try {
    out = r.bool(0.3) ? parseHtml(s, true) : parseHtml(s);
  } catch (e) {
    t.ensure(e instanceof InputError, "error-class", `parsing ${show(s)} throws ${e}`);
    t.count("refused");
    return;
  }
  t.count("accepted");
  t.ensure(typeof out[0] === "string" && !outside(out[0], out[1]), "outside", `${show(s)} gives text ${show(out[0])} with an entity outside of it: ${outside(out[0], out[1])}`);
  t.ensure(canonAll(order(out[1])).length === canonAll(out[1]).length && out[1].every((e: A, i: number) => !i || out[1][i - 1].offset < e.offset || (out[1][i - 1].offset === e.offset && out[1][i - 1].length >= e.length)), "order", `${show(s)} gives unsorted entities ${canonAll(out[1])}`);
});
ck.part("long", { quick: 8, thorough: 60 }, (t) => {
  // the time a parse takes grows about in proportion to the input
  const r = t.rng;
  const unit = r.pick(["<b>x</b>", "&lt;", "<a href=\"http://x.y\">z</a>", "&", "<i>", "x", "&#x41;", "<code class=\"language-x\">a</code>"]);
  const s = unit.repeat(20000 / unit.length | 0);
  const t0 = performance.now();
  try {
    parseHtml(s);
  } catch (e) {
    t.ensure(e instanceof InputError, "error-class", `a long input throws ${e}`);
  }
  t.ensure(performance.now() - t0 < 20000, "slow", `parsing ${s.length} characters made of ${unit} takes ${performance.now() - t0 | 0} ms`);
  t.sig(unit + t.index);
});
await ck.main();
