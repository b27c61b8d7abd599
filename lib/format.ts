/** Random formatted texts: a tree of pieces, the text it denotes and the entities it denotes. */
import type { Rng } from "./env.ts";
// deno-lint-ignore no-explicit-any
type A = any;
export type Node = { kind: string; info?: A; kids: (Node | string)[] };
export const PRIORITY: Record<string, number> = { blockquote: 0, pre: 11, code: 20, dateTime: 30, textLink: 49, textMention: 49, bold: 90, italic: 91, underline: 92, strikethrough: 93, spoiler: 94, customEmoji: 99 };
const CH = ["a", "b", "Z", "0", "9", " ", " ", "\n", "é", "ß", "‍", "😀", "👨‍👩‍👧", "𝔘", "漢", "\u00a0", "&", "<", ">", "\"", "'", "*", "_", "~", "`", "|", "[", "]", "(", ")", "!", "#", "+", "-", "=", "{", "}", ".", "\\", ";", "/", "&amp;", "&lt", "&#65;", "__", "**", "||", "```", "```js\n", "<b>", "</b>", "\\*", "\u0001", "\u007f", "\uFEFF", "\u{10FFFD}", "\u2028"];
export function piece(r: Rng, max: number): string {
  let s = "";
  for (let i = r.int(1, max); i > 0; i--) s += r.bool(0.5) ? r.pick(CH) : String.fromCharCode(r.int(97, 122));
  return s;
}
export const URLS = ["https://example.com/", "http://a.b/?x=1&y=2", "https://example.com/a_b*c~d`e|f(g)h\\i[j]", "tg://resolve?domain=x", "https://xn--e1afmkfd.com/%20?q='\"<>", "ton://x", "https://example.com/?a=&lt;&amp;gt;"];
export interface Options {
  kinds: string[];
  maxDepth: number;
}
export function tree(r: Rng, o: Options, open: Set<string>, depth: number): (Node | string)[] {
  const out: (Node | string)[] = [];
  for (let i = r.int(1, depth > 1 ? 2 : 4); i > 0; i--) {
    const kinds = o.kinds.filter((k) => !open.has(k === "textMention" || k === "dateTime" ? "textLink" : k));
    if (depth < o.maxDepth && kinds.length && r.bool(0.55) && !open.has("customEmoji")) {
      const kind = r.pick(kinds);
      const info: A = {};
      let kids: (Node | string)[];
      if (kind === "textLink") info.url = r.pick(URLS);
      if (kind === "textMention") info.userId = r.pick([1, 2 ** 31, 2 ** 40, 777000, r.int(1, 1e9)]);
      if (kind === "dateTime") info.dateTime = r.int(1, 2e9), info.format = r.pick([undefined, "r", "wDT", "dt"]);
      if (kind === "customEmoji") info.customEmojiId = String(r.big(r.pick([8, 40, 63])) + 1n);
      if (kind === "blockquote") info.collapsible = r.bool() || undefined;
      if (kind === "pre") info.language = r.pick(["", "js", "c++", "a-b"]);
      if (kind === "pre" || kind === "code") kids = [piece(r, 8)];
      else if (kind === "customEmoji") kids = [r.pick(["😀", "👍", "x"])];
      else kids = tree(r, o, new Set([...open, kind === "textMention" || kind === "dateTime" ? "textLink" : kind]), depth + 1);
      out.push({ kind, info, kids });
    } else out.push(piece(r, 6));
  }
  return out;
}
/** text and entities of a tree, in the documented order */
export function denote(nodes: (Node | string)[]): { text: string; entities: A[] } {
  let text = "";
  const entities: A[] = [];
  const walk = (n: Node | string) => {
    if (typeof n === "string") return void (text += n);
    const offset = text.length;
    n.kids.forEach(walk);
    const length = text.length - offset;
    if (length) entities.push({ type: n.kind, offset, length, ...n.info });
  };
  nodes.forEach(walk);
  return { text, entities: order(entities) };
}
export const order = (l: A[]) => [...l].sort((a, b) => a.offset - b.offset || b.length - a.length || PRIORITY[a.type] - PRIORITY[b.type]);
export const canon = (e: A) => JSON.stringify(Object.fromEntries(Object.keys(e).sort().filter((k) => e[k] !== undefined).map((k) => [k, e[k]])));
export const canonAll = (l: A[]) => l.map(canon).join(" ");
/** null when every entity lies inside the text with positive length */
export function outside(text: string, entities: A[]): string | null {
  for (const e of entities) if (!(Number.isInteger(e.offset) && Number.isInteger(e.length) && e.length > 0 && e.offset >= 0 && e.offset + e.length <= text.length)) return canon(e);
  return null;
}
