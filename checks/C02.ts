import "../lib/env.ts";
import { Check, deep, same, show } from "../lib/core.ts";
import * as ref from "../lib/tl.ts";
import { Api, Mtproto, SecretChats } from "file:///repo/2_tl.ts";
import { TLReader } from "file:///repo/tl/1_tl_reader.ts";
import { deserializeMessage, deserializeMsgContainer } from "file:///repo/tl/2_message.ts";

const ck = new Check("C02", {
  level: "exploration",
  rule: "Encodings of every constructor are truncated, corrupted and spliced; each outcome of the real decoder is compared with an independent strict decoder (both fail, or both give the same value). Non-trivial when the (constructor, kind of damage, outcome) is new.",
  assumptions: ["The committed copy of the schemas is the intended wire format", "Memory use is observed as growth of heap and external memory across one call"],
  quickSeconds: 70,
  thoroughSeconds: 600,
});
// deno-lint-ignore no-explicit-any
type A = any;
const schemas: [string, ref.RefSchema, A][] = [["api", ref.api, Api], ["mtproto", ref.mtproto, Mtproto], ["secret", ref.secret, SecretChats]];
const isObject = (s: ref.RefSchema, n: string) => s.i[String(s.d[n][0])] === n;
const nameLists = new Map(schemas.map(([l, s]) => [l, Object.keys(s.d).filter((n) => n !== "true" && isObject(s, n))]));

interface Out {
  ok: boolean;
  v?: A;
  rest?: number;
  err?: unknown;
}
function real(x: A, type: string, b: Uint8Array): Out {
  try {
    const rd = new TLReader(b);
    const v = x.deserializeType(type, rd);
    return { ok: true, v, rest: rd.buffer.length };
  } catch (err) {
    return { ok: false, err };
  }
}
function model(s: ref.RefSchema, type: string, b: Uint8Array): Out {
  try {
    const rd = new ref.R(b);
    let v: A;
    if (s.d[type]) {
      if (rd.u32() !== s.d[type][0] >>> 0) throw new ref.RefError("other constructor");
      v = ref.readFields(s, rd, type);
    } else v = ref.decodeType(s, rd, type);
    return { ok: true, v, rest: b.length - rd.o };
  } catch (err) {
    if (!(err instanceof ref.RefError)) throw err;
    return { ok: false, err };
  }
}
function setup(t: A, lists = schemas) {
  const r = t.rng;
  const [label, s, x] = lists[t.index % lists.length];
  const names = nameLists.get(label)!;
  const name = names[Math.floor(t.index / lists.length) % names.length];
  const v = ref.randCtor(s, r, name, { depth: r.int(1, 4), optional: r.pick([0.2, 0.6, 1]), vecMax: 3, budget: { n: 40 } });
  return { r, label, s, x, name, v, bytes: ref.encode(s, v) };
}

ck.part("truncation", { quick: 9000, thorough: 200000, weight: 3 }, (t) => {
  const { r, label, x, s, name, bytes } = setup(t);
  // the buffer really goes on behind the truncation point, so reading past the end would succeed
  const host = new Uint8Array(bytes.length + 64);
  host.set(bytes);
  const cuts = bytes.length <= 48 ? Array.from({ length: bytes.length }, (_, i) => i) : Array.from({ length: 24 }, () => r.int(0, bytes.length - 1)).concat([bytes.length - 1, bytes.length - 4, 3, 4]);
  for (const c of cuts) {
    const type = r.pick([name, "X", s.d[name][2]]);
    const out = real(x, type, host.subarray(0, c));
    t.count("truncation points");
    t.ensure(!out.ok, `truncated:${label}`, () => `${c} of ${bytes.length} bytes of ${name} decode to ${show(out.v)}`, { bytes });
    t.ensure(out.err instanceof Error, "error-kind", "not an error");
  }
  t.sig(`${label}/${name}`);
  t.ensure(same(host.subarray(0, bytes.length), bytes), "input-changed", "decoding modified its input");
});

ck.part("corruption", { quick: 12000, thorough: 300000, weight: 4 }, (t) => {
  const { r, label, s, x, name, bytes } = setup(t);
  const type = r.pick([name, "X", s.d[name][2]]);
  for (let k = 0; k < 6; k++) {
    const b = bytes.slice();
    const kind = r.int(0, 5);
    if (kind === 0) b[r.int(0, b.length - 1)] ^= 1 << r.int(0, 7);
    else if (kind === 1) b[r.int(0, b.length - 1)] = r.int(0, 255);
    else if (kind === 2) new DataView(b.buffer).setUint32(4 * r.int(0, b.length / 4 - 1), r.pick([0x1cb5c415, 0x997275b5, 0xbc799737, 0x3fedd339, 0xffffffff, 0, 1, 2, 0x80000000, s.d[r.pick(nameLists.get(label)!)][0] >>> 0]), true);
    else if (kind === 3) { // swap two words
      const dv = new DataView(b.buffer), i = 4 * r.int(0, b.length / 4 - 1), j = 4 * r.int(0, b.length / 4 - 1);
      const a = dv.getUint32(i, true);
      dv.setUint32(i, dv.getUint32(j, true), true);
      dv.setUint32(j, a, true);
    } else if (kind === 4) for (let i = 0; i < 3; i++) b[r.int(0, b.length - 1)] = r.int(0, 255);
    else b[0] ^= 1 << r.int(0, 7); // constructor number
    const before = b.slice();
    const want = model(s, type, b);
    const got = real(x, type, b);
    t.count(want.ok ? "corrupted but decodable" : "corrupted and refused");
    t.sig(`${label}/${name}/${kind}/${want.ok}`);
    t.ensure(same(b, before), "input-changed", "decoding modified its input");
    t.ensure(got.ok === want.ok, `corruption:${label}:${want.ok ? "refused" : "accepted"}`, () => got.ok ? `invalid bytes (${(want.err as Error).message}) decode as ${type} to ${show(got.v)}` : `valid bytes refused: ${got.err}`, { bytes: b, original: bytes });
    if (!got.ok) continue;
    t.ensure(deep(got.v, want.v) && got.rest === want.rest, `misread:${label}`, () => `${type} decodes to ${show(got.v)} instead of ${show(want.v)}`, { bytes: b });
    // the constructor named "true" doubles as a primitive of the codec and has no encoding as an object
    if (typeof got.v === "object" && got.v._ && !JSON.stringify(got.v, (_k, x) => typeof x === "bigint" ? "n" : x).includes('"_":"true"')) {
      const again = x.serializeObject(got.v);
      const back = real(x, "X", again);
      t.ensure(back.ok && deep(back.v, got.v), `reencode:${label}`, () => `${show(got.v)} does not survive being encoded again: ${show(back)}`, { bytes: b });
    }
  }
});

ck.part("arbitrary", { quick: 8000, thorough: 200000 }, (t) => {
  const r = t.rng;
  const [label, s, x] = r.pick(schemas);
  const name = r.pick(nameLists.get(label)!);
  const b = r.bytes(r.int(0, 200));
  if (r.bool(0.8) && b.length >= 4) new DataView(b.buffer).setUint32(0, s.d[name][0] >>> 0, true);
  if (r.bool(0.5)) for (let i = 8; i < b.length; i++) if (r.bool(0.7)) b[i] = 0;
  const type = r.pick([name, "X", s.d[name][2], "Vector<int>", "Vector<string>", "Bool", "string"]);
  const want = model(s, type, b), got = real(x, type, b);
  t.sig(`${label}/${name}/${type === name}/${want.ok}`);
  t.ensure(got.ok === want.ok && (!got.ok || (deep(got.v, want.v) && got.rest === want.rest)), "arbitrary", () => `${type}: ${show(got)} instead of ${show(want)}`, { bytes: b });
});

ck.part("containers", { quick: 6000, thorough: 150000 }, (t) => {
  const r = t.rng;
  const mk = (d: number): Uint8Array => {
    const n = r.int(0, 4);
    const items = Array.from({ length: n }, () => {
      const body = d > 0 && r.bool(0.4) ? mk(d - 1) : r.bytes(4 * r.int(0, 8));
      const h = new Uint8Array(16 + body.length);
      const dv = new DataView(h.buffer);
      dv.setBigUint64(0, r.big(64), true);
      dv.setUint32(8, r.u32(), true);
      dv.setInt32(12, r.bool(0.9) ? body.length : r.pick([-1, -4, body.length + 4, body.length - 4, 0x7fffffff, -2147483648]), true);
      h.set(body, 16);
      return h;
    });
    const out = new Uint8Array(8 + items.reduce((a, x) => a + x.length, 0));
    const dv = new DataView(out.buffer);
    dv.setUint32(0, 0x73f1f8dc, true);
    dv.setInt32(4, r.bool(0.9) ? n : r.pick([n + 1, -1, 0x1000]), true);
    let o = 8;
    for (const i of items) {
      out.set(i, o);
      o += i.length;
    }
    return out;
  };
  const full = mk(2).subarray(4); // without its constructor
  const b = r.bool(0.3) ? full.subarray(0, r.int(0, full.length)) : full;
  const before = b.slice();
  const parse = (rd: ref.R): A => {
    const n = rd.i32();
    if (n < 0) throw new ref.RefError("count");
    const messages: A[] = [];
    for (let i = 0; i < n; i++) {
      const msg_id = rd.i64(), seqno = rd.i32(), len = rd.i32();
      if (len < 4) {
        if (len >= 0) rd.raw(len);
        throw new ref.RefError("length");
      }
      const body = rd.raw(len);
      const ird = new ref.R(body);
      messages.push({ _: "message", msg_id, seqno, body: ird.u32() === 0x73f1f8dc ? parse(ird) : body });
    }
    return { _: "msg_container", messages };
  };
  let want: Out, got: Out;
  try {
    want = { ok: true, v: parse(new ref.R(b)) };
  } catch (err) {
    if (!(err instanceof ref.RefError)) throw err;
    want = { ok: false, err };
  }
  try {
    got = { ok: true, v: deserializeMsgContainer(b) };
  } catch (err) {
    got = { ok: false, err };
  }
  t.sig(`${want.ok}/${b.length}`);
  t.ensure(got.ok === want.ok && deep(got.v, want.v), "container", () => `container decodes to ${show(got)} instead of ${show(want)}`, { bytes: b });
  t.ensure(same(b, before), "input-changed", "decoding modified its input");
  void deserializeMessage;
});

function used() {
  const m = Deno.memoryUsage();
  return m.heapTotal + m.external;
}
ck.part("resources", { quick: 40, thorough: 400 }, (t) => {
  // counts and lengths far larger than the data must not cost more than the data
  const r = t.rng;
  const k = t.index % 6;
  const claim = r.pick([0x1ffffff, 0x1000000, 0x1fffff0, 0x7fffffff]);
  const words: number[] = [];
  let fn: () => unknown;
  if (k < 3) { // nested vectors of page blocks, each claiming millions of elements
    const depth = r.int(1, 3);
    for (let i = 0; i < depth; i++) words.push(0x76768bed, 1, 0x1cb5c415, claim);
    const d = ref.api.d["pageBlockDetails"];
    for (let i = 0; i < words.length; i += 4) words[i] = d[0] >>> 0;
    fn = () => Api.deserializeType("PageBlock", new Uint8Array(new Uint32Array(words).buffer));
  } else if (k === 3) {
    words.push(0x1cb5c415, claim, 5, 6);
    fn = () => Api.deserializeType(r.pick(["Vector<int>", "Vector<long>"]), new Uint8Array(new Uint32Array(words).buffer), true);
  } else if (k === 4) {
    words.push(claim);
    fn = () => deserializeMsgContainer(new Uint8Array(new Uint32Array(words).buffer));
  } else {
    words.push(0xfffffffe, 0xffffff);
    fn = () => Api.deserializeType("string", new Uint8Array(new Uint32Array(words).buffer), true);
  }
  const before = used();
  const start = performance.now();
  let threw = false;
  try {
    fn();
  } catch (e) {
    threw = e instanceof Error;
  }
  const grown = used() - before;
  t.sig(`${k}/${claim}/${words.length}`);
  t.ensure(threw, "claim-accepted", "a count that the data does not back was accepted", { words });
  t.ensure(grown < 64 << 20, "memory", `${words.length * 4} bytes made the decoder take ${grown >> 20} MB`, { words });
  t.ensure(performance.now() - start < 20000, "time", "took over 20 s");
});

ck.part("deep-nesting", { quick: 12, thorough: 60 }, (t) => {
  const r = t.rng;
  const depth = r.pick([10, 100, 300, 1000, 30000, 200000]);
  // rich text nested `depth` times around an empty text
  const bold = ref.api.d["textBold"][0] >>> 0, empty = ref.api.d["textEmpty"][0] >>> 0;
  const w = new Uint32Array(depth + 1).fill(bold);
  w[depth] = empty;
  const b = new Uint8Array(w.buffer);
  const out = real(Api, "RichText", b);
  t.sig(String(depth));
  if (depth <= 1000) t.ensure(out.ok, "nesting-refused", `nesting of ${depth} refused: ${out.err}`);
  if (out.ok) {
    let v = out.v, n = 0;
    while (v.text) {
      v = v.text;
      n++;
    }
    t.ensure(n === depth && v._ === "textEmpty", "nesting", `nesting of ${depth} read as ${n}`);
  } else t.ensure(out.err instanceof Error, "error-kind", "not an error");
  const cut = real(Api, "RichText", b.subarray(0, b.length - 4));
  t.ensure(!cut.ok, "truncated:api", "truncated nesting accepted");
});
await ck.main();
