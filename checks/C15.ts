import { turn } from "../lib/env.ts";
import "../lib/vclock.ts";
import { cat, Check, same, show } from "../lib/core.ts";
import { Ctr, sha256 } from "../lib/ref.ts";
import { chunked, FakeConn } from "../lib/conn.ts";
import { TransportAbridged, TransportIntermediate } from "file:///repo/3_transport.ts";
import { ConnectionTCP } from "file:///repo/connection/1_connection_tcp.ts";
import { until } from "../lib/vclock.ts";

const ck = new Check("C15", {
  level: "exploration",
  rule: "Random packet sequences are sent (also concurrently) through the real framing over the real TCP connection class with short writes, and recovered by a reference de-framer; peer streams framed by a reference framer are delivered in adversarial chunks. Non-trivial when the (framing, size classes, chunking) is new.",
  assumptions: ["The socket is replaced by an in-memory one with partial reads and writes"],
  quickSeconds: 40,
  thoroughSeconds: 500,
});
// deno-lint-ignore no-explicit-any
type A = any;
type Kind = { name: string; make: (c: A) => A; obf: boolean; pad: boolean; abr: boolean; secret?: Uint8Array };
function kinds(r: A): Kind {
  const secret = r.bytes(16);
  const s17 = cat([0xdd], secret), s30 = cat([0xee], secret, new TextEncoder().encode("example.com"));
  const dcId = r.pick([1, 2, -4, 10002, -10003]);
  return r.pick([
    { name: "abridged", make: (c: A) => new TransportAbridged(c), obf: false, pad: false, abr: true },
    { name: "abridged-obf", make: (c: A) => new TransportAbridged(c, true), obf: true, pad: false, abr: true },
    { name: "intermediate", make: (c: A) => new TransportIntermediate(c), obf: false, pad: false, abr: false },
    { name: "padded", make: (c: A) => new TransportIntermediate(c, { isPadded: true }), obf: false, pad: true, abr: false },
    { name: "intermediate-obf", make: (c: A) => new TransportIntermediate(c, { isObfuscated: true, dcId }), obf: true, pad: false, abr: false },
    { name: "padded-obf", make: (c: A) => new TransportIntermediate(c, { isObfuscated: true, isPadded: true, dcId }), obf: true, pad: true, abr: false },
    { name: "padded-obf-16", make: (c: A) => new TransportIntermediate(c, { isObfuscated: true, isPadded: true, dcId, secret }), obf: true, pad: true, abr: false, secret },
    { name: "padded-obf-17", make: (c: A) => new TransportIntermediate(c, { isObfuscated: true, isPadded: true, dcId, secret: s17 }), obf: true, pad: true, abr: false, secret },
    { name: "padded-obf-tls", make: (c: A) => new TransportIntermediate(c, { isObfuscated: true, isPadded: true, dcId, secret: s30 }), obf: true, pad: true, abr: false, secret },
  ]);
}
const TAG: Record<string, number> = { a: 0xef, i: 0xee, p: 0xdd };
function tag(k: Kind) {
  return TAG[k.abr ? "a" : k.pad ? "p" : "i"];
}
/** Strips and validates the preamble; returns the plain stream and the peer's sending cipher. */
function peer(t: A, k: Kind, raw: Uint8Array) {
  if (!k.obf) {
    const n = k.abr ? 1 : 4;
    t.ensure(raw.length >= n && raw.subarray(0, n).every((x) => x === tag(k)), "preamble", () => `${k.name} starts with ${show(raw.subarray(0, 8))}`);
    return { plain: raw.subarray(n), enc: null as Ctr | null };
  }
  t.ensure(raw.length >= 64, "preamble", "short preamble");
  const init = raw.subarray(0, 64);
  const rev = init.slice(0, 64).reverse();
  const key = (b: Uint8Array) => k.secret ? sha256(cat(b.subarray(8, 40), k.secret)) : b.slice(8, 40);
  const dec = new Ctr(key(init), init.slice(40, 56));
  const head = dec.call(init);
  t.ensure(head.subarray(56, 60).every((x) => x === tag(k)), "preamble-tag", `${k.name} announces ${show(head.subarray(56, 60))}`);
  return { plain: dec.call(raw.subarray(64)), enc: new Ctr(key(rev), rev.slice(40, 56)) };
}
function deframe(t: A, k: Kind, b: Uint8Array): Uint8Array[] {
  const out: Uint8Array[] = [];
  let o = 0;
  while (o < b.length) {
    let n: number;
    if (k.abr) {
      n = b[o++];
      t.ensure(n < 0x80, "frame-length", `abridged length byte ${n}`);
      if (n === 0x7f) {
        n = b[o] | (b[o + 1] << 8) | (b[o + 2] << 16);
        t.ensure(n >= 0x7f, "frame-length", "long form for a short packet");
        o += 3;
      }
      n *= 4;
    } else {
      n = new DataView(b.buffer, b.byteOffset).getUint32(o, true);
      o += 4;
    }
    t.ensure(o + n <= b.length, "frame-length", `${k.name} announces ${n} bytes, ${b.length - o} follow`);
    out.push(b.subarray(o, o + n));
    o += n;
  }
  return out;
}
function frame(r: A, k: Kind, p: Uint8Array): [Uint8Array, Uint8Array] {
  if (k.abr) {
    const n = p.length / 4;
    return [cat(n < 0x7f ? [n] : [0x7f, n & 255, (n >> 8) & 255, (n >> 16) & 255], p), p];
  }
  const padded = k.pad && p.length !== 4 ? cat(p, r.bytes(r.int(0, 15))) : p;
  const h = new Uint8Array(4);
  new DataView(h.buffer).setUint32(0, padded.length, true);
  return [cat(h, padded), padded];
}
function size(r: A, big: boolean) {
  return 4 * r.pick([1, 2, 3, 10, 24, 125, 126, 127, 128, 129, 255, 256, r.int(1, 400), r.int(1, 3000), ...(big ? [0x4000, 0x10000, 0xffff, 0x40001] : [])]);
}
async function open(r: A, k: Kind) {
  const fake = new FakeConn(r);
  const c = new ConnectionTCP("127.0.0.1", 80);
  c.connect = (() => Promise.resolve(fake)) as A;
  let w = 0, rd = 0;
  c.callback = { read: (n: number) => rd += n, write: (n: number) => w += n };
  await c.open();
  const tr = k.make(c);
  await tr.initialize();
  return { fake, c, tr, counted: () => ({ w, rd }) };
}

ck.part("send", { quick: 3000, thorough: 60000, weight: 1 }, async (t) => {
  const r = t.rng, k = kinds(r);
  const { fake, tr, counted } = await open(r, k);
  const n = r.int(1, 8), big = t.index % 40 === 0;
  const packets = Array.from({ length: n }, () => r.bytes(size(r, big)));
  const copies = packets.map((p: Uint8Array) => p.slice());
  const conc = r.bool();
  if (conc) await Promise.all(packets.map((p: Uint8Array) => tr.send(p)));
  else for (const p of packets) await tr.send(p);
  const raw = fake.out;
  const got = deframe(t, k, peer(t, k, raw).plain);
  t.sig(`${k.name}/${conc}/${packets.map((p: Uint8Array) => p.length).join()}`);
  t.count("packets sent", n);
  t.count("short writes", fake.writes - n);
  t.ensure(got.length === n, `send-count:${k.name}`, `${n} packets sent, ${got.length} recovered`);
  for (let i = 0; i < n; i++) {
    const p = copies[i], g = got[i];
    t.ensure(same(packets[i], p), "caller-buffer-changed", "sending changed the caller's buffer");
    t.ensure(k.pad ? g.length >= p.length && g.length < p.length + 16 && same(g.subarray(0, p.length), p) : same(g, p), `send:${k.name}`, () => `packet ${i} of ${p.length} bytes arrives as ${g.length} bytes`, { conc, sizes: packets.map((p: Uint8Array) => p.length) });
  }
  t.ensure(counted().w === raw.length, "counted", `${raw.length} bytes written, ${counted().w} counted`);
});

ck.part("receive", { quick: 3000, thorough: 60000, weight: 1 }, async (t) => {
  const r = t.rng, k = kinds(r);
  const { fake, tr, counted } = await open(r, k);
  const { enc } = peer(t, k, fake.out);
  const n = r.int(1, 8), big = t.index % 40 === 0;
  const expect: Uint8Array[] = [], stream: Uint8Array[] = [];
  for (let i = 0; i < n; i++) {
    const [f, e] = frame(r, k, r.bytes(size(r, big)));
    stream.push(f);
    expect.push(e);
  }
  let raw = cat(...stream);
  if (enc) raw = enc.call(raw) as A;
  const chunks = chunked(r, raw);
  const got: Uint8Array[] = [];
  let err: unknown;
  const reader = (async () => {
    for (let i = 0; i < n; i++) got.push(await tr.receive());
  })().catch((e) => err = e);
  let fed = 0;
  const late = r.bool(0.5);
  for (const c of chunks) {
    fake.in.push(c);
    fed++;
    if (late && fed % 3 === 0 && chunks.length < 400) await turn();
  }
  await until(() => got.length === n || err !== undefined, 1000);
  void reader;
  t.sig(`${k.name}/${late}/${chunks.length}/${expect.map((p) => p.length).join()}`);
  t.count("packets received", got.length);
  t.count("chunks delivered", chunks.length);
  t.ensure(err === undefined, `receive:${k.name}`, `receiving failed: ${err}`);
  t.ensure(got.length === n, `receive-count:${k.name}`, `${n} packets delivered, ${got.length} received`);
  for (let i = 0; i < n; i++) t.ensure(same(got[i], expect[i]), `receive:${k.name}`, () => `packet ${i} of ${expect[i].length} bytes received as ${show(got[i], 100)}`, { sizes: expect.map((p) => p.length), chunks: chunks.map((c) => c.length).slice(0, 100) });
  t.ensure(counted().rd === raw.length, "counted", `${raw.length} bytes read, ${counted().rd} counted`);
});

ck.part("duplex", { quick: 800, thorough: 20000 }, async (t) => {
  // sends and receptions interleaved on one transport
  const r = t.rng, k = kinds(r);
  const { fake, tr } = await open(r, k);
  const { enc } = peer(t, k, fake.out);
  const want: Uint8Array[] = [], got: Uint8Array[] = [], sent: Uint8Array[] = [], sends: Promise<void>[] = [];
  const n = r.int(2, 10);
  const rx = (async () => {
    for (let i = 0; i < n; i++) got.push(await tr.receive());
  })();
  rx.catch(() => {});
  let left = n;
  while (left || r.bool(0.5)) {
    if (left && r.bool()) {
      const [f, e] = frame(r, k, r.bytes(size(r, false)));
      want.push(e);
      for (const c of chunked(r, enc ? enc.call(f) : f)) fake.in.push(c);
      left--;
    } else {
      const p = r.bytes(size(r, false));
      sent.push(p);
      sends.push(tr.send(p));
    }
    if (r.bool(0.3)) await turn();
  }
  await Promise.all(sends);
  await until(() => got.length === n, 1000);
  const out = deframe(t, k, peer(t, k, fake.out).plain);
  t.sig(`${k.name}/${want.map((p) => p.length).join()}/${sent.map((p) => p.length).join()}`);
  t.ensure(got.length === n && got.every((g, i) => same(g, want[i])), `receive:${k.name}`, "received packets differ");
  t.ensure(out.length === sent.length && out.every((g, i) => k.pad ? same(g.subarray(0, sent[i].length), sent[i]) && g.length - sent[i].length < 16 : same(g, sent[i])), `send:${k.name}`, "sent packets differ");
});

ck.part("end-of-stream", { quick: 600, thorough: 10000 }, async (t) => {
  // a packet cut off by the end of the stream is an error, never a shorter packet
  const r = t.rng, k = kinds(r);
  const { fake, tr } = await open(r, k);
  const { enc } = peer(t, k, fake.out);
  const [f] = frame(r, k, r.bytes(size(r, false)));
  const cut = r.int(0, f.length - 1);
  const raw = (enc ? enc.call(f) : f).subarray(0, cut);
  fake.in.push(raw);
  fake.in.end(r.bool() ? null : new Error("reset"));
  let got: Uint8Array | undefined;
  try {
    got = await tr.receive();
  } catch (e) {
    t.ensure(e instanceof Error, "error-kind", "not an error");
  }
  t.sig(`${k.name}/${f.length}/${cut}`);
  t.ensure(got === undefined, "cut-packet", () => `${cut} of ${f.length} bytes were returned as a packet of ${got!.length}`);
});
await ck.main();
