import "../lib/env.ts";
import { cat, Check, hex, same, show } from "../lib/core.ts";
import { type Kind, link, outcome, within } from "../lib/link.ts";

const ck = new Check("C17", {
  level: "exploration",
  rule: "The real SOCKS5 and fake-TLS classes (Deno and Node variants) talk to reference proxies whose answers are split and glued arbitrarily, refuse, forge or stop; the proxy validates every byte. Non-trivial when the (variant, script, address kind, chunking seed) is new.",
  assumptions: ["Domain names and credentials are ASCII and no longer than the protocols allow", "A fake-TLS proxy does not send payload before the client does"],
  quickSeconds: 50,
  thoroughSeconds: 600,
});
// deno-lint-ignore no-explicit-any
type A = any;
// fixed wall clock for the timestamp in the greeting
let now = 1_760_000_000_000;
(Date as A).now = () => now;

function v6(r: A): [string, Uint8Array] {
  const w = Array.from({ length: 8 }, () => r.pick([0, 0, 1, 0xffff, r.int(0, 65535)]));
  const bytes = new Uint8Array(16);
  w.forEach((x, i) => {
    bytes[2 * i] = x >> 8;
    bytes[2 * i + 1] = x;
  });
  let s = w.map((x) => x.toString(16)).join(":");
  if (r.bool()) { // compress one run of zeros
    let best = -1, len = 0;
    for (let i = 0; i < 8; i++) {
      let j = i;
      while (j < 8 && w[j] === 0) j++;
      if (j - i > len) [best, len] = [i, j - i];
    }
    if (len >= 2) s = w.slice(0, best).map((x) => x.toString(16)).join(":") + "::" + w.slice(best + len).map((x) => x.toString(16)).join(":");
  }
  return [s, bytes];
}

async function socks(t: A, kind: Kind) {
  const r = t.rng;
  const ak = r.int(0, 2);
  let host: string, want: Uint8Array;
  if (ak === 0) {
    const b = r.bytes(4);
    host = [...b].join(".");
    want = b;
  } else if (ak === 1) [host, want] = v6(r);
  else {
    host = r.pick(["example.com", "a.b", "x".repeat(63) + ".org", "y".repeat(250) + ".net".slice(0, 4) + "z", `h${r.u32()}.test`]);
    want = new TextEncoder().encode(host);
  }
  const port = r.pick([80, 443, 1, 65535, r.int(1, 65535)]);
  const hasCred = r.bool(0.6);
  const cred = hasCred ? { username: r.bool(0.7) ? "u".repeat(r.pick([1, 5, 255])) : "ü€".repeat(r.pick([1, 40, 51, 52, 60])), password: r.bool(0.7) ? "p" + "w".repeat(r.pick([0, 7, 254])) : "é".repeat(r.pick([1, 127, 128, 140])) } : r.bool() ? undefined : { username: "", password: "" };
  const method = r.pick([0, 0, 2, 2, 2, 0xff, 1, 3]);
  const script: A = { method };
  const fault = r.int(0, 7);
  if (fault === 1) script.version = r.pick([0, 4, 6, 255]);
  if (fault === 2) script.authStatus = r.pick([1, 2, 255]);
  if (fault === 3) script.authVersion = r.pick([0, 5, 2]);
  if (fault === 4) script.reply = r.int(1, 9);
  if (fault === 5) script.replyVersion = r.pick([0, 1, 4]);
  const bk = r.int(0, 2);
  script.bound = bk === 0 ? cat([1], r.bytes(6)) : bk === 1 ? cat([4], r.bytes(18)) : (() => {
    const n = r.pick([0, 1, 20, 255]);
    return cat([3, n], r.bytes(n + 2));
  })();
  const glue = r.bool(0.5) ? r.bytes(r.int(1, 50)) : new Uint8Array();
  const cut = fault === 7 ? r.int(0, 30) : undefined;
  const L = await link(kind, r, { socks: script, dest: { host, port }, cred, glue, cutAfter: cut, proxy: { host: r.pick(["10.1.2.3", "proxy.test", "::1"]), port: r.int(1, 65535) } });
  const states: boolean[] = [];
  L.conn.stateChangeHandler = (x: boolean) => states.push(x);
  try {
    const res = await within(outcome(L.conn.open()), 5000, kind.endsWith("node"));
    const peer = L.sides[0]?.peer;
    t.sig(`${kind}/${ak}/${method}/${fault}/${bk}/${hasCred}/${host}/${glue.length}/${res?.ok}`);
    t.ensure(res !== null, `socks-hang:${kind}`, () => `opening neither succeeds nor fails (script ${show(script)}, cut ${cut})`);
    const answers = 2 + (method === 2 ? 2 : 0) + 3 + script.bound.length;
    const cutShort = cut !== undefined && cut < answers;
    const needCred = method === 2 && !hasCred;
    const should = !peer?.refused && !cutShort && !needCred && (method === 0 || method === 2) && script.version === undefined && (method !== 2 || (script.authStatus === undefined && script.authVersion === undefined)) && script.reply === undefined && script.replyVersion === undefined;
    t.ensure(peer.problem === null, `socks-bytes:${kind}`, () => `protocol violation: ${peer.problem}`, { script });
    t.count(should ? "negotiations that must succeed" : "negotiations that must fail");
    t.ensure(res.ok === should, `socks-outcome:${kind}`, () => `opening ${res.ok ? "succeeds" : "fails: " + (res as A).e} although the proxy ${should ? "accepted" : "did not accept"} (${show(script)}, cut ${cut})`);
    if (!should) {
      t.ensure(!L.conn.isConnected && !states.includes(true), `socks-state:${kind}`, "a failed connection counts as connected");
      const rd = await within(outcome((async () => await L.conn.read(new Uint8Array(1)))()), 3000, kind.endsWith("node"));
      t.ensure(rd && !rd.ok, `socks-state:${kind}`, "reading from a failed connection is not refused");
      if (!kind.endsWith("node")) t.ensure(L.sides[0].closedByClient(), `socks-leak:${kind}`, "the socket of a failed negotiation stays open");
      return;
    }
    if (method === 2) t.ensure(same(peer.got.user, new TextEncoder().encode(cred!.username).slice(0, 255)) && same(peer.got.pass, new TextEncoder().encode(cred!.password).slice(0, 255)), `socks-credentials:${kind}`, () => `credentials arrive as ${show(peer.got)}`);
    t.ensure(peer.dest.atyp === [1, 4, 3][ak] && same(peer.dest.addr, want) && peer.dest.port === port, `socks-destination:${kind}`, () => `${host}:${port} arrives as ${show(peer.dest)}`);
    if (L.opened.length) t.ensure(L.opened.length === 1, `socks-proxy:${kind}`, "several sockets opened");
    await relay(t, L, kind, glue, cut !== undefined);
  } finally {
    await L.cleanup();
  }
}
async function relay(t: A, L: A, kind: Kind, glue: Uint8Array, ended = false) {
  const r = t.rng, node = kind.endsWith("node");
  const side = L.sides[0];
  const down: Uint8Array[] = [glue];
  if (!ended) {
    for (let i = 0; i < 3; i++) {
      const b = r.bytes(r.pick([1, 10, 500, 3000, 2873, 2874, 20000]));
      down.push(b);
      side.send(b);
    }
    const up = Array.from({ length: r.int(1, 4) }, () => r.bytes(r.pick([1, 5, 64, 2872, 2873, 2874, 5746, 5747, 9000, 40000])));
    const w = await within(outcome(Promise.all(up.map((b: Uint8Array) => L.conn.write(b)))), 5000, node);
    t.ensure(w?.ok, `write:${kind}`, () => `writing fails: ${show(w)}`);
    const all = cat(...up);
    await within((async () => {
      while (side.peer.data.reduce((a: number, x: A) => a + x.length, 0) < all.length) await new Promise((f) => setTimeout(f, 1));
    })(), 3000, true);
    const got = cat(...side.peer.data);
    t.ensure(side.peer.problem === null, `data-bytes:${kind}`, () => `protocol violation: ${side.peer.problem}`);
    t.ensure(same(got, all), `upstream:${kind}`, () => `${all.length} bytes written (${up.map((x: A) => x.length)}), ${got.length} arrive${got.length === all.length ? ", different" : ""}`);
    t.count("bytes relayed up", all.length);
  }
  const total = cat(...down);
  let o = 0;
  while (o < total.length) {
    const p = new Uint8Array(Math.min(total.length - o, r.pick([1, 4, 100, 5000, 30000])));
    const rd = await within(outcome(L.conn.read(p)), 5000, node);
    if (ended) return; // the stream may end within these bytes
    t.ensure(rd?.ok, `read:${kind}`, () => `reading bytes ${o}.. of ${total.length} fails: ${show(rd)}`);
    t.ensure(same(p, total.subarray(o, o + p.length)), `downstream:${kind}`, () => `bytes ${o}..${o + p.length} of ${total.length} arrive as ${show(p, 100)}`);
    o += p.length;
  }
  t.count("bytes relayed down", total.length);
}
ck.part("socks5", { quick: 2500, thorough: 40000, weight: 2 }, (t) => socks(t, "socks5"));
ck.part("socks5-node", { quick: 250, thorough: 4000, weight: 2 }, (t) => socks(t, "socks5-node"));

async function tls(t: A, kind: Kind) {
  const r = t.rng;
  now = 1_760_000_000_000 + r.int(0, 1e12);
  const secret = r.bytes(16);
  const dl = r.pick([1, 3, 11, 30, 63, 100, 150, 182, r.int(1, 182)]);
  const domain = new Uint8Array(Array.from({ length: dl }, () => r.int(97, 122)));
  const bad = r.bool(0.3) ? r.pick(["digest", "prefix1", "prefix2"]) : "none";
  const cut = r.bool(0.1) ? r.int(0, 100) : undefined;
  const L = await link(kind, r, { tls: { secret, domain, bad, now: () => Math.floor(now / 1000) }, cutAfter: cut });
  const states: boolean[] = [];
  L.conn.stateChangeHandler = (x: boolean) => states.push(x);
  try {
    const res = await within(outcome(L.conn.open()), 5000, kind.endsWith("node"));
    const peer = L.sides[0]?.peer;
    t.sig(`${kind}/${bad}/${dl}/${cut}/${hex(secret.subarray(0, 2))}`);
    t.ensure(peer.problem === null, `tls-greeting:${kind}`, () => `the proxy rejects the greeting: ${peer.problem} (domain of ${dl})`);
    if (res === null && bad.startsWith("prefix")) {
      // a damaged length may leave the client waiting for more; ending the stream must then fail it
      L.sides[0].end("end");
    }
    t.ensure(res !== null, `tls-hang:${kind}`, `opening neither succeeds nor fails (${bad}, cut ${cut})`);
    const should = bad === "none" && cut === undefined;
    t.count(should ? "handshakes that must succeed" : "handshakes that must fail");
    t.ensure(res.ok === should, `tls-outcome:${kind}`, () => `opening ${res.ok ? "succeeds" : "fails: " + (res as A).e} with ${bad}, cut ${cut}`);
    if (!should) {
      t.ensure(!L.conn.isConnected && !states.includes(true), `tls-state:${kind}`, "a failed connection counts as connected");
      const rd = await within(outcome((async () => await L.conn.read(new Uint8Array(1)))()), 3000, kind.endsWith("node"));
      t.ensure(rd && !rd.ok, `tls-state:${kind}`, "reading from a failed connection is not refused");
      if (!kind.endsWith("node")) t.ensure(L.sides[0].closedByClient(), `tls-leak:${kind}`, "the socket of a failed handshake stays open");
      return;
    }
    await relay(t, L, kind, new Uint8Array());
  } finally {
    await L.cleanup();
  }
}
ck.part("fake-tls", { quick: 700, thorough: 12000, weight: 2 }, (t) => tls(t, "tls"));
ck.part("fake-tls-node", { quick: 120, thorough: 2000, weight: 2 }, (t) => tls(t, "tls-node"));
await ck.main();
