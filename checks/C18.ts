import { turn } from "../lib/env.ts";
import { cat, Check, same, show } from "../lib/core.ts";
import { type Kind, link, outcome, within } from "../lib/link.ts";
import { chunked } from "../lib/conn.ts";
import { ByteQueue } from "file:///repo/connection/0_byte_queue.ts";

const ck = new Check("C18", {
  level: "exploration",
  rule: "Histories of concurrent reads, writes, peer data, closes by either side and reopenings run on every connection class against in-memory, loopback or scripted peers, and are compared with a byte-stream model; the byte queue runs lock-step with a flat array. Non-trivial when the (class, history shape) is new.",
  assumptions: ["Bytes not yet read when a connection closes may be lost"],
  quickSeconds: 60,
  thoroughSeconds: 600,
});
// deno-lint-ignore no-explicit-any
type A = any;

ck.part("byte-queue", { quick: 6000, thorough: 150000 }, (t) => {
  const r = t.rng;
  const q = new ByteQueue();
  let model: Uint8Array<ArrayBuffer> = new Uint8Array();
  let ops = "";
  const many = r.bool(0.3);
  for (let i = 0; i < (many ? 400 : 60); i++) {
    const k = r.int(0, 9);
    if (k < 5) {
      const b = r.bytes(r.pick([0, 1, 1, 2, 5, 16, 100]));
      const view = r.bool() ? b : cat([9, 9], b, [9]).subarray(2, 2 + b.length);
      q.push(view);
      model = cat(model, b);
      ops += "p" + b.length;
    } else if (k < 9) {
      const n = r.bool(0.1) ? model.length : Math.min(model.length, r.int(0, many ? 6 : 40));
      const host = new Uint8Array(n + 2).fill(7);
      q.read(host.subarray(1, 1 + n));
      t.ensure(same(host.subarray(1, 1 + n), model.subarray(0, n)) && host[0] === 7 && host[n + 1] === 7, "queue-read", () => `read of ${n} bytes returns ${show(host)} instead of ${show(model.subarray(0, n))} after ${ops}`);
      model = model.slice(n);
      ops += "r" + n;
    } else if (r.bool(0.3)) {
      q.clear();
      model = new Uint8Array();
      ops += "c";
    } else {
      let threw = false;
      const d = new Uint8Array(model.length + r.int(1, 5));
      try {
        q.read(d);
      } catch {
        threw = true;
      }
      t.ensure(threw, "queue-overread", "reading more than there is succeeds");
      ops += "o";
    }
    t.ensure(q.length === model.length, "queue-length", () => `length ${q.length} instead of ${model.length} after ${ops}`);
  }
  t.sig(ops.slice(0, 200));
  t.count("queue operations", 60);
});

async function history(t: A, kind: Kind) {
  const r = t.rng, node = kind.endsWith("node");
  const L = await link(kind, r, {
    socks: { method: 0 },
    tls: { secret: r.bytes(16), domain: new TextEncoder().encode("example.com"), now: () => Math.floor(Date.now() / 1000) },
    cred: undefined,
  });
  const states: boolean[] = [];
  let cr = 0, cw = 0;
  L.conn.stateChangeHandler = (x: boolean) => states.push(x);
  L.conn.callback = { read: (n: number) => cr += n, write: (n: number) => cw += n };
  const wait = <T>(p: Promise<T>) => within(p, 4000, node);
  let shape = "";
  const stale: Promise<A>[] = [];
  try {
    const unopened = await wait(outcome((async () => await L.conn.write(new Uint8Array(4)))()));
    t.ensure(unopened && !unopened.ok && !L.conn.isConnected, `unopened:${kind}`, "writing before opening is not refused");
    const rounds = r.int(1, 3);
    for (let round = 0; round < rounds; round++) {
      const n0 = states.length;
      const op = await wait(outcome(L.conn.open()));
      t.ensure(op?.ok, `open:${kind}`, () => `opening fails in round ${round}: ${show(op)}`);
      t.ensure(L.conn.isConnected, `open:${kind}`, "not connected after opening");
      t.ensure(states.length > n0 && states.at(-1) === true, `notify:${kind}`, () => `opening notified ${states.slice(n0)}`);
      const again = r.bool(0.3) && kind !== "ws" ? await wait(outcome(L.conn.open())) : { ok: true };
      t.ensure(again?.ok && L.conn.isConnected, `open:${kind}`, "opening an open connection fails");
      const side = L.sides.at(-1)!;
      t.ensure(L.sides.length === round + 1, `open:${kind}`, () => `${L.sides.length} sockets after ${round + 1} openings`);
      const base = { in: L.sides.slice(0, -1).reduce((a: number, s: A) => a + s.rawIn, 0) };
      // traffic
      const down: Uint8Array[] = [], up: Uint8Array[] = [];
      const reads: { p: Uint8Array; at: number; out: Promise<A>; done: boolean; ok?: boolean; e?: unknown }[] = [];
      let asked = 0, sent = 0;
      const writes: Promise<A>[] = [];
      const startRead = (n: number) => {
        const p = new Uint8Array(n);
        const x: A = { p, at: asked, done: false };
        asked += n;
        x.out = outcome(L.conn.read(p)).then((o: A) => {
          x.done = true;
          x.ok = o.ok;
          x.e = o.e;
          return o;
        });
        reads.push(x);
        shape += "r";
      };
      const steps = r.int(1, node ? 12 : 25);
      for (let i = 0; i < steps; i++) {
        const k = r.int(0, 5);
        if (k < 2) startRead(r.pick([1, 2, 4, 7, 64, 300]));
        else if (k < 4) {
          const b = r.bytes(r.pick([1, 3, 4, 50, 400]));
          down.push(b);
          sent += b.length;
          side.send(b);
          shape += "d";
        } else {
          const b = r.bytes(r.pick([1, 4, 30, 700, 6000]));
          up.push(b);
          writes.push(outcome(L.conn.write(b)));
          shape += "w";
        }
        if (r.bool(0.4)) await turn();
      }
      const ending = r.pick(["local", "peer-end", "peer-error", "none"]);
      const complete = ending === "none" || r.bool(0.6);
      if (complete && asked > sent) {
        const b = r.bytes(asked - sent);
        down.push(b);
        sent = asked;
        side.send(b);
      }
      const stream = cat(...down);
      const check = () => {
        for (const x of reads) {
          if (x.done && !x.ok) break; // a failed read need not have consumed anything
          if (x.done && x.ok) t.ensure(same(x.p, stream.subarray(x.at, x.at + x.p.length)), `read-bytes:${kind}`, () => `read of ${x.p.length} bytes at ${x.at} returned ${show(x.p, 80)} instead of ${show(stream.subarray(x.at, x.at + x.p.length), 80)}`, { shape });
        }
      };
      if (complete) {
        const all = await wait(Promise.all([...reads.map((x) => x.out), ...writes]));
        t.ensure(all !== null, `stuck:${kind}`, () => `reads or writes hang although ${sent} bytes were sent for ${asked} asked (${shape}, done ${reads.map((x) => x.done)})`);
        t.ensure(all.every((o: A) => o.ok), `traffic:${kind}`, () => `a read or write fails on an open connection: ${show(all)}`);
        check();
        const total = cat(...up);
        await within((async () => {
          while (side.peer.data.reduce((a: number, x: A) => a + x.length, 0) < total.length) await (node ? new Promise((f) => setTimeout(f, 1)) : turn());
        })(), 3000, node);
        const got = cat(...side.peer.data);
        t.ensure(same(got, total), `write-bytes:${kind}`, () => `${up.map((x) => x.length)} bytes written, ${got.length} arrive${got.length === total.length ? " in another order" : ""}`, { shape });
        t.ensure(side.peer.problem === null, `peer:${kind}`, () => side.peer.problem!);
        t.count("bytes checked", total.length + asked);
        if (!node || round === 0) {
          t.ensure(cw === base.in + side.rawIn, `counted-writes:${kind}`, () => `${base.in + side.rawIn} bytes written in all, ${cw} counted`);
        }
      } else {
        for (let i = 0; i < r.int(0, 5); i++) await turn();
      }
      shape += ending[0] + (ending[5] ?? "");
      if (ending === "none") {
        if (round < rounds - 1) {
          L.conn.close();
        } else {
          t.ensure(L.conn.isConnected, `spontaneous:${kind}`, "closed without a reason");
          t.ensure(states.at(-1) === true, `notify:${kind}`, "notified a closure that did not happen");
          break;
        }
      } else {
        // one more waiting read, so that there is something to fail
        if (r.bool(0.7)) startRead(asked < sent ? sent - asked + 5 : 5);
        if (r.bool(0.5)) await turn();
        if (ending === "local") {
          if (L.conn.isConnected) L.conn.close();
        } else {
          side.end(ending === "peer-end" ? "end" : "error");
          if (kind === "tcp" || kind === "socks5" || kind === "tls") startRead(sent - Math.min(asked, sent) + 5); // these classes learn of the end by reading
        }
      }
      if (ending === "local" && round < rounds - 1 && r.bool(0.5)) { // reopened at once, before anything could settle
        shape += "!";
        stale.push(...reads.map((x) => x.out), ...writes);
        continue;
      }
      const settled = await wait(Promise.all([...reads.map((x) => x.out), ...writes]));
      t.ensure(settled !== null, `hang-after-close:${kind}`, () => `after ${ending}, ${reads.filter((x) => !x.done).length} reads are still waiting (${shape})`);
      check();
      for (const x of reads) if (x.done && !x.ok) t.ensure(x.e instanceof Error, "error-kind", "a read fails with something that is not an error");
      if (node || kind === "ws") await wait((async () => {
        while (L.conn.isConnected || states.at(-1) !== false) await (node ? new Promise((f) => setTimeout(f, 1)) : turn());
      })());
      t.ensure(!L.conn.isConnected, `still-open:${kind}`, () => `still connected after ${ending} (${shape})`);
      if (ending.startsWith("peer")) t.ensure(states.at(-1) === false, `notify:${kind}`, () => `closing by the peer left the notifications at ${states}`);
      if (!side.closedByClient()) await wait((async () => {
        while (!side.closedByClient()) await (node ? new Promise((f) => setTimeout(f, 1)) : turn());
      })());
      t.ensure(side.closedByClient(), `not-released:${kind}`, () => `the underlying connection is still open after ${ending} (${shape})`);
      const rd = await wait(outcome((async () => await L.conn.read(new Uint8Array(1)))()));
      const wr = await wait(outcome((async () => await L.conn.write(new Uint8Array(4)))()));
      t.ensure(rd && !rd.ok && wr && !wr.ok, `closed-use:${kind}`, () => `a closed connection accepts reads or writes: ${show([rd, wr])}`);
      let threw = false;
      try {
        L.conn.close();
      } catch {
        threw = true;
      }
      t.ensure(threw, `closed-use:${kind}`, "closing a closed connection is not refused");
      for (let i = 0; i < 4; i++) await turn();
      if (node) await new Promise((f) => setTimeout(f, 2));
    }
    if (stale.length) {
      const all = await wait(Promise.all(stale));
      t.ensure(all !== null, `hang-after-close:${kind}`, () => `reads or writes of a connection that was closed and reopened at once are still waiting (${shape})`);
    }
    t.sig(`${kind}/${shape}`);
    t.state(kind, shape);
  } finally {
    await L.cleanup();
  }
}
for (const kind of ["tcp", "socks5", "tls", "ws"] as const) ck.part(kind, { quick: 1500, thorough: 30000, rejections: true }, (t) => history(t, kind));
for (const kind of ["tcp-node", "socks5-node", "tls-node"] as const) ck.part(kind, { quick: 120, thorough: 2500, rejections: true, weight: 2 }, (t) => history(t, kind));

ck.part("refused-connect", { quick: 60, thorough: 500 }, async (t) => {
  const r = t.rng;
  const kind = (["tcp", "socks5", "tls", "ws", "tcp-node", "socks5-node", "tls-node"] as const)[t.index % 7];
  const L = await link(kind, r, { socks: { method: 0 }, tls: { secret: r.bytes(16), domain: new TextEncoder().encode("a.b"), now: () => Math.floor(Date.now() / 1000) }, refuseConnect: true });
  const states: boolean[] = [];
  L.conn.stateChangeHandler = (x: boolean) => states.push(x);
  try {
    const o = await within(outcome((async () => await L.conn.open())()), 3000, kind.endsWith("node"));
    t.sig(kind);
    t.ensure(o && !o.ok, `refused:${kind}`, () => `opening towards a refusing endpoint: ${show(o)}`);
    t.ensure(!L.conn.isConnected && !states.includes(true), `refused:${kind}`, "connected although refused");
  } finally {
    await L.cleanup();
  }
});
void chunked;
await ck.main();
