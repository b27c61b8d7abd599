import { turn } from "../lib/env.ts";
import { Check, show } from "../lib/core.ts";
import { open } from "../lib/stores.ts";
import { type Kind, link, outcome, within } from "../lib/link.ts";
import { NetworkStatisticsManager } from "file:///repo/client/2_network_statistics_manager.ts";
import { StorageOperations } from "file:///repo/client/0_storage_operations.ts";
// deno-lint-ignore no-explicit-any
type A = any;
const ck = new Check("C41", {
  level: "exploration",
  rule: "Reports of many simulated connections run against the real accounting over real storage back ends that are slow or fail at random; the totals must add up. Real connections of every class exchange traffic with counting peers. A case is one schedule.",
  assumptions: ["A failed storage increment was not applied", "After a failure totals are complete once a later report has been written"],
  quickSeconds: 50,
  thoroughSeconds: 400,
});
const KEYS = ["messages.received", "messages.sent", "media.received", "media.sent"];
const flat = (s: A) => [s.messages.received, s.messages.sent, s.media.received, s.media.sent];
ck.part("accounting", { quick: 1200, thorough: 30000, weight: 3, rejections: true }, async (t) => {
  const r = t.rng;
  const kind = t.index % 12 === 0 ? "kv" : r.pick(["memory", "local", "idb"] as const);
  const S = await open(kind, r);
  let failing = r.pick([0, 0, 0.1, 0.5]);
  const slow = r.int(0, 6);
  let busy = 0, failures = 0, incrs = 0, overlap = 0;
  const base = new StorageOperations(S.root);
  const storage: A = {
    get: (k: A) => base.get(k),
    incr: async (k: A, by: number) => {
      busy++;
      overlap = Math.max(overlap, busy);
      try {
        for (let i = r.int(0, slow); i > 0; i--) await turn();
        t.ensure(Number.isFinite(by) && by >= 0, "increment", `an increment by ${by}`);
        if (r.bool(failing)) {
          failures++;
          throw new Error("storage unavailable");
        }
        await base.incr(k, by);
        incrs++;
        for (let i = r.int(0, slow); i > 0; i--) await turn();
      } finally {
        busy--;
      }
    },
  };
  try {
    let m = new NetworkStatisticsManager({ messageStorage: storage } as A);
    const want = [0, 0, 0, 0];
    const conns = Array.from({ length: r.int(1, 8) }, () => ({ media: r.bool(), cb: null as A }));
    for (const c of conns) c.cb = m.getTransportReadWriteCallback(c.media);
    let last = [0, 0, 0, 0], quietAt = 0;
    const look = async () => {
      const now = flat(await m.getNetworkStatistics());
      t.ensure(now.every((v, i) => v >= last[i] || quietAt), "decrease", `totals went from ${last} to ${now}`);
      t.ensure(now.every((v, i) => v <= want[i]), "excess", `totals are ${now} when only ${want} bytes were reported`);
      last = now;
    };
    const settle = async () => {
      let idle = 0;
      const end = performance.now() + 20000; // a KV store writes to the disk
      for (let i = 0; (i < 5000 || busy && performance.now() < end) && idle < 8 + 2 * slow; i++) {
        await turn();
        idle = busy ? 0 : idle + 1;
      }
      quietAt = incrs;
    };
    let script = "";
    for (let i = r.int(1, 40); i > 0; i--) {
      const k = r.int(0, 9);
      if (k < 7) {
        const c = r.pick(conns), write = r.bool(), n = r.pick([1, 2, 4, 100, 2 ** 20, 2 ** 31, 0]);
        want[(c.media ? 2 : 0) + (write ? 1 : 0)] += n;
        write ? c.cb.write(n) : c.cb.read(n);
        script += (c.media ? "m" : "d") + (write ? "w" : "r");
      } else if (k === 7) {
        quietAt = 0;
        await look();
      } else for (let j = r.int(1, 6); j > 0; j--) await turn();
      if (r.bool(0.03)) {
        // restart on the same storage once everything is written
        failing = 0;
        for (const media of [false, true]) for (const f of ["read", "write"]) m.getTransportReadWriteCallback(media)[f as "read"](1), want[(media ? 2 : 0) + (f === "write" ? 1 : 0)] += 1;
        await settle();
        m = new NetworkStatisticsManager({ messageStorage: storage } as A);
        for (const c of conns) c.cb = m.getTransportReadWriteCallback(c.media);
        script += "|";
      }
    }
    failing = 0;
    if (failures) {
      await settle();
      for (const media of [false, true]) for (const f of ["read", "write"]) m.getTransportReadWriteCallback(media)[f as "read"](3), want[(media ? 2 : 0) + (f === "write" ? 1 : 0)] += 3;
    }
    await settle();
    const got = flat(await m.getNetworkStatistics());
    t.ensure(got.join() === want.join(), "totals", () => `on ${kind} the totals are ${KEYS.map((k, i) => `${k} ${got[i]} (reported ${want[i]})`).join(", ")} after ${script} with ${failures} failures`);
    t.sig(script + kind);
    t.state("schedules", script.slice(0, 20) + failures);
    t.count("reports", script.length / 2 | 0);
    t.count("failed-increments", failures);
    t.count("increments", incrs);
  } finally {
    await S.close();
  }
});
ck.part("connections", { quick: 280, thorough: 4000, weight: 2 }, async (t) => {
  const r = t.rng;
  const kind: Kind = (["tcp", "socks5", "tls", "ws", "tcp", "socks5", "tls", "ws", "tcp-node", "socks5-node", "tls-node"] as const)[t.index % 11];
  const node = kind.endsWith("node");
  const L = await link(kind, r, { socks: { method: 0 }, tls: { secret: r.bytes(16), domain: new TextEncoder().encode("example.com"), now: () => Math.floor(Date.now() / 1000) } });
  let cr = 0, cw = 0;
  L.conn.callback = { read: (n: number) => cr += n, write: (n: number) => cw += n };
  try {
    for (let round = r.int(1, 2); round > 0; round--) {
      t.ensure((await within(outcome(L.conn.open()), 8000, node))?.ok, `open:${kind}`, "opening fails");
      const side = L.sides.at(-1)!;
      let down = 0;
      for (let i = r.int(1, 6); i > 0; i--) {
        const n = r.int(1, 3000);
        if (r.bool()) t.ensure((await within(outcome(L.conn.write(r.bytes(n))), 8000, node))?.ok, `write:${kind}`, "writing fails");
        else {
          down += n;
          const p = outcome(L.conn.read(new Uint8Array(n)));
          await side.send(r.bytes(n));
          t.ensure((await within(p, 8000, node))?.ok, `read:${kind}`, "reading fails");
        }
      }
      if (node) for (let i = 0; i < 400 && (cw > L.sides.reduce((a, s) => a + s.rawIn, 0) || cr < L.sides.reduce((a, s) => a + s.rawOut, 0)); i++) await new Promise((f) => setTimeout(f, 5));
      const out = L.sides.reduce((a, s) => a + s.rawIn, 0), inn = L.sides.reduce((a, s) => a + s.rawOut, 0);
      t.ensure(cw === out, `sent:${kind}`, `${kind}: ${cw} bytes reported as sent, the peer got ${out}`);
      t.ensure(cr === inn, `received:${kind}`, `${kind}: ${cr} bytes reported as received, the peer sent ${inn}`);
      t.count("bytes", out + inn);
      L.conn.close();
    }
    t.sig(kind + t.index);
    t.state("classes", kind + show(cr > 0) + show(cw > 0));
  } finally {
    await L.cleanup();
  }
});
await ck.main();
