import { Rng, turns } from "../lib/env.ts";
import { run, sleep, vclock } from "../lib/vclock.ts";
import { cat, Check, same, show } from "../lib/core.ts";
import { Mutex } from "file:///repo/utilities/0_mutex.ts";
import { Queue } from "file:///repo/utilities/2_queue.ts";
import { AbortableLoop } from "file:///repo/client/0_abortable_loop.ts";
import { PartStream } from "file:///repo/utilities/0_part_stream.ts";
import { ClientEncryptedPool } from "file:///repo/client/3_client_encrypted_pool.ts";
// deno-lint-ignore no-explicit-any
type A = any;
void vclock;
const ck = new Check("C34", {
  level: "exploration",
  rule: "Random schedules of acquisitions, jobs, loop starts and aborts with delays, failures and synchronous bodies run on the real primitives while entry and exit events are checked against reference models. A case is one schedule.",
  assumptions: ["Jobs return a promise", "Holders of a lock release it"],
  quickSeconds: 50,
  thoroughSeconds: 400,
});
const wait = async (r: Rng) => {
  const k = r.int(0, 4);
  if (k === 0) return;
  if (k === 1) await sleep(r.int(0, 30));
  else for (let i = r.int(1, 5); i > 0; i--) await null;
};
ck.part("mutex", { quick: 6000, thorough: 120000 }, async (t) => {
  const r = t.rng, m = new Mutex(), n = r.int(1, 12);
  const asked: number[] = [], got: number[] = [];
  let inside = 0, most = 0;
  const job = async (i: number) => {
    await wait(r);
    asked.push(i);
    const unlock = await m.lock();
    got.push(i);
    inside++;
    most = Math.max(most, inside);
    t.ensure(inside === 1, "overlap", `${inside} holders at once after ${asked} asked`);
    const fails = r.bool(0.2);
    try {
      await wait(r);
      if (fails) throw new Error("x");
    } catch {
      // released all the same
    } finally {
      inside--;
      unlock();
      if (r.bool(0.2)) unlock(); // releasing again must not admit two
    }
    if (r.bool(0.2)) await job(i + 100);
  };
  await run(Promise.all(Array.from({ length: n }, (_, i) => job(i))), 60000, "all lock holders");
  t.ensure(got.join() === asked.join(), "order", `asked in the order ${asked}, admitted in the order ${got}`);
  t.sig(asked.join());
  t.state("orders", asked.slice(0, 6).join());
  t.count("locks", got.length);
});
ck.part("queue", { quick: 6000, thorough: 120000, rejections: true } as A, async (t) => {
  const r = t.rng, q = new Queue("verif"), log: string[] = [], order: number[] = [];
  let added = 0, running = 0;
  const add = () => {
    const i = added++;
    order.push(i);
    const fail = r.bool(0.25), nested = r.bool(0.15) && added < 40;
    q.add(async () => {
      running++;
      t.ensure(running === 1, "overlap", `${running} jobs run at once`);
      log.push("s" + i);
      if (nested && r.bool()) add();
      await wait(r);
      if (nested) add();
      log.push("e" + i);
      running--;
      if (fail) throw r.pick([new Error("job"), null, "text", undefined]);
    });
  };
  const body = async () => {
    for (let i = r.int(1, 14); i > 0; i--) {
      add();
      if (r.bool(0.6)) await wait(r);
      if (r.bool(0.05)) await sleep(500); // let it drain
    }
    await sleep(3000);
  };
  await run(body(), 60000, "queue");
  const want = order.flatMap((i) => ["s" + i, "e" + i]).join();
  t.ensure(log.join() === want, "order", `jobs ran ${log.join()}, should run ${want}`);
  t.sig(log.join() + r.u32());
  t.count("jobs", added);
});
// Queues that are never empty for thousands of jobs, and ones that get thousands at once.
ck.part("queue-long", { quick: 12, thorough: 400, weight: 0.3, rejections: true } as A, async (t) => {
  const r = t.rng, q = new Queue("verif"), log: number[] = [];
  const n = r.pick([300, 1100, 2500, 5000, 9000]), keep = r.pick([1, 2, 30, 700]), burst = r.pick([1, 5, 900]);
  let added = 0, running = 0;
  const add = () => {
    const i = added++;
    q.add(async () => {
      running++;
      t.ensure(running === 1, "overlap", `${running} jobs run at once`);
      log.push(i);
      if (added < n && added - i <= keep) for (let k = burst; k > 0; k--) add();
      await null;
      running--;
    });
  };
  await run(
    (async () => {
      for (let i = 0; i < keep; i++) add();
      for (let last = -1; last !== log.length;) last = log.length, await sleep(100);
    })(),
    600000,
    "queue",
  );
  t.ensure(log.length === added && log.every((v, i) => v === i), "order-long", () => `of ${added} jobs, ${log.length} ran; the first one out of order is at ${log.findIndex((v, i) => v !== i)} (${keep} waiting, bursts of ${burst})`);
  t.sig(`${n}/${keep}/${burst}`);
  t.count("jobs", added);
});
ck.part("loop", { quick: 6000, thorough: 120000 }, async (t) => {
  // reference: idle / on / ending (aborted, body still running) / again (ending, started since)
  const r = t.rng;
  let state = "idle", running = 0, bodies = 0, errors = 0, runs = 0;
  const trace: string[] = [];
  let signal: A = null;
  const errorAction = r.int(0, 3);
  const settled = () => {
    if (state === "ending") state = "idle";
    else if (state === "again") state = "on", runs++;
  };
  const stop = () => {
    trace.push("abort");
    if (state === "on" || state === "again") state = running ? "ending" : "idle";
    loop.abort();
    if (running && signal) t.ensure(signal.aborted, "signal", `the body's signal is not aborted after abort (${trace})`);
  };
  const go = () => {
    trace.push("start");
    if (state === "idle") state = "on", runs++;
    else if (state === "ending") state = "again";
    loop.start();
  };
  const loop: AbortableLoop = new AbortableLoop(async (l, s) => {
    trace.push("body");
    running++;
    bodies++;
    t.ensure(l === loop, "argument", "the body gets another loop");
    t.ensure(running === 1, "overlap", `${running} bodies run at once (${trace.slice(-20)})`);
    t.ensure(state === "on", "unwanted", `a body starts in state ${state} (${trace.slice(-20)})`);
    t.ensure(!s.aborted, "signal", `a body starts with an aborted signal (${trace.slice(-20)})`);
    t.ensure(signal !== s || runs === run_, "signal", "a stopped loop's signal is used again");
    run_ = runs;
    signal = s;
    await sleep(r.int(1, 30));
    if (r.bool(0.1)) stop();
    if (r.bool(0.1)) go();
    await wait(r);
    trace.push("end");
    running--;
    const fail = r.bool(0.3);
    const aborted = state !== "on";
    failing = fail && !aborted;
    settled();
    if (fail) throw new Error("body");
  }, (l, e) => {
    errors++;
    trace.push("error");
    t.ensure((e as Error).message === "body" && failing, "error", `an error is reported without a failing running body (${trace.slice(-20)})`);
    failing = false;
    if (errorAction === 1) {
      state = "idle";
      l.abort();
    }
  });
  let failing = false, run_ = 0;
  const script = async () => {
    for (let i = r.int(3, 14); i > 0; i--) {
      // actions between bodies are avoided: they come while a body runs or while idle
      if (running || state === "idle") r.bool(0.55) ? go() : stop();
      await sleep(r.int(0, 25));
    }
    if (state === "idle") go();
    // a running loop keeps running
    const before = bodies;
    await sleep(200);
    t.ensure(state !== "on" || bodies > before, "stalled", `a started loop does not run (${trace.slice(-20)})`);
    while (state !== "idle") {
      if (running) stop();
      await sleep(3);
    }
    await sleep(100);
    const after = bodies;
    await sleep(300);
    t.ensure(bodies === after && running === 0, "not-stopped", `an aborted loop goes on (${trace.slice(-20)})`);
    go();
    await sleep(60);
    t.ensure(bodies > after, "no-restart", `an aborted loop cannot be started again (${trace.slice(-20)})`);
    while (state !== "idle") {
      if (running) stop();
      await sleep(3);
    }
    await sleep(60);
  };
  await run(script(), 600000, "loop script");
  t.sig(trace.join());
  t.state("traces", trace.slice(0, 10).join());
  t.count("bodies", bodies);
  t.count("body-errors", errors);
});
ck.part("sync-loop", { quick: 500, thorough: 5000 }, async (t) => {
  const r = t.rng, limit = r.int(2, 50);
  let n = 0, errors = 0;
  const loop = new AbortableLoop((l) => {
    n++;
    if (n === limit) l.abort();
    if (n % 3 === 0) throw new Error("x");
  }, () => errors++);
  loop.start();
  loop.start();
  await turns(400);
  t.ensure(n === limit, "count", `a synchronous loop aborting itself in body ${limit} ran ${n} times`);
  const want = Math.floor((limit - 1) / 3);
  t.ensure(errors === want, "errors", `${errors} errors reported, should be ${want}`);
  t.sig(String(limit));
});
ck.part("parts", { quick: 3000, thorough: 60000 }, async (t) => {
  const r = t.rng, size = r.pick([1, 2, 7, 64, 512, 1024, 4096]);
  const total = r.pick([0, 1, size - 1, size, size + 1, 2 * size, 3 * size - 1, 3 * size + 1, r.int(0, 9 * size)]);
  const data = r.bytes(Math.max(0, total)), chunks: Uint8Array[] = [];
  const style = r.int(0, 3);
  for (let i = 0; i < data.length;) {
    const n = style === 0 ? data.length : style === 1 ? 1 + r.int(0, 3) : style === 2 ? size : r.int(0, 2 * size);
    chunks.push(data.slice(i, i + n));
    i += n;
  }
  if (chunks.length > 4000) return;
  const copies = chunks.map((c) => c.slice());
  const out: A[] = [];
  const reading = (async () => {
    const src = new ReadableStream({ start(c) { for (const x of chunks) c.enqueue(x); c.close(); } });
    for await (const p of src.pipeThrough(new PartStream(size) as A)) {
      out.push({ ...(p as A), copy: (p as A).bytes.slice() });
      if (r.bool(0.3)) await null;
    }
  })();
  await run(reading, 60000, "parts");
  t.sig(`${size} ${data.length} ${style}`);
  const what = `${data.length} bytes in ${chunks.length} chunks, parts of ${size}`;
  t.ensure(same(cat(...out.map((p) => p.bytes)), data), "bytes", `${what}: the parts do not make up the input`);
  t.ensure(out.every((p) => same(p.bytes, p.copy)), "reused", `${what}: a part changed after it was handed out`);
  t.ensure(chunks.every((c, i) => same(c, copies[i])), "input", `${what}: the input was changed`);
  t.ensure(out.every((p, i) => p.part === i), "numbering", `${what}: parts are numbered ${out.map((p) => p.part)}`);
  t.ensure(out.slice(0, -1).every((p) => p.bytes.length === size) && (data.length === 0 || (out.at(-1).bytes.length > 0 && out.at(-1).bytes.length <= size)), "sizes", `${what}: parts have ${out.map((p) => p.bytes.length)} bytes`);
  t.ensure(out.length === Math.max(1, Math.ceil(data.length / size)), "count", `${what}: ${out.length} parts`);
  t.ensure(out.at(-1).totalParts === Math.ceil(data.length / size) && out.slice(0, -1).every((p) => p.totalParts === -1), "total", `${what}: totals ${out.map((p) => p.totalParts)}`);
  t.ensure(out.every((p) => p.isSmall === data.length <= size), "small", `${what}: small is ${out.map((p) => p.isSmall)}`);
  t.count("parts", out.length);
});
ck.part("pool", { quick: 1000, thorough: 20000 }, (t) => {
  const r = t.rng, pool = new ClientEncryptedPool(), n = r.int(1, 9);
  const down: number[] = [];
  for (let i = 0; i < n; i++) pool.add({ i, disconnect: () => down.push(i) } as A);
  const rounds = r.int(1, 5), got: number[] = [];
  for (let i = 0; i < n * rounds; i++) got.push((pool.nextClient() as A).i);
  t.sig(`${n} ${rounds}`);
  for (let i = 0; i < rounds; i++) t.ensure(new Set(got.slice(i * n, (i + 1) * n)).size === n, "even", `of ${n} members round ${i} hands out ${got.slice(i * n, (i + 1) * n)}`);
  t.ensure(pool.size === n, "size", `a pool of ${n} says ${pool.size}`);
  const seen: number[] = [];
  pool.map((c: A) => void seen.push(c.i));
  t.ensure(seen.join() === Array.from({ length: n }, (_, i) => i).join(), "map", `map visits ${seen}`);
  pool.disconnect();
  t.ensure(down.length === n, "disconnect", `disconnecting reaches ${show(down)} of ${n}`);
});
await ck.main();
