// deno-lint-ignore-file no-explicit-any
import { Rng, say } from "../lib/env.ts";
import { Check, show } from "../lib/core.ts";
import { advance, Feed, run, Stuck } from "../lib/feed.ts";
import { Site } from "../lib/site.ts";
import { FakeWorker } from "../lib/workers.ts";
import { scenario } from "../lib/handlers.ts";
import * as E from "file:///repo/4_errors.ts";
import { Client } from "file:///repo/client/6_client.ts";
import { ClientDispatcher } from "file:///repo/client/6_client_dispatcher.ts";

const ck = new Check("C39", {
  level: "exploration",
  rule: "The library's worker script runs behind ports that clone every message and deliver it late. Every operation of the front end is called with random arguments, many at once, while the hosted client's operations are replaced by recorders; complete hosted clients also run against a service. What the front end's callers and handlers get is compared with what the hosted client did. A case is one set of calls, or one history.",
  assumptions: ["Ports deliver in order", "Errors that are not the library's own lose their class on the way"],
  quickSeconds: 60,
  thoroughSeconds: 600,
});
const X = E as any;
const P = Client.prototype as any, D = ClientDispatcher.prototype as any;
const SPECIAL = new Set(["constructor", "start", "signIn", "download", "init", "handleResponse", "handleWorkerError", "handleInvokeError", "id", "handleUpdate"]);
const ops = Object.getOwnPropertyNames(D).filter((n) => !SPECIAL.has(n) && typeof Object.getOwnPropertyDescriptor(D, n)?.value === "function");
const originals = new Map<string, any>(ops.map((n) => [n, P[n]]));
let ids = 0;

function value(r: Rng, depth = 0): any {
  const x = r.int(0, depth > 2 ? 9 : 14);
  switch (x) {
    case 0: return undefined;
    case 1: return null;
    case 2: return r.bool();
    case 3: return r.int(-5, 5);
    case 4: return r.f() * 1e9;
    case 5: return r.pick(["", "me", "@user", "text \u{1F600}", "x".repeat(300)]);
    case 6: return r.big(64);
    case 7: return r.bytes(r.int(0, 40));
    case 8: return new Date(r.int(0, 2e9) * 1000);
    case 9: return r.pick([-1001234567890, 777000, 0, NaN, Infinity, -0]);
    case 10:
    case 11: return Array.from({ length: r.int(0, 4) }, () => value(r, depth + 1));
    default: return Object.fromEntries(Array.from({ length: r.int(0, 4) }, () => [r.pick(["a", "b", "caption", "offset", "limit", "replyTo"]), value(r, depth + 1)]));
  }
}
const big = (v: any) => show(v, 20000);
function anyError(r: Rng): any {
  return r.pick([
    () => X.constructTelegramError({ _: "rpc_error", error_code: r.pick([400, 420, 303]), error_message: r.pick(["PEER_ID_INVALID", "FLOOD_WAIT_77", "USER_MIGRATE_4", "SOMETHING_ELSE"]) }, { _: "help.getConfig" }),
    () => new X.ConnectionError("c" + r.int(0, 9)),
    () => new X.AccessError("a" + r.int(0, 9)),
    () => new X.InputError("i" + r.int(0, 9)),
    () => new X.TransportError(-r.int(400, 500)),
    () => new X.TLError("t" + r.int(0, 9), ["x", "y"]),
  ])();
}
const sameError = (a: any, b: any) => b?.constructor === a.constructor && b.message === a.message && b.name === a.name && big([a.errorCode, a.errorMessage, a.cause, a.code, a.path, a.originalMessage, a.seconds, a.dc]) === big([b.errorCode, b.errorMessage, b.cause, b.code, b.path, b.originalMessage, b.seconds, b.dc]);

interface Hosted {
  op: string;
  args: any[];
  self: any;
}
ck.part("operations", { quick: 400, thorough: 20000, weight: 2 }, async (t) => {
  const r = t.rng;
  const lat = r.pick([0, 1, 50, 2000]);
  const w = new FakeWorker(r, () => lat ? r.int(0, lat) : 0, r.bool());
  const n = r.pick([1, 2, 3]);
  const names = Array.from({ length: n }, () => "c" + (++ids));
  const log: Hosted[] = [];
  const hosts = new Map<any, string>();
  const plan = new Map<string, { result?: any; error?: any; late: number }[]>();
  try {
    const fronts: any[] = [];
    for (const id of names) {
      const p: any = run(w.front.createClient(id, { apiId: 1000 + fronts.length, apiHash: "h", language: id } as any), 600000, "createClient()");
      fronts.push(await p);
    }
    // as many operations as there are, over the cases
    const picked: string[] = [];
    for (let i = 0; i < 12; i++) picked.push(ops[(t.index * 12 + i) % ops.length]);
    for (let i = r.int(0, 8); i > 0; i--) picked.push(r.pick(picked));
    for (const op of new Set(picked)) {
      // deno-lint-ignore require-await
      P[op] = async function (this: any, ...args: any[]) {
        log.push({ op, args, self: this });
        const id = this.language;
        hosts.set(this, id);
        const q = plan.get(id + op)?.shift();
        if (!q) throw new Error("not expected");
        if (q.late) await new Promise((f) => setTimeout(f, q.late));
        if (q.error) throw q.error;
        return q.result;
      };
    }
    const pending: Promise<void>[] = [];
    const sent: { op: string; id: string; args: any[] }[] = [];
    let settled = 0;
    for (const op of picked.filter((o) => o !== "disconnect")) {
      const i = r.int(0, n - 1);
      const count = Math.max(P[op].length, originals.get(op).length, D[op].length);
      const args = Array.from({ length: r.bool(0.8) ? count : r.int(0, count) }, () => value(r));
      const q = { late: r.pick([0, 0, 5, 300]), ...(r.bool(0.3) ? { error: anyError(r) } : { result: value(r) }) };
      const k = names[i] + op;
      if (!plan.has(k)) plan.set(k, []);
      plan.get(k)!.push(q);
      sent.push({ op, id: names[i], args });
      const before = args.map(big);
      pending.push((async () => {
        let res: any, err: any;
        try {
          res = await fronts[i][op](...args);
        } catch (e) {
          err = e ?? "undefined";
        }
        settled++;
        t.ensure(big(args.map(big)) === big(before), "mutated", `${op} changed its arguments`);
        if ("error" in q) t.ensure(err !== undefined && sameError((q as any).error, err), "error", () => `${op} failed with ${(q as any).error} in the worker and ended with ${err ?? big(res)}`);
        else if (["importAuthString", "addContact", "setContactNote", "signOut"].includes(op)) t.ensure(err === undefined, "result", `${op} ended with ${err}`);
        else t.ensure(err === undefined && big(res) === big((q as any).result), "result", () => `${op} returned ${show((q as any).result)} in the worker and ended with ${err ?? show(res)}`);
      })());
      if (r.bool(0.3)) await advance(r.pick([0, 1, 100]));
      if (r.bool(0.1)) {
        // not for anybody here
        w.emit("message", { data: { type: "response", clientId: "c" + r.int(1e6, 2e6), id: w.posted.at(-1)?.id, isError: r.bool(), data: 5 } });
        w.emit("message", { data: { type: "response", clientId: r.pick(names), id: crypto.randomUUID(), isError: false, data: 5 } });
      }
    }
    await run(Promise.all(pending), 600000, "the operations");
    t.ensure(log.length === sent.length, "calls", `${sent.length} calls reached the hosted clients as ${log.length}`);
    for (const id of names) {
      const a = sent.filter((s) => s.id === id), b = log.filter((l) => l.self.language === id);
      t.ensure(a.length === b.length, "client", `${a.length} calls of a client reached its hosted client as ${b.length}`);
      a.forEach((s, k) => {
        t.ensure(s.op === b[k].op, "order", `call ${k} was ${s.op} and reached the client as ${b[k].op}`);
        const trim = (l: any[]) => {
          l = [...l];
          while (l.length && l.at(-1) === undefined) l.pop();
          return big(l);
        };
        t.ensure(trim(s.args) === trim(b[k].args), "arguments", () => `${s.op} was called with ${trim(s.args)} and got ${trim(b[k].args)}`);
      });
    }
    t.count("operations_called", sent.length);
    for (const s of sent) t.state("operation", s.op);
    t.sample({ clients: n, calls: sent.map((s) => s.op).slice(0, 20), latency: lat, shared: w.shared });
    t.sig(sent.map((s) => s.op + s.args.length).join());
    t.ensure(settled === pending.length, "settled", "a call did not settle");
  } catch (e) {
    if (e instanceof Stuck) t.fail("stuck", e.message);
    throw e;
  } finally {
    for (const [op, f] of originals) P[op] = f;
    w.close();
  }
});

ck.part("failures", { quick: 200, thorough: 8000 }, async (t) => {
  const r = t.rng;
  const lat = r.pick([0, 1, 50, 2000]);
  const w = new FakeWorker(r, () => lat ? r.int(0, lat) : 0, r.bool());
  const id = "c" + (++ids);
  const op = r.pick(ops.filter((o) => o !== "disconnect")), answer = value(r);
  try {
    const front: any = await run(w.front.createClient(id, { apiId: 1, apiHash: "h" }), 600000, "createClient()");
    let reached = 0;
    // deno-lint-ignore require-await
    P[op] = async () => {
      reached++;
      return answer;
    };
    const kind = r.pick(["error", "messageerror", "uncloneable", "unknown-method", "duplicate", "uninitialised"]);
    t.sig(kind + op + lat);
    t.state("failure", kind);
    if (kind === "uninitialised") {
      const other: any = w.front.getClient("c" + (++ids));
      const e = await run(other[op]().then(() => null, (e: any) => e), 600000, "a call of a client that is not there");
      t.ensure(e instanceof X.InputError, "uninitialised", `a call of a client that was never made ended with ${e}`);
    } else if (kind === "duplicate") {
      const e = await run(w.front.createClient(id).then(() => null, (e: any) => e), 600000, "createClient()");
      t.ensure(e instanceof X.InputError, "duplicate", `making a client twice ended with ${e}`);
    } else if (kind === "uncloneable") {
      const e = await run(front[op](() => 1).then(() => null, (e: any) => e), 600000, op);
      t.ensure(op.length && (D[op].length === 0 || e instanceof Error), "uncloneable", `${op} with an argument that cannot be sent ended with ${e}`);
    } else {
      const late = r.int(0, 3000);
      const calls = r.int(1, 5);
      w.edit = (m) => {
        // the worker is stuck and answers nothing
        return { ...m, clientId: "nobody" };
      };
      const l: any[] = Array.from({ length: calls }, () => front[op]().then((v: any) => ({ v }), (e: any) => ({ e })));
      await advance(late);
      const err = new Error("the worker failed");
      if (kind === "error") w.emit("error", new ErrorEvent("error", r.bool() ? { error: err, message: err.message } : { message: err.message }));
      else w.emit(kind === "messageerror" ? "messageerror" : "error", new Event("x"));
      const out = await run(Promise.all(l), 600000, "the calls outstanding when the worker failed");
      for (const o of out) t.ensure(o.e instanceof Error, "outstanding", `a call outstanding when the worker failed ended with ${show(o)}`);
      if (kind === "error") t.ensure(out.every((o: any) => o.e.message === err.message), "failure", `the failure surfaced as ${out[0].e}`);
      t.count("rejected", out.length);
    }
    // the front end keeps working
    w.edit = null;
    const got = await run(front[op](), 600000, op);
    t.ensure(["importAuthString", "addContact", "setContactNote", "signOut"].includes(op) || big(got) === big(answer), "after", `afterwards ${op} returned ${show(got)}`);
    t.ensure(reached >= 1, "after", "the operation was not called");
  } catch (e) {
    if (e instanceof Stuck) t.fail("stuck", e.message);
    throw e;
  } finally {
    for (const [o, f] of originals) P[o] = f;
    w.close();
  }
});

/** a complete hosted client */
async function host(site: Site, w: FakeWorker, params: any): Promise<any> {
  const id = "c" + (++ids);
  w.edit = (m) => m.method === "initClient" ? { ...m, args: [{ ...m.args[0], transportProvider: site.server.provider() }] } : m;
  const client: any = await run(w.front.createClient(id, { apiId: 12345, apiHash: "hash", ...params }), 600000, "createClient()");
  return client;
}

ck.part("failed-calls", { quick: 200, thorough: 8000, weight: 2 }, async (t) => {
  const r = t.rng;
  const site = new Site(t);
  const acc = site.account(77n);
  const lat = r.pick([0, 1, 50, 500]);
  const w = new FakeWorker(r, () => lat ? r.int(0, lat) : 0, r.bool());
  try {
    await scenario(t, site, acc, async (byDefault) => {
      const client = await host(site, w, { authString: site.authString(site.login(acc)), defaultHandlers: byDefault });
      return { client, kill() {} };
    }, (e) => e instanceof Error);
  } finally {
    w.close();
  }
});

ck.part("updates", { quick: 200, thorough: 8000, weight: 2 }, async (t) => {
  const r = t.rng;
  const f = new Feed(t, { channels: r.pick([0, 1, 2]), bot: r.bool(0.3), slow: r.bool(0.3) });
  const lat = r.pick([0, 1, 50, 2000]);
  const w = new FakeWorker(r, () => lat ? r.int(0, lat) : 0, r.bool());
  try {
    const key = f.site.login(f.acc);
    const client = await host(f.site, w, { authString: f.site.authString(key), dropPendingUpdates: false });
    const got: any[] = [];
    client.use(async (ctx: any, next: any) => {
      got.push(ctx.update);
      if (f.o.slow) await new Promise((f) => setTimeout(f, r.pick([0, 10, 3000])));
      if (r.bool(0.1)) throw new Error("a handler fails");
      await next();
    });
    await run(client.start(), 600000, "start()");
    const p: any = { got, client, links: f.site.server.links };
    await f.introduce(f.o.channels ?? 0);
    for (let i = r.pick([5, 15, 40]); i > 0; i--) {
      f.burst(true);
      await advance(r.pick([0, 1, 100, 3000]));
    }
    await advance(120000);
    const posted = w.returned.filter((m) => m.id === "" && !("connectionState" in m.data)).map((m) => big(m.data));
    const mine = got.filter((u) => !("connectionState" in u)).map(big);
    if (Deno.env.get("VERIF_DEBUG")) {
      say(w.returned.filter((m) => m.id === "").map((m) => m.data.type + ":" + (m.data.update?._ ?? m.data.connectionState ?? "")));
      say(got.map((m) => m.type + ":" + (m.update?._ ?? m.connectionState ?? "")));
      for (const c of f.site.server.calls) say(`${c.at} ${c.call._} ${c.call.pts}/${c.call.qts} ${c.call.date} ${c.call.channel?.channel_id}`);
    }
    t.ensure(big(posted) === big(mine) && posted.length === mine.length, "updates", () => `the hosted client sent ${posted.length} updates and the handlers got ${mine.length}; first difference at ${mine.findIndex((m, i) => m !== posted[i])}`);
    const d = f.disorder(p);
    if (d) t.fail(d.key, d.msg);
    t.count("updates_delivered", f.tags(p).length);
    t.sample({ delivered: f.tags(p).length, latency: lat, shared: w.shared });
    t.sig(f.tags(p).join());
  } catch (e) {
    if (e instanceof Stuck) t.fail("stuck", e.message);
    throw e;
  } finally {
    w.close();
  }
});

ck.part("downloads", { quick: 100, thorough: 3000 }, async (t) => {
  const r = t.rng;
  const w = new FakeWorker(r, () => r.int(0, 20), r.bool());
  const size = r.pick([0, 1, 1023, 1024, 1025, 5000, r.int(0, 20000)]), file = r.bytes(size);
  const original = P.downloadChunk;
  try {
    const front: any = await run(w.front.createClient("c" + (++ids), { apiId: 1, apiHash: "h" }), 600000, "createClient()");
    const chunkSize = r.pick([1024, 2048, 4096]), offset = 1024 * r.int(0, 6);
    const asked: any[] = [];
    // deno-lint-ignore require-await
    P.downloadChunk = async (_id: string, params: any) => {
      asked.push(params);
      return file.slice(params.offset, params.offset + params.chunkSize);
    };
    const chunks: Uint8Array[] = [];
    await run((async () => {
      for await (const c of front.download("file", { chunkSize, ...(offset ? { offset } : {}) })) chunks.push(c);
    })(), 600000, "download()");
    const got = chunks.flatMap((c) => [...c]);
    t.ensure(big(got) === big([...file.slice(offset)]), "bytes", `a download of ${size} bytes from ${offset} yielded ${got.length}`);
    t.ensure(chunks.every((c, i) => c.length === chunkSize || i === chunks.length - 1), "chunks", `chunk sizes ${chunks.map((c) => c.length)}`);
    t.sig([size, chunkSize, offset].join());
  } catch (e) {
    if (e instanceof Stuck) t.fail("stuck", e.message);
    throw e;
  } finally {
    P.downloadChunk = original;
    w.close();
  }
});

await ck.main();
