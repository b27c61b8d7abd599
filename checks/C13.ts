import "../lib/env.ts";
import { advance, run, until } from "../lib/vclock.ts";
import { Check, deep, show } from "../lib/core.ts";
import { type A, API, type Inv, World } from "../lib/traffic.ts";
import * as TL from "../lib/tl.ts";
import { LAYER } from "file:///repo/tl/1_telegram_api.ts";
const ck = new Check("C13", {
  level: "exploration",
  rule: "A reference server unwraps every request of a real encrypted client: until the first answer was delivered each request must announce the configured parameters and the layer, afterwards none, and again after the server reports an uninitialised connection; requests of connections without updates are marked unless they transfer files; the inner request equals the caller's. A case is one configuration with one order of requests, answers, errors and reconnections.",
  assumptions: ["The transport delivers packets in order and intact (C15-C18)"],
  quickSeconds: 50,
  thoroughSeconds: 500,
});
const MEDIA = new Set(["getFile", "savePart"]);
const pick = (r: A, n: string) => r.bool(0.5) ? undefined : r.pick(["", n, n + " \u{1f600}", "x".repeat(300)]);
ck.part("wrapping", { quick: 700, thorough: 30000, rejections: true }, async (t) => {
  const r = t.rng;
  const params: A = {};
  const names = ["appVersion", "deviceModel", "langCode", "langPack", "systemLangCode", "systemVersion"] as const;
  for (const n of names) {
    const v = pick(r, n);
    if (v !== undefined) params[n] = v;
  }
  if (r.bool()) params.disableUpdates = r.bool(0.8);
  const apiId = r.int(1, 2147483647);
  const w = new World(t, { params, apiId });
  const sv = w.server;
  const lat = r.pick([1, 50, 300]);
  sv.latency = () => r.int(1, lat);
  w.delay = () => r.bool(0.4) ? 0 : r.int(0, 1000);
  await w.start();
  let deny = 0;
  const old = sv.handler;
  sv.handler = (c) => {
    if (deny > 0) {
      deny--;
      return { error: [400, "CONNECTION_NOT_INITED"] };
    }
    return old(c);
  };
  let script = "";
  const phase = async (state: "yes" | "no") => {
    // in a phase all requests are started while the state is known
    const invs: Inv[] = [];
    for (let i = r.int(1, 8); i > 0; i--) invs.push(w.invoke(r.bool(0.1) ? "ping" : undefined)), script += state[0];
    const from = sv.calls.length;
    return { invs, from, state };
  };
  const calls = (i: Inv) => sv.calls.filter((c) => deep(c.call, i.call));
  const params2 = (c: A, i: Inv, state: "yes" | "no" | "any") => {
    const x = c.wrap.init;
    if (state !== "any") t.ensure(!!x === (state === "yes"), state === "yes" ? "not-announced" : "announced-again", () => `a ${i.kind} request ${x ? "announces" : "does not announce"} the client although the connection is ${state === "yes" ? "not " : ""}initialised (${script})`);
    if (x) {
      t.ensure(x.api_id === apiId, "api-id", () => `announces the application ${x.api_id} instead of ${apiId}`);
      t.ensure(c.wrap.layer === LAYER, "layer", () => `announces the layer ${c.wrap.layer} instead of ${LAYER}`);
      const map: Record<string, string> = { appVersion: "app_version", deviceModel: "device_model", langCode: "lang_code", langPack: "lang_pack", systemLangCode: "system_lang_code", systemVersion: "system_version" };
      for (const n of names) if (n in params) t.ensure(x[map[n]] === params[n], "parameter", () => `${map[n]} is ${show(x[map[n]], 60)} instead of ${show(params[n], 60)}`);
    }
    t.ensure(c.wrap.noUpdates === (!!params.disableUpdates && !MEDIA.has(i.kind)), "updates-mark", () => `a ${i.kind} request is ${c.wrap.noUpdates ? "" : "not "}marked as not wanting updates with disableUpdates = ${params.disableUpdates}`);
    t.count(x ? "announced" : "plain");
  };
  // an uninitialised connection: only the first phase, until something settles
  const first = await phase("yes");
  await until(() => w.invs.every((i) => i.outcome), 600000);
  let ok = false;
  for (const i of first.invs) {
    for (const c of calls(i)) params2(c, i, "yes");
    if (i.outcome?.ok && i.kind !== "ping") ok = true;
  }
  for (let k = r.int(0, 5); k > 0; k--) {
    if (!ok) {
      // only errors so far: still announced
      const p = await phase("yes");
      await until(() => w.invs.every((i) => i.outcome), 600000);
      for (const i of p.invs) for (const c of calls(i)) params2(c, i, "yes");
      if (p.invs.some((i) => i.outcome?.ok && i.kind !== "ping")) ok = true;
      continue;
    }
    const what = r.int(0, 3);
    if (what === 0) {
      // the server lost the initialisation: the rejected requests come again and announce
      deny = r.int(1, 3);
      const n = deny;
      const i = w.invoke("resolve");
      delete i.error;
      script += "N" + n;
      await until(() => !!i.outcome, 600000);
      const cs = calls(i);
      t.ensure(i.outcome?.ok === true, "not-inited", () => `a request rejected ${n} times as not initialised ends with ${show((i.outcome as A)?.e ?? "nothing")} (${script})`);
      t.ensure(cs.length === n + 1, "not-inited-resend", () => `${cs.length} requests after ${n} rejections (${script})`);
      cs.forEach((c, k) => params2(c, i, k === 0 ? "no" : "yes"));
      deny = 0;
    } else if (what === 1 && w.session()) {
      w.client.disconnect();
      script += "X";
      await advance(r.pick([0, 100, 20000]));
      await run(w.client.connect(), 600000, "connect()");
      const p = await phase("no");
      await until(() => w.invs.every((i) => i.outcome), 600000);
      for (const i of p.invs) for (const c of calls(i)) params2(c, i, "no");
    } else {
      const p = await phase("no");
      await until(() => w.invs.every((i) => i.outcome), 600000);
      for (const i of p.invs) for (const c of calls(i)) params2(c, i, "no");
    }
  }
  for (const i of w.invs) {
    const m = w.judge(i, false);
    t.ensure(!m, "outcome", () => m!);
  }
  t.ensure(!w.unknownCalls.length, "inner", () => `the server received ${show(w.unknownCalls[0], 300)}, which nobody invoked`);
  t.sig(script + show(Object.keys(params)));
  t.state("configurations", show([Object.keys(params).sort(), params.disableUpdates]));
  t.count("invocations", w.invs.length);
  if (t.index < 2) t.sample({ params, script });
  await w.stop();
});
ck.part("no-api-id", { quick: 40, thorough: 400, rejections: true }, async (t) => {
  const r = t.rng;
  const w = new World(t, { apiId: 0 });
  w.server.latency = () => r.int(1, 20);
  await w.start();
  const n = r.int(1, 5);
  for (let i = 0; i < n; i++) w.invoke();
  await until(() => w.invs.every((i) => i.outcome), 60000);
  await advance(1000);
  for (const i of w.invs) t.ensure(i.outcome && !i.outcome.ok && i.outcome.e?.name === "InputError", "no-api-id", () => `a request without an application id ends with ${show(i.outcome)}`);
  t.ensure(!w.server.calls.length, "sent-anyway", () => `the server received ${show(w.server.calls[0].call)}`);
  // pings need none
  const p = w.invoke("ping");
  await until(() => !!p.outcome, 60000);
  t.ensure(!w.judge(p, false), "ping", () => w.judge(p, false)!);
  t.sig(String(n));
  await w.stop();
});
const FUNCS = Object.keys(API.d).filter((n) => !(API.i[String(API.d[n][0])] === n || API.i[String(API.d[n][0] | 0)] === n) && API.d[n][1].every(([, ty]) => !ty.includes("!")) && API.d[n][2] !== "X");
const BUILDABLE = FUNCS.filter((n) => API.all.get(API.d[n][0] >>> 0) === n && !n.endsWith("Prefix") && (API.depth.get(n) ?? Infinity) < Infinity && n !== "auth.bindTempAuthKey");
ck.part("every-function", { quick: 120, thorough: 2000, rejections: true }, async (t) => {
  const r = t.rng;
  const disable = r.bool();
  const w = new World(t, { params: { disableUpdates: disable } });
  const got: A[] = [];
  w.server.handler = (c) => {
    got.push(c);
    return { error: [400, "X"] };
  };
  await w.start();
  const sent: A[] = [];
  for (let i = 0; i < 8; i++) {
    const name = BUILDABLE[(t.index * 8 + i) % BUILDABLE.length];
    let call: A;
    try {
      call = TL.randCtor(API, r, name, { depth: 3, optional: 0.4, vecMax: 2, budget: { n: 2000 } });
    } catch {
      continue;
    }
    sent.push(call);
    await run(w.client.invoke(call).catch(() => {}), 60000, name);
    t.state("functions", name);
  }
  t.ensure(got.length === sent.length, "received", () => `${sent.length} requests sent, ${got.length} received`);
  for (let i = 0; i < sent.length; i++) {
    t.ensure(deep(got[i].call, sent[i]), "inner", () => `${sent[i]._} arrives as ${show(got[i].call, 200)}`);
    t.ensure(!!got[i].wrap.init && got[i].wrap.layer === LAYER, "not-announced", () => `${sent[i]._} does not announce the client`);
    if (!disable) t.ensure(!got[i].wrap.noUpdates, "updates-mark", () => `${sent[i]._} is marked as not wanting updates`);
    else if (!sent[i]._.startsWith("upload.")) t.ensure(got[i].wrap.noUpdates, "updates-mark", () => `${sent[i]._} is not marked as not wanting updates`);
    else if (["upload.getFile", "upload.saveFilePart", "upload.saveBigFilePart"].includes(sent[i]._)) t.ensure(!got[i].wrap.noUpdates, "updates-mark", () => `${sent[i]._} is marked as not wanting updates`);
  }
  t.sig(String(t.index) + disable);
  t.count("invocations", sent.length);
  await w.stop();
});
await ck.main();
