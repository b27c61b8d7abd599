// deno-lint-ignore-file no-explicit-any
import "../lib/env.ts";
import { Check } from "../lib/core.ts";
import { Site } from "../lib/site.ts";
import { anyText, same, scenario, texts, Thrown, wrong } from "../lib/handlers.ts";
import * as E from "file:///repo/4_errors.ts";
import { deserializeWorkerError, serializeWorkerError } from "file:///repo/client/0_worker_error.ts";

const ck = new Check("C44", {
  level: "exploration",
  rule: "Every dedicated error text and many near misses are returned to calls of complete clients whose registered handlers follow random programs. The error each caller and each handler gets, the order and numbering of the consultations and the calls the server received are compared with a model of the handler chain. Errors are also sent through the worker form. A case is one set of clients with their handlers, calls and error scripts, or one error.",
  assumptions: ["The dedicated class of a text is the exported class of that name in camel case", "Flood waits of up to ten seconds are the short ones"],
  quickSeconds: 60,
  thoroughSeconds: 600,
});

const X = E as any;
ck.part("table", { quick: 2000, thorough: 40000 }, (t) => {
  const r = t.rng;
  const text = t.index < texts.length ? texts[t.index] : anyText(r);
  const code = r.pick([400, 401, 403, 404, 406, 420, 500, 303, -503, 0, 2147483647, -1]);
  const call = r.pick([{ _: "ping", ping_id: 5n }, { _: "help.getConfig" }, { _: "upload.saveFilePart", file_id: 3n, file_part: 2, bytes: r.bytes(3) }, null]);
  let e: any;
  try {
    e = X.constructTelegramError({ _: "rpc_error", error_code: code, error_message: text }, call);
  } catch (x) {
    t.fail("throws", `making the error of ${JSON.stringify(text)} throws ${x}`);
  }
  const bad = wrong(e, code, text, call);
  t.ensure(!bad, "class", bad!, { text });
  t.sig(text);
  // through the worker
  const back: any = deserializeWorkerError(structuredClone(serializeWorkerError(e)));
  const bad2 = wrong(back, code, text, call);
  t.ensure(!bad2, "worker", `through the worker: ${bad2}`, { text });
  t.ensure(back.message === e.message && back.name === e.name, "worker-message", `message ${back.message}`);
  t.count("errors_made");
});

ck.part("library", { quick: 200, thorough: 2000 }, (t) => {
  const r = t.rng;
  const msg = r.pick(["", "x", "Not authorized.", "ünïcode \u{1F600}", "a".repeat(2000)]);
  const e: any = r.pick([() => new X.ConnectionError(msg), () => new X.AccessError(msg), () => new X.InputError(msg), () => new X.TransportError(r.pick([-404, -429, -444, 0, 7])), () => new X.TLError(msg, r.pick([[], ["a"], ["message", "0", "vector"]]))])();
  const back: any = deserializeWorkerError(structuredClone(serializeWorkerError(e)));
  t.ensure(back.constructor === e.constructor && back.name === e.name && back.message === e.message && back.code === e.code && back.originalMessage === e.originalMessage && same(back.path, e.path), "library", `${e.constructor.name} ${e.message} became ${back.constructor.name} ${back.message}`);
  t.sig(e.constructor.name + e.message);
});

ck.part("handlers", { quick: 400, thorough: 12000, weight: 3 }, async (t) => {
  const r = t.rng;
  const site = new Site(t);
  const acc = site.account(77n);
  const make = (byDefault: boolean) => Promise.resolve(site.proc({ params: { authString: site.authString(site.login(acc)), ...(byDefault ? r.pick([{}, { defaultHandlers: true }]) : { defaultHandlers: false }), disableUpdates: r.bool(0.3) } }));
  await scenario(t, site, acc, make, (e) => e instanceof Thrown);
});

await ck.main();
