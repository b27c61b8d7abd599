// deno-lint-ignore-file no-explicit-any
import "../lib/env.ts";
import { Check, show } from "../lib/core.ts";
import { advance, Disk, run, Site, vclock } from "../lib/site.ts";

const ck = new Check("C43", {
  level: "exploration",
  rule: "Complete clients make bursts of calls to random data centres and of file transfers against a service of five data centres whose keys and authorisations are known exactly, with connections and authorisations lost and the process restarted. Which connection, key and authorisation every call used is compared with its target. A case is one history of bursts.",
  assumptions: ["Connections for file transfers go to the media address of a data centre and may share the key of the main connection in its data centre"],
  quickSeconds: 60,
  thoroughSeconds: 600,
});

let tags = 1;
ck.part("calls", { quick: 250, thorough: 8000, rejections: true }, async (t) => {
  const r = t.rng;
  const site = new Site(t), sv = site.server;
  const acc = site.account(77n);
  const home = r.pick([1, 2, 4, 5]);
  const disk = new Disk();
  const mainKey = site.login(acc, home);
  const params: any = { authString: site.authString(mainKey) };
  const diskOptions = { slow: r.pick([0, 0, 3]) };
  let p = site.proc({ disk, params, diskOptions });
  const lat = r.pick([0, 10, 400]);
  sv.latency = () => lat ? r.int(0, lat) : 0;
  site.delay = () => lat ? r.int(0, lat) : 0;
  const faults = r.bool(0.5);
  interface Want { dc: number | undefined; type: string | undefined; runs: number; }
  const want = new Map<number, Want>();
  const dropped = new Map<any, number>();
  const uploads = home === 2 || home === 4 ? 4 : 8;
  const kinds = new Map<any, string>(); // what a connection is used for
  site.on = (c, who) => {
    const q = c.call;
    const tag = q._ === "account.resetAuthorization" ? Number(q.hash) : q._ === "upload.getFile" ? Number(q.location.id) : q._ === "upload.saveFilePart" ? Number(q.file_id) : 0;
    const w = want.get(tag);
    if (!w) return undefined;
    const dc = w.dc ?? home, at = c.link.dcId;
    const main = c.sess.key === mainKey && at === home;
    const what = `${q._}${w.dc ? ` to data centre ${w.dc}` : ""}${w.type ? ` (${w.type})` : ""}`;
    if (w.type) {
      t.ensure(at === -dc, "wrong-centre", `${what} was made on a connection to ${at}`);
    } else if (dc === home) {
      t.ensure(main, "not-main", `${what} was made on a connection to ${at} instead of the main connection`);
    } else {
      t.ensure(at === dc, "wrong-centre", `${what} was made on a connection to ${at}`);
    }
    const kind = w.type ?? (main ? "main" : "other");
    const before = kinds.get(c.link);
    t.ensure(!before || before === kind, "kinds-mixed", `a connection is used for ${before} and ${kind}`);
    kinds.set(c.link, kind);
    t.count("calls_seen");
    t.state("route", `${kind}/${at}/${home}`);
    if (!who) return undefined; // refused
    w.runs++;
    if (faults && r.bool(0.04)) {
      c.link.drop(r.bool());
      t.count("drops");
    }
    return site.ok(c, q._ === "upload.getFile" ? { _: "upload.file", type: { _: "storage.fileJpeg" }, mtime: tag, bytes: new Uint8Array([1]) } : true);
  };
  const limit: Record<string, number> = { main: 1, other: 1, download: 2, upload: uploads };
  const open = () => {
    const n = new Map<string, number>();
    for (const l of sv.live) {
      const k = kinds.get(l);
      if (k) n.set(k + l.dcId, (n.get(k + l.dcId) ?? 0) + 1);
    }
    for (const [k, v] of n) {
      const kind = k.replace(/-?\d+$/, "");
      t.ensure(v <= limit[kind], "connections", `${v} connections for ${k}, ${limit[kind]} expected`);
    }
  };
  const imports = () => {
    const n = new Map<any, number>();
    for (const i of site.imports) n.set(i.key, (n.get(i.key) ?? 0) + 1);
    // a transfer that was cut short, or calls refused before one was over, may lead to another
    for (const [k, v] of n) if (!faults && !dropped.get(k)) t.ensure(v <= 1, "imported-twice", `the authorization was transferred ${v} times to one key of data centre ${k.dcId}, which never lost it (home ${home}; ${log.join("; ")})`);
  };
  await run(p.client.start(), 600000, "start()");
  const used = new Set<string>();
  const log: string[] = [];
  for (let round = r.int(1, 5); round > 0; round--) {
    const x = r.f();
    if (x < 0.2) {
      // a centre forgets who the key belongs to
      const ks = [...sv.keys.values()].filter((k) => k !== mainKey && k.user);
      if (ks.length) {
        for (const k of r.bool(0.3) ? ks : [r.pick(ks)]) {
          k.user = undefined;
          dropped.set(k, (dropped.get(k) ?? 0) + 1);
        }
        t.count("authorizations_lost");
        log.push("lost");
      }
    } else if (x < 0.35) {
      // stop and go on with what was stored
      await run(p.client.disconnect(), 600000, "disconnect()");
      if (r.bool(0.7)) {
        p.kill();
        p = site.proc({ disk, params: r.bool() ? params : {}, diskOptions });
        log.push("restart");
      } else log.push("reconnect");
      const exchanged = sv.exchanged.length;
      await run(p.client.start(), 600000, "start()");
      t.ensure(sv.exchanged.length === exchanged, "main-exchange", "a restarted client made a new key for its main connection");
      t.count("restarts");
    } else if (x < 0.45) {
      await advance(r.pick([61_000, 400_000]));
      log.push("idle");
    }
    const before = sv.exchanged.length;
    const known = new Set(used);
    const jobs: Promise<void>[] = [];
    const touched = new Set<string>();
    for (let k = r.pick([1, 2, 3, 8, 20]); k > 0; k--) {
      const tag = tags++;
      const type = r.pick([undefined, undefined, "download", "upload"]);
      const dc = type === "upload" ? undefined : r.bool(0.25) ? undefined : r.pick([1, 2, 3, 4, 5]);
      const w: Want = { dc, type, runs: 0 };
      want.set(tag, w);
      touched.add(`${dc ?? home}${type ? "_media" : ""}`);
      const fn: any = type === "download" ? { _: "upload.getFile", location: { _: "inputDocumentFileLocation", id: BigInt(tag), access_hash: 0n, file_reference: new Uint8Array(), thumb_size: "" }, offset: 0n, limit: 4096 } : type === "upload" ? { _: "upload.saveFilePart", file_id: BigInt(tag), file_part: 0, bytes: new Uint8Array(3) } : { _: "account.resetAuthorization", hash: BigInt(tag) };
      const ps: any = type || dc ? { ...(dc ? { dc: String(dc) } : {}), ...(type ? { type } : {}) } : undefined;
      jobs.push((async () => {
        let res: any, e: any;
        try {
          res = await p.client.invoke(fn, ps);
        } catch (x) {
          e = x;
        }
        if (e) {
          // the main connection reports broken connections to the caller
          t.ensure(faults && e.name === "ConnectionError" && (!type && (dc ?? home) === home), "failed", () => `${show(fn)} with ${show(ps)} failed with ${show(e)} ${e.stack}`);
          t.count("connection_errors");
          return;
        }
        t.ensure(type === "download" ? res.mtime === tag : res === true, "result", `${show(fn)} returned ${show(res)}`);
        t.ensure(w.runs >= 1 && (faults || w.runs === 1), "runs", `${show(fn)} with ${show(ps)} was executed ${w.runs} times`);
        t.count("calls_done");
        open();
      })());
      if (r.bool(0.2)) await advance(r.pick([0, 1, 50]));
    }
    await run(Promise.all(jobs), 3_600_000, "a call");
    if (t.first) throw t.first;
    imports();
    open();
    // a centre's stored key is used again
    const fresh = [...touched].filter((k) => !known.has(k) && k !== `${home}` && k !== `${home}_media`);
    if (!fresh.length) t.ensure(sv.exchanged.length === before, "key-not-reused", () => `${sv.exchanged.length - before} new keys were made although all of ${[...touched]} had been used before (${log})`);
    for (const k of touched) used.add(k);
    log.push([...touched].join("+"));
    const bad = sv.anomalies.find((a) => a.prop === "C43" && !/data centre (\d) is used on a connection to -\1$/.test(a.msg));
    t.ensure(!bad, bad?.key ?? "", () => bad!.msg);
    await advance(r.pick([0, 0, 6000]));
  }
  const saved = [...disk.data.values()].filter(([k]) => k.at(-1) === "auth").map(([, v]) => v);
  void saved;
  t.sig(log.join(";") + home);
  t.sample({ home, lat, faults, log });
  p.kill();
  void vclock;
});

await ck.main();
