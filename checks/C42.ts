// deno-lint-ignore-file no-explicit-any
import "../lib/env.ts";
import { Check, hex, show } from "../lib/core.ts";
import { type Account, advance, Disk, type Proc, run, Site, Stuck } from "../lib/site.ts";
import { SrpAccount } from "../lib/srp.ts";

const ck = new Check("C42", {
  level: "exploration",
  rule: "Complete clients sign in as users, new users and bots, with right and wrong credentials, redirections, test and production data centres, stops, restarts, kills at any storage write, lost connections, revocations and sign-outs, against a service that knows which key is signed in as whom. After every step the credentials asked for, the key exchanges and calls made and the stored values are compared with what the service knows. A case is one history.",
  assumptions: ["The service redirects with PHONE_MIGRATE and USER_MIGRATE in answer to the first call of a sign-in", "Storage writes take effect in the order they were issued"],
  quickSeconds: 60,
  thoroughSeconds: 600,
});
interface Person { acc: Account; dc: number; phone?: string; token?: string; code: string; password?: string; srp?: SrpAccount; registered: boolean }
class GaveUp extends Error {}

class World {
  site: Site;
  people: Person[] = [];
  sent = new Map<string, { person: Person; passed: boolean }>();
  /** keys for which the code was right but the password is missing */
  half = new Map<any, Person>();
  authCalls: string[] = [];
  flood = 0;
  failLogout = false;
  redirects = 0;
  constructor(public t: any, public test: boolean) {
    const r = t.rng;
    this.site = new Site(t);
    const dcs = test ? [1, 2, 3] : [1, 2, 3, 4, 5];
    const add = (id: bigint, bot: boolean, o: Partial<Person>) => this.people.push({ acc: this.site.account(id, bot), dc: r.pick(dcs), code: String(r.int(10000, 99999)), registered: true, ...o });
    add(77n, false, { phone: "4915700001" });
    add(78n, false, { phone: "4915700002", password: r.pick(["secret", "пароль"]) });
    add(79n, false, { phone: "4915700003", registered: false });
    add(80n, true, { token: "80:AAA" });
    add(81n, true, { token: "81:BBB" });
    for (const p of this.people) if (p.password) p.srp = new SrpAccount(r, p.password, r.bool() ? "hint" : undefined);
    this.site.on = (c, who) => {
      const q = c.call;
      if (q._.startsWith("auth.") || q._ === "account.getPassword") this.authCalls.push(q._);
      const here = Math.abs(c.link.dcId) % 10000;
      const move = (p: Person, kind: string) => {
        if (p.dc === here) return;
        this.redirects++;
        t.count("redirections");
        return { error: [303, `${kind}_MIGRATE_${p.dc}`] as [number, string] };
      };
      const done = (p: Person) => {
        c.sess.key.user = p.acc;
        p.registered = true;
        return this.site.ok(c, { _: "auth.authorization", user: p.acc.user(p.acc.id) });
      };
      const bad = (m: string, n = 400) => ({ error: [n, m] as [number, string] });
      switch (q._) {
        case "auth.sendCode": {
          if (this.flood-- > 0) return bad("FLOOD_WAIT_2", 420);
          if (q.api_id !== 12345 || q.api_hash !== "hash") return bad("API_ID_INVALID");
          const p = this.people.find((p) => p.phone && p.phone === q.phone_number);
          if (!p) return bad("PHONE_NUMBER_INVALID");
          const m = move(p, "PHONE");
          if (m) return m;
          const hash = hex(r.bytes(8));
          this.sent.set(hash, { person: p, passed: false });
          return this.site.ok(c, { _: "auth.sentCode", type: { _: "auth.sentCodeTypeApp", length: 5 }, phone_code_hash: hash });
        }
        case "auth.signIn": {
          const s = this.sent.get(q.phone_code_hash);
          if (!s || s.person.phone !== q.phone_number) return bad("PHONE_CODE_EXPIRED");
          if (s.person.code !== q.phone_code) return bad("PHONE_CODE_INVALID");
          s.passed = true;
          if (!s.person.registered) return this.site.ok(c, { _: "auth.authorizationSignUpRequired" });
          if (s.person.srp) {
            this.half.set(c.sess.key, s.person);
            return bad("SESSION_PASSWORD_NEEDED", 401);
          }
          return done(s.person);
        }
        case "auth.signUp": {
          const s = this.sent.get(q.phone_code_hash);
          if (!s?.passed || s.person.phone !== q.phone_number || s.person.registered) return bad("PHONE_CODE_EXPIRED");
          return done(s.person);
        }
        case "account.getPassword": {
          const p = this.half.get(c.sess.key);
          return p ? this.site.ok(c, p.srp!.challenge()) : bad("AUTH_KEY_UNREGISTERED", 401);
        }
        case "auth.checkPassword": {
          const p = this.half.get(c.sess.key);
          if (!p) return bad("AUTH_KEY_UNREGISTERED", 401);
          return p.srp!.accepts(q.password) ? done(p) : bad("PASSWORD_HASH_INVALID");
        }
        case "auth.importBotAuthorization": {
          if (q.api_id !== 12345 || q.api_hash !== "hash") return bad("API_ID_INVALID");
          const p = this.people.find((p) => p.token && p.token === q.bot_auth_token);
          if (!p) return bad("ACCESS_TOKEN_INVALID");
          return move(p, "USER") ?? done(p);
        }
        case "auth.logOut":
          if (this.failLogout) return bad("INTERNAL", 500);
          return undefined;
      }
      void who;
      return undefined;
    };
  }
}
const stored = (disk: Disk) => disk.data.get('["auth"]')?.[1] as { authKey: Uint8Array | null; dc: string | null; userId: number; isBot: boolean } | undefined;
interface Attempt { params: any; ok: Person | null; asks: string[]; why: string }
function credentials(w: World, p: Person | null): Attempt {
  const r = w.t.rng, asks: string[] = [];
  if (!p || p.token) {
    const token = p?.token ?? r.pick(["", "80:AAB", "x"]);
    return { params: { botToken: token }, ok: p, asks, why: p ? "" : "ACCESS_TOKEN_INVALID" };
  }
  let ok: Person | null = p, why = "";
  const list = (name: string, right: string, wrong: string[]): any => {
    if (r.bool(0.3)) {
      const good = r.bool(0.7);
      if (!good && ok) ok = null, why = "bad " + name;
      return good ? right : r.pick(wrong);
    }
    const l = Array.from({ length: r.pick([0, 0, 1, 2]) }, () => r.pick(wrong));
    if (r.bool(0.85)) l.push(right);
    else if (ok) ok = null, why = "gave up";
    return (...a: any[]) => {
      asks.push(name);
      if (name === "password" && a[0] !== (p.srp!.hint ?? null)) w.t.fail("hint", `the password was asked for with the hint ${show(a[0])}, expected ${show(p.srp!.hint)}`);
      const v = l.shift();
      if (v === undefined) throw new GaveUp(name);
      return r.bool() ? v : Promise.resolve(v);
    };
  };
  const params: any = { phone: list("phone", p.phone!, ["4900000", "x"]), code: list("code", p.code, ["0", "", p.code + "1"]), password: "unused" };
  if (p.srp) params.password = list("password", p.password!, ["", "Secret", p.password + " "]);
  if (!p.registered) {
    if (r.bool(0.7)) {
      params.firstName = r.bool() ? "F" : () => "F";
      if (r.bool()) params.lastName = r.bool() ? "L" : () => "L";
    } else if (ok) ok = null, why = "no name";
  }
  return { params, ok, asks, why };
}

ck.part("history", { quick: 260, thorough: 9000, rejections: true }, async (t) => {
  const r = t.rng, test = r.bool(0.3);
  const w = new World(t, test), { site } = w, sv = site.server;
  const persistCache = r.bool();
  const initial = r.pick([undefined, "1", "2", "3"]);
  const base: any = { persistCache, guaranteeUpdateDelivery: r.bool(0.3), initialDc: test ? (initial ?? "2") + "-test" : initial };
  const diskOptions = { slow: r.pick([0, 0, 3]), serialize: r.bool() };
  const lat = r.pick([0, 10, 400]);
  sv.latency = () => lat ? r.int(0, lat) : 0;
  site.delay = () => lat ? r.int(0, lat) : 0;
  let disk = new Disk();
  const states: boolean[] = [];
  let heard: any[] = [];
  const handler = (u: any, _c: any, p: Proc) => {
    if (u.authorizationState) states.push(u.authorizationState.isAuthorized);
    if (u.message) heard.push([p.n, u.message.text]);
  };
  let params = { ...base };
  let p = site.proc({ disk, params, diskOptions, handler });
  const log: string[] = [];
  let faulty = false; // connections are being lost
  const salts = () => ({ stored: [...disk.data].filter(([n]) => n.includes('erverSalt')).map(([, v]) => String(v[1])), server: String(keyOf()?.salt) });
  const ctx = () => ({ log, salts: salts(), before: beforeSalts, stored: stored(disk), test, states });
  const keyOf = () => {
    const k = stored(disk)?.authKey;
    return k ? [...sv.keys.values()].find((x) => hex(x.key) === hex(k)) : undefined;
  };
  /** checks of everything that holds whenever a client is started and settled */
  const settled = async (who: Person | null) => {
    const a = stored(disk), k = keyOf();
    t.ensure(k, "key-not-stored", () => `the stored key ${a?.authKey ? "is none the service knows" : "is missing"} although the client is connected`, ctx());
    const dc = String(k.dcId % 10000) + (k.dcId >= 10000 ? "-test" : "");
    t.ensure(a!.dc === dc, "centre-stored", () => `data centre ${a!.dc} is stored with a key of ${dc}`, ctx());
    t.ensure((k.dcId >= 10000) === test, "test-mixed", () => `a client for ${test ? "test" : "production"} data centres went to ${k.dcId}`, ctx());
    for (const l of sv.links) t.ensure((Math.abs(l.dcId) >= 10000) === test, "test-mixed", () => `a client for ${test ? "test" : "production"} data centres connected to ${l.dcId}`, ctx());
    t.ensure(disk.data.has('["session.serverSalt"]') || [...disk.data.keys()].some((n) => n.includes("erverSalt")), "salt-not-stored", () => `no salt is stored: ${[...disk.data.keys()]}`, ctx());
    if (who) {
      t.ensure(k.user === who.acc, "not-signed-in", () => `the sign-in as ${who.acc.id} finished and the stored key is signed in as ${k.user?.id}`, ctx());
      t.ensure(a!.userId === Number(who.acc.id) && a!.isBot === who.acc.bot, "account-stored", () => `the account ${a!.userId} (bot: ${a!.isBot}) is stored after signing in as ${who.acc.id} (bot: ${who.acc.bot})`, ctx());
      const me: any = await run(p.client.getMe(), 600000, "getMe()");
      t.ensure(me.id === Number(who.acc.id), "wrong-account", () => `getMe() returned ${me.id}, expected ${who.acc.id}`, ctx());
      const self: any = await run(p.client.getInputPeer("me"), 600000, "getInputPeer(me)");
      t.ensure(self._ === "inputPeerSelf" || self.user_id === who.acc.id, "wrong-self", () => `"me" is ${show(self)} for ${who.acc.id}`, ctx());
      const s: string = await run(p.client.exportAuthString(), 600000, "exportAuthString()");
      t.ensure(s === site.authString(k), "export", () => `the exported authorisation differs from the stored key and account`, ctx());
      t.state("signed-in", `${who.acc.id}/${dc}`);
      if (!faulty && !mixed && r.bool(0.4)) {
        // updates of this account arrive
        await advance(8000);
        heard = [];
        const e = who.acc.happen("message");
        site.push(who.acc, who.acc.pack([e], false));
        await advance(30000 + 4 * lat);
        const want = e.update.message.message;
        t.ensure(heard.filter(([n, x]) => n === p.n && x === want).length === 1, "updates", () => `after signing in as ${who.acc.id}, the message ${want} was delivered ${heard.filter(([, x]) => x === want).length} times (${show(heard)})`, ctx());
        t.count("updates_heard");
      }
    } else {
      t.ensure(!k.user, "signed-in", () => `the sign-in failed and the stored key is signed in as ${k.user?.id}`, ctx());
      for (const [name, f] of [["getMe", () => p.client.getMe()], ["exportAuthString", () => p.client.exportAuthString()]] as const) {
        let v: any, e: any;
        try {
          v = await run(f(), 600000, name);
        } catch (x) {
          e = x;
        }
        if (name === "exportAuthString" && revoked) continue;
        t.ensure(e?.name === "InputError" || faulty && e, "unauthenticated", () => `${name}() of a client that is not signed in returned ${e ?? show(v)}`, ctx());
      }
      t.ensure(revoked || a!.userId === 0, "account-left", () => `the account ${a!.userId} is stored although the client is not signed in`, ctx());
    }
  };
  // an account that was signed in to in place of a revoked one may find the other's update state
  let revoked = false, mixed = false;
  /** start(); returns who is signed in afterwards, undefined if the connection failed it */
  let beforeSalts: any, rotated = false;
  const start = async (attempt: Attempt, mode: "start" | "split" = "start"): Promise<Person | null | undefined> => {
    const before = keyOf(), was = before?.user ? w.people.find((x) => x.acc === before.user)! : null;
    beforeSalts = salts();
    const known = !rotated;
    rotated = false;
    const keys = [...sv.keys.values()].filter((k) => !k.temp).length, calls = w.authCalls.length, links = sv.links.length, notes = sv.log.length;
    const redirects = w.redirects;
    states.length = 0;
    let e: any;
    const wasConnected = p.client.isConnected;
    try {
      if (mode === "start") await run(p.client.start(attempt.params), 1_200_000, "start()");
      else {
        await run(Promise.all([p.client.connect(), p.client.connect()]), 600000, "connect()");
        if (r.bool(0.3)) await run(p.client.getInputPeer("me").catch(() => {}), 600000, "getInputPeer(me)");
        await run(p.client.signIn(attempt.params), 1_200_000, "signIn()");
      }
    } catch (x) {
      if (x instanceof Stuck) throw x;
      e = x;
    }
    if (p.dead) return undefined;
    const network = faulty && e && !(e instanceof GaveUp) && /Connection|Session|Aborted|unreachable|not open/i.test(`${e.name} ${e.message}`);
    if (network) {
      t.count("failed_by_network");
      return undefined;
    }
    await advance(r.pick([0, 10, 5000]) + 2 * lat);
    const made = [...sv.keys.values()].filter((k) => !k.temp).length - keys, extra = w.authCalls.slice(calls);
    if (was) {
      t.ensure(!e, "restart-failed", () => `starting again with a stored authorisation of ${was.acc.id} failed: ${e?.stack ?? e}`, ctx());
      t.ensure(!made, "exchanged-again", () => `starting again with a stored key made ${made} key exchanges`, ctx());
      t.ensure(!extra.length && !attempt.asks.length, "signed-in-again", () => `starting again with a stored authorisation asked for ${attempt.asks} and called ${extra}`, ctx());
      if (!faulty && known && !wasConnected) t.ensure(!sv.log.slice(notes).includes("bad_server_salt"), "salt-forgotten", () => `starting again with a valid salt in the storage used another one`, ctx());
      for (const l of sv.links.slice(links)) t.ensure(l.dcId === before!.dcId || l.dcId < 0, "other-centre", () => `starting again with a key of ${before!.dcId} connected to ${l.dcId}`, ctx());
      t.count("reused");
      await settled(was);
      return was;
    }
    t.count(attempt.ok ? "right_credentials" : "wrong_credentials");
    if (attempt.ok) {
      t.ensure(!e, "sign-in-failed", () => `signing in as ${attempt.ok!.acc.id} with the right credentials failed: ${e?.stack ?? e}`, ctx());
      if (w.redirects > redirects) t.ensure(made >= 1, "key-carried", () => `a redirection was followed without a new key`, ctx());
      revoked = false;
      await settled(attempt.ok);
      return attempt.ok;
    }
    t.ensure(e, "accepted", () => `signing in with wrong credentials (${attempt.why}) succeeded`, ctx());
    t.ensure(!states.includes(true), "state-reported", () => `a failed sign-in was reported as authorised`, ctx());
    if (!faulty) {
      const want = attempt.why === "gave up" ? e instanceof GaveUp : attempt.why === "ACCESS_TOKEN_INVALID" ? e.errorMessage === attempt.why : attempt.why === "bad phone" ? e.errorMessage === "PHONE_NUMBER_INVALID" : e.name === "InputError";
      t.ensure(want, "error", () => `signing in with wrong credentials (${attempt.why}) failed with ${e.stack ?? e}`, ctx());
    }
    await settled(null);
    return null;
  };
  let signed: Person | null | undefined = null;
  const again = async () => {
    // losses end; whatever happened, the client can be started
    faulty = false;
    for (let i = 0; i < 3; i++) {
      const a = credentials(w, r.pick(w.people));
      signed = await start(a);
      if (signed !== undefined) return;
    }
    t.fail("cannot-start", "the client cannot be started any more", ctx());
  };
  const restart = async (kill: boolean) => {
    if (!kill) await run(p.client.disconnect(), 600000, "disconnect()");
    const fresh = kill || r.bool();
    if (fresh) {
      p.kill();
      p = site.proc({ disk, params, diskOptions, handler });
    }
    return fresh;
  };
  for (let k = r.pick([2, 4, 8, 14]); k > 0; k--) {
    const x = r.f();
    t.count("steps");
    if (x < 0.35 || k === 1) {
      const who = r.bool(0.8) ? r.pick(w.people) : null;
      const a = credentials(w, who);
      faulty = r.bool(0.2);
      if (r.bool(0.2)) w.flood = 1;
      log.push(`start(${who?.acc.id}${a.ok ? "" : " " + a.why})${faulty ? " with losses" : ""}`);
      if (faulty) {
        const n = sv.calls.length + r.int(0, 4);
        const old = site.on!;
        site.on = (c, acc) => {
          if (faulty && sv.calls.length >= n) {
            if (r.bool(0.7)) {
              c.link.drop(r.bool());
              t.count("drops");
            }
            if (r.bool()) site.on = old;
          }
          return old(c, acc);
        };
        signed = await start(a, r.pick(["start", "split"]));
        site.on = old;
        await advance(60000);
        if (signed === undefined) await again();
        faulty = false;
      } else signed = await start(a, r.pick(["start", "split"]));
      w.flood = 0;
    } else if (x < 0.6) {
      if (!p.client.isConnected) continue;
      const kill = r.bool(0.4);
      await advance(r.pick([0, 100, 20000]));
      const before = keyOf();
      if (before && r.bool(0.15)) {
        // the service changes its salt in the meantime
        before.oldSalts = [];
        before.salt = r.big(62);
        rotated = true;
      }
      const fresh = await restart(kill);
      log.push(kill ? "kill" : fresh ? "restart" : "reconnect");
      if (fresh && signed && r.bool(0.15)) {
        keyOf()!.user = undefined;
        revoked = mixed = true;
        signed = null;
        log.push("revoked");
      }
      const a = credentials(w, r.bool(0.7) ? r.pick(w.people) : null);
      const was = signed;
      signed = await start(a);
      if (was) t.ensure(signed === was, "lost", () => `the client was signed in as ${was.acc.id} and is ${signed?.acc.id} after a restart`, ctx());
    } else if (x < 0.78) {
      if (!p.client.isConnected || signed === undefined) continue;
      // signing out
      const old = keyOf()!, oldKey = hex(old.key), was = signed;
      w.failLogout = r.bool(0.2);
      const stop = r.bool(0.15) ? (sv.live.find((l) => l.dcId === old.dcId)?.drop(), true) : false;
      let e: any;
      try {
        await run(p.client.signOut(), 600000, "signOut()");
      } catch (x) {
        if (x instanceof Stuck) throw x;
        e = x;
      }
      log.push(`signOut${w.failLogout ? " refused" : ""}${stop ? " with a loss" : ""}`);
      t.count("sign_outs");
      if (!e) t.ensure(!old.user, "not-logged-out", () => `signing out succeeded and the key is still signed in`, ctx());
      else t.ensure(w.failLogout || stop || !was, "sign-out-failed", () => `signing out failed: ${e.stack}`, ctx());
      w.failLogout = false;
      await advance(5000);
      for (const [name, [, v]] of disk.data) {
        const s = JSON.stringify(v, (_, x) => x instanceof Uint8Array ? hex(x) : typeof x === "bigint" ? String(x) : x) ?? "";
        t.ensure(!s.includes(oldKey), "key-left", () => `${name} still holds the key after signing out`, ctx());
        t.ensure(!/channelPts|"peers"|usernames|phoneNumbers|messages\.|updates\.|minPeerRef|isPremium|secretChats/.test(name), "data-left", () => `${name} is still stored after signing out`, ctx());
      }
      signed = null;
      revoked = mixed = false;
      if (e && stop) {
        await again();
        continue;
      }
      await settled(null);
      t.ensure(keyOf() !== old, "key-kept", () => `the key is used further after signing out`, ctx());
      if (r.bool()) {
        const fresh = await restart(r.bool(0.3));
        log.push(fresh ? "restart" : "reconnect");
        params = { ...base };
      }
    } else if (x < 0.88) {
      // the process ends at some write
      let n = r.pick([0, 1, 2, 3, 5, 8, 13, 30]);
      const how = r.pick(["cut", "after"] as const);
      p.storage.onWrite = () => n-- === 0 ? how : undefined;
      const a = credentials(w, r.pick(w.people.filter((x) => x.registered)));
      log.push(`start(${a.ok?.acc.id}) ended at write ${n}`);
      if (r.bool(0.3) && p.client.isConnected) {
        p.client.signOut().catch(() => {});
        await advance(60000);
        // the process may end between the service's answer and the removal of what is stored
        revoked = mixed = true;
        log.push("while signing out");
      } else {
        p.client.start(a.params).catch(() => {});
        await advance(60000);
      }
      if (p.dead) t.count("ended_at_write");
      p.kill();
      p = site.proc({ disk, params, diskOptions, handler });
      await again();
      log.push("started again");
    } else if (signed && p.client.isConnected) {
      // the authorisation moves to another storage
      const s = await run(p.client.exportAuthString(), 600000, "exportAuthString()");
      const was: Person = signed;
      await run(p.client.disconnect(), 600000, "disconnect()");
      p.kill();
      disk = new Disk();
      const key = keyOf;
      void key;
      params = { ...base };
      p = site.proc({ disk, params: { ...params, authString: s }, diskOptions, handler });
      const keys = sv.keys.size;
      const a = credentials(w, r.pick(w.people));
      await run(p.client.start(a.params), 600000, "start()");
      await advance(5000);
      t.ensure(sv.keys.size === keys && !a.asks.length, "import-exchanged", () => `starting with an exported authorisation exchanged keys or asked for ${a.asks}`, ctx());
      log.push("moved");
      await settled(was);
      t.count("moved");
    }
    if (r.bool(0.3)) await advance(r.pick([1000, 400_000]));
  }
  t.sig(log.join(";"));
  t.sample({ test, initial, log });
  p.kill();
});

await ck.main();
