// Random traffic of a real ClientEncrypted against the reference server, with faults chosen by the caller.
// The outcome of every invocation and everything the server saw are kept for the oracles of the checks.
import { type Rng, turn } from "./env.ts";
import { advance, run, sleep, Stuck, until, vclock } from "./vclock.ts";
import { type Case, cat, deep, show } from "./core.ts";
import { type AuthKey, type Call, type Link, MtServer, type Sess } from "./mtserver.ts";
import * as TL from "./tl.ts";
import { ClientEncrypted } from "file:///repo/client/2_client_encrypted.ts";
// deno-lint-ignore no-explicit-any
export type A = any;
export const API = TL.api;
export { advance, run, sleep, Stuck, until, vclock };

export interface Inv {
  tag: number;
  kind: string;
  call: A;
  want: A;
  error?: [number, string];
  outcome: { ok: true; v: A } | { ok: false; e: A } | null;
  executed: number;
  startedAt: number;
  settledAt: number;
  promise: Promise<void>;
}
export interface Faults {
  salts?: number;
  clock?: number;
  badMsg?: number;
  drops?: number;
  transportErrors?: number;
  updates?: number;
  stray?: number;
  mangle?: number;
  newSession?: number;
  slowWrite?: boolean;
  notInited?: number;
}
const resultType = (name: string) => API.d[name][2];

let tags = 1;
export function tagged(r: Rng, kind?: string): { kind: string; call: A; want: A; tag: number } {
  const tag = ++tags & 0x3fffffff;
  kind ??= r.pick(["resolve", "resolve", "users", "getFile", "savePart", "check"]);
  switch (kind) {
    case "resolve":
      return { tag, kind, call: { _: "contacts.resolveUsername", username: "u" + tag }, want: { _: "contacts.resolvedPeer", peer: { _: "peerUser", user_id: BigInt(tag) }, chats: [], users: [] } };
    case "users":
      return { tag, kind, call: { _: "users.getUsers", id: [{ _: "inputUser", user_id: BigInt(tag), access_hash: BigInt(tag * 3) }] }, want: Array.from({ length: r.pick([1, 1, 3, 60]) }, () => ({ _: "userEmpty", id: BigInt(tag) })) };
    case "getFile":
      return { tag, kind, call: { _: "upload.getFile", location: { _: "inputDocumentFileLocation", id: 1n, access_hash: 2n, file_reference: new Uint8Array(3), thumb_size: "" }, offset: BigInt(tag), limit: 4096 }, want: { _: "upload.file", type: { _: "storage.filePng" }, mtime: tag, bytes: r.bytes(r.pick([0, 1, 100, 4096, 70000])) } };
    case "savePart": {
      const n = r.pick([1, 900, 1100, 5000, 16000, 17000, 60000]);
      const bytes = r.bool() ? r.bytes(n) : new Uint8Array(n).fill(r.int(0, 255));
      if (r.bool(0.3)) bytes.set(r.bytes(Math.min(1200, n)), Math.max(0, Math.floor(n / 2 - 600)));
      return { tag, kind, call: { _: "upload.saveFilePart", file_id: BigInt(tag), file_part: r.int(0, 2999), bytes }, want: r.bool() };
    }
    case "check":
      return { tag, kind, call: { _: "account.checkUsername", username: "c" + tag }, want: r.bool() };
    default:
      throw new Error(kind);
  }
}

export class World {
  r: Rng;
  server: MtServer;
  client: ClientEncrypted;
  key: AuthKey;
  invs: Inv[] = [];
  byCall = new Map<string, Inv>();
  updates: { id: bigint; tag: number; sess: Sess; link: Link }[] = [];
  gotUpdates: number[] = [];
  salts: bigint[] = [];
  deserializationErrors = 0;
  unknownCalls: A[] = [];
  // deno-lint-ignore no-explicit-any
  constructor(public t: Case, public o: { params?: A; salt?: "right" | "wrong" | "zero"; apiId?: number; noKey?: boolean } = {}) {
    const r = this.r = t.rng;
    vclock.reset();
    this.server = new MtServer(r);
    this.key = this.server.addKey(2);
    const client = this.client = new ClientEncrypted("2", o.apiId ?? 12345, { transportProvider: this.server.provider() as never, ...o.params });
    client.handlers = {
      onNewServerSalt: (s: bigint) => void this.salts.push(s),
      onUpdate: (u: A) => {
        this.gotUpdates.push(u.date ?? u.update?.date ?? -1);
      },
      onDeserializationError: () => void this.deserializationErrors++,
    };
    this.server.handler = (c) => this.answer(c);
  }
  delay: () => number = () => 0;
  answer(c: Call): A {
    const inv = this.byCall.get(keyOf(c.call));
    if (!inv || !deep(c.call, inv.call)) {
      this.unknownCalls.push(c.call);
      return { error: [400, "METHOD_INVALID"] };
    }
    inv.executed++;
    const a = inv.error ? { error: inv.error } : { result: TL.encodeType(API, resultType(c.call._), inv.want) };
    const d = this.delay();
    if (d <= 0) return a;
    return new Promise((f) => setTimeout(() => f(a), d));
  }
  async start() {
    if (!this.o.noKey) {
      await this.client.setAuthKey(this.key.key);
      this.client.serverSalt = this.o.salt === "wrong" ? 12345n : this.o.salt === "zero" ? 0n : this.key.salt;
    }
    await run(this.client.connect(), 60000, "connect()");
  }
  invoke(kind?: string): Inv {
    const { call, want, tag, kind: k } = kind === "ping" ? pingCall(this.r) : tagged(this.r, kind);
    const inv: Inv = { tag, kind: k, call, want, outcome: null, executed: 0, startedAt: vclock.mono, settledAt: -1, promise: null as never };
    if (k !== "ping" && this.r.bool(0.15)) inv.error = this.r.pick([[400, "USERNAME_INVALID"], [420, "FLOOD_WAIT_" + this.r.int(1, 90)], [400, "SOMETHING_NEW_" + tag], [303, "FILE_MIGRATE_4"], [500, ""]] as [number, string][]);
    this.invs.push(inv);
    this.byCall.set(keyOf(call), inv);
    inv.promise = (async () => await this.client.invoke(call))().then((v) => {
      inv.outcome = { ok: true, v };
      inv.settledAt = vclock.mono;
    }, (e) => {
      inv.outcome = { ok: false, e };
      inv.settledAt = vclock.mono;
    });
    return inv;
  }
  /** null when the outcome is one the invocation may have, otherwise what is wrong */
  judge(inv: Inv, mayLose: boolean): string | null {
    const o = inv.outcome;
    if (!o) return `${inv.kind} ${inv.tag} never settles`;
    if (o.ok) {
      if (inv.error) return `${inv.kind} ${inv.tag} resolves although the server answered ${inv.error}`;
      if (inv.kind === "ping") return o.v?._ === "pong" && o.v.ping_id === inv.call.ping_id ? null : `ping ${inv.tag} resolves with ${show(o.v, 150)}`;
      return deep(o.v, inv.want) ? null : `${inv.kind} ${inv.tag} resolves with ${show(o.v, 150)} instead of ${show(inv.want, 150)}`;
    }
    const e = o.e;
    if (inv.error && e?.errorCode === inv.error[0] && e?.errorMessage === inv.error[1]) return null;
    if (mayLose && isConnectionError(e)) return null;
    return `${inv.kind} ${inv.tag} rejects with ${e?.name}: ${e?.message} (${e?.cause ?? ""})${inv.error ? " instead of " + inv.error : ""}`;
  }
  session(): Sess | undefined {
    return [...this.server.sessions.values()].at(-1);
  }
  pushUpdate(s: Sess, gzip = false): number {
    const tag = ++tags & 0x3fffffff;
    const body = TL.encode(API, { _: "updateShort", update: { _: "updateConfig" }, date: tag });
    const id = this.server.push(s, body, true, "update", gzip);
    this.updates.push({ id, tag, sess: s, link: s.link });
    return tag;
  }
  /** sends the answer of an earlier call once more, or an answer to nothing */
  stray() {
    const s = this.session(), r = this.r;
    if (!s?.link.open) return;
    const old = [...s.seen.values()].filter((v) => v);
    if (old.length && r.bool(0.6)) this.server.push(s, r.pick(old)!, true, "rpc_result");
    else {
      const u = tagged(r);
      const id = BigInt(r.int(1, 1e9)) * 4n * (r.bool() ? 1n << 20n : 1n);
      this.server.answer(s, id, r.bool(0.3) ? { error: [400, "STRAY"] } : { result: TL.encodeType(API, resultType(u.call._), u.want) });
    }
  }
  async stop() {
    this.client.disconnect();
    await advance(1000);
  }
}
export interface Chaos {
  steps: [number, number];
  updates?: number;
  stray?: number;
  salts?: number;
  bad?: number;
  codes?: number[];
  clock?: number;
  drops?: number;
  reconnect?: number;
  forget?: number;
  burst?: number;
}
/** A random script of requests, pushed updates, rejections, clock steps and connection losses. Returns the script as text. */
export async function chaos(w: World, o: Chaos): Promise<string> {
  const r = w.r, sv = w.server;
  let script = "", inject = 0, off = false;
  const prev = sv.onMessage;
  sv.onMessage = (m, s, l) => {
    if (prev?.(m, s, l)) return true;
    if (inject <= 0) return false;
    inject--;
    sv.notify(s, { _: "bad_msg_notification", bad_msg_id: m.id, bad_msg_seqno: m.seqno, error_code: r.pick(o.codes ?? [16, 48]) });
    return true;
  };
  const table: [string, number][] = [["i", 6], [".", 4], ["u", o.updates ?? 0], ["s", o.stray ?? 0], ["S", o.salts ?? 0], ["B", o.bad ?? 0], ["C", o.clock ?? 0], ["D", o.drops ?? 0], ["X", o.reconnect ?? 0], ["F", o.forget ?? 0], ["b", o.burst ?? 0]];
  const total = table.reduce((a, x) => a + x[1], 0);
  for (let n = r.int(...o.steps); n > 0; n--) {
    let x = r.f() * total, k = ".";
    for (const [c, p] of table) if ((x -= p) < 0) { k = c; break; }
    script += k;
    w.t.count("op_" + k);
    if (k === "i") w.invoke(r.bool(0.1) ? "ping" : undefined);
    else if (k === "b") for (let i = r.int(2, 12); i > 0; i--) w.invoke(r.bool(0.1) ? "ping" : undefined);
    else if (k === "u") { if (w.session()?.link.open) for (let i = r.pick([1, 1, 3]); i > 0; i--) w.pushUpdate(w.session()!, r.bool(0.2)); }
    else if (k === "s") w.stray();
    else if (k === "S") w.key.salt = BigInt.asIntN(64, BigInt(r.u32()) << 32n | BigInt(r.u32()));
    else if (k === "B") inject += r.int(1, 3);
    else if (k === "C") vclock.step(r.pick([-3600, -400, -20, -1, 1, 20, 40, 400, 3600]) * 1000);
    else if (k === "F") { const s = w.session(); if (s?.link.open) w.key.salt += 1n, s.announced = false; }
    else if (k === "D") { sv.lossy = true; sv.live.forEach((l) => l.drop(r.bool())); }
    else if (k === "X") {
      sv.lossy = true;
      if (!off) w.client.disconnect(), off = true;
      else try { await run(w.client.connect(), 600000, "connect()"); off = false; } catch (e) { if (e instanceof Stuck) throw e; }
    } else await advance(r.pick([0, 1, 10, 100, 1000, 60000]));
  }
  for (let i = 0; off && i < 60; i++) {
    try { await run(w.client.connect(), 600000, "connect()"); off = false; } catch (e) { if (e instanceof Stuck) throw e; }
  }
  inject = 0;
  return script;
}
export function isConnectionError(e: A): boolean {
  return e?.name === "ConnectionError" || e?.name === "RetryError" && isConnectionError(e.cause);
}
const pingCall = (r: Rng) => {
  const tag = ++tags & 0x3fffffff;
  void r;
  return { tag, kind: "ping", call: { _: "ping", ping_id: BigInt(tag) }, want: { _: "pong", ping_id: BigInt(tag) } };
};
export function keyOf(call: A): string {
  switch (call._) {
    case "contacts.resolveUsername":
    case "account.checkUsername":
      return call._ + call.username;
    case "users.getUsers":
      return call._ + call.id[0]?.user_id;
    case "upload.getFile":
      return call._ + call.offset;
    case "upload.saveFilePart":
      return call._ + call.file_id;
    default:
      return call._ + show(call, 300);
  }
}
void cat;
void turn;
