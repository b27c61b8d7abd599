import { Rng } from "../lib/env.ts";
import { cat, Check, show } from "../lib/core.ts";
import { sha1 } from "../lib/ref.ts";
import { open } from "../lib/stores.ts";
import { StorageOperations } from "file:///repo/client/0_storage_operations.ts";
import { Client, StorageMemory } from "file:///repo/mod.ts";
// deno-lint-ignore no-explicit-any
type A = any;

const ck = new Check("C23", {
  level: "exploration",
  rule: "Random and boundary sessions are exported and imported, through the storage layer and through the client, into fresh, used and persistent stores; the string is also decoded by an independent reader. Every proper prefix of sampled strings is imported too.",
  assumptions: ["The session string layout of the base commit is the intended one, so that strings exchanged with other installations keep working"],
  quickSeconds: 40,
  thoroughSeconds: 400,
});
const DCS = ["1", "2", "3", "4", "5", "1-test", "2-test", "3-test"];
type Auth = { apiId: number; authKey: Uint8Array; dc: string; isBot: boolean; userId: number };
function session(r: Rng): Auth {
  const authKey = r.bytes(256);
  if (r.bool(0.5)) {
    // zero runs, which the string form compresses
    for (let i = r.int(1, 5); i > 0; i--) {
      const at = r.int(0, 255);
      authKey.fill(0, at, Math.min(256, at + r.pick([1, 2, 3, 100, 254, 255, 256])));
    }
  }
  return { apiId: r.pick([1, 2, 255, 256, 65536, 2147483647, r.int(1, 1e8)]), authKey, dc: r.pick(DCS), isBot: r.bool(), userId: r.pick([1, 255, 256, 2 ** 31, 2 ** 32, 2 ** 32 + 1, 2 ** 40, 777000, 9007199254740991, r.int(1, 8e9)]) };
}
const same = (a: Auth, b: A) => b && a.apiId === b.apiId && a.dc === b.dc && a.isBot === b.isBot && a.userId === b.userId && b.authKey instanceof Uint8Array && a.authKey.length === b.authKey.length && a.authKey.every((x, i) => x === b.authKey[i]);
/** reads a session string without the library */
function readString(s: string): Auth {
  const raw = Uint8Array.from(atob(s.replaceAll("-", "+").replaceAll("_", "/") + "=".repeat((4 - s.length % 4) % 4)), (c) => c.charCodeAt(0));
  const out: number[] = [];
  for (let i = 0; i < raw.length; i++) {
    if (raw[i]) out.push(raw[i]);
    else for (let n = raw[++i]; n > 0; n--) out.push(0);
  }
  const b = new Uint8Array(out), v = new DataView(b.buffer);
  let o = 0;
  const blob = () => {
    let n = b[o], h = 1;
    if (n === 254) n = b[o + 1] | b[o + 2] << 8 | b[o + 3] << 16, h = 4;
    const x = b.slice(o + h, o + h + n);
    o += Math.ceil((h + n) / 4) * 4;
    return x;
  };
  const dc = new TextDecoder().decode(blob()), authKey = blob();
  const apiId = v.getInt32(o, true), isBot = b[o + 4], userId = v.getBigInt64(o + 5, true);
  if (b.length !== o + 13 || isBot > 1) throw new Error("layout");
  return { apiId, authKey, dc, isBot: !!isBot, userId: Number(userId) };
}
function writeString(a: Auth): string {
  const blob = (x: Uint8Array) => {
    const h = x.length < 254 ? [x.length] : [254, x.length & 255, x.length >> 8 & 255, x.length >> 16];
    return cat(h, x, new Uint8Array((4 - (h.length + x.length) % 4) % 4));
  };
  const tail = new DataView(new ArrayBuffer(13));
  tail.setInt32(0, a.apiId, true);
  tail.setUint8(4, a.isBot ? 1 : 0);
  tail.setBigInt64(5, BigInt(a.userId), true);
  const b = cat(blob(new TextEncoder().encode(a.dc)), blob(a.authKey), new Uint8Array(tail.buffer));
  const out: number[] = [];
  for (let i = 0; i < b.length;) {
    if (b[i]) out.push(b[i++]);
    else {
      let n = 0;
      while (i < b.length && !b[i] && n < 255) n++, i++;
      out.push(0, n);
    }
  }
  return btoa(String.fromCharCode(...out)).replaceAll("+", "-").replaceAll("/", "_").replace(/=+$/, "");
}
const keyId = (k: Uint8Array) => new DataView(sha1(k).buffer).getBigUint64(12, true);

ck.part("storage", { quick: 6000, thorough: 150000, weight: 2 }, async (t) => {
  const r = t.rng, a = session(r);
  const from: A = new StorageOperations(new StorageMemory());
  await from.initialize();
  await from.auth.set({ ...a, apiId: r.bool() ? a.apiId : r.pick([0, 5]) });
  const s = await from.exportAuthString(r.bool(0.8) || from.auth.mustGet().apiId !== a.apiId ? a.apiId : null);
  t.sig(s);
  t.ensure(/^[A-Za-z0-9_-]+$/.test(s), "alphabet", `the string ${s} has characters that are not safe in URLs`);
  let plain: A = null;
  try {
    plain = readString(s);
  } catch {
    // reported below
  }
  t.ensure(same(a, plain), "layout", `session ${show(a)} exports as ${show(plain)}`);
  const to: A = new StorageOperations(new StorageMemory());
  await to.initialize();
  if (r.bool()) await to.importAuthString(writeString(session(r))), await to.getAccountId();
  await to.importAuthString(r.bool() ? s : writeString(a));
  t.ensure(same(a, to.auth.mustGet()), "session", `session ${show(a)} comes back as ${show(to.auth.mustGet())}`);
  t.ensure(await to.getAccountId() === a.userId, "account", `the account id is ${await to.getAccountId()}, not ${a.userId}`);
  const kid = BigInt.asUintN(64, to.auth.authKeyId);
  t.ensure(kid === keyId(a.authKey), "key-id", `the key id is ${kid}, not ${keyId(a.authKey)}`);
  t.ensure(to.isBot === a.isBot, "kind", `isBot is ${to.isBot}`);
  const again = await to.exportAuthString();
  t.ensure(again === s, "re-export", `exported again: ${again}, first ${s}`);
});
ck.part("broken", { quick: 60, thorough: 2500 }, async (t) => {
  const r = t.rng, a = session(r), old = session(r);
  const s = writeString(a);
  const so: A = new StorageOperations(new StorageMemory());
  await so.initialize();
  await so.importAuthString(writeString(old));
  const before = so.auth.authKeyId;
  for (let n = 0; n < s.length; n++) {
    // a prefix that still carries every byte is the same session; unpadded text may lose only unused bits
    let failed = false;
    try {
      await so.importAuthString(s.slice(0, n));
    } catch {
      failed = true;
    }
    t.count("prefixes");
    t.ensure(failed, "truncated-accepted", `the first ${n} of ${s.length} characters of a session string are accepted as ${show(so.auth.mustGet())}`);
    t.ensure(same(old, so.auth.mustGet()) && so.auth.authKeyId === before && await so.getAccountId() === old.userId, "truncated-changed", `importing the first ${n} of ${s.length} characters fails but leaves ${show(so.auth.mustGet())}`);
  }
  for (const junk of ["", "!", "ключ", "A", "====", " ", "AAAA", "_".repeat(50)]) {
    let failed = false;
    try {
      await so.importAuthString(junk);
    } catch {
      failed = true;
    }
    t.ensure(failed && same(old, so.auth.mustGet()), "junk", `importing ${show(junk)} ${failed ? "fails but changes the session" : "is accepted"}`);
  }
  t.sig(s);
});
ck.part("unauthorised", { quick: 200, thorough: 3000 }, async (t) => {
  const r = t.rng, a: A = session(r);
  const what = r.pick(["dc", "apiId", "userId", "fresh"]);
  const so: A = new StorageOperations(new StorageMemory());
  await so.initialize();
  if (what !== "fresh") {
    a[what] = what === "dc" ? null : 0;
    await so.auth.set(a);
  }
  let name = "";
  try {
    name = "nothing, it returns " + await so.exportAuthString();
  } catch (e) {
    name = (e as A).constructor.name;
  }
  t.ensure(name === "InputError", "unauthorised", `exporting without ${what} throws ${name}`);
  t.sig(what + t.index);
});
ck.part("client", { quick: 150, thorough: 5000 }, async (t) => {
  const r = t.rng, a = session(r), kind = r.pick(["memory", "local", "idb"] as const);
  const st = await open(kind, r);
  try {
    const c1: A = new Client({ storage: st.root, apiId: a.apiId, apiHash: "x" });
    await c1.storage.initialize();
    const other = session(r);
    if (r.bool()) await c1.importAuthString(writeString(other));
    await c1.importAuthString(writeString(a));
    t.ensure(same(a, c1.storage.auth.mustGet()), "session", `${kind}: ${show(a)} imported into a client becomes ${show(c1.storage.auth.mustGet())}`);
    const s = await c1.exportAuthString();
    t.ensure(same(a, readString(s)), "session", `${kind}: ${show(a)} exported by a client is ${show(readString(s))}`);
    await c1.storage.commit(true);
    if (st.persistent) {
      const so: A = new StorageOperations(await st.reopen());
      await so.initialize();
      t.ensure(same(a, so.auth.mustGet()), "restart", `${kind}: after a restart the imported session is ${show(so.auth.mustGet())}`);
      await so.close();
    }
    t.sig(kind + s);
  } finally {
    await Promise.resolve(st.close()).catch(() => {});
  }
});
await ck.main();
