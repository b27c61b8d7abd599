/** Opens every storage backend of the library in a scratch setting. */
import { World } from "./idb.ts";
import type { Rng } from "./env.ts";
import * as S from "file:///repo/2_storage.ts";
// deno-lint-ignore no-explicit-any
type A = any;

/** what browsers offer as localStorage: entries are own enumerable properties, everything is a string */
export class WebStore {
  static make(): A {
    const m = new Map<string, string>();
    const api: A = {
      getItem: (k: string) => m.get(String(k)) ?? null,
      setItem: (k: string, v: string) => void m.set(String(k), String(v)),
      removeItem: (k: string) => void m.delete(String(k)),
      clear: () => m.clear(),
    };
    return new Proxy(api, {
      get: (_t, k) => k in api ? api[k] : k === "length" ? m.size : m.get(String(k)),
      ownKeys: () => [...m.keys()],
      has: (_t, k) => m.has(String(k)),
      getOwnPropertyDescriptor: (_t, k) => m.has(String(k)) ? { value: m.get(String(k)), enumerable: true, configurable: true, writable: true } : undefined,
    });
  }
}
export const KINDS = ["memory", "local", "session", "local-node", "idb", "kv"] as const;
export type Kind = typeof KINDS[number];
let nodeClass: A;
const nodeDisks = new Map<string, A>();
/** the Node.js variant, with its one npm dependency replaced by a stand-in */
async function nodeLocalStorage() {
  if (nodeClass) return nodeClass;
  (globalThis as A).__nodeLocalStorage = class {
    constructor(path: string) {
      if (!nodeDisks.has(path)) nodeDisks.set(path, WebStore.make());
      return nodeDisks.get(path);
    }
  };
  const dir = Deno.makeTempDirSync({ dir: Deno.env.get("VERIF_SCRATCH") });
  const src = Deno.readTextFileSync("/repo/storage/2_storage_local_storage.node.ts").replace(/import\s*\{\s*LocalStorage\s*\}\s*from\s*"node-localstorage";/, "const LocalStorage: any = (globalThis as any).__nodeLocalStorage; type LocalStorage = any;").replace(/from "\.\//g, 'from "file:///repo/storage/').replace(/from "\.\.\//g, 'from "file:///repo/');
  Deno.writeTextFileSync(dir + "/node.ts", src);
  return nodeClass = (await import("file://" + dir + "/node.ts")).StorageLocalStorage;
}
export interface Opened {
  kind: Kind;
  root: A;
  /** close and open again on the same data */
  reopen(): Promise<A>;
  persistent: boolean;
  close(): Promise<void>;
  /** share another handle's data, e.g. a prefix that extends this one */
  other?(name: string): Promise<A>;
}
let serial = 0;
export async function open(kind: Kind, r: Rng): Promise<Opened> {
  const g = globalThis as A;
  const name = "p" + (++serial);
  let root: A;
  const world = new World(() => r.int(0, 2));
  const make = async (n = name): Promise<A> => {
    let s: A;
    switch (kind) {
      case "memory":
        s = new S.StorageMemory();
        break;
      case "local":
        s = new S.StorageLocalStorage(n);
        break;
      case "session":
        s = new S.StorageSessionStorage(n);
        break;
      case "local-node":
        s = new (await nodeLocalStorage())("/path/" + n);
        break;
      case "idb":
        s = new S.StorageIndexedDB(n);
        break;
      case "kv":
        s = new (await import("file:///repo/storage/1_storage_deno_kv.ts")).StorageDenoKV(path);
        break;
    }
    await s.initialize();
    return s;
  };
  const path = kind === "kv" ? Deno.makeTempDirSync({ dir: Deno.env.get("VERIF_SCRATCH") }) + "/kv.db" : "";
  if (kind === "idb") world.install();
  const define = (k: string) => Object.defineProperty(g, k, { value: WebStore.make(), configurable: true, writable: true });
  if (kind === "local" || kind === "session") define("localStorage"), define("sessionStorage");
  root = await make();
  return {
    kind,
    get root() {
      return root;
    },
    persistent: kind !== "memory",
    async reopen() {
      await root.close();
      return root = await make();
    },
    async close() {
      await root.close();
      nodeDisks.delete("/path/" + name);
      if (path) Deno.removeSync(path.slice(0, path.lastIndexOf("/")), { recursive: true });
    },
    other: kind === "memory" || kind === "kv" || kind === "local-node" ? undefined : make,
  } as Opened;
}
