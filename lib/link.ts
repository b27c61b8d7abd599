// Opens MTKruto's connection classes against reference peers: in memory for the Deno classes, over loopback
// sockets for the Node classes, through a scripted WebSocket for the browser class.
import { Rng, turn } from "./env.ts";
import { chunked, FakeConn } from "./conn.ts";
import { PlainPeer, SocksPeer, type SocksScript, TlsPeer, type TlsScript } from "./peers.ts";
import { cat } from "./core.ts";
import * as net from "node:net";
import { ConnectionTCP } from "file:///repo/connection/1_connection_tcp.ts";
import { ConnectionTCP as ConnectionTCPNode } from "file:///repo/connection/1_connection_tcp.node.ts";
import { ConnectionSocks5 } from "file:///repo/connection/1_connection_socks5.ts";
import { ConnectionSocks5 as ConnectionSocks5Node } from "file:///repo/connection/1_connection_socks5.node.ts";
import { ConnectionTLS } from "file:///repo/connection/1_connection_tls.ts";
import { ConnectionTLS as ConnectionTLSNode } from "file:///repo/connection/1_connection_tls.node.ts";
import { ConnectionWebSocket } from "file:///repo/connection/1_connection_web_socket.ts";

// deno-lint-ignore no-explicit-any
type A = any;
export type Side = {
  peer: A;
  /** application bytes towards the client */
  send(b: Uint8Array): Promise<void>;
  raw(b: Uint8Array): Promise<void>;
  end(how: "end" | "error"): void;
  closedByClient(): boolean;
  rawIn: number;
  rawOut: number;
};
export interface Link {
  conn: A;
  sides: Side[];
  cleanup(): Promise<void>;
  opened: { hostname: string; port: number }[];
}
export type Kind = "tcp" | "socks5" | "tls" | "tcp-node" | "socks5-node" | "tls-node" | "ws";
export interface LinkOptions {
  socks?: SocksScript;
  tls?: TlsScript;
  dest?: { host: string; port: number };
  cred?: { username: string; password: string };
  /** bytes glued directly behind the peer's last negotiation answer */
  glue?: Uint8Array;
  refuseConnect?: boolean;
  /** proxy host as given to the class (in-memory kinds only) */
  proxy?: { host: string; port: number };
  /** end the stream after this many answer bytes of the negotiation */
  cutAfter?: number;
}
const sleep = (ms: number) => new Promise((r) => setTimeout(r, ms));

export async function link(kind: Kind, r: Rng, o: LinkOptions): Promise<Link> {
  const sides: Side[] = [];
  const opened: { hostname: string; port: number }[] = [];
  const mkPeer = () => kind.startsWith("socks5") ? new SocksPeer({ ...o.socks! }) : kind.startsWith("tls") ? new TlsPeer(o.tls!, r) : new PlainPeer();
  const dest = o.dest ?? { host: "127.0.0.1", port: 80 };
  const proxy = o.proxy ?? { host: "10.0.0.1", port: 1080 };
  if (kind === "tcp" || kind === "socks5" || kind === "tls") {
    const connect = async (p: { hostname: string; port: number }) => {
      opened.push({ hostname: p.hostname, port: p.port });
      await turn();
      await turn();
      if (o.refuseConnect) throw new Deno.errors.ConnectionRefused("refused");
      const fake = new FakeConn(r);
      const peer = mkPeer();
      let sent = 0;
      const push = (b: Uint8Array) => {
        side.rawOut += b.length;
        for (const c of chunked(r, b)) fake.in.push(c);
      };
      const side: Side = {
        peer,
        rawIn: 0,
        rawOut: 0,
        send: (b) => Promise.resolve(push(peer.wrap(b))),
        raw: (b) => Promise.resolve(push(b)),
        end: (how) => {
          if (how === "error") fake.writeError = new Deno.errors.ConnectionReset("reset");
          fake.in.end(how === "error" ? new Deno.errors.ConnectionReset("reset") : null);
        },
        closedByClient: () => fake.closed,
      };
      fake.onWrite = (b) => {
        side.rawIn += b.length;
        const was = peer.ready;
        let a = peer.feed(b);
        if (!was && peer.ready && o.glue && !(peer instanceof PlainPeer)) a = cat(a, o.glue);
        if (o.cutAfter !== undefined && sent + a.length >= o.cutAfter) {
          push(a.subarray(0, Math.max(0, o.cutAfter - sent)));
          fake.in.end();
        } else if (a.length) push(a);
        sent += a.length;
      };
      sides.push(side);
      return fake;
    };
    const conn: A = kind === "tcp" ? new ConnectionTCP(dest.host, dest.port) : kind === "tls" ? new ConnectionTLS(dest.host, dest.port, o.tls!.domain.length || r.bool() ? cat([0xee], o.tls!.secret, o.tls!.domain) : o.tls!.secret as A) : new ConnectionSocks5(dest.host, dest.port, proxy.host, proxy.port, o.cred);
    let restore = () => {};
    if (kind === "socks5") {
      const orig = Deno.connect;
      (Deno as A).connect = connect;
      restore = () => (Deno as A).connect = orig;
    } else conn.connect = connect;
    return { conn, sides, opened, cleanup: () => Promise.resolve(restore()) };
  }
  if (kind === "ws") {
    const orig = globalThis.WebSocket;
    class FakeWs extends EventTarget {
      static CONNECTING = 0;
      static OPEN = 1;
      static CLOSING = 2;
      static CLOSED = 3;
      readyState = 0;
      binaryType = "blob";
      constructor(public url: string, public protocol: string) {
        super();
        opened.push({ hostname: url, port: 0 });
        const peer = new PlainPeer();
        const fin = (name: string) => {
          this.readyState = 3;
          if (name === "error") this.dispatchEvent(Object.assign(new Event("error"), { message: "failed" }));
          this.dispatchEvent(new Event("close"));
        };
        const side: Side = {
          peer,
          rawIn: 0,
          rawOut: 0,
          send: (b) => chain = chain.then(() => deliver(b)),
          raw: (b) => side.send(b),
          end: (how) => fin(how),
          closedByClient: () => this.readyState >= 2,
        };
        let chain = Promise.resolve();
        const deliver = async (b: Uint8Array) => {
            for (const c of chunked(r, b)) {
              side.rawOut += c.length;
              const k = r.int(0, 2);
              const data = this.binaryType === "arraybuffer" || k === 0 ? c.slice().buffer : k === 1 ? c.slice() : new Blob([c.slice()]);
              if (this.readyState === 1) this.dispatchEvent(new MessageEvent("message", { data }));
              if (r.bool(0.2)) await turn();
              if (r.bool(0.05) && this.readyState === 1) this.dispatchEvent(new MessageEvent("message", { data: "text" }));
            }
          };
        this.#side = side;
        sides.push(side);
        (async () => {
          await turn();
          await turn();
          if (this.readyState !== 0) return;
          if (o.refuseConnect) return fin("error");
          this.readyState = 1;
          this.dispatchEvent(new Event("open"));
        })();
      }
      #side: Side;
      send(b: Uint8Array) {
        if (this.readyState !== 1) throw new DOMException("not open", "InvalidStateError");
        this.#side.rawIn += b.length;
        this.#side.peer.feed(b);
      }
      close() {
        if (this.readyState >= 2) return;
        this.readyState = 2;
        (async () => {
          await turn();
          this.readyState = 3;
          this.dispatchEvent(new Event("close"));
        })();
      }
    }
    (globalThis as A).WebSocket = FakeWs;
    const conn: A = new ConnectionWebSocket("wss://venus.web.telegram.org/apiws");
    return { conn, sides, opened, cleanup: () => Promise.resolve(void ((globalThis as A).WebSocket = orig)) };
  }
  // loopback
  const sockets: net.Socket[] = [];
  const server = net.createServer((s) => {
    sockets.push(s);
    s.setNoDelay(true);
    const peer = mkPeer();
    let closed = false, sent = 0;
    const push = async (b: Uint8Array) => {
      side.rawOut += b.length;
      let n = 0;
      for (const c of chunked(r, b)) {
        if (s.destroyed) return;
        s.write(c.slice());
        if (++n < 20 && r.bool(0.3)) await sleep(1);
      }
    };
    let chain = Promise.resolve();
    const q = (b: Uint8Array) => chain = chain.then(() => push(b));
    const side: Side = { peer, rawIn: 0, rawOut: 0, send: (b) => q(peer.wrap(b)), raw: (b) => q(b), end: (how) => how === "end" ? s.end() : s.resetAndDestroy(), closedByClient: () => closed };
    s.on("data", (d: Uint8Array) => {
      side.rawIn += d.length;
      const was = peer.ready;
      let a = peer.feed(new Uint8Array(d));
      if (!was && peer.ready && o.glue && !(peer instanceof PlainPeer)) a = cat(a, o.glue);
      if (o.cutAfter !== undefined && sent + a.length >= o.cutAfter) {
        q(a.subarray(0, Math.max(0, o.cutAfter - sent))).then(() => s.end());
      } else if (a.length) q(a);
      sent += a.length;
    });
    s.on("end", () => closed = true);
    s.on("close", () => closed = true);
    s.on("error", () => closed = true);
    sides.push(side);
  });
  await new Promise<void>((res) => server.listen(0, "127.0.0.1", () => res()));
  const port = (server.address() as net.AddressInfo).port;
  if (o.refuseConnect) await new Promise((res) => server.close(res as A));
  const conn: A = kind === "tcp-node" ? new ConnectionTCPNode("127.0.0.1", port) : kind === "tls-node" ? new ConnectionTLSNode("127.0.0.1", port, o.tls!.domain.length || r.bool() ? cat([0xee], o.tls!.secret, o.tls!.domain) : o.tls!.secret as A) : new ConnectionSocks5Node(dest.host, dest.port, "127.0.0.1", port, o.cred);
  return {
    conn,
    sides,
    opened,
    cleanup: async () => {
      try {
        if (conn.isConnected) conn.close();
      } catch {
        // already closed
      }
      for (const s of sockets) s.destroy();
      await new Promise<void>((res) => {
        server.close(() => res());
        setTimeout(res, 200);
      });
    },
  };
}

export type Outcome<T> = { ok: true; v: T } | { ok: false; e: unknown };
export function outcome<T>(p: Promise<T> | T): Promise<Outcome<T>> {
  return Promise.resolve(p).then((v) => ({ ok: true as const, v }), (e) => ({ ok: false as const, e }));
}
/** Waits with real time; null when nothing happened. */
export async function within<T>(p: Promise<T>, ms: number, loopback: boolean): Promise<T | null> {
  let done = false;
  let v: T | null = null;
  p.then((x) => {
    done = true;
    v = x;
  });
  // the limits only say when to give up on something that never comes: generous, for a busy machine
  const end = performance.now() + 2 * ms;
  if (loopback) {
    while (!done && performance.now() < end) await sleep(1);
  } else for (let i = 0; (i < 4000 || performance.now() < end) && !done; i++) await turn();
  return v;
}
