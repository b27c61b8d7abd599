// deno-lint-ignore-file no-explicit-any
// The worker script of the library in this very process, behind ports that clone messages and take their time.
import "./env.ts";
import type { Rng } from "./env.ts";
import "./vclock.ts";
import "file:///repo/worker.ts";
import { ClientWorker } from "file:///repo/client/7_client_worker.ts";

const g = globalThis as any;

/** a worker as its front end sees it */
export class FakeWorker {
  #listeners = new Map<string, ((e: any) => void)[]>();
  posted: any[] = [];
  returned: any[] = [];
  #up = 0;
  #down = 0;
  closed = false;
  /** changes what reaches the worker */
  edit: ((m: any) => any) | null = null;
  front: ClientWorker;
  #port: any = null;
  constructor(public r: Rng, public latency: () => number, public shared: boolean) {
    if (shared) {
      delete g.postMessage;
      const ls: ((e: any) => void)[] = [];
      this.#port = { ls, addEventListener: (type: string, fn: any) => type === "message" && ls.push(fn), start() {}, postMessage: (m: any) => this.#toFront(m) };
      dispatchEvent(Object.assign(new Event("connect"), { ports: [this.#port] }));
    } else g.postMessage = (m: any) => this.#toFront(m);
    this.front = new ClientWorker(this as any);
  }
  addEventListener(type: string, fn: (e: any) => void) {
    if (!this.#listeners.has(type)) this.#listeners.set(type, []);
    this.#listeners.get(type)!.push(fn);
  }
  emit(type: string, e: any) {
    for (const fn of this.#listeners.get(type) ?? []) fn(e);
  }
  /** messages of one direction arrive in the order they were posted */
  #after(up: boolean, fn: () => void) {
    const now = Date.now();
    const at = Math.max(now + this.latency(), up ? this.#up : this.#down);
    if (up) this.#up = at;
    else this.#down = at;
    setTimeout(fn, at - now);
  }
  postMessage(m: any, transfer?: any) {
    let c = structuredClone(m, Array.isArray(transfer) ? { transfer } : transfer);
    this.posted.push(c);
    if (this.edit) c = this.edit(c);
    this.#after(true, () => {
      if (this.closed) return;
      if (this.shared) for (const fn of this.#port.ls) fn({ data: c });
      else dispatchEvent(new MessageEvent("message", { data: c }));
    });
  }
  #toFront(m: any) {
    if (this.closed) return;
    const c = structuredClone(m);
    this.returned.push(c);
    this.#after(false, () => !this.closed && this.emit("message", { data: c }));
  }
  close() {
    this.closed = true;
    delete g.postMessage;
  }
}
