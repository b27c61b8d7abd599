/** An in-memory stand-in for the parts of IndexedDB that the library uses, with the key order and the transaction rules of the specification. */
// deno-lint-ignore-file no-explicit-any
type A = any;
const rank = (k: A): number => typeof k === "number" ? 1 : k instanceof Date ? 2 : typeof k === "string" ? 3 : k instanceof Uint8Array ? 4 : Array.isArray(k) ? 5 : 0;
function valid(k: A): void {
  const r = rank(k);
  if (!r || (r === 1 && Number.isNaN(k)) || (r === 2 && Number.isNaN(k.getTime()))) throw new DOMException("invalid key", "DataError");
  if (r === 5) k.forEach(valid);
}
export function cmp(a: A, b: A): number {
  const ra = rank(a), rb = rank(b);
  if (ra !== rb) return ra < rb ? -1 : 1;
  if (ra === 5 || ra === 4) {
    for (let i = 0; i < Math.min(a.length, b.length); i++) {
      const c = ra === 5 ? cmp(a[i], b[i]) : Math.sign(a[i] - b[i]);
      if (c) return c;
    }
    return Math.sign(a.length - b.length);
  }
  const x = ra === 2 ? a.getTime() : a, y = ra === 2 ? b.getTime() : b;
  return x < y ? -1 : x > y ? 1 : 0;
}
class Range {
  constructor(public lower: A, public upper: A, public lowerOpen: boolean, public upperOpen: boolean) {}
  static lowerBound(l: A, open = false) {
    valid(l);
    return new Range(l, undefined, open, true);
  }
  static bound(l: A, u: A, lo = false, uo = false) {
    valid(l), valid(u);
    if (cmp(l, u) > 0 || (cmp(l, u) === 0 && (lo || uo))) throw new DOMException("lower bound above upper bound", "DataError");
    return new Range(l, u, lo, uo);
  }
  has(k: A) {
    if (this.lower !== undefined) {
      const c = cmp(k, this.lower);
      if (c < 0 || (c === 0 && this.lowerOpen)) return false;
    }
    if (this.upper !== undefined) {
      const c = cmp(k, this.upper);
      if (c > 0 || (c === 0 && this.upperOpen)) return false;
    }
    return true;
  }
}
type Row = [A, A];
class Store {
  rows: Row[] = [];
}
type Db = { stores: Map<string, Store>; version: number; queue: Tx[] };
/** a transaction: its requests run in order; read/write transactions on the same database never overlap; it ends when a task finishes with no request left */
class Tx {
  reqs: (() => void)[] = [];
  active = true;
  started = false;
  done = false;
  busy = true;
  constructor(public db: Db, public mode: string, public world: World) {
    db.queue.push(this);
    // the creating task keeps the transaction active until control returns to the event loop
    world.later(() => {
      this.active = false;
      this.busy = false;
      this.pump();
    });
  }
  objectStore(name: string) {
    const s = this.db.stores.get(name);
    if (!s) throw new DOMException("no such store", "NotFoundError");
    return new TxStore(this, s);
  }
  canStart() {
    for (const t of this.db.queue) {
      if (t === this) return true;
      if (!t.done && (t.mode === "readwrite" || this.mode === "readwrite")) return false;
    }
    return true;
  }
  pump() {
    if (this.done || this.busy) return;
    if (!this.started) {
      if (!this.canStart()) return;
      this.started = true;
    }
    const r = this.reqs.shift();
    if (!r) {
      if (!this.active) {
        this.done = true;
        this.db.queue.splice(this.db.queue.indexOf(this), 1);
        for (const t of [...this.db.queue]) t.pump();
      }
      return;
    }
    this.busy = true;
    this.world.later(() => {
      this.active = true;
      r();
      // handlers and their microtasks run before the transaction may become inactive
      this.world.after(() => {
        this.active = false;
        this.busy = false;
        this.pump();
      });
    });
  }
  request(run: () => A): Req {
    if (this.done || !this.active) throw new DOMException("the transaction is not active", "TransactionInactiveError");
    const q = new Req();
    const step = () => {
      try {
        q.result = run();
      } catch (e) {
        q.error = e;
        q.onerror?.({ target: q });
        return;
      }
      q.onsuccess?.({ target: q });
    };
    q.again = (f: () => A) => {
      if (this.done || !this.active) throw new DOMException("the transaction is not active", "TransactionInactiveError");
      run = f;
      this.reqs.push(step);
    };
    this.reqs.push(step);
    return q;
  }
}
class Req {
  result: A;
  error: A;
  onsuccess: A;
  onerror: A;
  onblocked: A;
  onupgradeneeded: A;
  again!: (f: () => A) => void;
}
class TxStore {
  constructor(private tx: Tx, private s: Store) {}
  #find(k: A) {
    let lo = 0, hi = this.s.rows.length;
    while (lo < hi) {
      const m = (lo + hi) >> 1;
      if (cmp(this.s.rows[m][0], k) < 0) lo = m + 1;
      else hi = m;
    }
    return { at: lo, hit: lo < this.s.rows.length && cmp(this.s.rows[lo][0], k) === 0 };
  }
  #rw() {
    if (this.tx.mode !== "readwrite") throw new DOMException("read only", "ReadOnlyError");
  }
  put(v: A, k: A) {
    this.#rw(), valid(k);
    const value = structuredClone(v), key = structuredClone(k);
    return this.tx.request(() => {
      const { at, hit } = this.#find(key);
      if (hit) this.s.rows[at] = [key, value];
      else this.s.rows.splice(at, 0, [key, value]);
      return key;
    });
  }
  delete(k: A) {
    this.#rw(), valid(k);
    const key = structuredClone(k);
    return this.tx.request(() => {
      const { at, hit } = this.#find(key);
      if (hit) this.s.rows.splice(at, 1);
      return undefined;
    });
  }
  get(k: A) {
    valid(k);
    const key = structuredClone(k);
    return this.tx.request(() => {
      const { at, hit } = this.#find(key);
      return hit ? structuredClone(this.s.rows[at][1]) : undefined;
    });
  }
  openKeyCursor(range?: Range, dir = "next") {
    let last: A;
    const step = (): A => {
      const rows = dir === "prev" ? [...this.s.rows].reverse() : this.s.rows;
      const row = rows.find(([k]) => (!range || range.has(k)) && (last === undefined || (dir === "prev" ? cmp(k, last) < 0 : cmp(k, last) > 0)));
      if (!row) return null;
      last = row[0];
      return { key: structuredClone(row[0]), continue: () => q.again(step) };
    };
    const q = this.tx.request(step);
    return q;
  }
}
export class World {
  dbs = new Map<string, Db>();
  events = 0;
  #delay: () => number;
  constructor(delay: () => number = () => 0) {
    this.#delay = delay;
  }
  later(f: () => void) {
    let n = 1 + this.#delay();
    const go = () => --n <= 0 ? (this.events++, f()) : setImmediate(go);
    setImmediate(go);
  }
  after(f: () => void) {
    setImmediate(f);
  }
  install() {
    const g = globalThis as A;
    g.IDBKeyRange = Range;
    g.indexedDB = {
      cmp: (a: A, b: A) => (valid(a), valid(b), cmp(a, b)),
      open: (name: string, version: number) => {
        const q = new Req();
        this.later(() => {
          let db = this.dbs.get(name);
          const fresh = !db || db.version < version;
          if (!db) this.dbs.set(name, db = { stores: new Map(), version, queue: [] });
          db.version = version;
          const handle = {
            closed: false,
            createObjectStore: (n: string) => db.stores.set(n, new Store()),
            transaction: (_n: string, mode = "readonly") => {
              if (handle.closed) throw new DOMException("closed", "InvalidStateError");
              return new Tx(db, mode, this);
            },
            close: () => void (handle.closed = true),
          };
          q.result = handle;
          if (fresh) q.onupgradeneeded?.({ target: q });
          q.onsuccess?.({ target: q });
        });
        return q;
      },
    };
  }
}
