// Simulated mysql2 (promise API): pool of connections to the World's MySQL server.
import { EventEmitter } from "node:events";
import { dateText, escape, escapeId, format, named } from "./sqlstring.mjs";
export { escape, escapeId, format };
const sim = __SIM__;

const closedErr = () => Object.assign(new Error("Can't add new command when connection is in closed state"), { fatal: true });
const header = (r) => ({ fieldCount: 0, affectedRows: r.rowCount ?? 0, insertId: r.insertId ?? 0, info: "", serverStatus: 2, warningStatus: 0, changedRows: r.changedRows ?? 0 });
function rowsOf(r) {
  if (!r.fields?.length) return header(r);
  const pg = sim.svc.mysql;
  return r.rows.map((row) => Object.fromEntries(r.fields.map((f, i) => [f.name, pg.out(row[i])])));
}

class Connection extends EventEmitter {
  constructor(conn, config, pool) {
    super();
    this.conn = conn;
    this.config = config;
    this.pool = pool;
    this.closed = false;
    this.tail = Promise.resolve();
    this._h = () => { this.closed = true; conn.terminate(); };
    sim.handles.add(this._h);
    this.threadId = 1;
  }
  // commands of a connection are executed one after another
  _enqueue(text, params) {
    const run = async () => {
      if (this.closed) throw closedErr();
      try {
        const rs = await this.conn.query(sim, text, params);
        const out = rs.map(rowsOf);
        return [out.length > 1 ? out : out[0], rs[0]?.fields?.map((f) => ({ name: f.name }))];
      } catch (e) {
        if (e && e.fatal) this._fatal();
        throw e;
      }
    };
    const p = this.tail.then(run, run);
    this.tail = p.catch(() => {});
    return p;
  }
  _fatal() {
    if (this.closed) return;
    this.closed = true;
    sim.handles.delete(this._h);
    this.conn.terminate();
    this.pool?._removed(this);
  }
  async query(sql, values) {
    let text = typeof sql === "object" ? sql.sql : sql;
    let v = values ?? (typeof sql === "object" ? sql.values : undefined);
    if (this.config.namedPlaceholders) [text, v] = named(text, v);
    return this._enqueue(format(text, v));
  }
  async execute(sql, values) {
    let text = typeof sql === "object" ? sql.sql : sql;
    let v = values ?? (typeof sql === "object" ? sql.values : undefined);
    if (this.config.namedPlaceholders) [text, v] = named(text, v);
    if (v !== undefined && !Array.isArray(v)) throw new TypeError("Bind parameters must be array if namedPlaceholders parameter is not enabled");
    for (const x of v ?? []) {
      if (x === undefined) throw new TypeError("Bind parameters must not contain undefined. To pass SQL NULL specify JS null");
      if (typeof x === "function") throw new TypeError("Bind parameters must not contain function(s). To pass the body of a function as a string call .toString() first");
    }
    return this._enqueue(text, (v ?? []).map((x) => (Object.prototype.toString.call(x) === "[object Date]" ? dateText(x) : x !== null && typeof x === "object" && !Buffer.isBuffer(x) ? JSON.stringify(x) : x)));
  }
  async beginTransaction() { await this._enqueue("START TRANSACTION"); }
  async commit() { await this._enqueue("COMMIT"); }
  async rollback() { await this._enqueue("ROLLBACK"); }
  async ping() { await this._enqueue("SELECT 1"); }
  release() { this.pool?._release(this); }
  destroy() { this._fatal(); }
  async end() { if (this.closed) return; this.closed = true; sim.handles.delete(this._h); this.conn.close(); }
}

class Pool extends EventEmitter {
  constructor(config) {
    super();
    this.config = config;
    this.limit = config.connectionLimit ?? 10;
    this.all = new Set();
    this.free = [];
    this.waiting = [];
    this.opening = 0;
    this.closed = false;
  }
  getConnection() {
    if (this.closed) return Promise.reject(new Error("Pool is closed."));
    while (this.free.length) {
      const c = this.free.pop();
      if (!c.closed) { c.free = false; return Promise.resolve(c); }
    }
    if (this.all.size + this.opening < this.limit) {
      this.opening++;
      return sim.svc.mysql.connect(sim, this.config).then(
        (conn) => { this.opening--; const c = new Connection(conn, this.config, this); this.all.add(c); return c; },
        (e) => { this.opening--; this._next(); throw e; },
      );
    }
    if (this.config.waitForConnections === false) return Promise.reject(new Error("No connections available."));
    if (this.config.queueLimit && this.waiting.length >= this.config.queueLimit) return Promise.reject(new Error("Queue limit reached."));
    return new Promise((resolve, reject) => this.waiting.push({ resolve, reject }));
  }
  _next() {
    const n = this.waiting.shift();
    if (n) this.getConnection().then(n.resolve, n.reject);
  }
  _removed(c) { this.all.delete(c); this.free = this.free.filter((x) => x !== c); this._next(); }
  _release(c) {
    if (c.closed || !this.all.has(c)) { this._next(); return; }
    if (c.free) return;
    const n = this.waiting.shift();
    if (n) n.resolve(c);
    else { c.free = true; this.free.push(c); }
  }
  async query(sql, v) { const c = await this.getConnection(); try { return await c.query(sql, v); } finally { c.release(); } }
  async execute(sql, v) { const c = await this.getConnection(); try { return await c.execute(sql, v); } finally { c.release(); } }
  async end() {
    this.closed = true;
    for (const c of this.all) await c.end();
    this.all.clear();
    this.free = [];
  }
}
export function createPool(config) { return new Pool(typeof config === "string" ? { uri: config } : config); }
export async function createConnection(config) { return new Connection(await sim.svc.mysql.connect(sim, config), config); }
export default { createPool, createConnection, escape, escapeId, format };
