// Simulated mysql (callback API): a single connection that connects with its first query and runs one command at a time.
import { EventEmitter } from "node:events";
import { escape, escapeId, format } from "./sqlstring.mjs";
const sim = __SIM__;
const after = (code) => Object.assign(new Error(`Cannot enqueue Query after ${code === "quit" ? "invoking quit" : "fatal error"}.`), { code: code === "quit" ? "PROTOCOL_ENQUEUE_AFTER_QUIT" : "PROTOCOL_ENQUEUE_AFTER_FATAL_ERROR", fatal: false });

class Connection extends EventEmitter {
  constructor(config) {
    super();
    this.config = config;
    this.state = "disconnected";
    this.tail = Promise.resolve();
    this._h = () => { this.conn?.terminate(); };
    sim.handles.add(this._h);
  }
  _run(fn) {
    const p = this.tail.then(fn, fn);
    this.tail = p.catch(() => {});
    return p;
  }
  async _open() {
    if (this.state === "fatal") throw after("fatal");
    if (this.conn) return;
    try { this.conn = await sim.svc.mysql.connect(sim, this.config); } catch (e) { this.state = "fatal"; throw e; }
  }
  connect(cb) {
    if (this.ended) { cb?.(after("quit")); return; }
    this._run(() => this._open()).then(() => cb?.(null), (e) => cb?.(e));
  }
  query(sql, values, cb) {
    if (typeof values === "function") [values, cb] = [undefined, values];
    const o = typeof sql === "object" ? sql : { sql };
    const text = format(o.sql, values ?? o.values);
    if (this.ended || this.state === "fatal") { const e = after(this.ended ? "quit" : "fatal"); setImmediate(() => (cb ? cb(e) : this.emit("error", e))); return; }
    this._run(async () => {
      await this._open();
      try {
        const rs = (await this.conn.query(sim, text)).map((r) => (r.fields?.length ? r.rows.map((row) => Object.fromEntries(r.fields.map((f, i) => [f.name, sim.svc.mysql.out(row[i])]))) : { fieldCount: 0, affectedRows: r.rowCount ?? 0, insertId: r.insertId ?? 0, changedRows: r.changedRows ?? 0, message: "" }));
        return [rs.length > 1 ? rs : rs[0], rs.length ? undefined : []];
      } catch (e) {
        if (e && e.fatal) { this.state = "fatal"; this.conn.terminate(); sim.handles.delete(this._h); }
        throw e;
      }
    }).then(([rows, fields]) => cb?.(null, rows, fields), (e) => cb?.(e));
  }
  end(cb) {
    this.ended = true;
    this._run(async () => {
      sim.handles.delete(this._h);
      if (this.state === "fatal" || !this.conn) return;
      this.conn.close();
      await new Promise((r) => setTimeout(r, 1));
    }).then(() => cb?.(null));
  }
  destroy() { this.ended = true; sim.handles.delete(this._h); this.conn?.terminate(); }
  beginTransaction(cb) { this.query("START TRANSACTION", cb); }
  commit(cb) { this.query("COMMIT", cb); }
  rollback(cb) { this.query("ROLLBACK", cb); }
  escape(v) { return escape(v); }
  escapeId(v) { return escapeId(v); }
}
export function createConnection(config) { return new Connection(config); }
export { escape, escapeId, format };
export default { createConnection, escape, escapeId, format };
