// Simulated node-postgres: real pg-pool and pg-types, simulated Client talking to the World's PgServer.
// the driver sends an invalid Date as text that the server rejects
const badDate = (v) => (v !== null && typeof v === "object" && typeof v.getTime === "function" && Number.isNaN(v.getTime()) ? "0NaN-NaN-NaNTNaN:NaN:NaN.NaN+NaN:NaN" : v);
const EventEmitter = require("events");
const RealPool = require("pg-pool");
const types = require("pg-types");
const sim = __SIM__;

class Client extends EventEmitter {
  constructor(config) {
    super();
    const c = typeof config === "string" ? { connectionString: config } : config ?? {};
    this.config = c;
    this.connectionParameters = c;
    this.queue = [];
    this.busy = false;
    this.dead = false;
    this.ended = false;
    this._queryable = true;
    this._ending = false;
    this._connected = false;
    this.processID = 0;
    this.prepared = new Map();
    this.connection = Object.assign(new EventEmitter(), { stream: Object.assign(new EventEmitter(), { destroy: () => this._drop() }), parsedStatements: {} });
  }
  connect(cb) {
    if (!cb) return new Promise((res, rej) => this.connect((e) => (e ? rej(e) : res(this))));
    sim.svc.pg.connect(sim, this.config).then(
      (conn) => {
        this.conn = conn;
        this._handle = () => { this.dead = true; conn.terminate(); };
        sim.handles.add(this._handle);
        cb(null, this);
      },
      (e) => { this.dead = true; cb(e); },
    );
  }
  query(q, params, cb) {
    if (typeof params === "function") { cb = params; params = undefined; }
    let text = q, values = params, name;
    if (q && typeof q === "object") {
      if (typeof q.submit === "function") throw new Error("query streams are not simulated");
      text = q.text; values = q.values ?? params; name = q.name; cb = cb ?? q.callback;
    }
    if (!cb) return new Promise((res, rej) => this.query({ text, values, name }, undefined, (e, r) => (e ? rej(e) : res(r))));
    if (this.ended || this.dead) {
      const e = new Error(this.ended ? "Client was closed and is not queryable" : "Client has encountered a connection error and is not queryable");
      process.nextTick(() => cb(e));
      return;
    }
    sim.svc.pg.onQuery?.(this, text);
    this.queue.push({ text, values, name, cb });
    this._pump();
  }
  _pump() {
    if (this.busy || !this.queue.length) { if (!this.busy) { this.emit("drain"); if (this._endCb) this._finishEnd(); } return; }
    const q = this.queue.shift();
    this.busy = true;
    if (q.name) {
      const prev = this.prepared.get(q.name);
      if (prev !== undefined && prev !== q.text) {
        this.busy = false;
        const e = new Error(`Prepared statements must be unique - '${q.name}' was used for a different statement`);
        process.nextTick(() => { q.cb(e); this._pump(); });
        return;
      }
      this.prepared.set(q.name, q.text);
    }
    if (/^\s*(discard|deallocate)\s+all/i.test(q.text)) this.prepared.clear();
    this.conn.query(sim, q.text, Array.isArray(q.values) ? q.values.map(badDate) : q.values).then(
      (results) => {
        this.busy = false;
        const conv = results.map((r) => convert(r));
        q.cb(null, conv.length === 1 ? conv[0] : conv);
        this._pump();
      },
      (e) => {
        this.busy = false;
        if (e && e.connectionLost) {
          this.dead = true;
          this._queryable = false;
          sim.handles.delete(this._handle);
          q.cb(e);
          const rest = this.queue; this.queue = [];
          for (const x of rest) x.cb(e);
          if (this.listenerCount("error") > 0) this.emit("error", e);
          this.emit("end");
          if (this._endCb) this._finishEnd();
          return;
        }
        q.cb(e);
        this._pump();
      },
    );
  }
  isConnected() { return !!this.conn && !this.dead; }
  getTransactionStatus() { return this.conn?.s.tx ? (this.conn.s.tx.failed ? "E" : "T") : "I"; }
  _drop() { this.dead = true; this._queryable = false; this.conn?.terminate(); }
  _finishEnd() {
    const cb = this._endCb;
    this._endCb = undefined;
    this.ended = true;
    if (this._handle) sim.handles.delete(this._handle);
    this.conn?.close(sim);
    process.nextTick(() => { this.emit("end"); cb(); });
  }
  end(cb) {
    if (!cb) return new Promise((res) => this.end(res));
    if (this.ended) { process.nextTick(cb); return; }
    this._endCb = cb;
    this._ending = true;
    if (!this.busy) this._finishEnd();
  }
  ref() {}
  unref() {}
  getTypeParser(oid) { return types.getTypeParser(oid, "text"); }
  setTypeParser(oid, f, p) { return types.setTypeParser(oid, f, p); }
  escapeIdentifier(s) { return `"${s.replace(/"/g, '""')}"`; }
  escapeLiteral(s) { return `'${s.replace(/'/g, "''")}'`; }
}
const OID = { bigint: 20, int: 23, numeric: 1700, float: 701, text: 25, bool: 16, timestamptz: 1184, date: 1082, json: 3802 };
function convert(r) {
  const parsers = r.fields.map((f) => (["bigint", "numeric", "float"].includes(f.type) ? types.getTypeParser(OID[f.type], "text") : f.type === "date" ? types.getTypeParser(1082, "text") : undefined));
  const rows = r.rows.map((row) => {
    const o = {};
    r.fields.forEach((f, i) => {
      let v = row[i];
      if (v !== null && v !== undefined) {
        if (typeof v === "number" && parsers[i] && f.type !== "date") v = parsers[i](String(v));
        else if (f.type === "date" && v instanceof Date) v = parsers[i](v.toISOString().slice(0, 10));
        else v = sim.svc.pg.out(v);
      } else v = null;
      o[f.name] = v;
    });
    return o;
  });
  return { command: r.command, rowCount: r.rowCount, oid: null, rows, fields: r.fields.map((f) => ({ name: f.name, dataTypeID: OID[f.type] ?? 25 })), _types: types, RowCtor: null, rowAsArray: false };
}
class Pool extends RealPool {
  constructor(options) {
    super({ ...(options ?? {}) }, undefined);
    const pool = this;
    this.Client = class extends Client {
      constructor(c) { super(c); this.__pool = pool; }
    };
    sim.svc.pg.poolOpened?.(sim, this);
  }
}
const defaults = { host: "localhost", user: "sim", binary: false, parseInt8: undefined, poolSize: 10, max: 10 };
module.exports = { Client, Pool, types, defaults, Query: class Query {}, DatabaseError: class DatabaseError extends Error {}, escapeIdentifier: (s) => `"${s}"`, escapeLiteral: (s) => `'${s}'` };
