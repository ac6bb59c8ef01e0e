// Simulated PostgreSQL server in front of the SQL engine: connections, sessions, latency, faults.
import { Database, LockWait, SqlError, Exec } from "./sql/engine.mjs";
import { Geom, Interval, Json, geomIn, toText } from "./sql/values.mjs";

function connErr(msg, code) {
  const e = new Error(msg);
  if (code) e.code = code;
  e.connectionLost = true;
  return e;
}

export class Session {
  constructor(db) {
    this.db = db;
    this.tx = undefined;
    this.closed = false;
    this.data = {};
    this.readonly = false;
  }
}

export class PgServer {
  constructor(world, o = {}) {
    this.world = world;
    this.db = new Database({ clock: () => world.now + (o.skewMs ?? 0), dialect: "pg" });
    this.roHost = o.roHost ?? "db-ro";
    this.open = 0;
    this.opened = 0;
    this.statements = 0;
    this.sessions = new Set();
    this.poolsOpen = 0;
    this.latency = o.latency ?? [0.5, 12];
    this.onStatement = o.onStatement;
    this.log = o.log ? [] : undefined;
    this.stmtTimeoutMs = o.stmtTimeoutMs;
    this.connectFaultKind = "db.connect";
  }
  out(v) {
    if (v instanceof Json) return JSON.parse(JSON.stringify(v.v));
    if (v instanceof Date) return new Date(v.getTime());
    if (v instanceof Geom) return Buffer.from(v.key()).toString("hex").toUpperCase(); // opaque hex, as EWKB is to the client; decoded by the wkx stand-in
    if (v instanceof Interval) { const ms = v.ms; return { months: v.months || undefined, days: v.days, hours: Math.floor(ms / 3600000), minutes: Math.floor((ms % 3600000) / 60000), seconds: Math.floor((ms % 60000) / 1000), toPostgres: () => v.toString() }; }
    if (Array.isArray(v)) return v.map((x) => this.out(x));
    return v;
  }
  connect(inst, config) {
    const w = this.world;
    const cs = config.connectionString ?? `postgresql://${config.user}:${config.password}@${config.host}`;
    return inst.rpc({
      kind: "db.connect",
      label: "db.connect",
      lo: 1,
      hi: 15,
      before: () => connErr("connect ECONNREFUSED 10.0.0.1:5432", "ECONNREFUSED"),
      exec: () => {
        const s = new Session(this.db);
        const m = /^postgres(?:ql)?:\/\/([^:]*):([^@]*)@([^/?]+)(?:\/([^?]*))?(?:\?(.*))?$/.exec(cs);
        s.user = m?.[1];
        s.host = m?.[3];
        s.params = m?.[5];
        s.readonly = !!m && m[3].startsWith(this.roHost);
        s.inst = inst;
        if (this.checkAuth) this.checkAuth(s, m);
        this.open++;
        this.opened++;
        this.sessions.add(s);
        return new Conn(this, s);
      },
    }).catch((e) => { w.trace("pg", "connect failed"); throw e; });
  }
  endSession(s) {
    if (s.closed) return;
    s.closed = true;
    this.open--;
    this.sessions.delete(s);
    if (s.cancelWait) s.cancelWait();
    if (s.tx && s.tx.state === "active") this.db.rollback(s.tx);
    s.tx = undefined;
  }
  /** Execute SQL text in a session: resolves an array of results. */
  async exec(s, sql, params, named) {
    const stmts = this.db.parse(sql);
    const out = [];
    const implicit = !s.tx && stmts.length > 1;
    let last;
    for (const ast of stmts) {
      if (s.closed) throw connErr("Connection terminated", "ECONNRESET");
      last = await this.one(s, ast, params, sql, implicit, named);
      out.push(last);
    }
    if (implicit && s.tx && s.implicitTx) { this.db.commit(s.tx); s.tx = undefined; s.implicitTx = false; }
    return out.length ? out : [{ command: "", rows: [], fields: [], rowCount: 0 }];
  }
  async one(s, ast, params, sql, implicit, named) {
    const db = this.db;
    this.statements++;
    const empty = (command) => ({ command, rows: [], fields: [], rowCount: 0 });
    switch (ast.k) {
      case "begin":
        if (!s.tx) { s.tx = db.begin(); s.tx.explicit = true; s.tx.session = s; }
        return empty("BEGIN");
      case "commit":
        if (s.tx) {
          const failed = s.tx.failed;
          if (failed) db.rollback(s.tx); else db.commit(s.tx);
          s.tx = undefined;
          s.implicitTx = false;
          return empty(failed ? "ROLLBACK" : "COMMIT");
        }
        return empty("COMMIT");
      case "rollback":
        if (s.tx) { db.rollback(s.tx); s.tx = undefined; s.implicitTx = false; }
        return empty("ROLLBACK");
      case "savepoint":
        if (!s.tx) throw new SqlError("25P01", "SAVEPOINT can only be used in transaction blocks");
        if (s.tx.failed) throw new SqlError("25P02", "current transaction is aborted, commands ignored until end of transaction block");
        s.tx.savepoints.push({ name: ast.name, mark: s.tx.undo.length });
        return empty("SAVEPOINT");
      case "release": {
        if (s.tx?.failed) throw new SqlError("25P02", "current transaction is aborted, commands ignored until end of transaction block");
        const i = s.tx ? s.tx.savepoints.map((x) => x.name).lastIndexOf(ast.name) : -1;
        if (i < 0) throw new SqlError("3B001", `savepoint "${ast.name}" does not exist`);
        s.tx.savepoints.length = i;
        return empty("RELEASE");
      }
      case "rollbackto": {
        const i = s.tx ? s.tx.savepoints.map((x) => x.name).lastIndexOf(ast.name) : -1;
        if (i < 0) throw new SqlError("3B001", `savepoint "${ast.name}" does not exist`);
        db.undoTo(s.tx, s.tx.savepoints[i].mark);
        s.tx.savepoints.length = i + 1;
        s.tx.failed = false;
        return empty("ROLLBACK");
      }
      case "discard":
        if (s.tx) throw new SqlError("25001", "DISCARD ALL cannot run inside a transaction block");
        s.discarded = true;
        return empty("DISCARD ALL");
    }
    if (s.tx?.failed) throw new SqlError("25P02", "current transaction is aborted, commands ignored until end of transaction block");
    if (s.readonly && ["insert", "update", "delete", "truncate"].includes(ast.k)) { if (s.tx) s.tx.failed = true; throw new SqlError("25006", `cannot execute ${ast.k.toUpperCase()} in a read-only transaction`); }
    let auto = false;
    if (!s.tx) {
      s.tx = db.begin();
      s.tx.session = s;
      if (implicit) s.implicitTx = true;
      else auto = true;
    }
    const tx = s.tx;
    try {
      for (;;) {
        try {
          const r = db.execStmt(ast, tx, { params, named, session: s.data });
          this.onStatement?.(s, ast, sql, r);
          if (auto) { db.commit(tx); s.tx = undefined; }
          return r;
        } catch (e) {
          if (!(e instanceof LockWait)) throw e;
          db.lockWaits++;
          this.world.probe("sql.lockwait");
          await this.waitFor(s, tx, e.tx);
        }
      }
    } catch (e) {
      if (auto || s.implicitTx) { if (s.tx) db.rollback(s.tx); s.tx = undefined; s.implicitTx = false; }
      else if (s.tx === tx) tx.failed = true;
      throw e;
    }
  }
  waitFor(s, tx, other) {
    this.db.addWait(tx, other);
    tx.waitingFor = other;
    return new Promise((resolve, reject) => {
      let done = false;
      s.cancelWait = () => { if (!done) { done = true; tx.waitingFor = undefined; reject(connErr("Connection terminated", "ECONNRESET")); } };
      other.waiters.push(() => {
        this.world.after(0.01, "lock-granted", () => {
          if (done) return;
          done = true;
          s.cancelWait = undefined;
          tx.waitingFor = undefined;
          resolve();
        });
      });
    });
  }
}

class Conn {
  constructor(server, s) {
    this.server = server;
    this.s = s;
  }
  terminate() { this.server.endSession(this.s); }
  close() { this.server.world.after(0.2, "db.close", () => this.server.endSession(this.s)); }
  query(inst, text, values) {
    const server = this.server;
    const w = server.world;
    const s = this.s;
    const label = `db.q.${shortSql(text)}`;
    const lost = () => { server.endSession(s); return connErr("Connection terminated unexpectedly", "ECONNRESET"); };
    if (s.closed) return inst.rpc({ kind: "db", label, lo: 0.1, hi: 0.2, exec: () => { throw connErr("Connection terminated unexpectedly", "ECONNRESET"); }, noCrash: true });
    server.log?.push({ t: w.now, inst: inst.name, text, values });
    return inst.rpc({
      kind: "db",
      label,
      lo: server.latency[0],
      hi: server.latency[1],
      slowMs: server.slowMs ?? 4000,
      before: lost,
      lost,
      exec: () => {
        if (w.fault(`${inst.site}:${label}`, "db.error")) {
          if (s.tx) s.tx.failed = true;
          throw new SqlError("53200", "out of memory (injected)");
        }
        return server.exec(s, text, values);
      },
    });
  }
}

export function shortSql(sql) {
  const m = /^\s*(?:with\b[\s\S]*?)?(insert\s+into|update|delete\s+from|select|begin|commit|rollback|savepoint|discard|release)\s*([\w.]*)/i.exec(sql);
  if (!m) return "other";
  const v = m[1].toLowerCase().split(/\s/)[0];
  if (v === "select") { const f = /from\s+([\w.]+)/i.exec(sql); return `select-${(f?.[1] ?? "").toLowerCase()}`; }
  return v === "insert" || v === "update" || v === "delete" ? `${v}-${m[2].toLowerCase()}` : v;
}
export { SqlError, Exec, toText, geomIn };
