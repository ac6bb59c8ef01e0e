// Simulated MySQL (InnoDB) server: sessions with autocommit, statement-level and transaction-level rollback, faults.
import { LockWait, SqlError } from "./sql/engine.mjs";
import { PgServer, Session, shortSql } from "./pgserver.mjs";
import { Database } from "./sql/engine.mjs";

export function connErr(msg, code, o = {}) {
  return Object.assign(new Error(msg), { code, fatal: true, ...o });
}

export class MysqlServer extends PgServer {
  constructor(world, o = {}) {
    super(world, o);
    this.db = new Database({ clock: () => world.now + (o.skewMs ?? 0), dialect: "mysql" });
  }
  connect(inst, config) {
    return inst.rpc({
      kind: "db.connect",
      label: "db.connect",
      lo: 1,
      hi: 15,
      before: () => connErr("connect ETIMEDOUT", "ETIMEDOUT"),
      exec: () => {
        const s = new Session(this.db);
        s.user = config.user;
        s.password = config.password;
        s.host = config.host;
        s.database = config.database;
        s.readonly = String(config.host).startsWith(this.roHost);
        s.inst = inst;
        this.checkAuth?.(s, config);
        this.open++;
        this.opened++;
        this.sessions.add(s);
        return new MyConn(this, s);
      },
    });
  }
  async one(s, ast, params) {
    const db = this.db;
    this.statements++;
    const empty = () => ({ command: "", rows: [], fields: [], rowCount: 0 });
    switch (ast.k) {
      case "begin":
        if (s.tx) db.commit(s.tx); // START TRANSACTION commits an open transaction
        s.tx = db.begin();
        s.tx.explicit = true;
        s.tx.session = s;
        return empty();
      case "commit":
        if (s.tx) { db.commit(s.tx); s.tx = undefined; }
        return empty();
      case "rollback":
        if (s.tx) { db.rollback(s.tx); s.tx = undefined; }
        return empty();
    }
    if (s.readonly && ["insert", "update", "delete", "truncate"].includes(ast.k)) throw new SqlError("ER_OPTION_PREVENTS_STATEMENT", "The MySQL server is running with the --read-only option", { errno: 1290 });
    const auto = !s.tx;
    const tx = s.tx ?? db.begin();
    tx.session = s;
    try {
      for (;;) {
        try {
          const r = db.execStmt(ast, tx, { params, session: s.data });
          this.onStatement?.(s, ast, undefined, r);
          if (auto) db.commit(tx);
          return r;
        } catch (e) {
          if (!(e instanceof LockWait)) throw e;
          db.lockWaits++;
          this.world.probe("sql.lockwait");
          await this.waitFor(s, tx, e.tx);
        }
      }
    } catch (e) {
      // an error undoes its statement only, but a deadlock undoes the whole transaction and the session autocommits again
      if (auto) db.rollback(tx);
      else if (e.code === "ER_LOCK_DEADLOCK" && s.tx === tx) { db.rollback(tx); s.tx = undefined; this.world.probe("sql.deadlock"); }
      throw e;
    }
  }
}

class MyConn {
  constructor(server, s) {
    this.server = server;
    this.s = s;
  }
  terminate() { this.server.endSession(this.s); }
  close() { this.server.world.after(0.2, "db.close", () => this.server.endSession(this.s)); }
  query(inst, text, values) {
    const server = this.server;
    const w = server.world;
    const s = this.s;
    const label = `db.q.${shortSql(text.replace(/^\s*START TRANSACTION/i, "begin"))}`;
    const gone = () => connErr("Connection lost: The server closed the connection.", "PROTOCOL_CONNECTION_LOST");
    const lost = () => { server.endSession(s); return gone(); };
    if (s.closed) return inst.rpc({ kind: "db", label, lo: 0.1, hi: 0.2, exec: () => { throw gone(); }, noCrash: true });
    return inst.rpc({
      kind: "db",
      label,
      lo: server.latency[0],
      hi: server.latency[1],
      slowMs: server.slowMs ?? 4000,
      before: lost,
      lost,
      exec: async () => {
        const site = `${inst.site}:${label}`;
        if (/^\s*commit/i.test(text) && s.tx && w.fault(site, "db.error")) {
          server.db.rollback(s.tx);
          s.tx = undefined;
          throw new SqlError("ER_ERROR_DURING_COMMIT", "Got error 28 'No space left on device' during COMMIT", { errno: 1180 });
        }
        // starting a transaction and rolling back fail only with their connection
        if (!/^\s*(start|begin|commit|rollback)/i.test(text) && (server.failing || w.fault(site, "db.error"))) throw new SqlError("ER_OUTOFMEMORY", "Out of memory (injected)", { errno: 1037 });
        if (s.tx && /^\s*(insert|update|delete|replace)/i.test(text)) {
          if (w.fault(site, "db.deadlock")) {
            server.db.rollback(s.tx);
            s.tx = undefined;
            throw new SqlError("ER_LOCK_DEADLOCK", "Deadlock found when trying to get lock; try restarting transaction", { errno: 1213 });
          }
          if (w.fault(site, "db.locktimeout")) throw new SqlError("ER_LOCK_WAIT_TIMEOUT", "Lock wait timeout exceeded; try restarting transaction", { errno: 1205 });
        }
        return server.exec(s, text, values);
      },
    });
  }
}
