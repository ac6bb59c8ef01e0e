// Transactional SQL engine (MVCC, READ COMMITTED, row locks, unique and foreign keys, savepoints) used as the
// simulated PostgreSQL/MySQL server. Statements execute atomically; a statement that meets a row lock or an
// uncommitted unique key of another transaction is undone, waits for that transaction and then runs again.
import { parseSql, SqlSyntaxError } from "./parse.mjs";
import { Unsupported } from "../world.mjs";
import { Geom, Interval, Json, Row, SqlError, addInterval, castTo, cmp, geomIn, jsonIn, keyOf, mysqlDate, parseInterval, parseTs, toJsonVal, toText } from "./values.mjs";

export { SqlError } from "./values.mjs";

export class LockWait {
  constructor(tx, opts = {}) { this.tx = tx; Object.assign(this, opts); }
}

const JSON_FN = /^jsonb?_(object_|array_|build_)?(agg|object|array)/; // an untyped literal next to one of these is JSON
const AGG = new Set(["count", "sum", "avg", "min", "max", "array_agg", "string_agg", "json_agg", "jsonb_agg", "json_object_agg", "jsonb_object_agg", "bool_and", "bool_or", "every", "group_concat", "json_arrayagg", "json_objectagg", "percentile_cont", "st_collect", "stddev", "any_value"]);
const TYPE_BY_FN = { count: "bigint" };

function hasAgg(e) {
  if (!e || typeof e !== "object") return false;
  if (Array.isArray(e)) return e.some(hasAgg);
  if (e.k === "fn" && AGG.has(e.name) && !e.over) return true;
  if (e.k === "sub" || e.k === "exists" || e.k === "subarr") return false;
  if (e.k === "insub") return hasAgg(e.e);
  for (const key in e) if (key !== "k" && typeof e[key] === "object" && hasAgg(e[key])) return true;
  return false;
}
function collectWindows(e, out) {
  if (!e || typeof e !== "object") return;
  if (Array.isArray(e)) { for (const x of e) collectWindows(x, out); return; }
  if (e.k === "fn" && e.over) { out.push(e); return; }
  if (e.k === "sub" || e.k === "exists" || e.k === "subarr") return;
  for (const key in e) if (typeof e[key] === "object") collectWindows(e[key], out);
}

export class Tx {
  constructor(db, id) {
    this.db = db;
    this.id = id;
    this.state = "active";
    this.cid = 1;
    this.undo = []; // {fn}
    this.savepoints = [];
    this.now = undefined;
    this.failed = false;
    this.waiters = [];
    this.waitingFor = undefined;
    this.lockedRows = [];
    this.explicit = false;
    this.snap = undefined;
    this.tableLocks = new Set();
    this.lastInsertId = 0;
    this.tag = undefined;
  }
}

export class Table {
  constructor(name, cols, o = {}) {
    this.name = name;
    this.cols = cols; // [{name,type:{name,args,arr},notNull,default,serial}]
    this.colMap = new Map(cols.map((c) => [c.name, c]));
    this.uniques = o.uniques ?? [];
    this.fks = o.fks ?? [];
    this.checks = o.checks ?? [];
    this.rows = [];
    this.seq = 0;
    this.isView = o.view;
    this.touch = o.touch;
    this.onUpdate = o.onUpdate; // (old values, new values): before-update trigger
    this.locks = new Map(); // tx -> mode
  }
}

/** Compact schema syntax: "id serial primary key, name text not null, t timestamptz default now(), unique(a,b), fk(x)->other(y) cascade" */
/** Point in polygon, border included. */
function pointIn([x, y], g) {
  if (g.type === "Point") return g.coordinates[0] === x && g.coordinates[1] === y;
  const ring = (r) => {
    let inside = false;
    for (let i = 0, j = r.length - 1; i < r.length; j = i++) {
      const [ax, ay] = r[i], [bx, by] = r[j];
      if ((bx - ax) * (y - ay) === (by - ay) * (x - ax) && Math.min(ax, bx) <= x && x <= Math.max(ax, bx) && Math.min(ay, by) <= y && y <= Math.max(ay, by)) return 2;
      if (ay > y !== by > y && x < ((bx - ax) * (y - ay)) / (by - ay) + ax) inside = !inside;
    }
    return inside ? 1 : 0;
  };
  return (g.type === "Polygon" ? [g.coordinates] : g.coordinates).some(([outer, ...holes]) => ring(outer) > 0 && !holes.some((h) => ring(h) === 1));
}
export function parseCols(spec) {
  const cols = [], uniques = [], fks = [];
  let depth = 0, cur = "";
  const parts = [];
  for (const ch of spec) {
    if (ch === "(") depth++;
    if (ch === ")") depth--;
    if (ch === "," && depth === 0) { parts.push(cur.trim()); cur = ""; } else cur += ch;
  }
  if (cur.trim()) parts.push(cur.trim());
  for (const p of parts) {
    let m;
    if ((m = /^(unique|primary key)\s*\(([^)]*)\)(?:\s+where\s+(.*))?$/is.exec(p))) {
      uniques.push({ cols: m[2].split(",").map((s) => s.trim()), primary: /primary/i.test(m[1]), where: m[3], name: `uq_${uniques.length}` });
      continue;
    }
    if ((m = /^fk\s*\(([^)]*)\)\s*->\s*(\w+)\s*\(([^)]*)\)\s*(cascade|set null)?$/is.exec(p))) {
      fks.push({ cols: m[1].split(",").map((s) => s.trim()), ref: m[2], refCols: m[3].split(",").map((s) => s.trim()), onDelete: m[4]?.toLowerCase() });
      continue;
    }
    m = /^(\w+)\s+(\w+)(?:\(([^)]*)\))?((?:\[\])*)\s*(.*)$/s.exec(p);
    if (!m) throw new Error(`bad column spec ${p}`);
    const rest = m[5].toLowerCase();
    const tn = m[2].toLowerCase();
    const c = { name: m[1], type: { name: normCol(tn), args: m[3]?.split(",").map(Number), arr: m[4] ? 1 : 0, insert: true } };
    if (/serial|auto/.test(tn) || /auto_increment/.test(rest)) c.serial = true;
    if (/not null|primary key/.test(rest)) c.notNull = true;
    const d = /default\s+(\S+)/.exec(m[5]);
    if (d) c.default = d[1].replace(/^'|'$/g, "");
    if (/primary key/.test(rest)) uniques.push({ cols: [c.name], primary: true, name: `pk_${c.name}` });
    else if (/unique/.test(rest)) uniques.push({ cols: [c.name], name: `uq_${c.name}` });
    cols.push(c);
  }
  return { cols, uniques, fks };
}
function normCol(t) {
  const m = { serial: "int", bigserial: "bigint", auto: "bigint", int: "int", integer: "int", bigint: "bigint", smallint: "int", float: "float", double: "float", numeric: "numeric", text: "text", varchar: "text", timestamptz: "timestamptz", timestamp: "timestamptz", datetime: "timestamptz", date: "date", bool: "bool", boolean: "bool", json: "json", jsonb: "json" };
  return m[t] ?? t;
}

export class Database {
  constructor({ clock, dialect = "pg", name = "db" }) {
    this.clock = clock;
    this.dialect = dialect;
    this.my = dialect === "mysql";
    this.name = name;
    this.tables = new Map();
    this.txSeq = 0;
    this.commitSeq = 0;
    this.commits = 0;
    this.rollbacks = 0;
    this.deadlocks = 0;
    this.lockWaits = 0;
    this.commitHooks = [];
    this.funcs = new Map();
    this.sequences = new Map();
    this.strictNulls = true;
    this.stateHash = new Set();
  }
  table(name, spec, o = {}) {
    const { cols, uniques, fks } = parseCols(spec);
    const t = new Table(this.my ? name : name.toLowerCase(), cols, { uniques, fks, ...o });
    this.tables.set(t.name, t);
    return t;
  }
  getTable(name) {
    const t = this.tables.get(name) ?? this.tables.get(name.toLowerCase());
    if (!t) {
      if (this.missingTable) throw this.missingTable(name);
      throw new Unsupported(`table ${name} is not in the simulated schema`);
    }
    return t;
  }
  /** Committed rows, for oracles. */
  rows(name) {
    const t = this.getTable(name);
    return t.rows.filter((r) => r.xmin.state === "committed" && !(r.xmax && r.xmax.tx.state === "committed")).map((r) => r.vals);
  }
  /** Direct insertion of committed seed data. */
  seed(name, rows) {
    const tx = this.begin();
    const ex = new Exec(this, tx, { params: [] });
    for (const r of rows) ex.insertRow(this.getTable(name), { ...r }, { seed: true });
    this.commit(tx);
  }
  begin() { const t = new Tx(this, ++this.txSeq); t.beganSeq = this.commitSeq; t.beganAt = this.clock(); return t; }
  commit(tx) {
    if (tx.state !== "active") return;
    tx.state = "committed";
    tx.commitSeq = ++this.commitSeq;
    if (tx.undo.length) this.commits++;
    const changed = new Set();
    const changes = [];
    for (const u of tx.undo) {
      changed.add(u.table);
      changes.push(u);
    }
    for (const t of changed) {
      if (!this.my) t.rows = t.rows.filter((r) => !(r.xmax && r.xmax.tx.state === "committed"));
      else if (t.rows.length > 4000) t.rows = t.rows.filter((r) => !(r.xmax && r.xmax.tx.state === "committed"));
    }
    this.release(tx);
    if (changes.length) for (const h of this.commitHooks) h(tx, changes);
  }
  rollback(tx) {
    if (tx.state !== "active") return;
    this.undoTo(tx, 0);
    tx.state = "aborted";
    this.rollbacks++;
    this.release(tx);
  }
  release(tx) {
    for (const r of tx.lockedRows) r.locks = r.locks?.filter((l) => l.tx !== tx);
    tx.lockedRows = [];
    for (const t of tx.tableLocks) t.locks.delete(tx);
    const w = tx.waiters;
    tx.waiters = [];
    for (const f of w) f();
  }
  undoTo(tx, mark) {
    while (tx.undo.length > mark) {
      const u = tx.undo.pop();
      if (u.op === "ins") {
        const i = u.table.rows.lastIndexOf(u.row);
        if (i >= 0) u.table.rows.splice(i, 1);
      } else if (u.row.xmax && u.row.xmax.tx === tx) u.row.xmax = undefined;
    }
  }
  /**
   * Execute one statement AST in tx. Returns {rows, fields, command, rowCount} or throws SqlError / LockWait.
   */
  execStmt(ast, tx, ctx) {
    const mark = tx.undo.length;
    const ex = new Exec(this, tx, ctx);
    try {
      const r = ex.run(ast);
      tx.cid++;
      return r;
    } catch (e) {
      this.undoTo(tx, mark);
      tx.cid++;
      if (e instanceof RangeError || e instanceof TypeError) throw new Unsupported(`engine bug: ${e.stack}`);
      throw e;
    }
  }
  addWait(tx, other) {
    // deadlock detection
    let t = other;
    const seen = new Set();
    while (t && t.state === "active" && !seen.has(t)) {
      if (t === tx) { this.deadlocks++; throw new SqlError(this.my ? "ER_LOCK_DEADLOCK" : "40P01", "deadlock detected", this.my ? { errno: 1213 } : {}); }
      seen.add(t);
      t = t.waitingFor;
    }
  }
  parse(sql) {
    try {
      return parseSql(sql, this.dialect);
    } catch (e) {
      if (e instanceof SqlSyntaxError) throw new SqlError(this.my ? "ER_PARSE_ERROR" : "42601", e.message);
      throw e;
    }
  }
}

const lockConflict = {
  keyshare: new Set(["update"]),
  share: new Set(["update", "nokey"]),
  nokey: new Set(["share", "nokey", "update"]),
  update: new Set(["keyshare", "share", "nokey", "update"]),
};

class Exec {
  constructor(db, tx, ctx) {
    this.db = db;
    this.my = db.my;
    this.tx = tx;
    this.cid = tx.cid;
    this.params = ctx.params ?? [];
    this.named = ctx.named ?? {};
    this.session = ctx.session ?? {};
    this.ctes = new Map();
    if (tx.now === undefined || (!tx.explicit)) tx.now = Math.floor(db.clock());
    this.stmtNow = Math.floor(db.clock());
    this.depth = 0;
  }
  run(ast) {
    switch (ast.k) {
      case "select": case "setop": case "values": {
        const r = this.query(ast, undefined);
        return { command: "SELECT", ...this.output(r) };
      }
      case "insert": case "update": case "delete": return this.dml(ast);
      case "lock": return this.lockTable(ast);
      case "truncate":
        for (const n of ast.tables) { const t = this.db.getTable(n); for (const row of [...t.rows]) if (this.visible(row)) this.deleteTuple(t, row, "delete"); }
        return { command: "TRUNCATE", rows: [], fields: [], rowCount: 0 };
      case "noop": return { command: ast.what, rows: [], fields: [], rowCount: 0 };
      case "refresh": return { command: "REFRESH", rows: [], fields: [], rowCount: 0 };
      case "droptable":
        if (!this.db.tables.has(ast.name) && !ast.ifExists) throw new SqlError(this.my ? "ER_BAD_TABLE_ERROR" : "42P01", `table "${ast.name}" does not exist`);
        this.db.tables.delete(ast.name);
        this.db.onDdl?.("drop", ast.name);
        return { command: "DROP", rows: [], fields: [], rowCount: 0 };
      case "createtable": return this.createTable(ast);
      default: throw new Unsupported(`statement ${ast.k}`);
    }
  }
  createTable(ast) {
    if (this.db.tables.has(ast.name)) {
      if (ast.ifNot) return { command: "CREATE", rows: [], fields: [], rowCount: 0 };
      throw new SqlError(this.my ? "ER_TABLE_EXISTS_ERROR" : "42P07", `Table '${ast.name}' already exists`);
    }
    let t;
    if (ast.like) {
      const src = this.db.getTable(ast.like);
      t = new Table(ast.name, src.cols, { uniques: src.uniques.map((u) => ({ ...u })) });
    } else if (ast.cols) {
      const cols = ast.cols.map((c) => ({ name: c.name, type: { ...c.type, insert: true }, notNull: c.notNull || c.primary, serial: c.auto, default: c.defaultNow ? "now()" : undefined }));
      const uniques = ast.keys.map((k, i) => ({ cols: k.cols, primary: k.primary, name: `k${i}` }));
      for (const c of ast.cols) if (c.primary || c.unique) uniques.push({ cols: [c.name], primary: c.primary, name: `k_${c.name}` });
      t = new Table(ast.name, cols, { uniques });
    } else {
      const r = this.query(ast.as, undefined);
      t = new Table(ast.name, r.cols.map((n, i) => ({ name: n, type: { name: r.types?.[i] ?? "any" } })), {});
      this.db.tables.set(ast.name, t);
      for (const row of r.rows) { const v = {}; r.cols.forEach((n, i) => { v[n] = row[i]; }); this.insertRow(t, v); }
    }
    this.db.tables.set(ast.name, t);
    this.db.onDdl?.("create", ast.name);
    return { command: "CREATE", rows: [], fields: [], rowCount: 0 };
  }
  lockTable(ast) {
    const t = this.db.getTable(ast.table);
    for (const [o] of t.locks) if (o !== this.tx && o.state === "active") throw new LockWait(o);
    t.locks.set(this.tx, "exclusive");
    this.tx.tableLocks.add(t);
    return { command: "LOCK", rows: [], fields: [], rowCount: 0 };
  }
  output(r) {
    const fields = r.cols.map((name, i) => ({ name, type: r.types?.[i] }));
    return { fields, rows: r.rows, rowCount: r.rows.length };
  }
  // ---------- visibility and tuple changes ----------
  visible(t) {
    const tx = this.tx;
    const ins = t.xmin === tx ? t.cmin < this.cid : t.xmin.state === "committed" && (this.snap === undefined || t.xmin.commitSeq <= this.snap || t.xmin === tx);
    if (!ins) return false;
    const x = t.xmax;
    if (!x) return true;
    if (x.tx === tx) return x.cid >= this.cid;
    return !(x.tx.state === "committed" && (this.snap === undefined || x.tx.commitSeq <= this.snap));
  }
  checkTableLock(t) {
    for (const [o] of t.locks) if (o !== this.tx && o.state === "active") throw new LockWait(o);
  }
  /** Wait until nobody else holds a conflicting claim on the row. */
  claim(t, mode) {
    const tx = this.tx;
    if (t.xmax && t.xmax.tx !== tx && t.xmax.tx.state === "active") {
      const held = t.xmax.mode;
      if (lockConflict[mode].has(held)) throw new LockWait(t.xmax.tx);
    }
    if (t.locks) {
      for (const l of t.locks) if (l.tx !== tx && l.tx.state === "active" && lockConflict[mode].has(l.mode)) throw new LockWait(l.tx);
    }
  }
  lockRow(t, mode) {
    this.claim(t, mode);
    t.locks ??= [];
    if (!t.locks.some((l) => l.tx === this.tx && l.mode === mode)) {
      t.locks.push({ tx: this.tx, mode });
      this.tx.lockedRows.push(t);
    }
  }
  deleteTuple(table, t, kind, mode = "update") {
    this.claim(t, mode);
    // keep the claim across a restart of the statement, as a real server would
    this.lockRow(t, mode);
    t.xmax = { tx: this.tx, cid: this.cid, kind, mode };
    this.tx.undo.push({ op: "del", table, row: t, kind });
  }
  addTuple(table, vals) {
    const t = { vals, xmin: this.tx, cmin: this.cid, xmax: undefined, locks: undefined };
    table.rows.push(t);
    this.tx.undo.push({ op: "ins", table, row: t });
    return t;
  }
  coerceRow(table, vals) {
    for (const c of table.cols) {
      let v = vals[c.name];
      if (v === undefined) v = null;
      if (v !== null && c.type.name !== "any") v = castTo(v, c.type, this.my);
      if (v instanceof Date && this.my && c.type.name === "timestamptz" && !(c.type.args?.[0] > 0)) v = new Date(Math.round(v.getTime() / 1000) * 1000);
      if (v === null && c.notNull) throw new SqlError(this.my ? "ER_BAD_NULL_ERROR" : "23502", this.my ? `Column '${c.name}' cannot be null` : `null value in column "${c.name}" of relation "${table.name}" violates not-null constraint`, this.my ? { errno: 1048 } : {});
      vals[c.name] = v;
    }
    return vals;
  }
  evalDefault(c) {
    if (c.serial) return undefined;
    if (c.default === undefined) return null;
    const d = c.default.toLowerCase();
    if (d.startsWith("now") || d === "current_timestamp") return new Date(this.tx.now);
    if (d === "null") return null;
    if (d === "true") return true;
    if (d === "false") return false;
    if (d.includes("uuid")) return this.uuid();
    return castTo(c.default, c.type, this.my);
  }
  uuid() {
    const n = (this.db.uuidSeq = (this.db.uuidSeq ?? 0) + 1);
    return `00000000-0000-4000-8000-${String(n).padStart(12, "0")}`;
  }
  conflictOn(table, u, vals, self) {
    const key = [];
    for (const c of u.cols) {
      const v = vals[c];
      if (v === null || v === undefined) return undefined;
      key.push(keyNorm(v, this.my));
    }
    if (u.where && !this.truthy(this.partial(table, u, vals))) return undefined;
    const tx = this.tx;
    for (const t of table.rows) {
      if (t === self) continue;
      let same = true;
      for (let i = 0; i < key.length; i++) {
        const v = t.vals[u.cols[i]];
        if (v === null || v === undefined || keyNorm(v, this.my) !== key[i]) { same = false; break; }
      }
      if (!same) continue;
      if (u.where && !this.truthy(this.partial(table, u, t.vals))) continue;
      if (t.xmin !== tx && t.xmin.state === "active") {
        if (t.xmax && t.xmax.tx === t.xmin) continue;
        throw new LockWait(t.xmin);
      }
      if (t.xmin.state === "aborted") continue;
      if (!t.xmax) return t;
      if (t.xmax.tx === tx) continue;
      if (t.xmax.tx.state === "committed") continue;
      if (t.xmax.tx.state === "active") throw new LockWait(t.xmax.tx);
      return t;
    }
    return undefined;
  }
  partial(table, u, vals) {
    u.ast ??= parseSql(`select 1 from x where ${u.where}`, this.db.dialect)[0].where;
    return this.ev(u.ast, { frames: [{ alias: table.name, vals, table }], parent: undefined });
  }
  checkFks(table, vals) {
    for (const fk of table.fks) {
      if (fk.cols.some((c) => vals[c] === null || vals[c] === undefined)) continue;
      const ref = this.db.getTable(fk.ref);
      let found;
      for (const t of ref.rows) {
        if (!fk.cols.every((c, i) => t.vals[fk.refCols[i]] !== null && cmp(t.vals[fk.refCols[i]], vals[c], this.my) === 0)) continue;
        const mine = t.xmin === this.tx;
        if (!mine && t.xmin.state !== "committed") {
          if (t.xmin.state === "active") { found = found ?? undefined; continue; }
          continue;
        }
        if (t.xmax) {
          if (t.xmax.tx === this.tx || t.xmax.tx.state === "committed") continue;
          if (t.xmax.tx.state === "active" && t.xmax.mode === "update") throw new LockWait(t.xmax.tx);
        }
        found = t;
        break;
      }
      if (!found) throw new SqlError(this.my ? "ER_NO_REFERENCED_ROW_2" : "23503", `insert or update on table "${table.name}" violates foreign key constraint (${fk.cols})`, this.my ? { errno: 1452 } : {});
      this.lockRow(found, "keyshare");
    }
  }
  checkReferenced(table, vals) {
    for (const other of this.db.tables.values()) {
      for (const fk of other.fks) {
        if (fk.ref !== table.name) continue;
        for (const t of [...other.rows]) {
          if (!fk.cols.every((c, i) => t.vals[c] !== null && t.vals[c] !== undefined && cmp(t.vals[c], vals[fk.refCols[i]], this.my) === 0)) continue;
          if (t.xmin !== this.tx && t.xmin.state === "active") throw new LockWait(t.xmin);
          if (t.xmax && (t.xmax.tx === this.tx || t.xmax.tx.state === "committed")) continue;
          if (fk.onDelete === "cascade") { this.deleteRow(other, t); continue; }
          if (fk.onDelete === "set null") { const nv = { ...t.vals }; for (const c of fk.cols) nv[c] = null; this.deleteTuple(other, t, "update"); this.addTuple(other, nv); continue; }
          if (t.xmax && t.xmax.tx.state === "active") throw new LockWait(t.xmax.tx);
          throw new SqlError(this.my ? "ER_ROW_IS_REFERENCED_2" : "23503", `update or delete on table "${table.name}" violates foreign key constraint on table "${other.name}"`, this.my ? { errno: 1451 } : {});
        }
      }
    }
  }
  deleteRow(table, t) {
    this.deleteTuple(table, t, "delete");
    this.checkReferenced(table, t.vals);
  }
  dupError(table, u, vals) {
    if (this.my) return new SqlError("ER_DUP_ENTRY", `Duplicate entry '${u.cols.map((c) => toText(vals[c])).join("-")}' for key '${table.name}.${u.name}'`, { errno: 1062 });
    return new SqlError("23505", `duplicate key value violates unique constraint "${u.name}" on "${table.name}"`, { constraint: u.name, table: table.name });
  }
  insertRow(table, given, o = {}) {
    this.checkTableLock(table);
    const vals = {};
    for (const k in given) if (!table.colMap.has(k)) throw new Unsupported(`column ${table.name}.${k} is not in the simulated schema`);
    for (const c of table.cols) {
      if (given[c.name] !== undefined) vals[c.name] = given[c.name];
      else vals[c.name] = this.evalDefault(c) ?? null;
      if (c.serial) {
        if (vals[c.name] === null || (this.my && vals[c.name] === 0)) { vals[c.name] = ++table.seq; this.session.lastInsertId = vals[c.name]; this.tx.lastInsertId = vals[c.name]; }
        else if (vals[c.name] > table.seq && (o.seed || this.my)) table.seq = vals[c.name];
      }
    }
    this.coerceRow(table, vals);
    const oc = o.onConflict;
    const targets = this.arbiters(table, oc);
    for (const u of targets) {
      const t = this.conflictOn(table, u, vals);
      if (t) return this.resolveConflict(table, t, vals, o, u);
    }
    for (const u of table.uniques) {
      if (targets.includes(u)) continue;
      const t = this.conflictOn(table, u, vals);
      if (t) throw this.dupError(table, u, vals);
    }
    this.checkFks(table, vals);
    return { tuple: this.addTuple(table, vals), inserted: true };
  }
  arbiters(table, oc) {
    if (!oc) return [];
    if (oc.mysql || oc.ignore || (!oc.targets && !oc.constraint)) return table.uniques;
    if (oc.constraint) { const u = table.uniques.filter((x) => x.name === oc.constraint); return u.length ? u : table.uniques.filter((x) => x.primary); }
    const want = oc.targets.map((e) => (e.k === "col" ? e.c : e.k === "parenexpr" ? e.e.c : "?")).sort().join(",");
    const u = table.uniques.filter((x) => [...x.cols].sort().join(",") === want && (!x.where || oc.targetWhere || true));
    if (!u.length) throw new Unsupported(`no unique constraint on ${table.name}(${want}) in the simulated schema`);
    return u;
  }
  resolveConflict(table, t, vals, o, u) {
    const oc = o.onConflict;
    if (oc.action === "nothing" || oc.ignore) return { inserted: false };
    // DO UPDATE
    if (t.xmin === this.tx && t.cmin === this.cid && !this.my) throw new SqlError("21000", "ON CONFLICT DO UPDATE command cannot affect row a second time");
    this.claim(t, "nokey");
    this.lockRow(t, "nokey");
    const frames = [{ alias: o.alias ?? table.name, vals: t.vals, table, tuple: t }, { alias: "excluded", vals, table, explicitOnly: true }];
    if (o.rowAlias) frames.push({ alias: o.rowAlias, vals, table, explicitOnly: true });
    const scope = { frames, parent: undefined, insertVals: vals };
    if (oc.where && !this.truthy(this.ev(oc.where, scope))) return { inserted: false };
    const nv = { ...t.vals };
    if (this.my) { for (const s of this.flatSets(oc.set, scope)) { nv[s.col] = s.v(nv === undefined ? scope : { ...scope, frames: [{ ...frames[0], vals: nv }, ...frames.slice(1)] }); } }
    else { const assigns = this.flatSets(oc.set, scope).map((s) => [s.col, s.v(scope)]); for (const [c, v] of assigns) nv[c] = v; }
    const nt = this.updateTuple(table, t, nv);
    return { tuple: nt, updated: true, changed: !sameVals(t.vals, nv) };
  }
  flatSets(set, scope) {
    const out = [];
    for (const s of set) {
      if (s.cols) {
        const r = this.query(s.q, scope);
        const row = r.rows[0] ?? s.cols.map(() => null);
        s.cols.forEach((c, i) => out.push({ col: c, v: () => row[i] }));
      } else out.push({ col: s.col, v: (sc) => (s.e.k === "default" ? null : this.ev(s.e, sc)) });
    }
    return out;
  }
  updateTuple(table, t, nv) {
    for (const k in nv) if (!table.colMap.has(k)) throw new Unsupported(`column ${table.name}.${k} is not in the simulated schema`);
    if (table.touch) nv[table.touch] = new Date(this.tx.now); // modification trigger
    this.coerceRow(table, nv);
    table.onUpdate?.(t.vals, nv);
    const keyChanged = table.uniques.some((u) => u.cols.some((c) => keyOf(nv[c]) !== keyOf(t.vals[c])));
    this.deleteTuple(table, t, "update", keyChanged ? "update" : "nokey");
    if (keyChanged) {
      for (const u of table.uniques) {
        const x = this.conflictOn(table, u, nv, t);
        if (x) throw this.dupError(table, u, nv);
      }
      for (const other of this.db.tables.values()) for (const fk of other.fks) if (fk.ref === table.name && fk.refCols.some((c) => keyOf(nv[c]) !== keyOf(t.vals[c]))) this.checkReferenced(table, t.vals);
    }
    if (table.fks.length && table.fks.some((fk) => fk.cols.some((c) => keyOf(nv[c]) !== keyOf(t.vals[c])))) this.checkFks(table, nv);
    return this.addTuple(table, nv);
  }
  // ---------- DML ----------
  dml(ast, parent) {
    if (ast.ctes) this.evalCtes(ast, parent);
    const was = this.inDml;
    this.inDml = true; // MySQL: reads of a changing statement see the latest committed rows, not the snapshot
    try {
      if (ast.k === "insert") return this.insert(ast, parent);
      if (ast.k === "update") return this.update(ast, parent);
      return this.del(ast, parent);
    } finally {
      this.inDml = was;
    }
  }
  insert(ast, parent) {
    const table = this.db.getTable(ast.table);
    const cols = ast.cols ?? table.cols.map((c) => c.name);
    let rows;
    if (ast.source.k === "values" && !ast.source.orderBy) {
      rows = ast.source.rows.map((r) => r.map((e) => (e.k === "default" ? undefined : this.ev(e, { frames: [], parent }))));
    } else rows = this.query(ast.source, parent).rows;
    const oc = ast.onConflict ?? (ast.ignore ? { ignore: true } : undefined);
    const touched = [];
    const sys = new Map();
    let affected = 0;
    let firstId;
    for (const r of rows) {
      const given = {};
      if (r.length > cols.length) throw new SqlError("42601", "INSERT has more expressions than target columns");
      if (ast.cols && r.length < cols.length) throw new SqlError("42601", "INSERT has more target columns than expressions");
      cols.forEach((c, i) => { given[c] = r[i] === undefined ? undefined : r[i]; });
      // an explicit NULL stays NULL, a missing column takes its default
      for (const c of cols) if (given[c] === null && table.colMap.get(c)?.serial && !this.my) throw new SqlError("23502", `null value in column "${c}"`);
      if (ast.replace) {
        for (const u of table.uniques) { const t = this.conflictOn(table, u, this.coerceRow(table, { ...Object.fromEntries(table.cols.map((c) => [c.name, this.evalDefault(c) ?? (c.serial ? 0 : null)])), ...given })); if (t) this.deleteRow(table, t); }
      }
      const before = this.tx.lastInsertId;
      const res = this.insertRow(table, given, { onConflict: oc, alias: ast.alias ?? table.name, rowAlias: ast.rowAlias });
      if (res.inserted) { affected++; if (firstId === undefined && this.tx.lastInsertId !== before) firstId = this.tx.lastInsertId; }
      else if (res.updated) affected += this.my ? (res.changed ? 2 : 1) : 1; // MySQL clients ask for found rows
      if (res.tuple) { touched.push(res.tuple); sys.set(res.tuple, { xmax: res.inserted ? 0 : this.tx.id ?? 1 }); }
    }
    const out = { command: "INSERT", rowCount: affected, rows: [], fields: [], insertId: firstId ?? 0 };
    if (ast.returning) Object.assign(out, this.returning(ast.returning, touched.map((t) => [{ alias: ast.alias ?? table.name, vals: t.vals, table, sys: sys.get(t) }]), parent), { rowCount: affected });
    return out;
  }
  returning(items, frameRows, parent) {
    const r = this.project(items, frameRows.map((f) => ({ frames: f, parent })), frameRows[0] ?? [], parent);
    return { rows: r.rows, fields: r.cols.map((name, i) => ({ name, type: r.types[i] })), rowCount: r.rows.length };
  }
  targets(ast, table, parent) {
    const alias = ast.alias ?? table.name;
    this.checkTableLock(table);
    const found = [];
    const seen = new Set();
    const extra = ast.from ? this.fromRows(ast.from, parent) : [[]];
    for (const t of table.rows) {
      if (!this.visible(t)) continue;
      for (const ex of extra) {
        const frames = [{ alias, vals: t.vals, table, tuple: t }, ...ex];
        const scope = { frames, parent };
        if (ast.where && !this.truthy(this.ev(ast.where, scope))) continue;
        if (seen.has(t)) continue;
        seen.add(t);
        found.push({ t, frames });
      }
    }
    if (ast.orderBy) found.sort((a, b) => { for (const o of ast.orderBy) { const c = ordCmp(this.ev(o.e, { frames: a.frames, parent }), this.ev(o.e, { frames: b.frames, parent }), o, this.my); if (c) return c; } return 0; });
    if (ast.limit) return found.slice(0, Number(this.ev(ast.limit, { frames: [], parent })));
    return found;
  }
  update(ast, parent) {
    const table = this.db.getTable(ast.table);
    const found = this.targets(ast, table, parent);
    const out = [];
    let changed = 0;
    for (const { t, frames } of found) {
      this.claim(t, "nokey");
      const scope = { frames, parent };
      const nv = { ...t.vals };
      const assigns = this.flatSets(ast.set, scope);
      if (this.my) for (const s of assigns) nv[s.col] = s.v({ frames: [{ ...frames[0], vals: nv }, ...frames.slice(1)], parent });
      else for (const [c, v] of assigns.map((s) => [s.col, s.v(scope)])) nv[c] = v;
      const nt = this.updateTuple(table, t, nv);
      if (!sameVals(t.vals, nv)) changed++;
      out.push([{ ...frames[0], vals: nt.vals, tuple: nt }, ...frames.slice(1)]);
    }
    const r = { command: "UPDATE", rowCount: found.length, changedRows: changed, rows: [], fields: [] };
    if (ast.returning) Object.assign(r, this.returning(ast.returning, out, parent));
    return r;
  }
  del(ast, parent) {
    const table = this.db.getTable(ast.table);
    const found = this.targets(ast, table, parent);
    for (const { t } of found) this.deleteRow(table, t);
    const r = { command: "DELETE", rowCount: found.length, rows: [], fields: [] };
    if (ast.returning) Object.assign(r, this.returning(ast.returning, found.map((f) => f.frames), parent));
    return r;
  }
  // ---------- queries ----------
  evalCtes(ast, parent) {
    for (const c of ast.ctes) {
      let r;
      if (["insert", "update", "delete"].includes(c.q.k)) {
        const x = this.dml(c.q, parent);
        r = { cols: x.fields.map((f) => f.name), types: x.fields.map((f) => f.type), rows: x.rows };
      } else if (ast.recursive && c.q.k === "setop") {
        const base = this.query(c.q.left, parent);
        const cols = c.cols ?? base.cols;
        let all = [...base.rows];
        let work = base.rows;
        const seen = new Set(all.map((x) => x.map(keyOf).join("|")));
        let guard = 0;
        while (work.length && guard++ < 10000) {
          this.ctes.set(c.name, { cols, types: base.types, rows: work });
          let nx = this.query(c.q.right, parent).rows;
          if (!c.q.all) nx = nx.filter((x) => { const k = x.map(keyOf).join("|"); if (seen.has(k)) return false; seen.add(k); return true; });
          all = all.concat(nx);
          work = nx;
        }
        r = { cols, types: base.types, rows: all };
      } else r = this.query(c.q, parent);
      this.ctes.set(c.name, { cols: c.cols ?? r.cols, types: r.types, rows: r.rows });
    }
  }
  query(ast, parent) {
    if (++this.depth > 200) throw new Unsupported("query nesting");
    try {
      if (["insert", "update", "delete"].includes(ast.k)) {
        const x = this.dml(ast, parent);
        return { cols: x.fields.map((f) => f.name), types: x.fields.map((f) => f.type), rows: x.rows };
      }
      if (ast.ctes) this.evalCtes(ast, parent);
      if (ast.k === "setop") return this.setop(ast, parent);
      if (ast.k === "values") {
        const rows = ast.rows.map((r) => r.map((e) => this.ev(e, { frames: [], parent })));
        return { cols: (rows[0] ?? []).map((_, i) => `column${i + 1}`), types: (rows[0] ?? []).map(() => undefined), rows };
      }
      return this.select(ast, parent);
    } finally {
      this.depth--;
    }
  }
  setop(ast, parent) {
    const l = this.query(ast.left, parent);
    const r = this.query(ast.right, parent);
    let rows;
    const k = (x) => x.map((v) => keyNorm(v, this.my)).join("|");
    if (ast.op === "UNION") rows = ast.all ? [...l.rows, ...r.rows] : dedup([...l.rows, ...r.rows], k);
    else if (ast.op === "EXCEPT") { const s = new Set(r.rows.map(k)); rows = dedup(l.rows, k).filter((x) => !s.has(k(x))); }
    else { const s = new Set(r.rows.map(k)); rows = dedup(l.rows, k).filter((x) => s.has(k(x))); }
    let out = { cols: l.cols, types: l.types, rows };
    if (ast.orderBy) {
      const mk = (row) => ({ frames: [{ alias: "", vals: Object.fromEntries(l.cols.map((c, i) => [c, row[i]])) }], parent });
      rows.sort((a, b) => { for (const o of ast.orderBy) { const va = o.e.k === "lit" && typeof o.e.v === "number" ? a[o.e.v - 1] : this.ev(o.e, mk(a)); const vb = o.e.k === "lit" && typeof o.e.v === "number" ? b[o.e.v - 1] : this.ev(o.e, mk(b)); const c = ordCmp(va, vb, o, this.my); if (c) return c; } return 0; });
    }
    if (ast.offset) out.rows = out.rows.slice(Number(this.ev(ast.offset, { frames: [], parent })));
    if (ast.limit) { const n = this.ev(ast.limit, { frames: [], parent }); if (n !== null) out.rows = out.rows.slice(0, Number(n)); }
    return out;
  }
  fromRows(items, parent) {
    let acc = [[]];
    for (const it of items) {
      const next = [];
      for (const left of acc) {
        const rights = this.itemRows(it, left, parent);
        for (const r of rights) next.push([...left, ...r]);
      }
      acc = next;
    }
    return acc;
  }
  /** Rows (arrays of frames) of a from item; `left` frames are visible to LATERAL/functions. */
  itemRows(it, left, parent) {
    if (it.k === "join") return this.joinRows(it, left, parent);
    const alias = it.alias ?? it.name;
    if (it.k === "table") {
      const cte = this.ctes.get(it.name);
      if (cte) return cte.rows.map((r) => [{ alias, vals: zip(it.colAliases ?? cte.cols, r), cols: it.colAliases ?? cte.cols, types: cte.types }]);
      const table = this.db.getTable(it.name);
      if (table.isView) {
        const r = this.query(this.db.parse(table.isView)[0], undefined);
        return r.rows.map((x) => [{ alias, vals: zip(r.cols, x), cols: r.cols, types: r.types }]);
      }
      if (this.my && this.tx.explicit && this.tx.snap === undefined && !this.locking) this.tx.snap = this.db.commitSeq;
      const save = this.snap;
      if (this.my && this.tx.explicit && !this.locking && !this.inDml) this.snap = this.tx.snap;
      const out = [];
      for (const t of table.rows) if (this.visible(t)) out.push([{ alias, vals: t.vals, table, tuple: t }]);
      this.snap = save;
      return out;
    }
    if (it.k === "subq") {
      const r = this.query(it.q, it.lateral ? { frames: left, parent } : parent);
      const cols = it.colAliases ?? r.cols;
      return r.rows.map((x) => [{ alias, vals: zip(cols, x), cols, types: r.types }]);
    }
    if (it.k === "tfunc") return this.tableFunc(it, { frames: left, parent });
    throw new Unsupported(`from ${it.k}`);
  }
  emptyFrames(it) {
    if (it.k === "join") return [...this.emptyFrames(it.left), ...this.emptyFrames(it.right)];
    const alias = it.alias ?? it.name;
    if (it.k === "table") {
      const cte = this.ctes.get(it.name);
      if (cte) return [{ alias, vals: zip(it.colAliases ?? cte.cols, cte.cols.map(() => null)), cols: it.colAliases ?? cte.cols, types: cte.types }];
      const table = this.db.getTable(it.name);
      if (!table.isView) return [{ alias, vals: Object.fromEntries(table.cols.map((c) => [c.name, null])), table }];
    }
    if (it.k === "subq") {
      const cols = it.colAliases ?? this.outCols(it.q);
      return [{ alias, vals: Object.fromEntries(cols.map((c) => [c, null])), cols, types: [], anyCol: true }];
    }
    return [{ alias, vals: {}, cols: [], types: [], anyCol: true }];
  }
  outCols(q) {
    if (q.k === "setop") return this.outCols(q.left);
    if (q.k !== "select") return [];
    const out = [];
    for (const c of q.cols) { if (c.star) continue; out.push(c.as ?? exprName(c.e)); }
    return out;
  }
  joinRows(j, left0, parent) {
    const lefts = this.itemRows(j.left, left0, parent);
    const out = [];
    const lateral = isLateral(j.right);
    let rightsCache;
    const matchedRight = new Set();
    for (const l of lefts) {
      const rights = lateral ? this.itemRows(j.right, [...left0, ...l], parent) : (rightsCache ??= this.itemRows(j.right, left0, parent));
      let any = false;
      for (const r of rights) {
        let ok = true;
        if (j.on) ok = this.truthy(this.ev(j.on, { frames: [...left0, ...l, ...r], parent }));
        else if (j.using) ok = j.using.every((c) => { const a = findIn(l, c), b = findIn(r, c); return a !== null && b !== null && a !== undefined && b !== undefined && cmp(a, b, this.my) === 0; });
        if (ok) { any = true; matchedRight.add(r); out.push([...l, ...r]); }
      }
      if (!any && (j.type === "LEFT" || j.type === "FULL")) out.push([...l, ...this.emptyFrames(j.right)]);
    }
    if (j.type === "RIGHT" || j.type === "FULL") {
      rightsCache ??= this.itemRows(j.right, left0, parent);
      for (const r of rightsCache) if (!matchedRight.has(r)) out.push([...this.emptyFrames(j.left), ...r]);
    }
    return out;
  }
  tableFunc(it, scope) {
    const alias = it.alias ?? it.name;
    const a = it.args.map((e) => this.ev(e, scope));
    const mk = (v) => [{ alias, vals: { [it.colAliases?.[0] ?? alias]: v, value: v }, cols: [it.colAliases?.[0] ?? alias], types: [] }];
    switch (it.name) {
      case "unnest": return (a[0] === null ? [] : Array.isArray(a[0]) ? a[0] : castTo(a[0], { name: "text", arr: 1 })).map(mk);
      case "generate_series": {
        const out = [];
        if (a[0] instanceof Date) { for (let d = a[0]; d <= a[1]; d = addInterval(d, a[2])) out.push(mk(d)); return out; }
        for (let i = a[0]; i <= a[1]; i += a[2] ?? 1) out.push(mk(i));
        return out;
      }
      case "json_array_elements": case "jsonb_array_elements": return a[0] === null ? [] : jsonIn(a[0]).v.map((v) => mk(new Json(v)));
      case "json_array_elements_text": case "jsonb_array_elements_text": return a[0] === null ? [] : jsonIn(a[0]).v.map((v) => mk(typeof v === "string" ? v : JSON.stringify(v)));
      case "json_to_recordset": case "jsonb_to_recordset": return a[0] === null ? [] : jsonIn(a[0]).v.map((o) => { const cols = it.colAliases ?? Object.keys(o); return [{ alias, vals: Object.fromEntries(cols.map((c) => [c, typeof o[c] === "object" && o[c] !== null ? new Json(o[c]) : (o[c] ?? null)])), cols, types: [] }]; });
      default: throw new Unsupported(`table function ${it.name}`);
    }
  }
  select(ast, parent) {
    const wantLock = ast.forLock;
    const saveLocking = this.locking;
    if (wantLock) this.locking = true;
    let rows = (ast.from ? this.fromRows(ast.from, parent) : [[]]).map((frames) => ({ frames, parent }));
    this.locking = saveLocking;
    if (ast.where) rows = rows.filter((s) => this.truthy(this.ev(ast.where, s)));
    const sample = rows[0]?.frames ?? (ast.from ? ast.from.flatMap((f) => this.emptyFrames(f)) : []);
    const grouped = ast.groupBy || ast.cols.some((c) => c.e && hasAgg(c.e)) || (ast.having && hasAgg(ast.having)) || (ast.orderBy?.some((o) => hasAgg(o.e)) ?? false);
    if (grouped) {
      const groups = new Map();
      if (ast.groupBy) {
        for (const s of rows) {
          const k = ast.groupBy.map((e) => keyNorm(this.ev(this.resolveOutRef(e, ast), s), this.my)).join("|");
          if (!groups.has(k)) groups.set(k, []);
          groups.get(k).push(s);
        }
      } else groups.set("", rows);
      rows = [...groups.values()].map((g) => ({ frames: g[0]?.frames ?? sample.map((f) => ({ ...f, vals: Object.fromEntries(Object.keys(f.vals).map((k) => [k, null])) })), parent, group: g }));
      if (ast.having) rows = rows.filter((s) => this.truthy(this.ev(ast.having, s)));
    }
    // window functions
    const wins = [];
    for (const c of ast.cols) collectWindows(c.e, wins);
    for (const o of ast.orderBy ?? []) collectWindows(o.e, wins);
    for (const w of wins) this.window(w, rows);
    // projection
    const proj = this.project(ast.cols, rows, sample, parent);
    let idx = rows.map((s, i) => ({ s, row: proj.rows[i] }));
    if (ast.orderBy) {
      const keys = new Map();
      for (const x of idx) {
        keys.set(x, ast.orderBy.map((o) => {
          if (o.e.k === "lit" && typeof o.e.v === "number" && !o.e.str) return x.row[o.e.v - 1];
          if (o.e.k === "col" && !o.e.t) { const i = proj.cols.indexOf(o.e.c); if (i >= 0) return x.row[i]; }
          return this.ev(o.e, x.s);
        }));
      }
      idx = stableSort(idx, (a, b) => { const ka = keys.get(a), kb = keys.get(b); for (let i = 0; i < ka.length; i++) { const c = ordCmp(ka[i], kb[i], ast.orderBy[i], this.my); if (c) return c; } return 0; });
    }
    if (ast.distinctOn) {
      const seen = new Set();
      idx = idx.filter((x) => { const k = ast.distinctOn.map((e) => keyNorm(this.ev(e, x.s), this.my)).join("|"); if (seen.has(k)) return false; seen.add(k); return true; });
    } else if (ast.distinct) idx = dedup(idx, (x) => x.row.map((v) => keyNorm(v, this.my)).join("|"));
    const off = ast.offset ? Number(this.ev(ast.offset, { frames: [], parent })) : 0;
    const limv = ast.limit ? this.ev(ast.limit, { frames: [], parent }) : null;
    const lim = limv === null ? Infinity : Number(limv);
    if (wantLock) {
      const out = [];
      const mode = wantLock.mode === "SHARE" ? "share" : "update";
      let skip = off;
      for (const x of idx) {
        if (out.length >= lim) break;
        let ok = true;
        for (const f of x.s.frames) {
          if (!f.tuple || (wantLock.of && !wantLock.of.includes(f.alias))) continue;
          try {
            this.lockRow(f.tuple, mode);
          } catch (e) {
            if (!(e instanceof LockWait)) throw e;
            if (wantLock.skip) { ok = false; break; }
            if (wantLock.nowait) throw new SqlError("55P03", "could not obtain lock on row");
            throw e;
          }
        }
        if (!ok) continue;
        if (skip > 0) { skip--; continue; }
        out.push(x);
      }
      idx = out;
    } else if (off || lim !== Infinity) idx = idx.slice(off, lim === Infinity ? undefined : off + lim);
    return { cols: proj.cols, types: proj.types, rows: idx.map((x) => x.row) };
  }
  resolveOutRef(e, ast) {
    if (e.k === "lit" && typeof e.v === "number") return ast.cols[e.v - 1].e;
    if (e.k === "col" && !e.t) { const c = ast.cols.find((x) => x.as === e.c); if (c && c.e !== e) { return c.e.k === "col" && c.e.c === e.c ? e : c.e; } }
    return e;
  }
  project(items, rows, sample, parent) {
    const cols = [], getters = [], types = [];
    for (const it of items) {
      if (it.star) {
        const base = sample ?? [];
        base.forEach((f, fi) => {
          if (f.explicitOnly) return;
          if (it.table && f.alias !== it.table) return;
          const names = f.table && !f.cols ? f.table.cols.map((c) => c.name) : (f.cols ?? Object.keys(f.vals));
          names.forEach((n, ni) => { cols.push(n); types.push(f.table ? f.table.colMap.get(n)?.type.name : f.types?.[ni]); getters.push((s) => s.frames[fi]?.vals[n] ?? null); });
        });
      } else {
        cols.push(it.as ?? exprName(it.e));
        types.push(this.typeOf(it.e, sample, parent));
        getters.push((s) => this.ev(it.e, s));
      }
    }
    return { cols, types, rows: rows.map((s) => getters.map((g) => { const v = g(s); return v === undefined ? null : v; })) };
  }
  typeOf(e, sample, parent) {
    if (!e) return undefined;
    switch (e.k) {
      case "col": case "parenexpr": {
        const c = e.k === "parenexpr" ? e.e : e;
        for (const f of sample ?? []) {
          if (c.t && f.alias !== c.t) continue;
          if (f.table?.colMap.has(c.c)) { const t = f.table.colMap.get(c.c).type; return t.arr ? "array" : t.name; }
          const i = f.cols?.indexOf(c.c) ?? -1;
          if (i >= 0) return f.types?.[i];
        }
        return undefined;
      }
      case "fn": {
        if (TYPE_BY_FN[e.name]) return TYPE_BY_FN[e.name];
        if (e.name === "sum") { const t = this.typeOf(e.args[0], sample); return t === "int" ? "bigint" : t === "float" ? "float" : "numeric"; }
        if (e.name === "avg") return this.typeOf(e.args[0], sample) === "float" ? "float" : "numeric";
        if (["min", "max", "first_value", "last_value", "coalesce", "greatest", "least", "lag", "lead", "nullif", "abs", "round"].includes(e.name)) return this.typeOf(e.args[0], sample);
        return undefined;
      }
      case "cast": return e.type.arr ? "array" : e.type.name;
      case "extract": return "numeric";
      case "sub": if (e.q.k === "select" && e.q.cols.length === 1 && e.q.cols[0].e) { const fr = (e.q.from ?? []).flatMap((f) => { try { return this.emptyFrames(f); } catch { return []; } }); return this.typeOf(e.q.cols[0].e, fr); } return undefined;
      case "case": return this.typeOf(e.whens[0].t, sample) ?? this.typeOf(e.else, sample);
      default: return undefined;
    }
  }
  window(w, rows) {
    w.vals = w.vals ?? new WeakMap();
    const parts = new Map();
    for (const s of rows) {
      const k = (w.over.partition ?? []).map((e) => keyNorm(this.ev(e, s), this.my)).join("|");
      if (!parts.has(k)) parts.set(k, []);
      parts.get(k).push(s);
    }
    for (const p of parts.values()) {
      const ks = new Map(p.map((s) => [s, (w.over.order ?? []).map((o) => this.ev(o.e, s))]));
      const c2 = (a, b) => { const ka = ks.get(a), kb = ks.get(b); for (let i = 0; i < ka.length; i++) { const c = ordCmp(ka[i], kb[i], w.over.order[i], this.my); if (c) return c; } return 0; };
      const sorted = w.over.order ? stableSort(p, c2) : p;
      sorted.forEach((s, i) => {
        let v;
        const arg = (x, sc) => this.ev(w.args[x], sc);
        switch (w.name) {
          case "row_number": v = i + 1; break;
          case "rank": { let j = i; while (j > 0 && c2(sorted[j - 1], s) === 0) j--; v = j + 1; break; }
          case "dense_rank": { let d = 1; for (let j = 1; j <= i; j++) if (c2(sorted[j - 1], sorted[j]) !== 0) d++; v = d; break; }
          case "first_value": v = arg(0, sorted[0]); break;
          case "last_value": v = arg(0, /UNBOUNDED FOLLOWING/.test(w.over.frame ?? "") ? sorted[sorted.length - 1] : s); break;
          case "lag": { const o = w.args[1] ? arg(1, s) : 1; v = sorted[i - o] ? arg(0, sorted[i - o]) : w.args[2] ? arg(2, s) : null; break; }
          case "lead": { const o = w.args[1] ? arg(1, s) : 1; v = sorted[i + o] ? arg(0, sorted[i + o]) : w.args[2] ? arg(2, s) : null; break; }
          default: {
            if (!AGG.has(w.name)) throw new Unsupported(`window function ${w.name}`);
            const upto = w.over.order ? sorted.filter((x, j) => j <= i || c2(x, s) === 0) : sorted;
            v = this.aggregate(w, upto);
          }
        }
        w.vals.set(s, v);
      });
    }
  }
  aggregate(f, group) {
    let rows = group;
    if (f.filter) rows = rows.filter((s) => this.truthy(this.ev(f.filter, s)));
    if (f.orderBy && f.name !== "percentile_cont") rows = stableSort(rows, (a, b) => { for (const o of f.orderBy) { const c = ordCmp(this.ev(o.e, a), this.ev(o.e, b), o, this.my); if (c) return c; } return 0; });
    if (f.star) return rows.length;
    let vals = rows.map((s) => this.ev(f.args[0], s));
    if (f.distinct) vals = dedup(vals, (v) => keyNorm(v, this.my));
    const nn = vals.filter((v) => v !== null && v !== undefined);
    switch (f.name) {
      case "count": return nn.length;
      case "sum": return nn.length ? nn.reduce((a, b) => a + Number(b), 0) : null;
      case "avg": return nn.length ? nn.reduce((a, b) => a + Number(b), 0) / nn.length : null;
      case "min": return nn.length ? nn.reduce((a, b) => (cmp(a, b, this.my) <= 0 ? a : b)) : null;
      case "max": return nn.length ? nn.reduce((a, b) => (cmp(a, b, this.my) >= 0 ? a : b)) : null;
      case "any_value": return vals[0] ?? null;
      case "array_agg": return vals.length ? vals : null;
      case "string_agg": return nn.length ? nn.map(toText).join(toText(this.ev(f.args[1], rows[0]))) : null;
      case "group_concat": return nn.length ? nn.map((v) => (v instanceof Date ? mysqlDate(v) : toText(v))).join(f.sep ?? ",") : null;
      case "json_agg": case "jsonb_agg": return vals.length ? new Json(vals.map(toJsonVal)) : null;
      case "json_arrayagg": return vals.length ? new Json(vals.map(toJsonVal)) : null;
      case "json_object_agg": case "jsonb_object_agg": case "json_objectagg": return rows.length ? new Json(Object.fromEntries(rows.map((s) => [toText(this.ev(f.args[0], s)), toJsonVal(this.ev(f.args[1], s))]))) : null;
      case "bool_and": case "every": return nn.length ? nn.every(Boolean) : null;
      case "bool_or": return nn.length ? nn.some(Boolean) : null;
      case "percentile_cont": throw new Unsupported("percentile_cont");
      default: throw new Unsupported(`aggregate ${f.name}`);
    }
  }
  // ---------- expressions ----------
  truthy(v) {
    if (v === null || v === undefined) return false;
    if (typeof v === "number") return v !== 0;
    if (typeof v === "string" && !this.my) return castTo(v, { name: "bool" });
    return !!v;
  }
  lookup(c, scope) {
    for (let s = scope; s; s = s.parent) {
      let hit, n = 0;
      for (const f of s.frames) {
        if (c.t !== undefined) {
          if (f.alias !== c.t && f.table?.name !== c.t) continue;
          if (f.alias !== c.t && s.frames.some((x) => x.alias === c.t)) continue;
        } else if (f.explicitOnly) continue;
        if (Object.hasOwn(f.vals, c.c) || f.table?.colMap.has(c.c)) { if (!n) hit = f; n++; }
        else if (this.my) { const k = Object.keys(f.vals).find((x) => x.toLowerCase() === c.c.toLowerCase()); if (k) { return f.vals[k]; } }
      }
      if (n > 1 && !c.t) {
        // natural ambiguity: same value through USING is fine
        const first = hit.vals[c.c];
        const all = s.frames.filter((f) => !f.explicitOnly && Object.hasOwn(f.vals, c.c));
        if (!all.every((f) => f.vals[c.c] === first || (first !== null && f.vals[c.c] !== null && keyOf(f.vals[c.c]) === keyOf(first)))) throw new SqlError(this.my ? "ER_NON_UNIQ_ERROR" : "42702", `column reference "${c.c}" is ambiguous`);
      }
      if (hit) return hit.vals[c.c];
      if (c.c === "xmax" && !this.my) { const f = s.frames.find((f) => f.sys && (c.t === undefined || f.alias === c.t)); if (f) return f.sys.xmax; }
      if (c.t !== undefined && s.frames.some((f) => f.alias === c.t && f.anyCol)) return null;
      if (c.t === undefined) { const fr = s.frames.find((f) => f.alias === c.c); if (fr) return new Json(Object.fromEntries(Object.entries(fr.vals).map(([k, v]) => [k, toJsonVal(v)]))); }
    }
    if (c.t === undefined && scope?.frames?.some((f) => f.anyCol)) return null;
    throw new Unsupported(`column ${c.t ? `${c.t}.` : ""}${c.c} is not in the simulated schema`);
  }
  ev(e, s) {
    const my = this.my;
    switch (e.k) {
      case "lit": return e.v;
      case "param": { const v = this.params[e.n - 1]; return this.inParam(v); }
      case "named": { if (!(e.n in this.named)) throw new SqlError("ER_PARSE", `Bind parameter ${e.n} undefined`); return this.inParam(this.named[e.n]); }
      case "col": { const v = this.lookup(e, s); return v === undefined ? null : v; }
      case "parenexpr": return this.ev(e.e, s);
      case "default": return null;
      case "and": {
        const l = this.boolv(this.ev(e.l, s));
        if (l === false) return false;
        const r = this.boolv(this.ev(e.r, s));
        if (r === false) return false;
        return l === null || r === null ? null : true;
      }
      case "or": {
        const l = this.boolv(this.ev(e.l, s));
        if (l === true) return true;
        const r = this.boolv(this.ev(e.r, s));
        if (r === true) return true;
        return l === null || r === null ? null : false;
      }
      case "not": { const v = this.boolv(this.ev(e.e, s)); return v === null ? null : !v; }
      case "isnull": { const v = this.ev(e.e, s); const n = v === null || v === undefined; return e.not ? !n : n; }
      case "isbool": { const v = this.boolv(this.ev(e.e, s)); const r = v === e.v; return e.not ? !r : r; }
      case "isdistinct": { const l = this.ev(e.l, s), r = this.ev(e.r, s); const d = l === null || r === null ? l !== r : cmp(l, r, my) !== 0; return e.not ? !d : d; }
      case "cmp": {
        const l = this.ev(e.l, s), r = this.ev(e.r, s);
        if (e.op === "<=>") return l === null || r === null ? l === r : cmp(l, r, my) === 0;
        if (l === null || r === null || l === undefined || r === undefined) return null;
        if (l instanceof Row && l.items.some((x) => x === null)) return null;
        return cmpOp(e.op, cmp(l, r, my));
      }
      case "quant": {
        const l = this.ev(e.l, s);
        let arr = this.ev(e.r, s);
        if (arr === null || l === null) return null;
        if (typeof arr === "string") arr = castTo(arr, { name: "text", arr: 1 });
        let nul = false;
        for (const x of arr) {
          if (x === null) { nul = true; continue; }
          const ok = cmpOp(e.op, cmp(l, x, my));
          if (e.all && !ok) return false;
          if (!e.all && ok) return true;
        }
        return nul ? null : e.all;
      }
      case "in": {
        const l = this.ev(e.e, s);
        if (l === null) return null;
        let nul = false;
        for (const x of e.list) {
          const v = this.ev(x, s);
          if (v === null) { nul = true; continue; }
          if (cmp(l, v, my) === 0) return !e.not;
        }
        return nul ? null : !!e.not;
      }
      case "insub": {
        const l = this.ev(e.e, s);
        if (l === null) return null;
        const r = this.query(e.q, s);
        let nul = false;
        for (const row of r.rows) {
          const v = l instanceof Row ? new Row(row) : row[0];
          if (v === null) { nul = true; continue; }
          if (cmp(l, v, my) === 0) return !e.not;
        }
        return nul ? null : !!e.not;
      }
      case "between": {
        const v = this.ev(e.e, s), a = this.ev(e.a, s), b = this.ev(e.b, s);
        if (v === null || a === null || b === null) return null;
        const r = cmp(v, a, my) >= 0 && cmp(v, b, my) <= 0;
        return e.not ? !r : r;
      }
      case "like": {
        const l = this.ev(e.l, s), r = this.ev(e.r, s);
        if (l === null || r === null) return null;
        const re = new RegExp(`^${toText(r).replace(/[.*+?^${}()|[\]\\]/g, "\\$&").replace(/%/g, "[\\s\\S]*").replace(/_/g, "[\\s\\S]")}$`, e.i ? "i" : "");
        const v = re.test(toText(l));
        return e.not ? !v : v;
      }
      case "regex": {
        const l = this.ev(e.l, s), r = this.ev(e.r, s);
        if (l === null || r === null) return null;
        const v = new RegExp(toText(r), e.i ? "i" : "").test(toText(l));
        return e.not ? !v : v;
      }
      case "neg": { const v = this.ev(e.e, s); return v === null ? null : -v; }
      case "bin": return this.bin(e, s);
      case "case": {
        if (e.base) {
          const b = this.ev(e.base, s);
          for (const w of e.whens) { const v = this.ev(w.w, s); if (b !== null && v !== null && cmp(b, v, my) === 0) return this.ev(w.t, s); }
        } else for (const w of e.whens) if (this.truthy(this.ev(w.w, s))) return this.ev(w.t, s);
        return e.else ? this.ev(e.else, s) : null;
      }
      case "cast": return castTo(this.ev(e.e, s), e.type, my);
      case "row": return new Row(e.items.map((x) => this.ev(x, s)));
      case "array": return e.items.map((x) => this.ev(x, s));
      case "index": { const a = this.ev(e.e, s), i = this.ev(e.i, s); return a === null || i === null ? null : (a[i - 1] ?? null); }
      case "interval": { const v = this.ev(e.e, s); return v === null ? null : v instanceof Interval ? v : parseInterval(v, e.unit); }
      case "attz": return this.ev(e.e, s);
      case "sub": {
        const r = this.query(e.q, s);
        if (r.rows.length > 1) throw new SqlError(my ? "ER_SUBQUERY_NO_1_ROW" : "21000", "more than one row returned by a subquery used as an expression");
        return r.rows.length ? r.rows[0][0] : null;
      }
      case "subarr": return this.query(e.q, s).rows.map((r) => r[0]);
      case "exists": return this.query(e.q, s).rows.length > 0;
      case "extract": return this.extract(e.f, this.ev(e.e, s));
      case "fn": return this.fn(e, s);
      case "starexpr": return 1;
      case "tablestar": return this.lookup({ c: e.t }, s);
      case "field": { const v = this.ev(e.e, s); return v === null ? null : (jsonIn(v).v[e.f] ?? null); }
      default: throw new Unsupported(`expression ${e.k}`);
    }
  }
  inParam(v) {
    if (v === undefined || v === null) return null;
    if (typeof v === "object" && !(v instanceof Date) && !Array.isArray(v) && !Buffer.isBuffer(v) && !(v instanceof Json) && !(v instanceof Geom)) {
      if (Object.prototype.toString.call(v) === "[object Date]") return new Date(v.getTime());
      return JSON.stringify(v);
    }
    if (typeof v === "bigint") return Number(v);
    return v;
  }
  boolv(v) { return v === null || v === undefined ? null : typeof v === "boolean" ? v : this.truthy(v); }
  extract(f, v) {
    if (v === null) return null;
    if (v instanceof Interval) {
      const ms = v.approxMs();
      switch (f) { case "EPOCH": return ms / 1000; case "DAY": return v.days; case "HOUR": return Math.floor(v.ms / 3600000); case "MINUTE": return Math.floor((v.ms % 3600000) / 60000); default: throw new Unsupported(`extract ${f} from interval`); }
    }
    const d = parseTs(v);
    switch (f) {
      case "EPOCH": return d.getTime() / 1000;
      case "YEAR": return d.getUTCFullYear();
      case "MONTH": return d.getUTCMonth() + 1;
      case "DAY": return d.getUTCDate();
      case "HOUR": return d.getUTCHours();
      case "MINUTE": return d.getUTCMinutes();
      case "SECOND": return d.getUTCSeconds() + d.getUTCMilliseconds() / 1000;
      case "DOW": return d.getUTCDay();
      case "ISODOW": return d.getUTCDay() || 7;
      case "MILLISECONDS": return d.getUTCSeconds() * 1000 + d.getUTCMilliseconds();
      default: throw new Unsupported(`extract ${f}`);
    }
  }
  bin(e, s) {
    let l = this.ev(e.l, s), r = this.ev(e.r, s);
    const my = this.my;
    if (e.op === "||" && (Array.isArray(l) || Array.isArray(r))) return [].concat(l ?? [], r ?? []);
    if (l === null || r === null || l === undefined || r === undefined) return null;
    switch (e.op) {
      case "||": if (l instanceof Json && r instanceof Json) return new Json({ ...l.v, ...r.v }); return toText(l) + toText(r);
      case "+": case "-": {
        const sg = e.op === "+" ? 1 : -1;
        if (r instanceof Interval) { if (l instanceof Interval) return new Interval(l.months + sg * r.months, l.days + sg * r.days, l.ms + sg * r.ms); return addInterval(parseTs(l), r, sg); }
        if (l instanceof Interval) { if (r instanceof Date) return addInterval(r, l, 1); if (typeof r === "string") { const iv = parseInterval(r); return new Interval(l.months + sg * iv.months, l.days + sg * iv.days, l.ms + sg * iv.ms); } }
        if (l instanceof Date || r instanceof Date) {
          if (my) { const x = castTo(l, { name: "bigint" }, true), y = castTo(r, { name: "bigint" }, true); return x + sg * y; }
          if (typeof r === "number") return new Date(l.getTime() + sg * r * 86400000);
          if (sg === 1) return addInterval(parseTs(l), parseInterval(r), 1);
          if (typeof r === "string" && !/^\d{4}-/.test(r)) return addInterval(l, parseInterval(r), -1);
          return new Interval(0, 0, parseTs(l).getTime() - parseTs(r).getTime());
        }
        if (l instanceof Json && e.op === "-") { const c = JSON.parse(JSON.stringify(l.v)); if (Array.isArray(c)) return new Json(c.filter((x) => x !== r)); delete c[r]; return new Json(c); }
        return this.num(l) + sg * this.num(r);
      }
      case "*": if (l instanceof Interval) return new Interval(l.months * r, l.days * r, l.ms * r); if (r instanceof Interval) return new Interval(r.months * l, r.days * l, r.ms * l); return this.num(l) * this.num(r);
      case "/": {
        const a = this.num(l), b = this.num(r);
        if (b === 0) { if (my) return null; throw new SqlError("22012", "division by zero"); }
        if (!my && Number.isInteger(a) && Number.isInteger(b) && isIntExpr(e.l, this, s) && isIntExpr(e.r, this, s)) return Math.trunc(a / b);
        return a / b;
      }
      case "%": { const b = this.num(r); if (b === 0) { if (my) return null; throw new SqlError("22012", "division by zero"); } return this.num(l) % b; }
      case "^": return this.num(l) ** this.num(r);
      case "->": { const j = jsonIn(l).v; const v = j === null ? undefined : jsonAt(j, r); return v === undefined ? null : new Json(v); }
      case "->>": { const j = jsonIn(l).v; const v = j === null ? undefined : jsonAt(j, r); return v === undefined || v === null ? null : typeof v === "object" ? JSON.stringify(v) : String(v); }
      case "#>": case "#>>": { let j = jsonIn(l).v; for (const p of typeof r === "string" ? castTo(r, { name: "text", arr: 1 }) : r) { if (j === null || j === undefined) return null; j = j[p]; } if (j === undefined) return null; return e.op === "#>" ? new Json(j) : j === null ? null : typeof j === "object" ? JSON.stringify(j) : String(j); }
      case "@>": if (Array.isArray(l)) { const b = typeof r === "string" ? castTo(r, { name: "text", arr: 1 }) : r; return b.every((x) => l.some((y) => cmp(x, y) === 0)); } return jsonContains(jsonIn(l).v, jsonIn(r).v);
      case "<@": if (Array.isArray(l)) return l.every((x) => r.some((y) => cmp(x, y) === 0)); return jsonContains(jsonIn(r).v, jsonIn(l).v);
      case "&&": if (l instanceof Geom) return this.call("st_intersects", [l, r]); { const a = typeof l === "string" ? castTo(l, { name: "text", arr: 1 }) : l, b = typeof r === "string" ? castTo(r, { name: "text", arr: 1 }) : r; return a.some((x) => b.some((y) => cmp(x, y) === 0)); }
      case "?": return Array.isArray(jsonIn(l).v) ? jsonIn(l).v.includes(r) : r in jsonIn(l).v;
      default: throw new Unsupported(`operator ${e.op}`);
    }
  }
  num(v) {
    if (typeof v === "number") return v;
    if (typeof v === "boolean" && this.my) return v ? 1 : 0;
    return castTo(v, { name: "float" }, this.my);
  }
  fn(e, s) {
    if (e.over) { const m = e.vals; if (m?.has(s)) return m.get(s); throw new Unsupported("window function outside select list"); }
    if (AGG.has(e.name)) {
      if (s.group) return this.aggregate(e, s.group);
      for (let p = s.parent; p; p = p.parent) if (p.group) return this.aggregate(e, p.group);
      throw new SqlError("42803", `aggregate function ${e.name} not allowed here`);
    }
    switch (e.name) {
      case "coalesce": case "ifnull": for (const a of e.args) { const v = this.ev(a, s); if (v !== null && v !== undefined) return typeof v === "string" && JSON_FN.test(e.args[0].name ?? "") ? new Json(JSON.parse(v)) : v; } return null;
      case "if": return this.truthy(this.ev(e.args[0], s)) ? this.ev(e.args[1], s) : this.ev(e.args[2], s);
      case "values": return s.insertVals?.[e.args[0].c] ?? null;
      case "date_add": case "date_sub": case "adddate": case "subdate": { const d = this.ev(e.args[0], s), iv = this.ev(e.args[1], s); return d === null || iv === null ? null : addInterval(parseTs(d), iv instanceof Interval ? iv : new Interval(0, Number(iv), 0), e.name.includes("sub") ? -1 : 1); }
      case "timestampdiff": { const u = e.args[0].c.toUpperCase(); const a = parseTs(this.ev(e.args[1], s)), b = parseTs(this.ev(e.args[2], s)); return Math.trunc((b - a) / { SECOND: 1000, MINUTE: 60000, HOUR: 3600000, DAY: 86400000, MICROSECOND: 0.001 }[u]); }
    }
    return this.call(e.name, e.args.map((a) => this.ev(a, s)));
  }
  call(name, a) {
    const custom = this.db.funcs.get(name);
    if (custom) return custom(a, this);
    const nul = a.some((x) => x === null);
    switch (name) {
      case "now": case "transaction_timestamp": return new Date(this.my ? Math.floor(this.stmtNow / 1000) * 1000 : this.tx.now);
      case "statement_timestamp": case "clock_timestamp": case "sysdate": return new Date(this.stmtNow);
      case "utc_timestamp": return new Date(Math.floor(this.stmtNow / 1000) * 1000);
      case "current_date": case "curdate": case "utc_date": { const d = new Date(this.tx.now); return new Date(Date.UTC(d.getUTCFullYear(), d.getUTCMonth(), d.getUTCDate())); }
      case "nextval": { const n = String(a[0]).replace(/"/g, "").toLowerCase(); const v = (this.db.sequences.get(n) ?? 0) + 1; this.db.sequences.set(n, v); return v; }
      case "currval": return this.db.sequences.get(String(a[0]).toLowerCase()) ?? 0;
      case "last_insert_id": return this.session.lastInsertId ?? 0;
      case "gen_random_uuid": case "uuid_generate_v4": case "uuid": return this.uuid();
      case "pg_advisory_xact_lock": return null;
      case "json_build_object": case "jsonb_build_object": case "json_object": { const o = {}; for (let i = 0; i < a.length; i += 2) o[toText(a[i])] = toJsonVal(a[i + 1]); return new Json(o); }
      case "json_build_array": case "jsonb_build_array": case "json_array": return new Json(a.map(toJsonVal));
      case "concat": if (this.my) return nul ? null : a.map((x) => (x instanceof Date ? mysqlDate(x) : toText(x))).join(""); return a.map((x) => toText(x) ?? "").join("");
      case "concat_ws": return a.slice(1).filter((x) => x !== null).map(toText).join(a[0]);
      case "greatest": { const v = a.filter((x) => x !== null); return v.length ? v.reduce((x, y) => (cmp(x, y, this.my) >= 0 ? x : y)) : null; }
      case "least": { const v = a.filter((x) => x !== null); return v.length ? v.reduce((x, y) => (cmp(x, y, this.my) <= 0 ? x : y)) : null; }
      case "nullif": return a[0] !== null && a[1] !== null && cmp(a[0], a[1], this.my) === 0 ? null : a[0];
      case "to_json": case "to_jsonb": case "row_to_json": return nul ? null : new Json(toJsonVal(a[0]));
      case "array_length": return a[0] === null ? null : a[0].length || null;
      case "cardinality": return a[0] === null ? null : a[0].length;
      case "array_remove": return a[0] === null ? null : a[0].filter((x) => !(x === a[1] || (x !== null && a[1] !== null && cmp(x, a[1]) === 0)));
      case "array_append": return [...(a[0] ?? []), a[1]];
      case "isnull": return a[0] === null;
    }
    if (nul) return null;
    switch (name) {
      case "lower": case "lcase": return toText(a[0]).toLowerCase();
      case "upper": case "ucase": return toText(a[0]).toUpperCase();
      case "trim": case "btrim": return toText(a[0]).trim();
      case "ltrim": return toText(a[0]).trimStart();
      case "rtrim": return toText(a[0]).trimEnd();
      case "length": case "char_length": return toText(a[0]).length;
      case "substring": case "substr": { const t = toText(a[0]); const st = a[1] < 0 ? t.length + a[1] : a[1] - 1; return a[2] === undefined ? t.slice(st) : t.slice(st, st + a[2]); }
      case "left": return toText(a[0]).slice(0, a[1]);
      case "right": return a[1] === 0 ? "" : toText(a[0]).slice(-a[1]);
      case "replace": return toText(a[0]).split(toText(a[1])).join(toText(a[2]));
      case "split_part": return toText(a[0]).split(a[1])[a[2] - 1] ?? "";
      case "substring_index": { const p = toText(a[0]).split(a[1]); return a[2] > 0 ? p.slice(0, a[2]).join(a[1]) : p.slice(a[2]).join(a[1]); }
      case "position": { return toText(a[1]).indexOf(toText(a[0])) + 1; }
      case "locate": case "instr": return name === "locate" ? toText(a[1]).indexOf(toText(a[0])) + 1 : toText(a[0]).indexOf(toText(a[1])) + 1;
      case "lpad": return toText(a[0]).padStart(a[1], a[2] ?? " ").slice(0, a[1]);
      case "md5": return toText(a[0]);
      case "abs": return Math.abs(this.num(a[0]));
      case "round": { const p = 10 ** (a[1] ?? 0); const x = this.num(a[0]) * p; return (x < 0 ? -Math.round(-x) : Math.round(x)) / p; }
      case "floor": return Math.floor(this.num(a[0]));
      case "ceil": case "ceiling": return Math.ceil(this.num(a[0]));
      case "trunc": case "truncate": { const p = 10 ** (a[1] ?? 0); return Math.trunc(this.num(a[0]) * p) / p; }
      case "mod": return this.num(a[0]) % this.num(a[1]);
      case "power": case "pow": return this.num(a[0]) ** this.num(a[1]);
      case "sqrt": return Math.sqrt(this.num(a[0]));
      case "sign": return Math.sign(this.num(a[0]));
      case "to_timestamp": if (a.length === 1) return new Date(this.num(a[0]) * 1000); throw new Unsupported("to_timestamp(text,fmt)");
      case "from_unixtime": return new Date(this.num(a[0]) * 1000);
      case "unix_timestamp": return parseTs(a[0]).getTime() / 1000;
      case "date_trunc": return truncDate(a[0], parseTs(a[1]));
      case "date_part": return this.extract(toText(a[0]).toUpperCase(), a[1]);
      case "date": { const d = parseTs(a[0]); return new Date(Date.UTC(d.getUTCFullYear(), d.getUTCMonth(), d.getUTCDate())); }
      case "year": return parseTs(a[0]).getUTCFullYear();
      case "month": return parseTs(a[0]).getUTCMonth() + 1;
      case "day": return parseTs(a[0]).getUTCDate();
      case "hour": return parseTs(a[0]).getUTCHours();
      case "age": return new Interval(0, 0, parseTs(a[0]) - parseTs(a[1] ?? new Date(this.tx.now)));
      case "make_interval": throw new Unsupported("make_interval");
      case "date_format": return nul ? null : dateFormat(typeof a[0] === "string" && /^\d{1,2}:\d{2}(:\d{2})?$/.test(a[0]) ? parseTs(`1970-01-01 ${a[0]}`) : parseTs(a[0]), a[1]);
      case "convert_tz": return parseTs(a[0]);
      case "str_to_date": return parseTs(a[0]);
      case "to_char": if (a[0] instanceof Date) return toChar(a[0], a[1]); throw new Unsupported("to_char of a number");
      case "timezone": return a[1];
      case "json_array_length": case "jsonb_array_length": return jsonIn(a[0]).v.length;
      case "json_extract": { let v = jsonIn(a[0]).v; for (const p of String(a[1]).replace(/^\$\.?/, "").split(".").filter(Boolean)) v = v?.[p]; return v === undefined ? null : new Json(v); }
      case "json_unquote": { const v = a[0] instanceof Json ? a[0].v : a[0]; return typeof v === "string" ? v : JSON.stringify(v); }
      case "jsonb_set": { const j = JSON.parse(JSON.stringify(jsonIn(a[0]).v)); const path = typeof a[1] === "string" ? castTo(a[1], { name: "text", arr: 1 }) : a[1]; let o = j; for (let i = 0; i < path.length - 1; i++) o = o[path[i]]; o[path[path.length - 1]] = jsonIn(a[2]).v; return new Json(j); }
      case "jsonb_typeof": case "json_typeof": { const v = jsonIn(a[0]).v; return v === null ? "null" : Array.isArray(v) ? "array" : typeof v; }
      case "array_to_string": return a[0].filter((x) => x !== null).map(toText).join(a[1]);
      case "string_to_array": return toText(a[0]).split(a[1]);
      case "array_position": { const i = a[0].findIndex((x) => cmp(x, a[1]) === 0); return i < 0 ? null : i + 1; }
      case "reverse": return nul ? null : [...toText(a[0])].reverse().join("");
      case "export_set": { const n = Number(a[4] ?? 64); const bits = []; for (let i = 0; i < n; i++) bits.push((BigInt(Math.trunc(this.num(a[0]))) >> BigInt(i)) & 1n ? a[1] : a[2]); return bits.join(a[3] ?? ","); }
      case "lpad0": return null;
      case "st_geomfromtext": case "st_geometryfromtext": case "st_geomfromewkt": { const g = geomIn(a[0]); if (a[1] !== undefined) return new Geom(g.g, a[1]); return g; }
      case "st_setsrid": return new Geom(geomIn(a[0]).g, a[1]);
      case "st_makepoint": case "st_point": return new Geom({ type: "Point", coordinates: a.map((x) => this.num(x)) });
      case "st_geomfromgeojson": return new Geom(jsonIn(a[0]).v, 4326);
      case "st_asgeojson": return JSON.stringify(geomIn(a[0]).g);
      case "st_astext": return geomIn(a[0]).key();
      case "st_x": return geomIn(a[0]).g.coordinates[0];
      case "st_y": return geomIn(a[0]).g.coordinates[1];
      case "st_force3d": case "st_force2d": case "st_makevalid": case "st_simplify": case "st_transform": case "st_multi": return geomIn(a[0]);
      case "st_makeline": { const cs = (g) => (g.g.type === "Point" ? [g.g.coordinates] : g.g.coordinates); const [p, q] = [geomIn(a[0]), geomIn(a[1])]; const l = cs(p); const m = cs(q); if (p.g.type === "LineString" && q.g.type === "LineString" && JSON.stringify(l.at(-1)) === JSON.stringify(m[0])) m.shift(); return new Geom({ type: "LineString", coordinates: [...l, ...m] }, p.srid); }
      case "st_snaptogrid": { const g = geomIn(a[0]); const sn = (c) => (Array.isArray(c[0]) ? c.map(sn).filter((x, i, l) => !i || JSON.stringify(x) !== JSON.stringify(l[i - 1])) : c.map((x, i) => (i < 2 ? Number((Math.round(x / this.num(a[1])) * this.num(a[1])).toFixed(9)) : x))); const c = sn(g.g.coordinates); return new Geom({ ...g.g, coordinates: g.g.type === "LineString" && c.length < 2 ? [] : c }, g.srid); }
      case "st_isempty": return geomIn(a[0]).g.coordinates.length === 0;
      case "st_startpoint": case "st_endpoint": { const g = geomIn(a[0]); return g.g.type === "LineString" ? new Geom({ type: "Point", coordinates: g.g.coordinates.at(name === "st_startpoint" ? 0 : -1) }, g.srid) : null; }
      case "st_srid": return geomIn(a[0]).srid;
      case "st_geometrytype": return `ST_${geomIn(a[0]).g.type}`;
      case "st_intersects": case "st_within": case "st_contains": case "st_covers": {
        const g = [geomIn(a[0]).g, geomIn(a[1]).g];
        const i = g.findIndex((x) => x.type === "Point");
        if (i < 0 || !/^(Point|Polygon|MultiPolygon)$/.test(g[1 - i].type)) throw new Unsupported(`${name} of ${g[0].type} and ${g[1].type}`);
        return pointIn(g[i].coordinates, g[1 - i]);
      }
      case "st_equals": return geomIn(a[0]).key() === geomIn(a[1]).key();
      default: throw new Unsupported(`function ${name}`);
    }
  }
}

function isIntExpr(e, ex, s) {
  if (e.k === "lit") return typeof e.v === "number" && !/[.eE]/.test(e.raw ?? "");
  if (e.k === "extract") return false;
  if (e.k === "cast") return e.type.name === "int" || e.type.name === "bigint";
  if (e.k === "col") { const t = ex.typeOf(e, s.frames); return t === undefined || t === "int" || t === "bigint"; }
  if (e.k === "bin") return isIntExpr(e.l, ex, s) && isIntExpr(e.r, ex, s);
  if (e.k === "fn") return ["count", "length"].includes(e.name);
  return true;
}
function jsonAt(j, k) { if (typeof k === "number") return Array.isArray(j) ? j.at(k) : undefined; const m = /^\$\.(.*)$/.exec(k); return j[m ? m[1] : k]; }
function jsonContains(a, b) {
  if (b === null || typeof b !== "object") return Array.isArray(a) ? a.includes(b) : a === b;
  if (Array.isArray(b)) return Array.isArray(a) && b.every((x) => a.some((y) => jsonContains(y, x)));
  return a !== null && typeof a === "object" && !Array.isArray(a) && Object.keys(b).every((k) => k in a && jsonContains(a[k], b[k]));
}
function truncDate(unit, d) {
  const u = String(unit).toLowerCase();
  const y = d.getUTCFullYear(), m = d.getUTCMonth(), dd = d.getUTCDate(), h = d.getUTCHours(), mi = d.getUTCMinutes(), s = d.getUTCSeconds();
  switch (u) { case "year": return new Date(Date.UTC(y, 0, 1)); case "month": return new Date(Date.UTC(y, m, 1)); case "day": return new Date(Date.UTC(y, m, dd)); case "hour": return new Date(Date.UTC(y, m, dd, h)); case "minute": return new Date(Date.UTC(y, m, dd, h, mi)); case "second": return new Date(Date.UTC(y, m, dd, h, mi, s)); default: throw new Unsupported(`date_trunc ${u}`); }
}
function p2(n) { return String(n).padStart(2, "0"); }
function dateFormat(d, f) {
  return f.replace(/%(.)/g, (_, c) => ({ Y: d.getUTCFullYear(), m: p2(d.getUTCMonth() + 1), d: p2(d.getUTCDate()), H: p2(d.getUTCHours()), k: d.getUTCHours(), i: p2(d.getUTCMinutes()), s: p2(d.getUTCSeconds()), S: p2(d.getUTCSeconds()), f: `${String(d.getUTCMilliseconds()).padStart(3, "0")}000`, T: `${p2(d.getUTCHours())}:${p2(d.getUTCMinutes())}:${p2(d.getUTCSeconds())}`, "%": "%" })[c] ?? c);
}
function toChar(d, f) {
  return f.replace(/YYYY|MM|DD|HH24|MI|SS|MS|"([^"]*)"/g, (x, lit) => (lit !== undefined ? lit : { YYYY: d.getUTCFullYear(), MM: p2(d.getUTCMonth() + 1), DD: p2(d.getUTCDate()), HH24: p2(d.getUTCHours()), MI: p2(d.getUTCMinutes()), SS: p2(d.getUTCSeconds()), MS: String(d.getUTCMilliseconds()).padStart(3, "0") }[x]));
}
function keyNorm(v, my) { return my && typeof v === "string" ? `s:${v.toLowerCase()}` : keyOf(v); }
function sameVals(a, b) { for (const k in b) if (keyOf(a[k]) !== keyOf(b[k])) return false; return true; }
function cmpOp(op, c) { switch (op) { case "=": return c === 0; case "<>": return c !== 0; case "<": return c < 0; case ">": return c > 0; case "<=": return c <= 0; case ">=": return c >= 0; default: throw new Unsupported(op); } }
function ordCmp(a, b, o, my) {
  const an = a === null || a === undefined, bn = b === null || b === undefined;
  if (an || bn) {
    if (an && bn) return 0;
    let nullsFirst = o.nulls ? o.nulls === "FIRST" : my ? !o.desc : !!o.desc;
    return an ? (nullsFirst ? -1 : 1) : nullsFirst ? 1 : -1;
  }
  const c = cmp(a, b, my);
  return o.desc ? -c : c;
}
function dedup(arr, key) { const s = new Set(); return arr.filter((x) => { const k = key(x); if (s.has(k)) return false; s.add(k); return true; }); }
function stableSort(arr, c) { return arr.map((x, i) => [x, i]).sort((a, b) => c(a[0], b[0]) || a[1] - b[1]).map((x) => x[0]); }
function zip(cols, row) { const o = {}; cols.forEach((c, i) => { o[c] = row[i]; }); return o; }
function isLateral(it) { return it.lateral || it.k === "tfunc" || (it.k === "join" && (isLateral(it.left) || isLateral(it.right))); }
function findIn(frames, c) { for (const f of frames) if (Object.hasOwn(f.vals, c)) return f.vals[c]; return undefined; }
function exprName(e) {
  switch (e.k) {
    case "col": return e.c;
    case "parenexpr": return exprName(e.e);
    case "fn": return e.name;
    case "cast": return exprName(e.e) === "?column?" ? e.type.name : exprName(e.e);
    case "case": return "case";
    case "extract": return "extract";
    case "index": return exprName(e.e);
    case "sub": return e.q.k === "select" && e.q.cols[0]?.e ? (e.q.cols[0].as ?? exprName(e.q.cols[0].e)) : "?column?";
    case "exists": return "exists";
    case "array": return "array";
    default: return "?column?";
  }
}
export { Exec };
