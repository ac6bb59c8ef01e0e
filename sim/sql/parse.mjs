// SQL parser for the PostgreSQL and MySQL dialects used by the repository.
import { Unsupported } from "../world.mjs";

const OPS3 = ["->>", "#>>", "!~*", "<=>"];
const OPS2 = ["<>", "!=", "<=", ">=", "||", "->", "#>", "@>", "<@", "&&", "::", "!~", "~*", ":=", "?|", "?&", "=>"];

export class SqlSyntaxError extends Error {
  constructor(msg, pos, sql) {
    super(`${msg} near: ${sql.slice(Math.max(0, pos - 40), pos + 40).replace(/\s+/g, " ")}`);
    this.code = "42601";
  }
}

export function lex(sql, dialect = "pg") {
  const toks = [];
  let i = 0;
  const n = sql.length;
  const my = dialect === "mysql";
  while (i < n) {
    const c = sql[i];
    if (c === " " || c === "\n" || c === "\t" || c === "\r") { i++; continue; }
    if (c === "-" && sql[i + 1] === "-") { while (i < n && sql[i] !== "\n") i++; continue; }
    if (my && c === "#") { while (i < n && sql[i] !== "\n") i++; continue; }
    if (c === "/" && sql[i + 1] === "*") { const e = sql.indexOf("*/", i + 2); i = e < 0 ? n : e + 2; continue; }
    const start = i;
    if (c === "'" || ((c === "E" || c === "e") && sql[i + 1] === "'" && !my) || (my && c === '"')) {
      const q = c === '"' ? '"' : "'";
      const esc = my || c === "E" || c === "e";
      if (c === "E" || c === "e") i++;
      i++;
      let s = "";
      for (;;) {
        if (i >= n) throw new SqlSyntaxError("unterminated quoted string", start, sql);
        if (sql[i] === q) {
          if (sql[i + 1] === q) { s += q; i += 2; continue; }
          i++;
          break;
        }
        if (esc && sql[i] === "\\") {
          const x = sql[i + 1];
          s += { n: "\n", t: "\t", r: "\r", 0: "\0", b: "\b", Z: "\x1a" }[x] ?? x;
          i += 2;
          continue;
        }
        s += sql[i++];
      }
      toks.push({ t: "str", v: s, pos: start });
      continue;
    }
    if (my && (c === "b" || c === "B") && sql[i + 1] === "'") {
      const m = /^[bB]'([01]*)'/.exec(sql.slice(i));
      if (!m) throw new SqlSyntaxError("bad bit literal", start, sql);
      toks.push({ t: "num", v: parseInt(m[1] || "0", 2), raw: m[0], pos: start });
      i += m[0].length;
      continue;
    }
    if (c === '"' || c === "`") {
      i++;
      let s = "";
      while (i < n) {
        if (sql[i] === c) { if (sql[i + 1] === c) { s += c; i += 2; continue; } break; }
        s += sql[i++];
      }
      i++;
      toks.push({ t: "id", v: s, quoted: true, pos: start });
      continue;
    }
    if (c === "$" && !my) {
      const m = /^\$(\d+)/.exec(sql.slice(i, i + 12));
      if (m) { i += m[0].length; toks.push({ t: "param", v: Number(m[1]), pos: start }); continue; }
      const d = /^\$([A-Za-z_]*)\$/.exec(sql.slice(i, i + 60));
      if (d) {
        const e = sql.indexOf(d[0], i + d[0].length);
        toks.push({ t: "str", v: sql.slice(i + d[0].length, e), pos: start });
        i = e + d[0].length;
        continue;
      }
      throw new SqlSyntaxError(`syntax error at or near "$"`, start, sql);
    }
    if (my && c === "?") { i++; toks.push({ t: "qmark", pos: start }); continue; }
    if (my && c === ":" && /[A-Za-z_]/.test(sql[i + 1] ?? "")) {
      const m = /^:([A-Za-z_][A-Za-z0-9_]*)/.exec(sql.slice(i, i + 80));
      i += m[0].length;
      toks.push({ t: "named", v: m[1], pos: start });
      continue;
    }
    if (/[0-9]/.test(c) || (c === "." && /[0-9]/.test(sql[i + 1] ?? ""))) {
      const m = /^(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?/.exec(sql.slice(i, i + 60));
      i += m[0].length;
      toks.push({ t: "num", v: Number(m[0]), raw: m[0], pos: start });
      continue;
    }
    if (/[A-Za-z_\u0080-\uffff]/.test(c)) {
      let j = i + 1;
      while (j < n && /[A-Za-z0-9_$\u0080-\uffff]/.test(sql[j])) j++;
      const v = sql.slice(i, j);
      i = j;
      toks.push({ t: "id", v: my ? v : v.toLowerCase(), u: v.toUpperCase(), raw: v, pos: start });
      continue;
    }
    const o3 = sql.slice(i, i + 3);
    if (OPS3.includes(o3)) { toks.push({ t: "op", v: o3, pos: start }); i += 3; continue; }
    const o2 = sql.slice(i, i + 2);
    if (OPS2.includes(o2)) { toks.push({ t: "op", v: o2, pos: start }); i += 2; continue; }
    if ("+-*/%^<>=~!@#&|?()[],.;:".includes(c)) { toks.push({ t: "op", v: c, pos: start }); i++; continue; }
    throw new SqlSyntaxError(`syntax error at or near "${c}"`, i, sql);
  }
  toks.push({ t: "eof", pos: n });
  return toks;
}

const RESERVED = new Set("SELECT FROM WHERE GROUP HAVING ORDER LIMIT OFFSET UNION EXCEPT INTERSECT ON USING JOIN INNER LEFT RIGHT FULL CROSS NATURAL AS SET VALUES RETURNING WHEN THEN ELSE END CASE AND OR NOT IN IS BETWEEN LIKE ILIKE FOR WITH INTO FETCH WINDOW LATERAL CONFLICT DO DUPLICATE ASC DESC NULLS REGEXP".split(" "));

export class Parser {
  constructor(sql, dialect) {
    this.sql = sql;
    this.dialect = dialect;
    this.toks = lex(sql, dialect);
    this.p = 0;
    this.qn = 0;
  }
  peek(o = 0) { return this.toks[this.p + o]; }
  next() { return this.toks[this.p++]; }
  isKw(...ks) { const t = this.peek(); return t.t === "id" && !t.quoted && ks.includes(t.u); }
  isKwAt(o, ...ks) { const t = this.peek(o); return t && t.t === "id" && !t.quoted && ks.includes(t.u); }
  kw(...ks) { if (this.isKw(...ks)) return this.next().u; return undefined; }
  kws(...ks) {
    for (let i = 0; i < ks.length; i++) if (!this.isKwAt(i, ks[i])) return false;
    this.p += ks.length;
    return true;
  }
  expectKw(k) { if (!this.kw(k)) this.err(`expected ${k}`); }
  isOp(v) { const t = this.peek(); return t.t === "op" && t.v === v; }
  op(v) { if (this.isOp(v)) { this.p++; return true; } return false; }
  expectOp(v) { if (!this.op(v)) this.err(`expected ${v}`); }
  err(m) {
    const t = this.peek();
    const near = t.t === "eof" ? "end of input" : `"${t.raw ?? t.v}"`;
    throw new SqlSyntaxError(`syntax error at or near ${near} (${m})`, t.pos, this.sql);
  }
  ident() {
    const t = this.peek();
    if (t.t === "id") { this.p++; return t.v; }
    return this.err("identifier");
  }
  qname() {
    let n = this.ident();
    while (this.isOp(".") && this.peek(1).t === "id") { this.p++; n = this.ident(); }
    return n;
  }
  parseAll() {
    const out = [];
    while (this.peek().t !== "eof") {
      if (this.op(";")) continue;
      out.push(this.statement());
      if (this.peek().t !== "eof" && !this.isOp(";")) this.err("unexpected token");
    }
    return out;
  }
  statement() {
    const t = this.peek();
    if (t.t === "op" && t.v === "(") return this.selectStmt();
    if (t.t !== "id") this.err("statement");
    switch (t.u) {
      case "WITH": return this.withStmt();
      case "SELECT": case "VALUES": return this.selectStmt();
      case "INSERT": case "REPLACE": return this.insertStmt();
      case "UPDATE": return this.updateStmt();
      case "DELETE": return this.deleteStmt();
      case "BEGIN": case "START": this.skipToEnd(); return { k: "begin" };
      case "COMMIT": case "END": this.skipToEnd(); return { k: "commit" };
      case "ABORT": this.skipToEnd(); return { k: "rollback" };
      case "ROLLBACK":
        this.next();
        this.kw("WORK", "TRANSACTION");
        if (this.kw("TO")) { this.kw("SAVEPOINT"); return { k: "rollbackto", name: this.ident() }; }
        return { k: "rollback" };
      case "SAVEPOINT": this.next(); return { k: "savepoint", name: this.ident() };
      case "RELEASE": this.next(); this.kw("SAVEPOINT"); return { k: "release", name: this.ident() };
      case "SET": case "SHOW": case "RESET": case "DEALLOCATE": case "ANALYZE": case "LISTEN": this.skipToEnd(); return { k: "noop", what: t.u };
      case "DISCARD": this.skipToEnd(); return { k: "discard" };
      case "LOCK": { this.next(); this.kw("TABLE"); const table = this.qname(); this.skipToEnd(); return { k: "lock", table }; }
      case "TRUNCATE": { this.next(); this.kw("TABLE"); const tables = [this.qname()]; while (this.op(",")) tables.push(this.qname()); this.skipToEnd(); return { k: "truncate", tables }; }
      case "REFRESH": this.skipToEnd(); return { k: "refresh", text: this.sql.slice(t.pos) };
      case "DROP": {
        this.next();
        this.kw("TEMPORARY");
        if (this.kw("TABLE")) { const ifExists = this.kws("IF", "EXISTS"); const name = this.qname(); this.skipToEnd(); return { k: "droptable", name, ifExists }; }
        throw new Unsupported(`SQL: ${this.sql}`);
      }
      case "CREATE": return this.createStmt();
      default: throw new Unsupported(`SQL statement: ${this.sql.slice(0, 200)}`);
    }
  }
  skipToEnd() { while (this.peek().t !== "eof" && !this.isOp(";")) this.next(); }
  createStmt() {
    this.expectKw("CREATE");
    this.kw("TEMPORARY", "TEMP");
    this.expectKw("TABLE");
    const ifNot = this.kws("IF", "NOT", "EXISTS");
    const name = this.qname();
    if (this.kw("LIKE")) { const like = this.qname(); return { k: "createtable", name, ifNot, like }; }
    if (this.op("(")) {
      if (this.kw("LIKE")) { const like = this.qname(); while (!this.isOp(")")) this.next(); this.expectOp(")"); return { k: "createtable", name, ifNot, like }; }
      const cols = [];
      const keys = [];
      const fks = [];
      let depth;
      const itemEnd = () => {
        depth = 0;
        const toks = [];
        while (!(depth === 0 && (this.isOp(",") || this.isOp(")")))) {
          if (this.isOp("(")) depth++;
          if (this.isOp(")")) depth--;
          toks.push(this.next());
        }
        return toks;
      };
      do {
        if (this.isKw("CONSTRAINT") ) { this.next(); this.ident(); }
        if (this.isKw("PRIMARY", "UNIQUE", "KEY", "INDEX", "FOREIGN", "CHECK")) {
          const kind = this.next().u;
          this.kw("KEY"); this.kw("INDEX");
          if (kind === "FOREIGN") {
            const c = this.parenIdents(); this.expectKw("REFERENCES"); const rt = this.qname(); const rc = this.isOp("(") ? this.parenIdents() : undefined; itemEnd();
            fks.push({ cols: c, ref: rt, refCols: rc });
          } else if (kind === "CHECK") itemEnd();
          else { if (this.peek().t === "id") this.ident(); const c = this.parenIdents(); itemEnd(); if (kind === "PRIMARY" || kind === "UNIQUE") keys.push({ cols: c, primary: kind === "PRIMARY" }); }
          continue;
        }
        const c = this.ident();
        const type = this.typeName();
        const rest = itemEnd();
        const words = rest.filter((x) => x.t === "id").map((x) => x.u);
        const idx = words.indexOf("DEFAULT");
        cols.push({ name: c, type, auto: words.includes("AUTO_INCREMENT"), notNull: words.includes("NOT") && words.includes("NULL"), primary: words.includes("PRIMARY"), unique: words.includes("UNIQUE"), defaultNow: idx >= 0 && /CURRENT_TIMESTAMP|NOW/.test(words[idx + 1] ?? "") });
      } while (this.op(","));
      this.expectOp(")");
      this.skipToEnd();
      return { k: "createtable", name, ifNot, cols, keys, fks };
    }
    this.kw("AS");
    return { k: "createtable", name, ifNot, as: this.selectStmt() };
  }
  parenIdents() {
    this.expectOp("(");
    const c = [];
    do { c.push(this.ident()); if (this.op("(")) { while (!this.op(")")) this.next(); } this.kw("ASC", "DESC"); } while (this.op(","));
    this.expectOp(")");
    return c;
  }
  withStmt() {
    this.expectKw("WITH");
    const recursive = !!this.kw("RECURSIVE");
    const ctes = [];
    do {
      const name = this.ident();
      let cols;
      if (this.isOp("(")) cols = this.parenIdents();
      this.expectKw("AS");
      if (this.kw("NOT")) this.expectKw("MATERIALIZED"); else this.kw("MATERIALIZED");
      this.expectOp("(");
      const q = this.statement();
      this.expectOp(")");
      ctes.push({ name, cols, q });
    } while (this.op(","));
    const q = this.statement();
    return { ...q, ctes: [...ctes, ...(q.ctes ?? [])], recursive };
  }
  selectStmt() {
    let left = this.selectTerm();
    for (;;) {
      if (this.isKw("UNION", "EXCEPT", "INTERSECT")) {
        const op = this.next().u;
        const all = !!this.kw("ALL");
        this.kw("DISTINCT");
        const right = this.selectTerm();
        left = { k: "setop", op, all, left, right };
      } else break;
    }
    this.selectTail(left);
    return left;
  }
  selectTail(s) {
    if (this.kws("ORDER", "BY")) s.orderBy = this.orderList();
    for (;;) {
      if (this.kw("LIMIT")) {
        if (this.kw("ALL")) continue;
        s.limit = this.expr();
        if (this.op(",")) { s.offset = s.limit; s.limit = this.expr(); }
      } else if (this.kw("OFFSET")) { s.offset = this.expr(); this.kw("ROWS", "ROW"); }
      else if (this.kw("FETCH")) { this.kw("FIRST", "NEXT"); s.limit = this.isKw("ROW", "ROWS") ? { k: "lit", v: 1 } : this.expr(); this.kw("ROW", "ROWS"); this.kw("ONLY"); }
      else if (this.isKw("FOR")) {
        this.next();
        let mode = this.next().u;
        if (mode === "NO") { this.kw("KEY"); this.kw("UPDATE"); mode = "UPDATE"; }
        if (mode === "KEY") { this.kw("SHARE"); mode = "SHARE"; }
        s.forLock = { mode, of: undefined, skip: false, nowait: false };
        if (this.kw("OF")) { s.forLock.of = [this.ident()]; while (this.op(",")) s.forLock.of.push(this.ident()); }
        if (this.kws("SKIP", "LOCKED")) s.forLock.skip = true;
        if (this.kw("NOWAIT")) s.forLock.nowait = true;
      } else break;
    }
  }
  orderList() {
    const out = [];
    do {
      const e = this.expr();
      let desc = false;
      if (this.kw("DESC")) desc = true; else this.kw("ASC");
      let nulls;
      if (this.kw("NULLS")) nulls = this.next().u;
      out.push({ e, desc, nulls });
    } while (this.op(","));
    return out;
  }
  selectTerm() {
    if (this.op("(")) {
      const s = this.isKw("WITH") ? this.withStmt() : this.selectStmt();
      this.expectOp(")");
      return { ...s, paren: true };
    }
    if (this.kw("VALUES")) {
      const rows = [];
      do { this.expectOp("("); rows.push(this.exprList(")")); this.expectOp(")"); } while (this.op(","));
      return { k: "values", rows };
    }
    this.expectKw("SELECT");
    const s = { k: "select", distinct: false };
    if (this.kw("DISTINCT")) {
      s.distinct = true;
      if (this.kw("ON")) { this.expectOp("("); s.distinctOn = this.exprList(")"); this.expectOp(")"); }
    } else this.kw("ALL");
    s.cols = [];
    do { s.cols.push(this.selectItem()); } while (this.op(","));
    if (this.kw("FROM")) s.from = this.fromList();
    if (this.kw("WHERE")) s.where = this.expr();
    if (this.kws("GROUP", "BY")) { s.groupBy = []; do { s.groupBy.push(this.expr()); } while (this.op(",")); }
    if (this.kw("HAVING")) s.having = this.expr();
    return s;
  }
  selectItem() {
    if (this.op("*")) return { star: true };
    if (this.peek().t === "id" && this.peek(1).t === "op" && this.peek(1).v === "." && this.peek(2).t === "op" && this.peek(2).v === "*") {
      const t = this.ident(); this.p += 2;
      return { star: true, table: t };
    }
    const e = this.expr();
    let as;
    if (this.kw("AS")) as = this.peek().t === "str" ? this.next().v : this.ident();
    else if (this.peek().t === "id" && (this.peek().quoted || !RESERVED.has(this.peek().u))) as = this.ident();
    return { e, as };
  }
  fromList() {
    const items = [];
    do { items.push(this.joined()); } while (this.op(","));
    return items;
  }
  joined() {
    let left = this.fromItem();
    for (;;) {
      let type;
      if (this.kws("CROSS", "JOIN")) type = "CROSS";
      else if (this.kws("INNER", "JOIN") || this.isKw("JOIN") && this.kw("JOIN")) type = "INNER";
      else if (this.isKw("LEFT", "RIGHT", "FULL") && (this.isKwAt(1, "JOIN") || this.isKwAt(1, "OUTER"))) { type = this.next().u; this.kw("OUTER"); this.expectKw("JOIN"); }
      else break;
      const right = this.isOp("(") && !this.isKwAt(1, "SELECT", "WITH", "VALUES") ? this.parenJoin() : this.fromItem();
      const j = { k: "join", type, left, right };
      if (type !== "CROSS") {
        if (this.kw("ON")) j.on = this.expr();
        else if (this.kw("USING")) j.using = this.parenIdents();
      }
      left = j;
    }
    return left;
  }
  parenJoin() { this.expectOp("("); const j = this.joined(); this.expectOp(")"); return j; }
  fromItem() {
    const lateral = !!this.kw("LATERAL");
    let item;
    if (this.isOp("(")) {
      if (!this.isKwAt(1, "SELECT", "WITH", "VALUES") && !(this.peek(1).t === "op" && this.peek(1).v === "(")) return this.parenJoin();
      this.next();
      const q = this.isKw("WITH") ? this.withStmt() : this.selectStmt();
      this.expectOp(")");
      item = { k: "subq", q, lateral };
    } else {
      const name = this.qname();
      if (this.op("(")) { const args = this.isOp(")") ? [] : this.exprList(")"); this.expectOp(")"); item = { k: "tfunc", name: name.toLowerCase(), args }; }
      else item = { k: "table", name };
    }
    if (this.kw("AS")) item.alias = this.ident();
    else if (this.peek().t === "id" && (this.peek().quoted || !RESERVED.has(this.peek().u))) item.alias = this.ident();
    if (item.alias && this.isOp("(") ) { const save = this.p; try { item.colAliases = this.parenIdentsTyped(); } catch { this.p = save; } }
    return item;
  }
  parenIdentsTyped() {
    this.expectOp("(");
    const c = [];
    do { c.push(this.ident()); if (this.peek().t === "id") this.typeName(); } while (this.op(","));
    this.expectOp(")");
    return c;
  }
  insertStmt() {
    const rep = this.next().u === "REPLACE";
    const ignore = !!this.kw("IGNORE");
    this.kw("INTO");
    const s = { k: "insert", table: this.qname(), ignore, replace: rep };
    if (this.kw("AS")) s.alias = this.ident();
    if (this.isOp("(") && !this.isKwAt(1, "SELECT", "WITH")) s.cols = this.parenIdents();
    if (this.kws("DEFAULT", "VALUES")) s.source = { k: "values", rows: [[]] };
    else if (this.kw("VALUES", "VALUE")) {
      const rows = [];
      do {
        this.expectOp("(");
        const r = [];
        if (!this.isOp(")")) do { r.push(this.isKw("DEFAULT") && (this.next(), true) ? { k: "default" } : this.expr()); } while (this.op(","));
        this.expectOp(")");
        rows.push(r);
      } while (this.op(","));
      s.source = { k: "values", rows };
      if (this.dialect === "mysql" && this.kw("AS")) s.rowAlias = this.ident();
    } else if (this.isOp("(") || this.isKw("SELECT", "WITH")) {
      s.source = this.isKw("WITH") ? this.withStmt() : this.selectStmt();
    } else this.err("insert source");
    if (this.kw("ON")) {
      if (this.kw("CONFLICT")) {
        const oc = {};
        if (this.op("(")) { oc.targets = []; do { const e = this.expr(); oc.targets.push(e); } while (this.op(",")); this.expectOp(")"); if (this.kw("WHERE")) oc.targetWhere = this.expr(); }
        else if (this.kws("ON", "CONSTRAINT")) oc.constraint = this.ident();
        this.expectKw("DO");
        if (this.kw("NOTHING")) oc.action = "nothing";
        else { this.expectKw("UPDATE"); this.expectKw("SET"); oc.action = "update"; oc.set = this.setList(); if (this.kw("WHERE")) oc.where = this.expr(); }
        s.onConflict = oc;
      } else {
        this.expectKw("DUPLICATE"); this.expectKw("KEY"); this.expectKw("UPDATE");
        s.onConflict = { action: "update", set: this.setList(), mysql: true };
      }
    }
    if (this.kw("RETURNING")) s.returning = this.returning();
    return s;
  }
  returning() { const out = []; do { out.push(this.selectItem()); } while (this.op(",")); return out; }
  setList() {
    const out = [];
    do {
      if (this.op("(")) {
        const cols = [this.ident()];
        while (this.op(",")) cols.push(this.ident());
        this.expectOp(")"); this.expectOp("=");
        this.kw("ROW");
        this.expectOp("(");
        if (this.isKw("SELECT", "WITH")) { const q = this.isKw("WITH") ? this.withStmt() : this.selectStmt(); this.expectOp(")"); out.push({ cols, q }); }
        else { const es = this.exprList(")"); this.expectOp(")"); cols.forEach((c, i) => out.push({ col: c, e: es[i] })); }
        continue;
      }
      const col = this.qname();
      if (!this.op("=")) this.expectOp(":=");
      out.push({ col, e: this.isKw("DEFAULT") && !(this.peek(1).t === "op" && this.peek(1).v === "(") ? (this.next(), { k: "default" }) : this.expr() });
    } while (this.op(","));
    return out;
  }
  updateStmt() {
    this.expectKw("UPDATE");
    this.kw("ONLY");
    const s = { k: "update", table: this.qname() };
    if (this.kw("AS")) s.alias = this.ident();
    else if (this.peek().t === "id" && !this.isKw("SET")) s.alias = this.ident();
    this.expectKw("SET");
    s.set = this.setList();
    if (this.kw("FROM")) s.from = this.fromList();
    if (this.kw("WHERE")) s.where = this.expr();
    if (this.dialect === "mysql" && this.kws("ORDER", "BY")) s.orderBy = this.orderList();
    if (this.dialect === "mysql" && this.kw("LIMIT")) s.limit = this.expr();
    if (this.kw("RETURNING")) s.returning = this.returning();
    return s;
  }
  deleteStmt() {
    this.expectKw("DELETE");
    if (this.dialect === "mysql" && !this.isKw("FROM")) throw new Unsupported(`multi-table DELETE: ${this.sql}`);
    this.expectKw("FROM");
    this.kw("ONLY");
    const s = { k: "delete", table: this.qname() };
    if (this.kw("AS")) s.alias = this.ident();
    else if (this.peek().t === "id" && !this.isKw("WHERE", "USING", "RETURNING", "LIMIT", "ORDER")) s.alias = this.ident();
    if (this.kw("USING")) s.from = this.fromList();
    if (this.kw("WHERE")) s.where = this.expr();
    if (this.dialect === "mysql" && this.kws("ORDER", "BY")) s.orderBy = this.orderList();
    if (this.dialect === "mysql" && this.kw("LIMIT")) s.limit = this.expr();
    if (this.kw("RETURNING")) s.returning = this.returning();
    return s;
  }
  exprList(end) { const out = []; if (this.isOp(end)) return out; do { out.push(this.expr()); } while (this.op(",")); return out; }
  // ---- expressions ----
  expr() { return this.orExpr(); }
  orExpr() { let l = this.andExpr(); while (this.kw("OR") || (this.dialect === "mysql" && this.op("||"))) l = { k: "or", l, r: this.andExpr() }; return l; }
  andExpr() { let l = this.notExpr(); while (this.kw("AND") || (this.dialect === "mysql" && this.op("&&"))) l = { k: "and", l, r: this.notExpr() }; return l; }
  notExpr() { if (this.kw("NOT")) return { k: "not", e: this.notExpr() }; if (this.dialect === "mysql" && this.isOp("!")) { this.next(); return { k: "not", e: this.notExpr() }; } return this.isExpr(); }
  isExpr() {
    let l = this.cmpExpr();
    while (this.isKw("IS", "ISNULL", "NOTNULL")) {
      const u = this.next().u;
      if (u === "ISNULL") { l = { k: "isnull", e: l }; continue; }
      if (u === "NOTNULL") { l = { k: "isnull", e: l, not: true }; continue; }
      const not = !!this.kw("NOT");
      if (this.kw("NULL", "UNKNOWN")) l = { k: "isnull", e: l, not };
      else if (this.kw("TRUE")) l = { k: "isbool", e: l, v: true, not };
      else if (this.kw("FALSE")) l = { k: "isbool", e: l, v: false, not };
      else if (this.kws("DISTINCT", "FROM")) l = { k: "isdistinct", l, r: this.cmpExpr(), not };
      else this.err("IS");
    }
    return l;
  }
  cmpExpr() {
    let l = this.likeExpr();
    for (;;) {
      const t = this.peek();
      if (t.t === "op" && ["=", "<>", "!=", "<", ">", "<=", ">=", "<=>"].includes(t.v)) {
        this.next();
        if (this.isKw("ANY", "SOME", "ALL")) {
          const q = this.next().u;
          this.expectOp("(");
          const arg = this.isKw("SELECT", "WITH", "VALUES") ? { k: "subarr", q: this.isKw("WITH") ? this.withStmt() : this.selectStmt() } : this.expr();
          this.expectOp(")");
          l = { k: "quant", op: t.v === "!=" ? "<>" : t.v, all: q === "ALL", l, r: arg };
        } else l = { k: "cmp", op: t.v === "!=" ? "<>" : t.v, l, r: this.likeExpr() };
      } else return l;
    }
  }
  likeExpr() {
    let l = this.otherOp();
    for (;;) {
      let not = false;
      const save = this.p;
      if (this.isKw("NOT") && this.isKwAt(1, "IN", "LIKE", "ILIKE", "BETWEEN", "REGEXP")) { this.next(); not = true; }
      if (this.kw("IN")) {
        this.expectOp("(");
        if (this.isKw("SELECT", "WITH", "VALUES")) { const q = this.isKw("WITH") ? this.withStmt() : this.selectStmt(); l = { k: "insub", e: l, q, not }; }
        else l = { k: "in", e: l, list: this.exprList(")"), not };
        this.expectOp(")");
      } else if (this.isKw("LIKE", "ILIKE")) {
        const i = this.next().u === "ILIKE" || this.dialect === "mysql";
        const r = this.otherOp();
        if (this.kw("ESCAPE")) this.next();
        l = { k: "like", l, r, i, not };
      } else if (this.kw("REGEXP")) { l = { k: "regex", l, r: this.otherOp(), i: true, not }; }
      else if (this.kw("BETWEEN")) { this.kw("SYMMETRIC"); const a = this.otherOp(); this.expectKw("AND"); const b = this.otherOp(); l = { k: "between", e: l, a, b, not }; }
      else { this.p = save; return l; }
    }
  }
  otherOp() {
    let l = this.addExpr();
    for (;;) {
      const t = this.peek();
      if (t.t === "op" && (["->", "->>", "#>", "#>>", "@>", "<@", "~", "~*", "!~", "!~*"].includes(t.v) || (t.v === "||" && this.dialect !== "mysql") || (t.v === "&&" && this.dialect !== "mysql") || (t.v === "?" && this.dialect !== "mysql"))) {
        this.next();
        const r = this.addExpr();
        if (t.v.includes("~")) l = { k: "regex", l, r, i: t.v.includes("*"), not: t.v.startsWith("!") };
        else l = { k: "bin", op: t.v, l, r };
      } else return l;
    }
  }
  addExpr() { let l = this.mulExpr(); for (;;) { if (this.op("+")) l = { k: "bin", op: "+", l, r: this.mulExpr() }; else if (this.op("-")) l = { k: "bin", op: "-", l, r: this.mulExpr() }; else return l; } }
  mulExpr() { let l = this.powExpr(); for (;;) { if (this.op("*")) l = { k: "bin", op: "*", l, r: this.powExpr() }; else if (this.op("/")) l = { k: "bin", op: "/", l, r: this.powExpr() }; else if (this.op("%")) l = { k: "bin", op: "%", l, r: this.powExpr() }; else return l; } }
  powExpr() { let l = this.unary(); while (this.op("^")) l = { k: "bin", op: "^", l, r: this.unary() }; return l; }
  unary() {
    if (this.op("-")) { const e = this.unary(); return e.k === "lit" && typeof e.v === "number" ? { k: "lit", v: -e.v } : { k: "neg", e }; }
    if (this.op("+")) return this.unary();
    return this.postfix();
  }
  postfix() {
    let e = this.primary();
    for (;;) {
      if (this.op("::")) { e = { k: "cast", e, type: this.typeName() }; continue; }
      if (this.isOp("[")) {
        this.next();
        const i = this.expr();
        if (this.op(":")) { const j = this.expr(); this.expectOp("]"); e = { k: "slice", e, i, j }; continue; }
        this.expectOp("]"); e = { k: "index", e, i }; continue;
      }
      if (this.isKw("AT") && this.isKwAt(1, "TIME")) { this.p += 2; this.expectKw("ZONE"); e = { k: "attz", e, tz: this.primary() }; continue; }
      if (this.kw("COLLATE")) { this.next(); continue; }
      if (this.isOp(".") && (e.k === "sub" || e.k === "parenexpr") && this.peek(1).t === "id") { this.next(); e = { k: "field", e, f: this.ident() }; continue; }
      return e;
    }
  }
  typeName() {
    let t = this.ident().toLowerCase();
    if (t === "double" && this.isKw("PRECISION")) { this.next(); t = "float"; }
    if (t === "character" && this.isKw("VARYING")) { this.next(); t = "varchar"; }
    if (this.isOp(".") ) { this.next(); t = this.ident().toLowerCase(); }
    let args;
    if (this.isOp("(")) { this.next(); args = []; while (!this.isOp(")")) { args.push(this.next().v); this.op(","); } this.expectOp(")"); }
    if ((t === "timestamp" || t === "time") && this.isKw("WITH", "WITHOUT")) { const w = this.next().u; this.expectKw("TIME"); this.expectKw("ZONE"); if (w === "WITH") t += "tz"; }
    if (t === "unsigned" || t === "signed") this.kw("INTEGER");
    this.kw("UNSIGNED");
    let arr = 0;
    while (this.isOp("[") && this.peek(1).v === "]") { this.p += 2; arr++; }
    return { name: normType(t), args, arr };
  }
  primary() {
    const t = this.peek();
    switch (t.t) {
      case "num": this.next(); return { k: "lit", v: t.v, raw: t.raw };
      case "str": { this.next(); return { k: "lit", v: t.v, str: true }; }
      case "param": this.next(); return { k: "param", n: t.v };
      case "qmark": this.next(); return { k: "param", n: ++this.qn };
      case "named": this.next(); return { k: "named", n: t.v };
      case "op":
        if (t.v === "(") {
          this.next();
          if (this.isKw("SELECT", "WITH", "VALUES")) { const q = this.isKw("WITH") ? this.withStmt() : this.selectStmt(); this.expectOp(")"); return { k: "sub", q }; }
          const l = this.exprList(")");
          this.expectOp(")");
          if (l.length === 1) return l[0].k === "col" ? { k: "parenexpr", e: l[0] } : l[0];
          return { k: "row", items: l };
        }
        if (t.v === "*") { this.next(); return { k: "starexpr" }; }
        return this.err("expression");
      case "id": break;
      default: return this.err("expression");
    }
    if (!t.quoted) {
      switch (t.u) {
        case "NULL": this.next(); return { k: "lit", v: null };
        case "TRUE": this.next(); return { k: "lit", v: true };
        case "FALSE": this.next(); return { k: "lit", v: false };
        case "CASE": return this.caseExpr();
        case "EXISTS": if (this.peek(1).v === "(") { this.next(); this.expectOp("("); const q = this.isKw("WITH") ? this.withStmt() : this.selectStmt(); this.expectOp(")"); return { k: "exists", q }; } break;
        case "NOT": this.next(); return { k: "not", e: this.notExpr() };
        case "ROW": if (this.peek(1).v === "(") { this.p += 2; const l = this.exprList(")"); this.expectOp(")"); return { k: "row", items: l }; } break;
        case "ARRAY":
          if (this.peek(1).v === "[") { this.p += 2; const l = this.exprList("]"); this.expectOp("]"); return { k: "array", items: l }; }
          if (this.peek(1).v === "(") { this.p += 2; const q = this.isKw("WITH") ? this.withStmt() : this.selectStmt(); this.expectOp(")"); return { k: "subarr", q }; }
          break;
        case "INTERVAL":
          if (this.peek(1).t === "str") { this.next(); const s = this.next().v; const unit = this.dialect === "mysql" ? this.next().u : this.isKw("DAY", "HOUR", "MINUTE", "SECOND", "MONTH", "YEAR") ? this.next().u : undefined; return { k: "interval", e: { k: "lit", v: s }, unit }; }
          if (this.dialect === "mysql" || this.peek(1).t === "num" || this.peek(1).t === "param") { this.next(); const e = this.addExpr(); const unit = this.isKw("DAY", "HOUR", "MINUTE", "SECOND", "MONTH", "YEAR", "WEEK", "MICROSECOND") ? this.next().u : undefined; return { k: "interval", e, unit }; }
          break;
        case "CAST": case "CONVERT": if (this.peek(1).v === "(") {
          this.p += 2;
          const e = this.expr();
          if (!this.kw("AS")) this.expectOp(",");
          const type = this.typeName(); this.expectOp(")");
          return { k: "cast", e, type };
        } break;
        case "EXTRACT": if (this.peek(1).v === "(") { this.p += 2; const f = this.peek().t === "str" ? this.next().v.toUpperCase() : this.next().u; this.expectKw("FROM"); const e = this.expr(); this.expectOp(")"); return { k: "extract", f, e }; } break;
        case "TRIM": if (this.peek(1).v === "(") { this.p += 2; this.kw("BOTH", "LEADING", "TRAILING"); let e = this.expr(); if (this.kw("FROM")) e = this.expr(); this.expectOp(")"); return { k: "fn", name: "trim", args: [e] }; } break;
        case "CURRENT_TIMESTAMP": case "LOCALTIMESTAMP": this.next(); if (this.op("(")) { if (!this.isOp(")")) this.next(); this.expectOp(")"); } return { k: "fn", name: "now", args: [] };
        case "CURRENT_DATE": this.next(); return { k: "fn", name: "current_date", args: [] };
        case "CURRENT_TIME": this.next(); return { k: "fn", name: "current_time", args: [] };
        case "DATE": case "TIMESTAMP": case "TIMESTAMPTZ":
          if (this.peek(1).t === "str") { const ty = this.typeName(); return { k: "cast", e: { k: "lit", v: this.next().v }, type: ty }; }
          break;
        case "POSITION": if (this.peek(1).v === "(") { this.p += 2; const a = this.otherOp(); this.expectKw("IN"); const b = this.expr(); this.expectOp(")"); return { k: "fn", name: "position", args: [a, b] }; } break;
        case "SUBSTRING": if (this.peek(1).v === "(") {
          this.p += 2; const a = [this.expr()];
          if (this.kw("FROM")) { a.push(this.expr()); if (this.kw("FOR")) a.push(this.expr()); } else while (this.op(",")) a.push(this.expr());
          this.expectOp(")"); return { k: "fn", name: "substring", args: a };
        } break;
      }
    }
    // identifier, qualified identifier or function call
    const name = this.ident();
    if (this.isOp("(")) return this.callExpr(name);
    if (this.isOp(".")) {
      const parts = [name];
      while (this.isOp(".")) {
        this.next();
        if (this.op("*")) return { k: "tablestar", t: parts[parts.length - 1] };
        parts.push(this.ident());
      }
      if (this.isOp("(")) return this.callExpr(parts[parts.length - 1]);
      return { k: "col", t: parts[parts.length - 2], c: parts[parts.length - 1] };
    }
    return { k: "col", c: name };
  }
  callExpr(name) {
    this.expectOp("(");
    const f = { k: "fn", name: name.toLowerCase(), args: [] };
    if (this.op("*")) f.star = true;
    else if (!this.isOp(")")) {
      if (this.kw("DISTINCT")) f.distinct = true; else this.kw("ALL");
      do {
        if (f.name === "json_arrayagg" && this.isKw("ORDER")) break;
        f.args.push(this.expr());
      } while (this.op(","));
      if (this.kws("ORDER", "BY")) f.orderBy = this.orderList();
      if (this.kw("SEPARATOR")) f.sep = this.next().v;
    }
    this.expectOp(")");
    if (this.kw("FILTER")) { this.expectOp("("); this.expectKw("WHERE"); f.filter = this.expr(); this.expectOp(")"); }
    if (this.kws("WITHIN", "GROUP")) { this.expectOp("("); this.kws("ORDER", "BY"); f.orderBy = this.orderList(); this.expectOp(")"); }
    if (this.kw("OVER")) {
      this.expectOp("(");
      f.over = {};
      if (this.kws("PARTITION", "BY")) { f.over.partition = []; do { f.over.partition.push(this.expr()); } while (this.op(",")); }
      if (this.kws("ORDER", "BY")) f.over.order = this.orderList();
      while (!this.isOp(")")) { f.over.frame = (f.over.frame ?? "") + " " + (this.peek().u ?? this.peek().v); this.next(); }
      this.expectOp(")");
    }
    return f;
  }
  caseExpr() {
    this.expectKw("CASE");
    const c = { k: "case", whens: [] };
    if (!this.isKw("WHEN")) c.base = this.expr();
    while (this.kw("WHEN")) { const w = this.expr(); this.expectKw("THEN"); c.whens.push({ w, t: this.expr() }); }
    if (this.kw("ELSE")) c.else = this.expr();
    this.expectKw("END");
    return c;
  }
}

export function normType(t) {
  switch (t) {
    case "int": case "integer": case "int4": case "smallint": case "int2": case "serial": case "mediumint": return "int";
    case "bigint": case "int8": case "bigserial": case "signed": case "unsigned": return "bigint";
    case "float": case "float8": case "float4": case "real": case "double": return "float";
    case "numeric": case "decimal": return "numeric";
    case "text": case "varchar": case "char": case "character": case "bpchar": case "name": case "citext": case "longtext": case "mediumtext": case "enum": return "text";
    case "bool": case "boolean": return "bool";
    case "timestamptz": case "timestamp": case "datetime": return "timestamptz";
    case "date": return "date";
    case "time": return "time";
    case "json": case "jsonb": return "json";
    case "tinyint": return "int";
    default: return t;
  }
}

const cache = new Map();
export function parseSql(sql, dialect = "pg") {
  const key = dialect + sql;
  let r = cache.get(key);
  if (!r) {
    r = new Parser(sql, dialect).parseAll();
    if (cache.size > 5000) cache.clear();
    cache.set(key, r);
  }
  return r;
}
