// Stand-in for kysely's query builder: compiles the same PostgreSQL text and parameters as the real builder for the subset used here.
const q = (name) => name.split(".").map((p) => `"${p}"`).join(".");
class Raw { constructor(text, values) { this.text = text; this.values = values; } as(a) { return new Raw([...this.text.slice(0, -1), `${this.text.at(-1)} as ${q(a)}`], this.values); } $castTo() { return this; } }
export function sql(strings, ...values) { return new Raw([...strings], values); }
sql.raw = (s) => new Raw([s], []);
sql.ref = (s) => new Raw([q(s)], []);
sql.lit = (v) => new Raw([typeof v === "string" ? `'${v.replaceAll("'", "''")}'` : String(v)], []);
const FN = new Proxy((name, args = []) => fnCall(name, args), { get: (_t, name) => (...args) => fnCall(name, args.flat()) });
function fnCall(name, cols) { const text = name === "countAll" ? "count(*)" : `${name}(${cols.map(q).join(", ")})`; return { expr: text, as(a) { return { expr: `${text} as ${q(a)}` }; } }; }
class Ctx {
  constructor() { this.parameters = []; }
  value(v) {
    if (v instanceof Raw) return v.text.reduce((s, t, i) => s + t + (i < v.values.length ? this.value(v.values[i]) : ""), "");
    if (v && v.expr) return v.expr;
    this.parameters.push(v);
    return `$${this.parameters.length}`;
  }
}
const selection = (s, ctx) => {
  if (typeof s === "string") { const m = /^(.*?)\s+as\s+(.*)$/i.exec(s); return m ? `${q(m[1].trim())} as ${q(m[2].trim())}` : q(s); }
  return ctx.value(s);
};
const cond = ([a, op, b], ctx) => {
  const left = typeof a === "string" ? q(a) : ctx.value(a);
  if (/^(not )?in$/i.test(op)) return `${left} ${op} (${b.map((x) => ctx.value(x)).join(", ")})`;
  if (/^is( not)?$/i.test(op) && (b === null || typeof b === "boolean")) return `${left} ${op} ${b}`;
  return `${left} ${op} ${ctx.value(b)}`;
};
class Builder {
  constructor(node) { this.node = node; }
  with(patch) { return new Builder({ ...this.node, ...patch }); }
  push(key, ...v) { return this.with({ [key]: [...(this.node[key] ?? []), ...v] }); }
  select(s) { const list = typeof s === "function" ? [s({ fn: FN, ref: (r) => new Raw([q(r)], []), val: (v) => new Raw(["", ""], [v]) })].flat() : [s].flat(); return this.push("selects", ...list); }
  selectAll() { return this.push("selects", sql.raw("*")); }
  distinct() { return this.with({ distinct: true }); }
  where(a, op, b) { if (arguments.length !== 3) throw new Error("kysely stand-in: where() with an expression builder"); return this.push("wheres", [a, op, b]); }
  leftJoin(t, a, b) { return this.push("joins", `left join ${q(t)} on ${q(a)} = ${q(b)}`); }
  innerJoin(t, a, b) { return this.push("joins", `inner join ${q(t)} on ${q(a)} = ${q(b)}`); }
  orderBy(c, dir) { return this.push("orders", [c].flat().map((x) => { const m = /^(.*?)\s+(asc|desc)$/i.exec(x); return m ? `${q(m[1])} ${m[2]}` : q(x) + (dir ? ` ${dir}` : ""); }).join(", ")); }
  groupBy(c) { return this.push("groups", ...[c].flat().map(q)); }
  limit(n) { return this.with({ limit: n }); }
  values(v) { return this.with({ rows: Array.isArray(v) ? v : [v] }); }
  onConflict(f) { return this.with({ conflict: f(new Conflict({})).node }); }
  returning(s) { return this.push("returns", ...[s].flat()); }
  set(a, b) { return arguments.length === 2 ? this.push("sets", [a, b]) : this.push("sets", ...Object.entries(a).filter(([, v]) => v !== undefined)); }
  compile() {
    const n = this.node, ctx = new Ctx();
    let s;
    const tail = () => (n.wheres ? ` where ${n.wheres.map((w) => cond(w, ctx)).join(" and ")}` : "");
    if (n.kind === "select") {
      s = `select ${n.distinct ? "distinct " : ""}${n.selects.map((x) => selection(x, ctx)).join(", ")} from ${n.table}${(n.joins ?? []).map((j) => ` ${j}`).join("")}${tail()}`;
      if (n.groups) s += ` group by ${n.groups.join(", ")}`;
      if (n.orders) s += ` order by ${n.orders.join(", ")}`;
      if (n.limit !== undefined) s += ` limit ${ctx.value(n.limit)}`;
    } else if (n.kind === "insert") {
      const cols = [...new Set(n.rows.flatMap((r) => Object.keys(r).filter((k) => r[k] !== undefined)))];
      s = `insert into ${n.table} (${cols.map(q).join(", ")}) values ${n.rows.map((r) => `(${cols.map((c) => (r[c] === undefined ? "default" : ctx.value(r[c]))).join(", ")})`).join(", ")}`;
      if (n.conflict) s += ` on conflict${n.conflict.columns ? ` (${n.conflict.columns.map(q).join(", ")})` : ""} do ${n.conflict.set ? `update set ${Object.entries(n.conflict.set).filter(([, v]) => v !== undefined).map(([k, v]) => `${q(k)} = ${ctx.value(v)}`).join(", ")}` : "nothing"}`;
    } else if (n.kind === "update") s = `update ${n.table} set ${n.sets.map(([k, v]) => `${q(k)} = ${ctx.value(v)}`).join(", ")}${tail()}`;
    else s = `delete from ${n.table}${tail()}`;
    if (n.returns) s += ` returning ${n.returns.map((x) => selection(x, ctx)).join(", ")}`;
    return { sql: s, parameters: ctx.parameters };
  }
}
class Conflict {
  constructor(node) { this.node = node; }
  columns(c) { return new Conflict({ ...this.node, columns: c }); }
  column(c) { return new Conflict({ ...this.node, columns: [...(this.node.columns ?? []), c] }); }
  doNothing() { return new Conflict({ ...this.node, set: undefined }); }
  doUpdateSet(s) { return new Conflict({ ...this.node, set: typeof s === "function" ? s({ ref: (r) => new Raw([q(r)], []) }) : s }); }
}
const table = (t) => { const m = /^(.*?)\s+as\s+(.*)$/i.exec(t); return m ? `${q(m[1].trim())} as ${q(m[2].trim())}` : q(t); };
export class Kysely {
  selectFrom(t) { return new Builder({ kind: "select", table: table(t) }); }
  insertInto(t) { return new Builder({ kind: "insert", table: table(t) }); }
  updateTable(t) { return new Builder({ kind: "update", table: table(t) }); }
  deleteFrom(t) { return new Builder({ kind: "delete", table: table(t) }); }
}
export class DummyDriver {}
export class PostgresAdapter {}
export class PostgresIntrospector {}
export class PostgresQueryCompiler {}
