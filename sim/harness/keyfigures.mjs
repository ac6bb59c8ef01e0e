// Surroundings of other/os-key-figures: a MySQL database with DDL and an OpenSearch that evaluates the queries on an access log.
import { MysqlServer } from "../mysqlserver.mjs";
import { SqlError } from "../sql/engine.mjs";
import { Unsupported } from "../world.mjs";

export class KeyDb extends MysqlServer {
  async exec(s, text, values) {
    const name = /`(\w+)`/.exec(text)?.[1];
    const none = [{ command: "", rows: [], fields: [], rowCount: 0 }];
    if (/^\s*show\s+tables/i.test(text)) return [{ command: "SHOW", rows: [...this.db.tables.keys()].map((t) => [t]), fields: [{ name: "Tables_in_d" }], rowCount: this.db.tables.size }];
    if (/^\s*create\s+table/i.test(text)) {
      if (this.db.tables.has(name)) {
        if (/if\s+not\s+exists/i.test(text)) return none;
        throw new SqlError("ER_TABLE_EXISTS_ERROR", `Table '${name}' already exists`, { errno: 1050 });
      }
      this.db.table(name, "id bigserial primary key, from text not null, to text not null, name text not null, filter text not null, query text not null, value text not null");
      return none;
    }
    if (/^\s*drop\s+table/i.test(text)) {
      this.onDrop?.(name);
      if (!this.db.tables.has(name) && !/if\s+exists/i.test(text)) throw new SqlError("ER_BAD_TABLE_ERROR", `Unknown table '${name}'`, { errno: 1051 });
      this.db.tables.delete(name);
      return none;
    }
    if (/^\s*create\s+(unique\s+)?index/i.test(text)) {
      if (!this.db.tables.has(name)) throw new SqlError("ER_NO_SUCH_TABLE", `Table '${name}' doesn't exist`, { errno: 1146 });
      return none;
    }
    return super.exec(s, text, values);
  }
}

/** Requests of an access log as OpenSearch has indexed them. */
export class AccessLog {
  constructor() { this.docs = []; } // {index, ts, account, request, status, bytes, ip, referer, user, agent, host, skip, line}
  /** Tokens of a path as the index analyses them. */
  static tokens(text) { return String(text).toLowerCase().split(/[^a-z0-9._]+/).map((t) => t.replace(/^[.]+|[.]+$/g, "")).filter(Boolean); }
  clause(text) {
    const t = text.trim();
    let m;
    if (/^NOT /i.test(t)) { const c = this.clause(t.slice(4)); return (d) => !c(d); }
    if (t.startsWith("(") && t.endsWith(")")) { const cs = t.slice(1, -1).split(" OR ").map((x) => this.clause(x)); return (d) => cs.some((c) => c(d)); }
    if ((m = /^log_line:\*$/.exec(t))) return (d) => d.line !== undefined;
    if ((m = /^accountName\.keyword:(\S+)$/.exec(t))) { const re = new RegExp(`^${m[1].replaceAll("*", ".*")}$`); return (d) => re.test(d.account); }
    if ((m = /^httpStatusCode:(\d+)$/.exec(t))) return (d) => d.status === Number(m[1]);
    if ((m = /^request:"([^"]*)"$/.exec(t))) {
      const want = AccessLog.tokens(m[1]);
      return (d) => { const have = AccessLog.tokens(d.request); return have.some((_, i) => want.every((w, j) => have[i + j] === w)); };
    }
    throw new Unsupported(`query ${t}`);
  }
  field(f) {
    const k = { "httpReferrer.keyword": "referer", "httpDigitrafficUser.keyword": "user", "agent.keyword": "agent", clientIp: "ip", bytes: "bytes" }[f];
    if (!k) throw new Unsupported(`field ${f}`);
    return (d) => d[k];
  }
  search(index, method, q) {
    const b = q.query.bool;
    const preds = [];
    for (const m of [b.must ?? []].flat()) {
      if (!m.query_string) throw new Unsupported(`must ${JSON.stringify(m)}`);
      for (const part of m.query_string.query.split(" AND ")) preds.push(this.clause(part));
    }
    for (const m of [b.must_not ?? []].flat()) {
      if (m.term) { const [[f, v]] = Object.entries(m.term); if (f !== "skip_statistics") throw new Unsupported(`term ${f}`); preds.push((d) => Boolean(d.skip) !== v); }
      else if (m.wildcard?.httpHost) { const re = new RegExp(`^${m.wildcard.httpHost.replaceAll(".", "\\.").replaceAll("*", ".*")}$`); preds.push((d) => !re.test(d.host)); }
      else throw new Unsupported(`must_not ${JSON.stringify(m)}`);
    }
    for (const f of [b.filter ?? []].flat()) {
      const r = f.range?.["@timestamp"];
      if (!r) throw new Unsupported(`filter ${JSON.stringify(f)}`);
      const at = (x) => (x === undefined ? undefined : Date.parse(x));
      const [gte, gt, lte, lt] = [at(r.gte), at(r.gt), at(r.lte), at(r.lt)];
      preds.push((d) => (gte === undefined || d.ts >= gte) && (gt === undefined || d.ts > gt) && (lte === undefined || d.ts <= lte) && (lt === undefined || d.ts < lt));
    }
    const names = index.split(",");
    const docs = this.docs.filter((d) => names.includes(d.index) && preds.every((p) => p(d)));
    if (method === "_count") return { count: docs.length };
    const a = q.aggs?.agg;
    if (!a) throw new Unsupported(`search ${JSON.stringify(q)}`);
    if (a.sum) { const f = this.field(a.sum.field); return { aggregations: { agg: { value: docs.reduce((s, d) => s + (f(d) ?? 0), 0) } } }; }
    if (a.cardinality) { const f = this.field(a.cardinality.field); return { aggregations: { agg: { value: new Set(docs.map(f).filter((x) => x !== undefined)).size } } }; }
    const f = this.field(a.terms.field);
    const groups = new Map();
    for (const d of docs) { const k = f(d) ?? a.terms.missing; if (k !== undefined) groups.set(k, [...(groups.get(k) ?? []), d]); }
    const sub = a.aggs?.agg?.sum;
    const buckets = [...groups].map(([key, ds]) => ({ key, doc_count: ds.length, ...(sub ? { agg: { value: ds.reduce((s, d) => s + (this.field(sub.field)(d) ?? 0), 0) } } : {}) }));
    buckets.sort((x, y) => (sub ? y.agg.value - x.agg.value : y.doc_count - x.doc_count) || (x.key < y.key ? -1 : 1));
    return { aggregations: { agg: { buckets: buckets.slice(0, a.terms.size ?? 10) } } };
  }
}
