// A log in OpenSearch, searched with the queries of the monitors, and monitors evaluated as the alerting plugin does.
import vm from "node:vm";
import { Unsupported } from "../world.mjs";

const one = (o) => { const e = Object.entries(o); if (e.length !== 1) throw new Unsupported(`query ${JSON.stringify(o)}`); return e[0]; };
export const tokens = (t) => String(t).toLowerCase().split(/[^\p{L}\p{N}]+/u).filter(Boolean);
export const phrase = (text, want) => { const h = tokens(text), w = tokens(want); return h.some((_, i) => w.every((x, j) => h[i + j] === x)); };
function time(v, now) {
  if (v === null || v === undefined) return undefined;
  if (typeof v === "number") return v;
  const m = /^now(?:-(\d+)([smhd]))?$/.exec(v);
  if (!m) { const t = Date.parse(v); if (Number.isNaN(t)) throw new Unsupported(`time ${v}`); return t; }
  return now - (m[1] ? Number(m[1]) * { s: 1000, m: 60000, h: 3600000, d: 86400000 }[m[2]] : 0);
}
export function matches(q, d, now) {
  const [k, v] = one(q);
  if (k === "bool") {
    const list = (x) => (x === undefined ? [] : [x].flat());
    const should = list(v.should), must = [...list(v.must), ...list(v.filter)];
    const min = v.minimum_should_match ?? (should.length && !must.length ? 1 : 0);
    return must.every((x) => matches(x, d, now)) && !list(v.must_not).some((x) => matches(x, d, now)) && should.filter((x) => matches(x, d, now)).length >= min;
  }
  if (k === "exists") return d[v.field] !== undefined;
  if (k === "multi_match") {
    if (v.type !== "phrase") throw new Unsupported("multi_match");
    return v.fields.some((f) => d[f] !== undefined && phrase(d[f], v.query));
  }
  const [f, a] = one(v);
  if (k === "range") {
    const from = time(a.from ?? a.gte, now), to = time(a.to ?? a.lte, now), gt = time(a.gt, now), lt = time(a.lt, now);
    const t = d[f];
    return (from === undefined || t >= from) && (to === undefined || t <= to) && (gt === undefined || t > gt) && (lt === undefined || t < lt);
  }
  if (k === "match_phrase") return d[f] !== undefined && phrase(d[f], a.query ?? a);
  throw new Unsupported(`query ${k}`);
}
function aggregate(aggs, docs) {
  const out = {};
  for (const [name, a] of Object.entries(aggs ?? {})) {
    if (!a.terms) throw new Unsupported(`aggregation ${JSON.stringify(a)}`);
    const m = new Map();
    for (const d of docs) if (d[a.terms.field] !== undefined) m.set(d[a.terms.field], [...(m.get(d[a.terms.field]) ?? []), d]);
    let buckets = [...m].map(([key, ds]) => ({ key, doc_count: ds.length, docs: ds })).sort((x, y) => y.doc_count - x.doc_count).slice(0, 10);
    for (const s of Object.values(a.aggregations ?? {})) {
      if (!s.bucket_selector) throw new Unsupported(`aggregation ${JSON.stringify(s)}`);
      buckets = buckets.filter((b) => vm.runInNewContext(s.bucket_selector.script, { params: Object.fromEntries(Object.entries(s.bucket_selector.buckets_path).map(([p, path]) => { if (path !== "_count") throw new Unsupported(`path ${path}`); return [p, b.doc_count]; })) }));
    }
    out[name] = { buckets };
  }
  return out;
}
/** What the alerting plugin does with a monitor on its schedule: the triggers that fire, each with its actions. */
export function evaluate(monitor, docs, now) {
  const search = monitor.inputs[0].search;
  const { query, aggs, size, sort } = search.query;
  const hits = docs.filter((d) => search.indices.includes(d.index) && matches(query, d, now));
  void size; void sort;
  const ctx = { results: [{ hits: { total: { value: hits.length } }, aggregations: aggs ? aggregate(aggs, hits) : undefined }] };
  return monitor.triggers.map((t) => t.query_level_trigger).filter((t) => {
    const r = vm.runInNewContext(t.condition.script.source, { ctx });
    if (typeof r !== "boolean") throw new Unsupported(`condition ${t.condition.script.source}`);
    return r;
  });
}
