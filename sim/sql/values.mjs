// SQL values, comparison and coercion.
import { Unsupported } from "../world.mjs";

export class SqlError extends Error {
  constructor(code, message, extra = {}) {
    super(message);
    this.name = "error";
    this.code = code;
    this.severity = "ERROR";
    Object.assign(this, extra);
  }
}
export class Interval {
  constructor(months, days, ms) { this.months = months; this.days = days; this.ms = ms; }
  approxMs() { return (this.months * 30 + this.days) * 86400000 + this.ms; }
  toString() { return `${this.months} mons ${this.days} days ${this.ms / 1000} secs`; }
}
export class Json {
  constructor(v) { this.v = v; }
}
export class Geom {
  constructor(g, srid = 0) { this.g = g; this.srid = srid; }
  key() { return JSON.stringify(this.g); }
}
export class Row {
  constructor(items) { this.items = items; }
}
const UNIT = { microsecond: 0.001, millisecond: 1, second: 1000, sec: 1000, s: 1000, minute: 60000, min: 60000, m: 60000, hour: 3600000, h: 3600000 };
export function parseInterval(str, unit) {
  let months = 0, days = 0, ms = 0;
  let s = String(str).trim();
  if (unit) s = `${s} ${unit.toLowerCase()}`;
  const re = /([+-]?\d+(?:\.\d+)?)\s*([a-zA-Z]+)|([+-]?)(\d+):(\d+)(?::(\d+(?:\.\d+)?))?/g;
  let m, any = false;
  while ((m = re.exec(s))) {
    any = true;
    if (m[2]) {
      const q = Number(m[1]);
      const u = m[2].toLowerCase().replace(/s$/, "") || "s";
      if (u === "year" || u === "y") months += q * 12;
      else if (u === "month" || u === "mon") months += q;
      else if (u === "week" || u === "w") days += q * 7;
      else if (u === "day" || u === "d") { days += Math.trunc(q); ms += (q - Math.trunc(q)) * 86400000; }
      else if (UNIT[u]) ms += q * UNIT[u];
      else throw new SqlError("22007", `invalid input syntax for type interval: "${str}"`);
    } else {
      const sg = m[3] === "-" ? -1 : 1;
      ms += sg * (Number(m[4]) * 3600000 + Number(m[5]) * 60000 + Number(m[6] ?? 0) * 1000);
    }
  }
  if (!any) throw new SqlError("22007", `invalid input syntax for type interval: "${str}"`);
  return new Interval(months, days, ms);
}
export function addInterval(d, iv, sign = 1) {
  const x = new Date(d.getTime());
  if (iv.months) {
    const day = x.getUTCDate();
    x.setUTCDate(1);
    x.setUTCMonth(x.getUTCMonth() + sign * iv.months);
    const dim = new Date(Date.UTC(x.getUTCFullYear(), x.getUTCMonth() + 1, 0)).getUTCDate();
    x.setUTCDate(Math.min(day, dim));
  }
  return new Date(x.getTime() + sign * (iv.days * 86400000 + iv.ms));
}
export function parseTs(s) {
  if (s instanceof Date) return s;
  if (typeof s === "number") throw new SqlError("42846", "cannot cast number to timestamp");
  let t = String(s).trim();
  if (t === "infinity") return new Date(8.64e15);
  if (t === "-infinity") return new Date(-8.64e15);
  let m = /^(\d{4,5})-(\d\d?)-(\d\d?)(?:[T ](\d\d?):(\d\d)(?::(\d\d)(\.\d+)?)?\s*(Z|UTC|[+-]\d\d(?::?\d\d)?)?)?$/i.exec(t);
  if (!m) throw new SqlError("22007", `invalid input syntax for type timestamp: "${t}"`);
  const ms = Date.UTC(Number(m[1]), Number(m[2]) - 1, Number(m[3]), Number(m[4] ?? 0), Number(m[5] ?? 0), Number(m[6] ?? 0)) + (m[7] ? Math.round(Number(m[7]) * 1000) : 0);
  let off = 0;
  if (m[8] && !/^(Z|UTC)$/i.test(m[8])) {
    const sg = m[8][0] === "-" ? -1 : 1;
    const hh = Number(m[8].slice(1, 3));
    const mm = Number(m[8].slice(3).replace(":", "") || 0);
    off = sg * (hh * 60 + mm) * 60000;
  }
  if (Number(m[2]) > 12 || Number(m[3]) > 31) throw new SqlError("22008", `date/time field value out of range: "${t}"`);
  return new Date(ms - off);
}
export function toText(v) {
  if (v === null || v === undefined) return null;
  if (v instanceof Date) {
    const s = v.toISOString();
    return `${s.slice(0, 10)} ${s.slice(11, 23).replace(/\.?0+$/, (x) => (x.startsWith(".") ? "" : x.replace(/0+$/, "")))}+00`.replace(/\.\+/, "+");
  }
  if (v instanceof Json) return JSON.stringify(v.v);
  if (v instanceof Interval) return v.toString();
  if (v instanceof Geom) return v.key();
  if (typeof v === "boolean") return v ? "true" : "false";
  if (Array.isArray(v)) return `{${v.map((x) => toText(x)).join(",")}}`;
  if (Buffer.isBuffer(v)) return `\\x${v.toString("hex")}`;
  return String(v);
}
export function jsonIn(v) {
  if (v instanceof Json) return v;
  if (typeof v === "string") {
    try { return new Json(JSON.parse(v)); } catch { throw new SqlError("22P02", "invalid input syntax for type json"); }
  }
  return new Json(v);
}
export function toJsonVal(v) {
  if (v === null || v === undefined) return null;
  if (v instanceof Json) return v.v;
  if (v instanceof Date) return v.toISOString().replace(/\.000Z$/, "Z").replace(/Z$/, "+00:00");
  if (v instanceof Geom) return v.g;
  if (Array.isArray(v)) return v.map(toJsonVal);
  if (v instanceof Interval) return v.toString();
  return v;
}
export function parsePgArray(s) {
  const out = [];
  let i = 1, cur = "", q = false, any = false, wasQ = false;
  for (; i < s.length; i++) {
    const c = s[i];
    if (q) { if (c === "\\") { cur += s[++i]; } else if (c === '"') q = false; else cur += c; continue; }
    if (c === '"') { q = true; wasQ = true; any = true; continue; }
    if (c === "," || c === "}") { if (any || cur !== "" || wasQ) out.push(!wasQ && cur.toUpperCase() === "NULL" ? null : cur); cur = ""; wasQ = false; any = c === "," ; if (c === "}") break; any = true; continue; }
    cur += c;
  }
  return out;
}
export function castTo(v, type, my = false) {
  if (v === null || v === undefined) return null;
  if (type.arr) {
    if (typeof v === "string") v = parsePgArray(v);
    if (v instanceof Json) v = v.v;
    if (!Array.isArray(v)) throw new SqlError("42846", "cannot cast to array");
    return v.map((x) => castTo(x, { name: type.name }, my));
  }
  switch (type.name) {
    case "int": case "bigint": {
      if (typeof v === "boolean") return v ? 1 : 0;
      if (v instanceof Date) { if (my) return Number(v.toISOString().replace(/\D/g, "").slice(0, 14)); throw new SqlError("42846", "cannot cast timestamp to integer"); }
      if (v instanceof Json) v = v.v;
      const n = typeof v === "number" ? v : Number(String(v).trim() === "" ? NaN : v);
      if (!Number.isFinite(n)) { if (my) { const f = parseFloat(v); return Number.isFinite(f) ? Math.round(f) : 0; } throw new SqlError("22P02", `invalid input syntax for type ${type.name === "int" ? "integer" : "bigint"}: "${v}"`); }
      if (typeof v === "string" && !my && !/^[+-]?\d+$/.test(v.trim())) throw new SqlError("22P02", `invalid input syntax for type ${type.name === "int" ? "integer" : "bigint"}: "${v}"`);
      const r = Math.round(n);
      if (type.name === "int" && (r > 2147483647 || r < -2147483648) && !my) throw new SqlError("22003", "integer out of range");
      return r;
    }
    case "float": case "numeric": {
      if (v instanceof Json) v = v.v;
      if (typeof v === "boolean") return v ? 1 : 0;
      const n = typeof v === "number" ? v : Number(v);
      if (Number.isNaN(n) && !my) { if (String(v) === "NaN") return NaN; throw new SqlError("22P02", `invalid input syntax for type ${type.name}: "${v}"`); }
      if (Number.isNaN(n)) return 0;
      if (type.name === "numeric" && type.args?.length === 2) return Math.round(n * 10 ** type.args[1]) / 10 ** type.args[1];
      return n;
    }
    case "text": {
      let s = v instanceof Date && my ? mysqlDate(v) : toText(v);
      if (type.args?.length && s.length > type.args[0]) {
        if (type.insert) throw new SqlError(my ? "ER_DATA_TOO_LONG" : "22001", `value too long for type character varying(${type.args[0]})`);
        s = s.slice(0, type.args[0]);
      }
      return s;
    }
    case "bool": {
      if (typeof v === "boolean") return v;
      if (typeof v === "number") return v !== 0;
      const s = String(v).toLowerCase();
      if (["t", "true", "y", "yes", "on", "1"].includes(s)) return true;
      if (["f", "false", "n", "no", "off", "0"].includes(s)) return false;
      throw new SqlError("22P02", `invalid input syntax for type boolean: "${v}"`);
    }
    case "timestamptz": return my && typeof v === "string" ? parseTs(v) : parseTs(v);
    case "date": {
      const d = parseTs(v);
      return new Date(Date.UTC(d.getUTCFullYear(), d.getUTCMonth(), d.getUTCDate()));
    }
    case "time": return v instanceof Date ? v.toISOString().slice(11, 19) : String(v);
    case "interval": return v instanceof Interval ? v : parseInterval(v);
    case "json": return jsonIn(v);
    case "uuid": case "inet": case "regclass": case "regtype": return String(v);
    case "geometry": case "geography": return v instanceof Geom ? v : geomIn(v);
    case "bytea": case "blob": case "longblob": return Buffer.isBuffer(v) ? v : typeof v === "string" && v.startsWith("\\x") ? Buffer.from(v.slice(2), "hex") : Buffer.from(String(v));
    case "any": return v;
    default: return v; // enum-like user type
  }
}
export function mysqlDate(d) {
  return d.toISOString().slice(0, 19).replace("T", " ");
}
export function geomIn(v) {
  if (v instanceof Geom) return v;
  const s = String(v);
  const m = /^SRID=(\d+);(.*)$/is.exec(s);
  if (m) return new Geom(parseWkt(m[2]), Number(m[1]));
  if (/^[A-Z]/i.test(s.trim())) return new Geom(parseWkt(s));
  throw new SqlError("XX000", `parse error - invalid geometry: ${s.slice(0, 40)}`);
}
export function parseWkt(s) {
  const m = /^\s*([A-Z]+)\s*(Z|M|ZM)?\s*(.*)$/is.exec(s);
  const ty = m[1].toUpperCase();
  const names = { POINT: "Point", LINESTRING: "LineString", POLYGON: "Polygon", MULTIPOINT: "MultiPoint", MULTILINESTRING: "MultiLineString", MULTIPOLYGON: "MultiPolygon" };
  if (!names[ty]) throw new Unsupported(`WKT ${ty}`);
  const pts = (t) => t.trim().split(",").map((p) => p.trim().replace(/[()]/g, "").trim().split(/\s+/).map(Number));
  const body = m[3].trim();
  if (ty === "POINT") return { type: "Point", coordinates: pts(body.slice(1, -1))[0] };
  if (ty === "LINESTRING" || ty === "MULTIPOINT") return { type: names[ty], coordinates: pts(body.slice(1, -1)) };
  const json = body.replace(/\(/g, "[").replace(/\)/g, "]").replace(/([-\d.eE]+(?:\s+[-\d.eE]+)+)/g, (x) => `[${x.trim().split(/\s+/).join(",")}]`);
  return { type: names[ty], coordinates: JSON.parse(json) };
}
const isNum = (x) => typeof x === "number";
/** Three-way comparison of two non-null values; coerces unknown literals towards the other side. */
export function cmp(a, b, my = false) {
  if (my) { if (a instanceof Json && typeof a.v === "number") a = a.v; if (b instanceof Json && typeof b.v === "number") b = b.v; }
  if (a instanceof Date || b instanceof Date) {
    if (my && (typeof a === "number" || typeof b === "number")) { const x = a instanceof Date ? castTo(a, { name: "bigint" }, true) : a; const y = b instanceof Date ? castTo(b, { name: "bigint" }, true) : b; return x < y ? -1 : x > y ? 1 : 0; }
    const x = parseTs(a).getTime(), y = parseTs(b).getTime();
    return x < y ? -1 : x > y ? 1 : 0;
  }
  if (isNum(a) || isNum(b)) {
    const x = isNum(a) ? a : typeof a === "boolean" ? (a ? 1 : 0) : castTo(a, { name: "float" }, my);
    const y = isNum(b) ? b : typeof b === "boolean" ? (b ? 1 : 0) : castTo(b, { name: "float" }, my);
    return x < y ? -1 : x > y ? 1 : 0;
  }
  if (typeof a === "boolean" || typeof b === "boolean") {
    const x = castTo(a, { name: "bool" }), y = castTo(b, { name: "bool" });
    return x === y ? 0 : x ? 1 : -1;
  }
  if (a instanceof Interval || b instanceof Interval) {
    const x = castTo(a, { name: "interval" }).approxMs(), y = castTo(b, { name: "interval" }).approxMs();
    return x < y ? -1 : x > y ? 1 : 0;
  }
  if (a instanceof Row || b instanceof Row) {
    for (let i = 0; i < a.items.length; i++) {
      const c = cmp(a.items[i], b.items[i], my);
      if (c) return c;
    }
    return 0;
  }
  if (Array.isArray(a) || Array.isArray(b)) {
    const x = Array.isArray(a) ? a : parsePgArray(a), y = Array.isArray(b) ? b : parsePgArray(b);
    for (let i = 0; i < Math.min(x.length, y.length); i++) { const c = cmp(x[i], y[i], my); if (c) return c; }
    return x.length - y.length;
  }
  if (a instanceof Json || b instanceof Json) {
    const x = stable(jsonIn(a).v), y = stable(jsonIn(b).v);
    return x < y ? -1 : x > y ? 1 : 0;
  }
  if (a instanceof Geom || b instanceof Geom) {
    const x = geomIn(a).key(), y = geomIn(b).key();
    return x < y ? -1 : x > y ? 1 : 0;
  }
  let x = String(a), y = String(b);
  if (my) { x = x.toLowerCase(); y = y.toLowerCase(); }
  return x < y ? -1 : x > y ? 1 : 0;
}
export function stable(v) {
  if (v === null || typeof v !== "object") return JSON.stringify(v);
  if (Array.isArray(v)) return `[${v.map(stable).join(",")}]`;
  return `{${Object.keys(v).sort().map((k) => `${JSON.stringify(k)}:${stable(v[k])}`).join(",")}}`;
}
export function keyOf(v) {
  if (v === null || v === undefined) return "∅";
  if (v instanceof Date) return `t${v.getTime()}`;
  if (v instanceof Json) return `j${stable(v.v)}`;
  if (v instanceof Geom) return `g${v.key()}`;
  if (v instanceof Interval) return `i${v.approxMs()}`;
  if (Array.isArray(v)) return `a[${v.map(keyOf).join(",")}]`;
  if (v instanceof Row) return `r[${v.items.map(keyOf).join(",")}]`;
  return `${typeof v}:${v}`;
}
