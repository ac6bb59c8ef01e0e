// Client-side formatting of MySQL statements, as the sqlstring package does it.
const CHARS = { "\0": "\\0", "\b": "\\b", "\t": "\\t", "\n": "\\n", "\r": "\\r", "\x1a": "\\Z", '"': '\\"', "'": "\\'", "\\": "\\\\" };
const str = (s) => `'${s.replace(/[\0\b\t\n\r\x1a"'\\]/g, (c) => CHARS[c])}'`;
const p2 = (n, w = 2) => String(n).padStart(w, "0");
const isDate = (v) => Object.prototype.toString.call(v) === "[object Date]";
export function dateText(d) {
  if (Number.isNaN(d.getTime())) return "NULL";
  return `${p2(d.getFullYear(), 4)}-${p2(d.getMonth() + 1)}-${p2(d.getDate())} ${p2(d.getHours())}:${p2(d.getMinutes())}:${p2(d.getSeconds())}.${p2(d.getMilliseconds(), 3)}`;
}
export const escapeId = (v) => "`" + String(v).replaceAll("`", "``") + "`";
export function escape(v, stringify) {
  if (v === undefined || v === null) return "NULL";
  if (typeof v === "boolean") return v ? "true" : "false";
  if (typeof v === "number" || typeof v === "bigint") return String(v);
  if (typeof v === "object") {
    if (isDate(v)) return v.getTime() !== v.getTime() ? "NULL" : `'${dateText(v)}'`;
    if (Array.isArray(v)) return v.map((x) => (Array.isArray(x) ? `(${escape(x, true)})` : escape(x, true))).join(", ");
    if (Buffer.isBuffer(v)) return `X'${v.toString("hex")}'`;
    if (stringify) return str(String(v));
    return Object.entries(v).filter(([, x]) => typeof x !== "function").map(([k, x]) => `${escapeId(k)} = ${escape(x, true)}`).join(", ");
  }
  return str(String(v));
}
export function format(sql, values) {
  if (values === undefined || values === null) return sql;
  const vals = Array.isArray(values) ? values : [values];
  let i = 0;
  return sql.replace(/\?+/g, (q) => {
    if (q.length > 2 || i >= vals.length) return q;
    return q.length === 2 ? escapeId(vals[i++]) : escape(vals[i++], false);
  });
}
/** named-placeholders: `:name` and `?` outside quotes. */
export function named(sql, params) {
  if (!params || Array.isArray(params) || typeof params !== "object") return [sql, params];
  const out = [];
  let text = "";
  let q;
  for (let i = 0; i < sql.length; i++) {
    const c = sql[i];
    if (q) { text += c; if (c === "\\") text += sql[++i] ?? ""; else if (c === q) q = undefined; continue; }
    if (c === "'" || c === '"') { q = c; text += c; continue; }
    const m = c === ":" && /^:([a-zA-Z][a-zA-Z0-9_]*|\d+)/.exec(sql.slice(i));
    if (m) { out.push(params[m[1]]); text += "?"; i += m[0].length - 1; continue; }
    text += c;
  }
  return [text, out];
}
