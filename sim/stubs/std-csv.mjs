// Stand-in for @std/csv's stringify.
const cell = (v, sep) => { const s = v === null || v === undefined ? "" : typeof v === "object" ? (v instanceof Date ? String(v) : JSON.stringify(v)) : String(v); return s.includes(sep) || /["\r\n]/.test(s) || /^\s|\s$/.test(s) ? `"${s.replaceAll('"', '""')}"` : s; };
export function stringify(data, { columns, headers = true, separator = "," } = {}) {
  const cols = (columns ?? []).map((c) => (typeof c === "object" && !Array.isArray(c) ? { header: c.header ?? String(c.prop), path: [c.prop].flat() } : { header: String([c].flat().at(-1)), path: [c].flat() }));
  const lines = [];
  if (headers && cols.length) lines.push(cols.map((c) => cell(c.header, separator)).join(separator));
  for (const row of data) lines.push(cols.length ? cols.map((c) => cell(c.path.reduce((o, k) => o?.[k], row), separator)).join(separator) : row.map((v) => cell(v, separator)).join(separator));
  return lines.map((l) => `${l}\r\n`).join("");
}
