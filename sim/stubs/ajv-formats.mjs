// The formats of the ajv-formats package that the repository's schemas use.
const DAYS = [0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
const date = (s) => {
  const m = /^(\d\d\d\d)-(\d\d)-(\d\d)$/.exec(s);
  if (!m) return false;
  const [y, mo, d] = [+m[1], +m[2], +m[3]];
  const leap = y % 4 === 0 && (y % 100 !== 0 || y % 400 === 0);
  return mo >= 1 && mo <= 12 && d >= 1 && d <= (mo === 2 && leap ? 29 : DAYS[mo]);
};
const time = (s) => {
  const m = /^(\d\d):(\d\d):(\d\d(?:\.\d+)?)(z|([+-])(\d\d)(?::?(\d\d))?)?$/i.exec(s);
  if (!m || !m[4]) return false;
  return +m[1] <= 23 && +m[2] <= 59 && +m[3] < 60 && +(m[6] ?? 0) <= 23 && +(m[7] ?? 0) <= 59;
};
const FORMATS = {
  date,
  time,
  "date-time": (s) => { const p = s.split(/t|\s/i); return p.length === 2 && date(p[0]) && time(p[1]); },
  uuid: /^(?:urn:uuid:)?[0-9a-f]{8}-(?:[0-9a-f]{4}-){3}[0-9a-f]{12}$/i,
  int32: { type: "number", validate: (n) => Number.isInteger(n) && n <= 2147483647 && n >= -2147483648 },
  int64: { type: "number", validate: (n) => Number.isInteger(n) },
  float: { type: "number", validate: () => true },
  double: { type: "number", validate: () => true },
  uri: (s) => /^[a-z][a-z\d+\-.]*:\S+$/i.test(s),
  byte: (s) => s.length % 4 === 0 && /^[A-Za-z0-9+/]*={0,2}$/.test(s),
  duration: /^P(?!$)((\d+Y)?(\d+M)?(\d+D)?(T(?=\d)(\d+H)?(\d+M)?(\d+S)?)?|(\d+W)?)$/,
  email: /^[^@\s]+@[^@\s]+$/,
};
export default function addFormats(ajv) {
  for (const [k, v] of Object.entries(FORMATS)) ajv.addFormat(k, v);
  return ajv;
}
addFormats.default = addFormats;
