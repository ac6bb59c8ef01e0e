// Winter navigation: tables, a versioned source (IBNet) and the expected rows and answers.
import { Aws, Http } from "../services.mjs";
import { PgServer } from "../pgserver.mjs";
import { check } from "../check.mjs";

export const HOUR = 3600000;
export const DAY = 24 * HOUR;
export const SECRET = { username: "u", password: "db-pass-of-x", host: "db-rw:1/x", ro_host: "db-ro:1/x", proxy_host: "db-rw:1/x", proxy_ro_host: "db-ro:1/x", "ibnet.url": "https://ibnet.example/rv/", "ibnet.authHeaderValue": "aWJuZXQ6cHc" };
const TS = "timestamptz";
// path → [table, columns]
export const TYPES = {
  location: ["wn_location", { name: "text", type: "text", locode_list: "text", nationality: "text", latitude: "double precision", longitude: "double precision", winterport: "boolean" }],
  restriction: ["wn_restriction", { location_id: "text", text_compilation: "text", start_time: TS, end_time: TS }],
  vessel: ["wn_vessel", { name: "text", callsign: "text", shortcode: "text", imo: "int", mmsi: "int", type: "text" }],
  activity: ["wn_activity", { icebreaker_id: "text", vessel_id: "text", type: "text", reason: "text", public_comment: "text", start_time: TS, end_time: TS }],
  source: ["wn_source", { name: "text", shortname: "text", nationality: "text", type: "text", vessel_id: "text" }],
  "port-suspension": ["wn_port_suspension", { start_time: TS, end_time: TS, prenotification: "boolean", ports_closed: "boolean", due_to: "text", specifications: "text" }],
  "port-suspension-location": ["wn_port_suspension_location", { suspension_id: "text", location_id: "text" }],
  queue: ["wn_queue", { icebreaker_id: "text", vessel_id: "text", start_time: TS, end_time: TS, order_num: "int" }],
  dirway: ["wn_dirway", { name: "text", description: "text" }],
  dirwaypoint: ["wn_dirwaypoint", { dirway_id: "text", order_num: "int", name: "text", latitude: "double precision", longitude: "double precision" }],
};
export function schema(db) {
  for (const [t, cols] of Object.values(TYPES)) db.table(t, `id text primary key, ${Object.entries(cols).map(([k, v]) => `${k} ${v}`).join(", ")}, deleted boolean not null default false`);
  db.table("wn_data_version", "table_name text primary key, version bigint not null, modified timestamptz not null");
  db.table("updated_timestamp", "updated_name text primary key, updated_time timestamptz not null, updated_by text not null");
}

const opt = (x, v) => (x ? v : undefined);
/** Content of object `n` of a type from a small integer seed. */
export function content(type, n, s, base) {
  const t = (h) => new Date(base + h * HOUR).toISOString();
  const end = (x) => opt(s % 3, t(x));
  switch (type) {
    case "location": return { name: `Satama ä ${n}/${s}`, type: s % 2 ? "PORT" : "FAIRWAY", locode_list: `FI${n}A,FI${n}B`, nationality: "FI", latitude: 60 + n, longitude: 20 + (s % 7), winterport: s % 2 === 0 };
    case "restriction": return { location_id: `location-${s % 4}`, text_compilation: `IA ${n} 2000 "${s}"`, start_time: t(-s), end_time: end(s) };
    case "vessel": return { name: `Alus ${n}-${s}`, callsign: opt(s % 2, `C${s}`), shortcode: opt(s % 3, `S${n}`), imo: 9000000 + n, mmsi: 230000000 + n, type: opt(s % 5, "cargo") };
    case "activity": return { icebreaker_id: `source-${s % 3}`, vessel_id: opt(s % 4, `vessel-${s % 5}`), type: "LEAD", reason: opt(s % 2, `r${s}`), public_comment: opt(s % 3, "kommentti €"), start_time: t(-(s * 17) % 300), end_time: end(-((s * 17) % 300) + (s % 9)) };
    case "source": return { name: `Murtaja ${n}/${s}`, shortname: opt(s % 2, "M"), nationality: "SE", type: "IB", vessel_id: opt(n % 3 < 2, `vessel-${n % 5}`) };
    case "port-suspension": return { start_time: t(-s), end_time: end(s), prenotification: s % 2 === 1, ports_closed: s % 3 === 0, due_to: `jää ${s}`, specifications: opt(s % 2, `spec ${n}`) };
    case "port-suspension-location": return { suspension_id: `port-suspension-${s % 4}`, location_id: `location-${(s + n) % 4}` };
    case "queue": return { icebreaker_id: `source-${s % 3}`, vessel_id: `vessel-${(s + n) % 5}`, start_time: t(-(s * 13) % 300), end_time: end(-((s * 13) % 300) + (s % 7)), order_num: s % 5 };
    case "dirway": return { name: `Väylä ${n}`, description: `d ${s}` };
    case "dirwaypoint": return { dirway_id: `dirway-${s % 3}`, order_num: (n * 7 + s) % 11, name: `p${n}`, latitude: 60 + s / 8, longitude: 21 + n / 8 };
    default: throw new Error(type);
  }
}

export class Source {
  constructor(base) { this.rv = 1; this.objs = new Map(); this.base = base; this.served = new Map(); }
  change(c) {
    const id = `${c.type}-${c.n}`;
    this.rv++;
    const cur = this.objs.get(id);
    if (c.del) { if (cur) this.objs.set(id, { ...cur, rv: this.rv, deleted: true }); return; }
    this.objs.set(id, { type: c.type, id, rv: this.rv, deleted: false, data: content(c.type, c.n, c.s, this.base) });
  }
  list(type, from, to) {
    return [...this.objs.values()].filter((o) => o.type === type && o.rv > from && o.rv <= to).map((o) => (o.deleted ? { id: o.id, rv: o.rv, deleted: true } : { id: o.id, rv: o.rv, change_time: new Date(this.base).toISOString(), ...o.data }));
  }
  route(http, world) {
    http.route("ibnet", (r) => r.url.startsWith("https://ibnet.example/rv/"), (r) => {
      check(r.headers.authorization === "Basic aWJuZXQ6cHc", "request without credentials", "auth");
      if (r.path === "/rv/") return { status: 200, body: { toRv: this.rv } };
      const type = r.path.slice(4);
      check(TYPES[type], `unknown path ${r.path}`, "path");
      this.served.set(type, world.now);
      return { status: 200, body: this.list(type, Number(r.query.get("from")), Number(r.query.get("to"))) };
    });
  }
  /** Difference between the stored rows of a type and the source, restricted to objects changed at or before version v. */
  diff(db, type, v = Infinity) {
    const [table, cols] = TYPES[type];
    const rows = new Map(db.rows(table).map((r) => [r.id, r]));
    for (const o of this.objs.values()) {
      if (o.type !== type || o.rv > v) continue;
      const r = rows.get(o.id);
      if (o.deleted) { if (r && r.deleted !== true) return `${o.id} was deleted at ${o.rv} but is stored as active`; continue; }
      if (!r) return `${o.id} of version ${o.rv} is not stored`;
      if (r.deleted) return `${o.id} of version ${o.rv} is stored as deleted`;
      for (const [c, ty] of Object.entries(cols)) {
        const want = o.data[c] ?? null;
        const same = ty === TS && want !== null ? r[c] !== null && +r[c] === +new Date(want) : r[c] === want;
        if (!same) return `${o.id}.${c} is ${r[c]}, the source has ${want} (version ${o.rv})`;
      }
    }
    for (const r of rows.values()) if (!this.objs.has(r.id)) return `${r.id} is stored but was never in the source`;
    return undefined;
  }
}
export { PgServer, Aws, Http };
