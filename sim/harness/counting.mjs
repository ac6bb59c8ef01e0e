// Shared by C01 and C02: the counting site tables and the source system's clock.
export const DB = { username: "u", password: "db-pass-of-x", host: "db-rw:1/x", ro_host: "db-ro:1/x", proxy_host: "db-rw:1/x", proxy_ro_host: "db-ro:1/x" };
export const MODES = ["bike", "pedestrian", "car", "undefined"];
export const DIRS = ["in", "out", "undefined"];
export const GRANS = ["PT15M", "PT1H", "P1D"];
export const MIN = 60000, HOUR = 60 * MIN, DAY = 24 * HOUR;
export function tables(pg) {
  pg.db.table("cs2_site", "id int primary key, name text not null, domain text not null, description text, custom_id text, latitude double precision not null, longitude double precision not null, granularity text, directional boolean not null, travel_modes text[] not null, removed_timestamp timestamptz, last_data_timestamp timestamptz, created timestamptz default now(), modified timestamptz default now()", { touch: "modified" });
  pg.db.table("cs2_data", "site_id int not null, travel_mode text not null, direction text not null, data_timestamp timestamptz not null, granularity text not null, counts int not null, created timestamptz default now(), modified timestamptz default now(), fk (site_id) -> cs2_site(id)", { touch: "modified" });
  pg.db.table("data_updated", "id bigint primary key, data_type text not null, subtype text not null default '-', updated timestamptz not null, unique (data_type, subtype)");
}
/** Local Helsinki wall clock (winter time) → instant. */
export const helsinki = (date, time) => { const m = /^(\d{4})-(\d\d)-(\d\d)$/.exec(date), t = /^(\d\d):(\d\d)$/.exec(time); return m && t ? Date.UTC(+m[1], +m[2] - 1, +m[3], +t[1], +t[2]) - 2 * HOUR : NaN; };
export const updatedAt = (pg, type) => { const r = pg.db.rows("data_updated").find((x) => x.data_type === type && x.subtype === "-"); return r ? +r.updated : undefined; };
