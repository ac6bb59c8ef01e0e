// Shared by S01 and S02: the variable sign tables, messages as the sender makes them.
export const DB = { username: "u", password: "db-pass-of-x", host: "db-rw:1/x", ro_host: "db-ro:1/x", proxy_host: "db-rw:1/x", proxy_ro_host: "db-ro:1/x" };
export const DEVICES = ["KRM015511", "KRM015512", "VME/TIO01K502", "KRM043951", "VME/TIO015111", "KRM0$$1"];
export const TEST = new Set(["VME/TIO01K502", "VME/TIO01K500", "VME/TIO015111", "VME/TIO015152"]);
export const TEXTS = ["80", "liukas tie", "$&amp; $&amp;", "$' ja $`", "Å ä ö €", "a $$ b", "$1", "SITUATIONS PUBLICATION_TIME"];
export const inTestTime = (t) => ["2024-05-20", "2024-05-21"].some((d) => t >= Date.parse(`${d}T19:00:00Z`) && t < Date.parse(`${d}T19:00:00Z`) + 7 * 3600000);
export const TIMES = [Date.parse("2024-05-20T18:59:59Z"), Date.parse("2024-05-20T19:00:00Z"), Date.parse("2024-05-21T01:59:59Z"), Date.parse("2024-05-21T02:00:00Z"), Date.parse("2024-05-21T23:00:00Z"), Date.parse("2025-03-01T10:00:00Z"), Date.parse("2025-03-02T11:22:33Z")];
export function tables(pg) {
  pg.db.table("device", "id text primary key, modified timestamptz default now(), deleted_date timestamptz, type text not null, road_address text not null, direction text, carriageway text, etrs_tm35fin_x numeric, etrs_tm35fin_y numeric", { touch: "modified" });
  pg.db.table("device_data_datex2", "id serial primary key, device_id text not null, datex2 text not null, effect_date timestamptz, type text not null, version text not null, modified timestamptz default now(), unique (device_id, type, version), fk (device_id) -> device(id)", { touch: "modified" });
  pg.db.table("device_data", "id bigint primary key, device_id text not null, display_value text, additional_information text, effect_date timestamptz not null, cause text, reliability text not null, fk (device_id) -> device(id)");
  pg.db.table("device_data_row", "id bigint primary key, device_data_id bigint not null, screen int not null, row_number int not null, text text, fk (device_data_id) -> device_data(id)");
  pg.db.table("data_updated", "id bigint primary key, data_type text not null, subtype text not null default '-', updated timestamptz not null, unique (data_type, subtype)");
}
/** The situation element of a device; `pre` is its namespace prefix. */
export function situation(s, pre = "") {
  const p = pre ? `${pre}:` : "";
  return `<${p}situation id="${s.dev}" version="${s.v ?? 1}">
        <overallSeverity>low</overallSeverity>
        <${p}situationRecord xsi:type="SpeedManagement" id="${s.dev}" version="1">
            <validity><validityStatus>active</validityStatus>
                <validityTimeSpecification><overallStartTime>${new Date(s.t).toISOString()}</overallStartTime></validityTimeSpecification>
            </validity>
            <comment>n${s.n} ${s.text}</comment>
        </${p}situationRecord>
    </${p}situation>`;
}
export const message = (sits, o = {}) => `${o.noXml ? "" : '<?xml version="1.0" encoding="UTF-8"?>\n'}<d2LogicalModel modelBaseVersion="2">
  <exchange><supplierIdentification><country>fi</country></supplierIdentification></exchange>
${(o.payloads === undefined ? [sits] : Array(o.payloads).fill(sits)).map((ss) => `  <payloadPublication xsi:type="SituationPublication" lang="fi">
    <publicationTime>2025-03-01T00:00:00Z</publicationTime>
    ${ss.map((s) => situation(s)).join("\n    ")}
  </payloadPublication>`).join("\n")}
</d2LogicalModel>`;
