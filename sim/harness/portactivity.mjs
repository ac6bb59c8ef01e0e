// Shared by the port activity checks: schema, reference data and deployment of the timestamp queue.
import { PgServer } from "../pgserver.mjs";
import { Aws, Http } from "../services.mjs";
import { deploy } from "../lambda.mjs";

export const SECRET = { username: "u", password: "db-pass-of-x", proxy_host: "db-rw:1/x", proxy_ro_host: "db-ro:1/x", host: "db-rw:1/x", ro_host: "db-ro:1/x" };
export const HOUR = 3600000;
export const DAY = 24 * HOUR;

export function portSchema(db) {
  db.table("port_call_timestamp", "id serial primary key, event_type text not null, event_time timestamptz not null, event_time_confidence_lower text, event_time_confidence_lower_diff int, event_time_confidence_upper text, event_time_confidence_upper_diff int, event_source text not null, record_time timestamptz not null, location_locode varchar(5) not null, ship_mmsi int, ship_imo int not null, portcall_id bigint, location_portarea varchar(6), location_from_locode varchar(5), source_id text, unique(ship_imo, event_source, location_locode, event_type, event_time, record_time, portcall_id)");
  db.table("pilotage", "id int primary key, vessel_imo int, vessel_mmsi int, vessel_eta timestamptz, pilot_boarding_time timestamptz, pilotage_end_time timestamptz, schedule_updated timestamptz, schedule_source text, state text, vessel_name text, start_code text, start_berth text, end_code text, end_berth text");
  db.table("port_call", "port_call_id bigint primary key, mmsi int, imo_lloyds int, port_to_visit varchar(5), port_call_timestamp timestamptz, vessel_name text");
  db.table("port_area_details", "port_area_details_id serial primary key, port_call_id bigint, eta timestamptz, etd timestamptz, ata timestamptz, atd timestamptz");
  db.table("vessel", "mmsi int primary key, imo int, timestamp bigint, name text");
  db.table("vessel_location", "mmsi int primary key, sog double precision, nav_stat int, modified timestamptz");
}

export const SHIPS = [
  { imo: 9000001, mmsi: 230000001 },
  { imo: 9000002, mmsi: 230000002 },
  { imo: 9000003, mmsi: 230000003 },
];
export const PORTS = ["FIHKO", "FIRAU", "FIKTK", "FIHEL"];

/** One port call per ship at PORTS[ship]. */
export function portSeed(db, now) {
  db.seed("vessel", SHIPS.map((s, i) => ({ mmsi: s.mmsi, imo: s.imo, timestamp: now - i })));
  const d = (h) => new Date(now + h * HOUR);
  db.seed("port_call", SHIPS.map((s, i) => ({ port_call_id: 100 + i, mmsi: s.mmsi, imo_lloyds: s.imo, port_to_visit: PORTS[i], port_call_timestamp: d(-1) })));
  db.seed("port_area_details", SHIPS.map((s, i) => ({ port_call_id: 100 + i, eta: d(200 + i), etd: d(220 + i), ata: i === 2 ? d(-3) : null, atd: null })));
}

export function deployQueue(world, ctx, { pg, aws }) {
  aws.secrets.set("sec", JSON.stringify(SECRET));
  return deploy(world, ctx.wiring, { aws, fns: {
    process: { re: /ProcessQueue$/, code: ctx.code.process, svc: { pg, aws } },
    dlq: { re: /ProcessTimestampsDLQ$/, code: ctx.code.dlq, svc: { aws } },
  } });
}
export const QUEUE_CODE = { process: "marine/portactivity/src/lambda/process-queue/process-queue.ts", dlq: "marine/portactivity/src/lambda/process-dlq/lambda-process-dlq.ts" };
export { PgServer, Aws, Http };
