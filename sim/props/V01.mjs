// V01: port call visits follow their source over the whole window and the update time is honest.
import { bundle } from "../runtime.mjs";
import { WIRINGS } from "../apps.mjs";
import { deploy } from "../lambda.mjs";
import { check } from "../check.mjs";
import { PgServer } from "../pgserver.mjs";
import { Aws, Http } from "../services.mjs";

export const HOUR = 3600000;
export const DAY = 24 * HOUR;
const b64 = (s) => Buffer.from(s).toString("base64");
export const SECRET = { username: "u", password: "db-pass-of-x", host: "db-rw:1/x", ro_host: "db-ro:1/x", proxy_host: "db-rw:1/x", proxy_ro_host: "db-ro:1/x", "port-call.url": "https://nemo.example/visits", "port-call.privateKey": b64("PRIVATE-KEY-7"), "port-call.certificate": b64("CERT") };
export const STATUS = ["Expected to Arrive", "Arrived", "Departed", "Cancelled"];
export function visitSchema(db) {
  db.table("pc2_visit", "visit_id text primary key, vessel_id text not null, vessel_name text not null, port_locode text not null, eta timestamptz not null, etd timestamptz, ata timestamptz, atd timestamptz, status text not null, update_time timestamptz not null");
  db.table("updated_timestamp", "updated_name text primary key, updated_time timestamptz not null, updated_by text not null");
}
const COLS = ["port_locode", "eta", "etd", "ata", "atd", "status"];
const day0 = (t) => Math.floor(t / DAY) * DAY;
const iso = (t) => (t === null ? null : new Date(t).toISOString());
const same = (r, v) => COLS.every((c) => (r[c] instanceof Date ? +r[c] : r[c] ?? null) === v[c]) && r.vessel_id === v.vessel_id && r.vessel_name === v.vessel_name;

export default {
  id: "V01",
  quickSec: 16,
  thoroughSec: 300,
  real: ["port-call update-visits handler, visit service, Nemo client and visit DAO", "pg-promise, pg-pool, lib database, secrets, last-updated", "synthesised timeout"],
  stubs: ["Nemo endpoint behind an undici stand-in", "PostgreSQL", "Lambda and schedule", "Secrets Manager"],
  assumptions: ["the source lists a visit by its estimated arrival", "the identity of a visit's vessel does not change", "runs do not overlap (one every ten minutes, 60 s limit)"],
  mustReach: ["v01.updated", "v01.inserted", "v01.failed", "v01.crash", "v01.mid-change", "v01.edge", "v01.single"],
  async setup() {
    return { wiring: await WIRINGS.portCall(), code: await bundle({ update: "marine/port-call/src/lambda/update-visits/update-visits.ts" }) };
  },
  scenarios: [
    {
      name: "mirror",
      gen(rng, tier) {
        const rounds = rng.int(1, tier === "thorough" ? 7 : 3);
        const ops = [];
        for (let r = 0; r < rounds; r++) {
          const k = rng.pick([0, 1, 4, 12]);
          const day = rng.int(-2, 101);
          ops.push({ gap: rng.pick([600, 600, 7 * 3600, 30 * 3600]), changes: Array.from({ length: k }, () => ({ id: rng.int(1, 8), day: rng.bool(0.5) ? day : rng.pick([-2, -1, 0, 1, 98, 99, 100, 101, rng.int(-2, 101)]), tod: rng.pick([0, DAY - 1, rng.int(0, DAY - 1)]), etd: rng.int(0, 3), ata: rng.int(0, 2), port: rng.int(0, 1), st: rng.int(0, 3), only: rng.bool(0.5) ? rng.pick([...COLS.slice(1), "port_locode"]) : undefined, mid: rng.bool(0.15) ? rng.int(1, 8000) : 0 })) });
        }
        return { ops, cfg: {}, faults: rng.bool(0.25) ? {} : undefined };
      },
      faults: { "db.connect.before": 0.02, "db.before": 0.01, "db.lost": 0.01, "db.error": 0.01, "secrets.before": 0.03, "http.before": 0.003, "http.lost": 0.002, "http.5xx": 0.003, "http.truncated": 0.003, crash: 0.001, slow: 0.001, recycle: 0.2 },
      maxEvents: 60000,
      async run(world, plan, ctx) {
        const pg = new PgServer(world);
        const aws = new Aws(world);
        const http = new Http(world);
        pg.slowMs = http.slowMs = 30000;
        aws.secrets.set("sec", JSON.stringify(SECRET));
        visitSchema(pg.db);
        const src = new Map();
        const versions = new Map(); // id → versions in order
        let served = [];
        http.route("nemo", (r) => r.url.startsWith("https://nemo.example/visits/"), (r) => {
          check(r.tls?.cert === "CERT" && r.tls?.key === "PRIVATE-KEY-7", "request without the client certificate", "certificate");
          const m = /\/visits\/(\d{4}-\d\d-\d\dT\d\d:\d\d:\d\dZ)\/(\d{4}-\d\d-\d\dT\d\d:\d\d:\d\dZ)$/.exec(r.url);
          check(m, `malformed request ${r.url}`, "url");
          const from = +new Date(m[1]), to = +new Date(m[2]);
          served.push([from, to]);
          return { status: 200, body: [...src.values()].filter((v) => v.eta >= from && v.eta < to).map((v) => ({ visitId: v.id, portCall: { vesselInformation: { identification: v.vessel_id, name: v.vessel_name }, voyageInformation: { portIdentification: v.port_locode, estimatedArrivalDateTime: iso(v.eta), estimatedDepartureDateTime: iso(v.etd) }, arrivalNotification: { actualArrivalDateTime: iso(v.ata) }, departureNotification: { actualDepartureDateTime: iso(v.atd) }, portCallStatus: { status: v.status } }, latestUpdateTime: iso(v.t) })) };
        });
        const d = deploy(world, ctx.wiring, { aws, fns: { update: { re: /UpdateVisits/, code: ctx.code.update, svc: { pg, aws, http } } } });
        let runStart = world.now;
        const apply = (c) => {
          const eta = day0(world.now) + c.day * DAY + c.tod;
          if (c.tod === DAY - 1) world.probe("v01.edge");
          const v = { id: `V${c.id}`, t: world.now, vessel_id: `900000${c.id}`, vessel_name: `Alus ä ${c.id}`, port_locode: ["FIHKO", "FIRAU"][c.port], eta, etd: c.etd ? eta + c.etd * HOUR : null, ata: c.ata ? eta + c.ata * 60000 : null, atd: c.etd === 3 ? eta + 4 * HOUR : null, status: STATUS[c.st] };
          const cur = src.get(v.id);
          if (cur && c.only) { if (c.only === "atd") v.atd = cur.atd === null ? eta + 4 * HOUR : null; const x = v[c.only]; Object.assign(v, cur, { t: world.now, [c.only]: x }); world.probe("v01.single"); }
          src.set(v.id, v);
          versions.set(v.id, [...(versions.get(v.id) ?? []), v]);
        };
        /** Source visits that must be mirrored by a run that started at t0: inside its window, and unchanged since then. */
        const due = (t0) => [...src.values()].filter((v) => v.t <= t0 && v.eta >= day0(t0) - DAY && v.eta < day0(t0) + 100 * DAY);
        const diff = (t0) => {
          const rows = new Map(pg.db.rows("pc2_visit").map((r) => [r.visit_id, r]));
          for (const v of due(t0)) { const r = rows.get(v.id); if (!r) return `visit ${v.id} arriving ${iso(v.eta)} is not stored`; if (!same(r, v)) return `visit ${v.id} is stored as ${JSON.stringify(r)}, the source has ${JSON.stringify({ ...v, eta: iso(v.eta) })}`; }
        };
        pg.db.commitHooks.push((tx, changes) => {
          try {
            for (const c of changes) {
              check(c.kind !== "delete" || c.table.name !== "pc2_visit", "a visit was removed", "removed");
              if (c.table.name === "updated_timestamp" && c.op === "ins" && c.row.vals.updated_name === "PC2_VISITS") { const bad = diff(runStart); check(!bad, `the visits are announced as updated but ${bad}`, "false-update"); }
              if (c.table.name === "pc2_visit" && c.op === "ins") { const r = c.row.vals; const vs = versions.get(r.visit_id); check(vs?.some((v) => same(r, v)), `a stored visit no version of the source explains: ${JSON.stringify(r)}`, "content"); check(vs.some((v) => same(r, v) && +new Date(r.update_time) === Math.floor(v.t)), `a visit is stored with another update time than the source gave it: ${JSON.stringify(r)}`, "update-time"); if (vs.length > 1) world.probe("v01.updated"); else world.probe("v01.inserted"); }
            }
          } catch (e) { world.fail(e); }
        });
        const once = async (o) => {
          for (const c of o.changes) if (c.mid) world.after(c.mid, "source", () => { world.probe("v01.mid-change"); apply(c); }); else apply(c);
          runStart = world.now;
          served = [];
          const before = world.firedFaults.length;
          const t0 = world.now;
          const r = await d.fns.update.invoke({});
          const hurt = world.firedFaults.slice(before).some((f) => f.kind !== "recycle");
          if (r.status === "crash") world.probe("v01.crash");
          if (hurt) world.probe("v01.failed");
          else {
            check(r.status === "ok", `run failed although nothing failed: ${r.error?.message}`, "failed");
            served.sort((a, b) => a[0] - b[0]);
            let at = day0(t0) - DAY;
            for (const [f, t] of served) { if (f <= at) at = Math.max(at, t); }
            check(at >= day0(t0) + 100 * DAY, `only visits up to ${iso(at)} were asked for`, "window");
            const bad = diff(t0);
            check(!bad, `after a run without failures ${bad}`, "not-mirrored");
            const u = pg.db.rows("updated_timestamp").find((x) => x.updated_name === "PC2_VISITS");
            check(u && +u.updated_time >= t0 && +u.updated_time <= world.now, "a complete run left no update time", "no-update-time");
          }
          world.record("run", { s: r.status });
        };
        let fin = false;
        (async () => {
          for (const o of plan.ops) { await once(o); await world.sleep(o.gap * 1000); }
          world.faultsEnabled = false;
          await once({ changes: [] });
          fin = true;
        })().catch((e) => world.fail(e));
        await world.run({ until: () => fin, deadline: world.now + 30 * DAY });
        check(fin, "runs did not finish", "stuck");
      },
    },
  ],
};
