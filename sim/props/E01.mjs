// E01: every sea state site has exactly one latest report, the last one saved, and the answer's counts are true.
import { bundle } from "../runtime.mjs";
import { WIRINGS } from "../apps.mjs";
import { deploy } from "../lambda.mjs";
import { check } from "../check.mjs";
import { PgServer } from "../pgserver.mjs";
import { Aws } from "../services.mjs";

const SECRET = { username: "u", password: "db-pass-of-x", host: "db-rw:1/x", ro_host: "db-ro:1/x", proxy_host: "db-rw:1/x", proxy_ro_host: "db-ro:1/x" };
const STATES = ["CALM", "LIGHT", "MODERATE", "BREEZE", "GALE", "STORM"];
const HOUR = 3600000;
const F = { siteName: "site_name", siteType: "site_type", lastUpdate: "last_update", seaState: "sea_state", trend: "trend", dir: "wind_wave_dir", conf: "confidence", heel: "heel_angle", light: "light_status", temp: "temperature", lon: "longitude", lat: "latitude" };

export default {
  id: "E01",
  quickSec: 15,
  thoroughSec: 240,
  real: ["sea-state-estimate update-sse-data handler, service and database code", "pg-promise, pg-pool, lib database, secrets, last-updated", "synthesised concurrency and timeout of the function"],
  stubs: ["PostgreSQL", "Lambda and API gateway", "Secrets Manager"],
  assumptions: ["reports have the shape the API gateway validates, except that the optional extra fields may be missing", "coordinates are not exactly zero"],
  mustReach: ["e01.saved", "e01.rejected", "e01.failed-report", "e01.error", "e01.crash", "e01.replaced", "e01.throttled", "e01.same-twice"],
  async setup() {
    return { wiring: await WIRINGS.sse(), code: await bundle({ update: "marine/sea-state-estimate/src/lambda/update-sse-data/update-sse-data.ts" }) };
  },
  scenarios: [
    {
      name: "reports",
      gen(rng, tier) {
        const k = rng.int(1, tier === "thorough" ? 14 : 6);
        const sites = rng.int(1, 4);
        const ops = [];
        let n = 0;
        for (let i = 0; i < k; i++) ops.push({ at: rng.pick([0, 0, 20, 200, 2000]) + i * rng.pick([5, 300]), reports: Array.from({ length: rng.pick([0, 1, 1, 2, 5]) }, () => ({ n: n++, site: rng.int(1, sites), s: rng.int(0, 5), extra: rng.pick([3, 3, 3, 3, 2, 1, 0]), opt: rng.int(0, 7), fresh: rng.int(0, 3) })), empty: rng.bool(0.04) });
        return { ops, cfg: {}, faults: rng.bool(0.25) ? {} : undefined };
      },
      faults: { "db.connect.before": 0.03, "db.before": 0.02, "db.lost": 0.02, "db.error": 0.03, "secrets.before": 0.05, crash: 0.008, slow: 0.01, recycle: 0.2 },
      maxEvents: 40000,
      async run(world, plan, ctx) {
        const pg = new PgServer(world);
        const aws = new Aws(world);
        pg.slowMs = 80000;
        aws.secrets.set("sec", JSON.stringify(SECRET));
        pg.db.table("sse_report", "sse_report_id bigint primary key, created timestamptz not null, latest bool not null, site_number int not null, site_name text not null, last_update timestamptz not null, sea_state text not null, trend text not null, wind_wave_dir int not null, confidence text not null, heel_angle numeric, light_status text, temperature numeric, longitude numeric not null, latitude numeric not null, site_type text");
        pg.db.table("updated_timestamp", "updated_name text primary key, updated_time timestamptz not null, updated_by text not null");
        const d = deploy(world, ctx.wiring, { aws, fns: { update: { re: /update-?sse-?data/i, code: ctx.code.update, svc: { pg, aws } } } });
        const base = world.now;
        const made = new Map();
        const stored = new Map(); // report → times stored
        const mk = (r) => {
          const v = { siteNumber: r.site, siteName: `Poiju ä ${r.n}`, siteType: r.opt & 1 ? "FIXED" : "FLOATING", lastUpdate: base - r.fresh * HOUR + r.n, seaState: STATES[r.s], trend: "ASCENDING", dir: r.n % 360, conf: "GOOD", heel: r.opt & 2 ? 1.5 : null, light: r.opt & 4 ? "ON" : null, temp: r.opt & 2 ? -2.25 : null, lon: 20 + r.n / 100, lat: 60 + r.n / 100 };
          const extra = { ...(v.heel !== null ? { Heel_Angle: v.heel, Temperature: v.temp } : {}), ...(v.light ? { Light_Status: v.light } : {}), ...(r.extra & 1 ? { Coord_Latitude: v.lat } : {}), ...(r.extra & 2 ? { Coord_Longitude: v.lon } : {}) };
          made.set(v.siteName, { v, ok: r.extra === 3, n: r.n });
          return { Site: { SiteName: v.siteName, SiteNumber: v.siteNumber, SiteType: v.siteType }, SSE_Fields: { Last_Update: new Date(v.lastUpdate).toISOString(), SeaState: v.seaState, Trend: v.trend, WindWaveDir: v.dir, Confidence: v.conf }, ...(r.extra === 0 ? {} : { Extra_Fields: extra }) };
        };
        pg.db.commitHooks.push((tx, changes) => {
          try {
            const rows = pg.db.rows("sse_report");
            const added = changes.filter((c) => c.table.name === "sse_report" && c.op === "ins" && !changes.some((x) => x.op === "del" && x.row.vals.sse_report_id === c.row.vals.sse_report_id)).map((c) => c.row.vals);
            for (const r of added) {
              const m = made.get(r.site_name);
              check(m?.ok, `a report nobody sent, or one that is not valid, was stored: ${r.site_name}`, "foreign");
              for (const [k, c] of Object.entries(F)) check((r[c] instanceof Date ? +r[c] : r[c] ?? null) === m.v[k], `${c} of ${r.site_name} is stored as ${r[c]}, sent ${m.v[k]}`, "content");
              check(+r.site_number === m.v.siteNumber, "stored under another site", "content");
              stored.set(r.site_name, (stored.get(r.site_name) ?? 0) + 1);
              check(r.latest === true, `a new report is not the latest of its site`, "not-latest");
              check(changes.some((c) => c.table.name === "updated_timestamp" && c.op === "ins" && c.row.vals.updated_name === "SSE_DATA" && +c.row.vals.updated_time <= world.now && +c.row.vals.updated_time >= world.now - 90000), "a report was stored without its update time", "update-time");
            }
            for (const site of new Set(rows.map((r) => r.site_number))) {
              const l = rows.filter((r) => r.site_number === site && r.latest);
              check(l.length === 1, `site ${site} has ${l.length} latest reports`, "latest-count");
              const a = added.filter((r) => r.site_number === site);
              if (a.length) { if (rows.filter((r) => r.site_number === site).length > 1) world.probe("e01.replaced"); }
            }
            for (const c of changes) check(c.kind !== "delete" || c.table.name !== "sse_report", "a report was deleted", "deleted");
          } catch (e) { world.fail(e); }
        });
        let open = plan.ops.length;
        const send = async (o) => {
          const reports = o.reports.map(mk);
          if (new Set(o.reports.map((r) => r.site)).size < reports.length) world.probe("e01.same-twice");
          const r = await d.fns.update.invoke(o.empty ? {} : { SSE_Reports: reports });
          const mine = o.reports.map((x) => `Poiju ä ${x.n}`);
          const n = mine.filter((x) => stored.has(x)).length;
          for (const x of mine) check((stored.get(x) ?? 0) <= 1, `report ${x} was stored ${stored.get(x)} times`, "twice");
          const hurt = world.firedFaults.some((f) => f.kind !== "recycle");
          world.record("upload", { s: r.status, n });
          if (o.empty) { check(r.status !== "ok", "a request without reports was accepted", "empty"); open--; return; }
          if (r.status === "ok") {
            const { saved, errors } = r.value ?? {};
            check(saved + errors === reports.length, `${reports.length} reports, answered ${saved} saved and ${errors} errors`, "sum");
            check(saved <= n, `${saved} reports answered as saved, ${n} stored`, "claimed");
            if (!hurt) check(saved === n && n === o.reports.filter((x) => x.extra === 3).length, `without failures ${n} of ${o.reports.length} reports were stored and ${saved} answered as saved`, "lost");
            if (saved) world.probe("e01.saved");
            if (o.reports.some((x) => x.extra !== 3)) world.probe("e01.rejected");
            if (errors > o.reports.filter((x) => x.extra !== 3).length) world.probe("e01.failed-report");
          } else {
            if (r.status === "crash") world.probe("e01.crash");
            if (r.status === "throttled") { world.probe("e01.throttled"); check(n === 0, "stored although throttled", "throttled"); }
            else { world.probe("e01.error"); check(hurt, `the upload failed although nothing failed: ${r.error?.message}`, "failed"); }
          }
          open--;
        };
        for (const o of plan.ops) world.after(o.at, "sender", () => { send(o).catch((e) => world.fail(e)); });
        await world.run({ until: () => !open, deadline: world.now + HOUR });
        check(!open, "uploads did not finish", "stuck");
        // the latest report of a site is the last one stored
        for (const site of new Set(pg.db.rows("sse_report").map((r) => r.site_number))) {
          const rows = pg.db.rows("sse_report").filter((r) => r.site_number === site);
          const last = rows.reduce((a, b) => (+b.sse_report_id > +a.sse_report_id ? b : a));
          check(last.latest, `the latest report of site ${site} is not the last one stored`, "latest-order");
        }
      },
    },
  ],
};
