// W01: the winter navigation tables follow the versioned source and never claim a version they do not hold.
import { bundle } from "../runtime.mjs";
import { WIRINGS } from "../apps.mjs";
import { deploy } from "../lambda.mjs";
import { check } from "../check.mjs";
import { PgServer, Aws, Http, SECRET, Source, TYPES, schema, HOUR } from "../harness/winter.mjs";

const NAMES = Object.keys(TYPES);

export default {
  id: "W01",
  quickSec: 16,
  thoroughSec: 300,
  real: ["winter-navigation update-data handler, DataUpdater, IBNet client (ky) and all table DAOs", "pg-promise, pg-pool, lib database, secrets, last-updated", "synthesised timeout"],
  stubs: ["IBNet endpoint (versioned object source)", "PostgreSQL", "Lambda and schedule", "Secrets Manager"],
  assumptions: ["the source lists objects whose latest change lies in (from, to]", "runs do not overlap (one every five minutes, 60 s limit)"],
  mustReach: ["w01.updated", "w01.deleted", "w01.undeleted", "w01.crash", "w01.fetch-failed", "w01.mid-change", "w01.run-failed"],
  async setup() {
    return { wiring: await WIRINGS.winter(), code: await bundle({ update: "marine/winter-navigation/src/lambda/update-data/update-data.ts" }) };
  },
  scenarios: [
    {
      name: "mirror",
      gen(rng, tier) {
        const rounds = rng.int(1, tier === "thorough" ? 10 : 5);
        const few = rng.bool(0.5) ? [rng.pick(NAMES), rng.pick(NAMES)] : NAMES;
        const ops = [];
        for (let r = 0; r < rounds; r++) {
          const k = rng.pick([0, 1, 3, 8, 20]);
          const changes = Array.from({ length: k }, () => ({ type: rng.pick(few), n: rng.int(0, 4), s: rng.int(0, 40), del: rng.bool(0.3), mid: rng.bool(0.15) ? rng.int(1, 3000) : 0 }));
          ops.push({ changes });
        }
        return { ops, cfg: {}, faults: rng.bool(0.15) ? {} : undefined };
      },
      faults: { "db.connect.before": 0.03, "db.before": 0.01, "db.lost": 0.01, "db.error": 0.01, "secrets.before": 0.03, "http.before": 0.03, "http.lost": 0.02, "http.5xx": 0.06, "http.429": 0.02, "http.truncated": 0.04, crash: 0.008, slow: 0.005, recycle: 0.2 },
      maxEvents: 60000,
      async run(world, plan, ctx) {
        const pg = new PgServer(world);
        const aws = new Aws(world);
        const http = new Http(world);
        pg.slowMs = 30000;
        aws.secrets.set("sec", JSON.stringify(SECRET));
        schema(pg.db);
        const src = new Source(world.now);
        src.route(http, world);
        const d = deploy(world, ctx.wiring, { aws, fns: { update: { re: /UpdateData$/, code: ctx.code.update, svc: { pg, aws, fetch: http.fetch } } } });
        const byTable = new Map(NAMES.map((n) => [TYPES[n][0], n]));
        // a version is only ever stored together with, or after, the data it stands for
        pg.db.commitHooks.push((tx, changes) => {
          try {
            for (const c of changes) {
              if (c.table.name === "updated_timestamp" && c.row.vals?.updated_name?.endsWith("_CHECK")) {
                const type = byTable.get(c.row.vals.updated_name.slice(0, -6).toLowerCase());
                check(src.served.get(type) >= runStart, `${type} is announced as checked although it could not be fetched`, "false-check");
              }
              if (c.table.name !== "wn_data_version" || !c.row.vals || c.op === "del") continue;
              const type = byTable.get(c.row.vals.table_name);
              check(type, `version of unknown table ${c.row.vals.table_name}`, "unknown-table");
              const v = pg.db.rows("wn_data_version").find((r) => r.table_name === c.row.vals.table_name)?.version;
              check(v <= src.rv, `version ${v} of ${type} does not exist yet`, "future-version");
              const bad = src.diff(pg.db, type, Number(v));
              versionRun.set(type, runStart);
              check(!bad, `${type} claims version ${v} but ${bad}`, "version-ahead");
            }
          } catch (e) { world.fail(e); }
        });
        let failed = 0, runStart = world.now;
        const versionRun = new Map();
        const once = async (o) => {
          const t0 = world.now;
          for (const c of o.changes) {
            const apply = () => { const cur = src.objs.get(`${c.type}-${c.n}`); if (!c.del && cur?.deleted) world.probe("w01.undeleted"); if (c.del && cur && !cur.deleted) world.probe("w01.deleted"); if (!c.del && cur && !cur.deleted) world.probe("w01.updated"); src.change(c); };
            if (c.mid) world.after(c.mid, "source", () => { world.probe("w01.mid-change"); apply(); });
            else apply();
          }
          const before = world.firedFaults.length;
          runStart = t0;
          const r = await d.fns.update.invoke({});
          if (r.status === "crash") world.probe("w01.crash");
          if (r.status !== "ok") world.probe("w01.run-failed");
          const mine = world.firedFaults.slice(before).filter((f) => f.kind !== "recycle");
          if (mine.some((f) => f.kind.startsWith("http."))) world.probe("w01.fetch-failed");
          if (!mine.length) check(r.status === "ok", `run failed although nothing failed: ${r.error?.message}`, "failed");
          if (!mine.length && !o.changes.some((c) => c.mid)) for (const t of NAMES) { const bad = src.diff(pg.db, t); check(!bad, `after a successful run: ${bad}`, "not-mirrored"); }
          if (!mine.length) {
            // everything checked in this run is announced as checked
            for (const t of NAMES) {
              const rows = pg.db.rows("updated_timestamp");
              const c = rows.find((x) => x.updated_name === `${TYPES[t][0].toUpperCase()}_CHECK`);
              const ver = pg.db.rows("wn_data_version").find((x) => x.table_name === TYPES[t][0])?.version ?? -1;
              if (ver !== src.rv && failed === 0 && !o.changes.some((x) => x.mid)) check(c && +c.updated_time >= t0, `${t} was checked but its check time was not updated`, "check-time");
            }
          }
          if (r.status !== "ok") failed++;
          world.record("run", { s: r.status });
          return r;
        };
        let fin = false;
        (async () => {
          for (const o of plan.ops) { await once(o); await world.sleep(300000); }
          world.faultsEnabled = false;
          await once({ changes: [] });
          fin = true;
        })().catch((e) => world.fail(e));
        await world.run({ until: () => fin, deadline: world.now + 6 * HOUR });
        check(fin, "runs did not finish", "stuck");
        for (const t of NAMES) { const bad = src.diff(pg.db, t); check(!bad, bad, "not-mirrored"); }
        const upd = pg.db.rows("updated_timestamp");
        for (const [t, at] of versionRun) { const u = upd.find((x) => x.updated_name === TYPES[t][0].toUpperCase()); check(u && +u.updated_time >= at && +u.updated_time <= world.now, `${t} was changed by the run at ${at} but its update time is ${u && +u.updated_time}`, "update-time"); }
      },
    },
  ],
};
