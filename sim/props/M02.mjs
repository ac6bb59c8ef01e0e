// M02: the maintenance tracking clean-up removes exactly what is over 26 hours old and no longer needed.
import { bundle } from "../runtime.mjs";
import { WIRINGS } from "../apps.mjs";
import { deploy } from "../lambda.mjs";
import { check } from "../check.mjs";
import { PgServer, Session } from "../pgserver.mjs";
import { Aws } from "../services.mjs";

const HOUR = 3600000;
const KEEP = 26 * HOUR;
const SECRET = { username: "u", password: "db-pass-of-x", host: "db-rw:1/x", ro_host: "db-ro:1/x", proxy_host: "db-rw:1/x", proxy_ro_host: "db-ro:1/x" };

export default {
  id: "M02",
  quickSec: 15,
  thoroughSec: 300,
  real: ["maintenance-tracking clean-maintenance-tracking-data handler, service and DAO", "pg-promise, pg-pool, lib database and secrets", "synthesised timeout and concurrency"],
  stubs: ["Lambda and schedule", "PostgreSQL with row locks and foreign keys", "Secrets Manager"],
  assumptions: ["maintenance_tracking has a self-referencing foreign key on previous_tracking_id and an end_time that only grows for open trackings"],
  mustReach: ["m02.deleted", "m02.kept-newest", "m02.kept-referenced", "m02.failed", "m02.retried"],
  async setup() {
    return { wiring: await WIRINGS.maintenance(), code: await bundle({ clean: "road/maintenance-tracking/src/lambda/clean-maintenance-tracking-data/clean-maintenance-tracking-data.ts" }) };
  },
  scenarios: [
    {
      name: "cleanup",
      gen(rng, tier) {
        const n = rng.int(0, tier === "thorough" ? 60 : 25);
        const maxAge = rng.pick([20, 26, 27, 28, 40, 90, 200]);
        const minAge = rng.pick([0, 0, 24, 26]);
        const ops = [];
        for (let i = 0; i < n; i++) {
          const edge = rng.bool(0.25);
          ops.push({ kind: "row", domain: rng.int(1, rng.pick([1, 3])), age: edge ? 26 + rng.pick([-0.001, -0.4, 0.001, 0.4, 0.49, 0.6]) : rng.int(Math.min(minAge, maxAge) * 10, maxAge * 10) / 10, created: rng.pick([0, 0, 0.01, -3, 5]), prev: rng.bool(0.6) ? rng.int(1, 4) : 0, tie: rng.bool(0.3) });
        }
        const w = rng.int(0, 6);
        for (let i = 0; i < w; i++) ops.push({ kind: "add", at: rng.int(0, 400), domain: rng.int(1, 3), ref: rng.int(0, n), hold: rng.int(0, 80), other: rng.int(0, n), extend: rng.bool(0.4) });
        ops.push(...Array.from({ length: rng.int(1, 3) }, () => ({ kind: "clean", at: rng.int(0, 300) })));
        return { ops, cfg: {}, faults: rng.bool(0.35) ? {} : undefined };
      },
      faults: { "db.connect.before": 0.06, "db.before": 0.02, "db.lost": 0.02, "db.error": 0.02, "secrets.before": 0.06, "secrets.lost": 0.05, crash: 0.01, slow: 0.01, recycle: 0.2 },
      maxEvents: 60000,
      async run(world, plan, ctx) {
        const pg = new PgServer(world);
        const aws = new Aws(world);
        aws.secrets.set("sec", JSON.stringify(SECRET));
        pg.db.table("maintenance_tracking", "id bigint primary key, domain text not null, created timestamptz not null, end_time timestamptz not null, previous_tracking_id bigint, foreign key (previous_tracking_id) references maintenance_tracking (id)");
        const d = deploy(world, ctx.wiring, { aws, fns: { clean: { re: /CleanMaintenanceTrackingData$/, code: ctx.code.clean, svc: { pg, aws } } } });
        const t0 = world.now;
        const seeded = [];
        const rowsSpec = plan.ops.filter((o) => o.kind === "row");
        // older trackings come first so that previous ones refer backwards
        rowsSpec.sort((a, b) => b.age - a.age).forEach((o, i) => {
          const end = new Date(t0 - Math.round(o.age * HOUR));
          const row = { id: i + 1, domain: `d${o.domain}`, created: new Date(+end - Math.round(o.created * HOUR)), end_time: end, previous_tracking_id: o.prev && i - o.prev >= 0 ? i + 1 - o.prev : null };
          const mate = o.tie ? seeded.findLast((x) => x.domain === row.domain) : undefined;
          if (mate) row.created = mate.created;
          seeded.push(row);
          pg.db.seed("maintenance_tracking", [row]);
        });
        const newest = () => { const m = new Map(); for (const r of pg.db.rows("maintenance_tracking")) m.set(r.domain, Math.max(m.get(r.domain) ?? -Infinity, +r.created)); return m; };
        let floor = newest();
        pg.db.commitHooks.push((tx, changes) => {
          try {
            for (const c of changes) {
              if (c.op === "delete") check(+c.row.vals.end_time < world.now - KEEP, `a tracking that ended ${((world.now - c.row.vals.end_time) / HOUR).toFixed(3)} h ago was deleted`, "too-young");
            }
            const now = newest();
            for (const [k, v] of floor) check(now.has(k) && now.get(k) >= v, `the newest tracking of domain ${k} was deleted`, "newest-gone");
            floor = now;
            const rows = new Map(pg.db.rows("maintenance_tracking").map((r) => [r.id, r]));
            for (const s of links) if (+s.end_time >= world.now - KEEP) { const r = rows.get(s.id); check(r && r.previous_tracking_id === s.previous_tracking_id, `tracking ${s.id} that ended less than 26 h ago lost its link to ${s.previous_tracking_id}`, "link-lost"); }
          } catch (e) { world.fail(e); }
        });
        const links = seeded.filter((r) => r.previous_tracking_id !== null).map((r) => ({ ...r }));
        // trackings arriving while the clean-up runs
        let nextId = 1000;
        for (const o of plan.ops.filter((x) => x.kind === "add")) world.after(o.at, "writer", async () => {
          try {
            const s = new Session(pg.db);
            await pg.exec(s, "BEGIN", []);
            const id = nextId++;
            const ref = o.ref && pg.db.rows("maintenance_tracking").some((r) => r.id === o.ref) ? o.ref : null;
            const row = { id, domain: `d${o.domain}`, created: new Date(world.now), end_time: new Date(world.now), previous_tracking_id: ref };
            try {
              await pg.exec(s, "INSERT INTO maintenance_tracking(id, domain, created, end_time, previous_tracking_id) VALUES ($1,$2,$3,$4,$5)", [row.id, row.domain, row.created, row.end_time, row.previous_tracking_id]);
              if (o.extend && o.other) await pg.exec(s, "UPDATE maintenance_tracking SET end_time = $1 WHERE id = $2", [new Date(world.now), o.other]);
              await world.sleep(o.hold);
              await pg.exec(s, "COMMIT", []);
              if (row.previous_tracking_id) links.push(row);
            } catch (e) { if (e.violation || e.name === "Unsupported") throw e; await pg.exec(s, "ROLLBACK", []); }
            pg.endSession(s);
          } catch (e) { world.fail(e); }
        });
        const run = () => d.fns.clean.invoke({});
        const outcomes = [];
        for (const o of plan.ops.filter((x) => x.kind === "clean")) world.after(o.at, "schedule", () => {
          // what a run that starts now has to remove, unless it becomes referenced, newer or the run reports a failure
          const rows = pg.db.rows("maintenance_tracking"); const start = world.now; const newestNow = newest();
          const due = rows.filter((r) => +r.end_time < start - KEEP && +r.created !== newestNow.get(r.domain) && !rows.some((x) => x.previous_tracking_id === r.id && +x.end_time >= start - KEEP));
          run().then((r) => {
            outcomes.push(r); world.record("cleaned", { s: r.status });
            if (r.status !== "ok") return;
            const now = pg.db.rows("maintenance_tracking");
            const left = due.find((x) => now.some((y) => y.id === x.id && +y.end_time === +x.end_time) && !now.some((l) => l.previous_tracking_id === x.id && +l.end_time >= start - KEEP));
            try { check(!left, `a clean-up succeeded but left tracking ${left?.id} that had ended ${((start - left?.end_time) / HOUR).toFixed(2)} h before it started`, "left-behind"); if (due.length) world.probe("m02.run-complete"); } catch (e) { world.fail(e); }
          }).catch((e) => world.fail(e));
        });
        await world.run({ deadline: t0 + HOUR });
        const benign = world.firedFaults.every((f) => f.kind === "recycle");
        for (const r of outcomes) if (r.status !== "ok") { world.probe("m02.failed"); if (benign && r.status !== "throttled") { const c = r.error?.code; check(c === "23503" || c === "40P01", `the clean-up failed although nothing failed: ${r.error?.message}`, "failed"); world.probe("m02.blocked"); } }
        world.faultsEnabled = false;
        const before = pg.db.rows("maintenance_tracking");
        const cutoff = world.now - KEEP;
        const last = {};
        run().then((r) => { Object.assign(last, r); last.at = world.now; });
        await world.run({ deadline: world.now + HOUR });
        check(last.status === "ok", `the clean-up fails although faults have stopped: ${last.error?.message}`, "fails");
        if (outcomes.some((r) => r.status !== "ok")) world.probe("m02.retried");
        const after = new Set(pg.db.rows("maintenance_tracking").map((r) => r.id));
        const top = floor;
        for (const r of before) {
          const old = +r.end_time < cutoff;
          const heldByNewest = +r.created === top.get(r.domain);
          const holder = before.find((x) => x.previous_tracking_id === r.id && +x.end_time >= cutoff);
          if (!old) { if (+r.end_time >= last.at - KEEP) check(after.has(r.id), `tracking ${r.id} younger than 26 h is gone`, "too-young"); }
          else if (heldByNewest) { check(after.has(r.id), `the newest tracking of ${r.domain} is gone`, "newest-gone"); world.probe("m02.kept-newest"); }
          else if (holder) { if (+holder.end_time < last.at - KEEP) continue; check(after.has(r.id), `tracking ${r.id}, previous of ${holder.id}, is gone`, "link-lost"); world.probe("m02.kept-referenced"); }
          else check(!after.has(r.id), `tracking ${r.id} that ended ${((world.now - r.end_time) / HOUR).toFixed(2)} h ago is still there after a successful clean-up`, "left-behind");
        }
        if (after.size < seeded.length) world.probe("m02.deleted");
      },
    },
  ],
};
