// C01: the counting data of every site is stored complete and exactly once, up to the time recorded for the site.
import { bundle } from "../runtime.mjs";
import { WIRINGS } from "../apps.mjs";
import { deploy } from "../lambda.mjs";
import { check } from "../check.mjs";
import { PgServer } from "../pgserver.mjs";
import { Aws, Http } from "../services.mjs";
import { DB, DIRS, GRANS, MODES, DAY, HOUR, MIN, helsinki, tables, updatedAt } from "../harness/counting.mjs";

const hash = (...a) => { let h = 2166136261; for (const c of a.join("|")) h = Math.imul(h ^ c.charCodeAt(0), 16777619); h ^= h >>> 15; h = Math.imul(h, 2246822507); h ^= h >>> 13; return h >>> 0; };

export default {
  id: "C01",
  quickSec: 15,
  thoroughSec: 240,
  real: ["counting-site update-data handler, service, source client (with ky and TZDate) and DAO", "pg-promise, pg-pool, lib database and secrets", "synthesised timeout, concurrency and environment"],
  stubs: ["counting source behind fetch", "kysely's SQL compiler", "PostgreSQL", "Lambda and schedule", "Secrets Manager"],
  assumptions: ["the source answers with the points of the closed interval asked for, given in Helsinki winter time, and publishes all series of a site with the same delay of less than five days", "runs do not overlap (one every hour, 60 s limit)"],
  mustReach: ["c01.stored", "c01.gap-skipped", "c01.gap-waited", "c01.first", "c01.removed", "c01.one-failed", "c01.crash", "c01.failed-run", "c01.fresh-skipped", "c01.recorded", "c01.not-recorded"],
  async setup() {
    return { wiring: await WIRINGS.countingSite(), code: await bundle({ update: "road/counting-site/src/lambda/update-data/update-data.ts" }) };
  },
  scenarios: [
    {
      name: "data",
      gen(rng, tier) {
        const sites = Array.from({ length: rng.int(1, 4) }, (_, i) => ({
          id: [3, 11, 100000211, 7][i],
          last: rng.pick([null, 0.3, 0.99, 1, 1.01, 2, 3.3, 6.9, 7.5, 9, 12, 1.39, 3.41, 5.36, 10.4]),
          lag: rng.pick([0, 0, 0.02, 0.5, 1.2, 3]),
          salt: rng.int(1, 1e6),
          series: rng.sample([0, 1, 2, 3, 4, 5], rng.pick([1, 1, 2, 3])).map((k) => ({ m: k % MODES.length, d: k % 3, g: rng.int(0, 2), step: rng.pick([120, 180, 360, 1440]), off: rng.pick([0, 0, 15, 45]) })),
          gaps: Array.from({ length: rng.int(0, 2) }, () => ({ from: rng.int(0, 130) / 10, len: rng.pick([0.5, 1, 1.5, 3, 5]) })),
          removed: rng.bool(0.15),
          zone: rng.int(0, 2),
        }));
        const ops = Array.from({ length: rng.int(1, tier === "thorough" ? 25 : 9) }, () => ({
          gap: rng.pick([1, 1, 1, 1, 1, 5, 24]),
          down: rng.bool(0.25) ? rng.int(0, 3) : -1,
          toggle: rng.bool(0.07) ? rng.int(0, 3) : -1,
        }));
        return { ops, cfg: { sites, tail: rng.bool(0.3) }, faults: rng.bool(0.3) ? {} : undefined };
      },
      faults: { "db.connect.before": 0.03, "db.before": 0.006, "db.lost": 0.006, "db.error": 0.008, "secrets.before": 0.03, "http.before": 0.04, "http.lost": 0.03, "http.5xx": 0.06, "http.truncated": 0.04, crash: 0.004, slow: 0.006, recycle: 0.1 },
      maxEvents: 80000,
      async run(world, plan, ctx) {
        const pg = new PgServer(world);
        const aws = new Aws(world);
        const http = new Http(world);
        pg.slowMs = 15000;
        http.slowMs = 25000;
        aws.secrets.set("sec", JSON.stringify({ ...DB, "cs.url": "https://eco.example", "cs.apiKey": "cs-key-8841" }));
        tables(pg);
        const t0 = world.now;
        const sites = plan.cfg.sites.map((s, i) => ({ ...s, route: `data-${i}`, start: s.last === null ? null : Math.floor((t0 - s.last * DAY) / MIN) * MIN }));
        pg.db.seed("cs2_site", sites.map((s) => ({ id: s.id, name: `S${s.id}`, domain: "Fintraffic", description: "d", custom_id: null, latitude: 60, longitude: 24, granularity: null, directional: true, travel_modes: ["bike"], removed_timestamp: s.removed ? new Date(t0 - DAY) : null, last_data_timestamp: s.start === null ? null : new Date(s.start) })));
        // another domain's site is nobody's business here
        pg.db.seed("cs2_site", [{ id: 999, name: "other", domain: "Oulu", description: "", custom_id: null, latitude: 60, longitude: 24, granularity: null, directional: true, travel_modes: [], removed_timestamp: null, last_data_timestamp: new Date(t0 - 5 * DAY) }]);
        const stamp = (s, t) => (s.zone === 0 ? new Date(t).toISOString() : s.zone === 1 ? `${new Date(t + 2 * HOUR).toISOString().slice(0, 19)}+02:00` : new Date(t).toISOString().replace(".000Z", "Z"));
        /** The points that exist at the source in (from, to], whenever they become available. */
        const points = (s, from, to) => {
          const out = [];
          s.series.forEach((q, k) => {
            const step = q.step * MIN;
            for (let t = Math.ceil((from + 1 - q.off * MIN) / step) * step + q.off * MIN; t <= to; t += step) {
              const back = (t0 - t) / DAY;
              if (s.gaps.some((g) => back >= g.from && back < g.from + g.len)) continue;
              const h = hash(s.salt, k, t);
              if (h % 8 === 0) continue;
              out.push({ k, t, m: MODES[q.m], d: DIRS[q.d], g: GRANS[q.g], c: h % 500 });
            }
          });
          return out;
        };
        const key = (p) => `${p.m}/${p.d}/${p.g}/${new Date(p.t).toISOString()}=${p.c}`;
        let answered = new Map(), asked = new Set(), downId = -1, inRun = false, start = t0, needy = [];
        for (const s of sites) http.route(s.route, (r) => r.url.startsWith("https://eco.example/api/v2/history/traffic/raw?") && new URL(r.url).searchParams.get("siteId") === String(s.id), (r) => {
          check(r.headers["x-api-key"] === "cs-key-8841", "request without the key", "key");
          const p = new URL(r.url).searchParams;
          const a = helsinki(p.get("startDate"), p.get("startTime")), b = helsinki(p.get("endDate"), p.get("endTime"));
          check(a <= b, `data asked from ${new Date(a)} to ${new Date(b)}`, "window");
          if (!inRun) return { status: 200, body: [] }; // a straggler of a run that has ended
          asked.add(s.id);
          const row = pg.db.rows("cs2_site").find((x) => x.id === s.id);
          check(row.removed_timestamp === null || s.toggled >= start, `data of the removed site ${s.id} was asked for`, "removed-asked");
          if (downId === s.id) return { status: 500, body: "down" };
          const list = points(s, a - 1, b).filter((x) => x.t + s.lag * DAY <= world.now);
          answered.set(s.id, list);
          return { status: 200, body: s.series.map((q, k) => ({ travelMode: MODES[q.m], direction: DIRS[q.d], data: list.filter((x) => x.k === k).map((x) => ({ timestamp: stamp(s, x.t), granularity: x.g, counts: x.c })) })).filter((x) => x.data.length || s.zone === 1) };
        });
        http.route("unknown", () => true, (r) => { check(false, `request to ${r.url}`, "unknown-url"); });
        const d = deploy(world, ctx.wiring, { aws, fns: { update: { re: /UpdateData/, code: ctx.code.update, svc: { pg, aws, http, fetch: http.fetch } } } });
        const stored = () => { const m = new Map(sites.map((s) => [s.id, []])); for (const r of pg.db.rows("cs2_data")) { check(m.has(r.site_id), `data of site ${r.site_id} was stored`, "other-site"); m.get(r.site_id).push({ m: r.travel_mode, d: r.direction, g: r.granularity, t: +r.data_timestamp, c: Number(r.counts) }); } return m; };
        const lastOf = (id) => { const v = pg.db.rows("cs2_site").find((x) => x.id === id).last_data_timestamp; return v === null ? null : +v; };
        const verify = () => {
          const all = stored();
          for (const s of sites) {
            const have = all.get(s.id), last = lastOf(s.id);
            if (last === null) { check(!have.length, `site ${s.id} has data but no time of last data`, "no-time"); continue; }
            if (s.start !== null && s.start === last && !have.length) continue;
            const from = s.start ?? Math.min(...have.map((p) => p.t), last + 1) - 1;
            const keys = have.map(key).sort();
            for (let i = 1; i < keys.length; i++) check(keys[i] !== keys[i - 1], `site ${s.id} has ${keys[i]} twice`, "twice");
            const want = points(s, from, last).map(key), wantSet = new Set(want), haveSet = new Set(keys);
            for (const p of have) check(wantSet.has(key(p)), `site ${s.id} has ${key(p)}, which is ${p.t > last ? `after its time of last data ${new Date(last).toISOString()}` : "not what the source gives"}`, "extra");
            for (const k of want) check(haveSet.has(k), `site ${s.id} is recorded as stored until ${new Date(last).toISOString()}, but ${k} is missing`, "missing");
          }
        };
        pg.db.commitHooks.push((tx, changes) => {
          try {
            for (const c of changes) check(c.table.name !== "cs2_data" || c.op === "ins", "stored data was changed", "changed");
            if (changes.some((c) => c.table.name === "cs2_data" || c.table.name === "cs2_site")) verify();
            if (changes.some((c) => c.table.name === "data_updated")) {
              const u = updatedAt(pg, "COUNTING_SITES_DATA");
              check(u !== undefined && Math.abs(u - world.now) < 20000, "wrong update time", "updated-time");
              const all = stored();
              for (const s of needy) {
                check(answered.has(s.id), `the data is recorded as updated although site ${s.id} was not read`, "recorded-unread");
                const h = new Set(all.get(s.id).map(key));
                for (const p of answered.get(s.id)) check(h.has(key(p)), `the data is recorded as updated although ${key(p)} of site ${s.id} is not stored`, "recorded-unstored");
              }
              world.probe("c01.recorded");
            }
          } catch (e) { world.fail(e); }
        });
        const sql = (text) => { const tx = pg.db.begin(); const hooks = pg.db.commitHooks; pg.db.commitHooks = []; pg.db.execStmt(pg.db.parse(text)[0], tx, { params: [] }); pg.db.commit(tx); pg.db.commitHooks = hooks; };
        const once = async (o) => {
          if (o.toggle >= 0 && sites[o.toggle]) {
            const s = sites[o.toggle];
            const gone = pg.db.rows("cs2_site").find((x) => x.id === s.id).removed_timestamp;
            sql(`UPDATE cs2_site SET removed_timestamp = ${gone ? "null" : `'${new Date(world.now).toISOString()}'`} WHERE id = ${s.id}`);
            s.toggled = -1;
          }
          answered = new Map(); asked = new Set(); downId = sites[o.down]?.id ?? -1; start = world.now; inRun = true;
          const mark = world.firedFaults.length, before = new Map(sites.map((s) => [s.id, lastOf(s.id)])), u0 = updatedAt(pg, "COUNTING_SITES_DATA");
          const removed = new Set(pg.db.rows("cs2_site").filter((x) => x.removed_timestamp !== null).map((x) => x.id));
          needy = sites.filter((s) => !removed.has(s.id) && (before.get(s.id) === null || before.get(s.id) < start - DAY - 1000));
          const fresh = new Set(sites.filter((s) => before.get(s.id) !== null && before.get(s.id) > start - DAY + 61000).map((s) => s.id));
          const r = await d.fns.update.invoke({});
          inRun = false;
          const fired = world.firedFaults.slice(mark).filter((f) => f.kind !== "recycle");
          const outside = fired.some((f) => !/data-/.test(f.site) || f.kind === "crash" || f.kind === "slow");
          world.record("run", { s: r.status, asked: [...asked] });
          if (r.status === "crash") world.probe("c01.crash");
          if (removed.size) world.probe("c01.removed");
          for (const id of asked) if (fresh.has(id)) world.probe("c01.fresh-asked");
          if (fresh.size) world.probe("c01.fresh-skipped");
          const touched = updatedAt(pg, "COUNTING_SITES_DATA") !== u0;
          if (!fired.length && downId < 0) check(r.status === "ok" && touched, `the update was not recorded although nothing failed (${r.status})`, "not-recorded");
          if (!touched) { world.probe("c01.not-recorded"); if (fired.length) world.probe("c01.failed-run"); }
          if (outside || r.status !== "ok") return;
          const all = stored();
          for (const s of needy) {
            const hurt = fired.some((f) => f.site.includes(s.route)) || s.id === downId;
            if (hurt) { world.probe("c01.one-failed"); continue; }
            check(answered.has(s.id), `site ${s.id} was not read although nothing was wrong with it`, "not-read");
            const h = new Set(all.get(s.id).map(key)), got = answered.get(s.id);
            for (const p of got) check(h.has(key(p)), `${key(p)} of site ${s.id} was read but not stored although nothing was wrong with the site`, "not-stored");
            const b = before.get(s.id), l = lastOf(s.id);
            if (got.length) { world.probe("c01.stored"); if (b === null) world.probe("c01.first"); check(l !== null && (b === null || l > b), `data of site ${s.id} was stored but its time of last data stays ${b && new Date(b).toISOString()}`, "time-stays"); }
            else if (b !== null && b < start - 7 * DAY - 60000) { check(l > b, `site ${s.id} has nothing for the day after ${new Date(b).toISOString()}, more than a week ago, and is stuck there`, "stuck-gap"); world.probe("c01.gap-skipped"); }
            else if (b !== null) { world.probe("c01.gap-waited"); }
          }
        };
        let fin = false;
        (async () => {
          for (const o of plan.ops) { await once(o); await world.sleep(Math.max(1000, o.gap * HOUR - 20000)); }
          world.faultsEnabled = false;
          if (plan.cfg.tail) {
            let prior = new Map();
            for (let i = 0; i < 30; i++) { prior = new Map(sites.map((s) => [s.id, lastOf(s.id)])); await once({ down: -1, toggle: -1 }); await world.sleep(HOUR - 20000); }
            const gone = new Set(pg.db.rows("cs2_site").filter((x) => x.removed_timestamp !== null).map((x) => x.id));
            for (const s of sites) {
              if (gone.has(s.id)) continue;
              const l = lastOf(s.id);
              if (l === null) { const from = Math.floor((world.now - 10 * DAY) / DAY) * DAY; check(!points(s, from - HOUR, from + DAY - HOUR).length || s.lag > 5, `site ${s.id} never got its first data`, "first"); continue; }
              if (l > world.now - DAY - 2 * HOUR || l !== prior.get(s.id)) continue; // up to date, or still moving (a long gap is skipped a day at a time)
              const next = points(s, l, l + DAY).filter((p) => p.t + s.lag * DAY <= world.now - 2 * HOUR);
              check(!next.length, `after 30 hourly updates site ${s.id} is still at ${new Date(l).toISOString()} although the source has ${next.length} later points`, "behind");
              check(l >= world.now - 7 * DAY - 2 * HOUR, `after 30 hourly updates site ${s.id} is still at ${new Date(l).toISOString()}, more than a week ago`, "stuck");
            }
          } else await once({ down: -1, toggle: -1 });
          fin = true;
        })().catch((e) => world.fail(e));
        await world.run({ until: () => fin, deadline: world.now + 24 * DAY });
        check(fin, "runs did not finish", "stuck");
      },
    },
  ],
};
