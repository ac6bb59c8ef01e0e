// N01: the trackings of municipal machines are exactly the work events of the source, split and continued by the rules.
import { bundle } from "../runtime.mjs";
import { WIRINGS } from "../apps.mjs";
import { deploy } from "../lambda.mjs";
import { check } from "../check.mjs";
import { PgServer } from "../pgserver.mjs";
import { Aws, Http } from "../services.mjs";

const MIN = 60000;
const DB = { username: "u", password: "db-pass-of-x", host: "db-rw:1/x", ro_host: "db-ro:1/x", proxy_host: "db-rw:1/x", proxy_ro_host: "db-ro:1/x" };
const DOMAIN = "paikannin-kuopio";
const CH = ["Aura alhaalla", "Suolaus", "Harja", "Valo", "Uusi"]; // the first two are mapped, the third may become so, "Valo" is ignored
const TASK = { "Aura alhaalla": "PLOUGHING_AND_SLUSH_REMOVAL", Suolaus: "SALTING", Harja: "BRUSHING" };
const SETS = [[0], [0], [1], [0, 1], [2], [3], [], [0, 3], [4], [1, 3]];
const canon = JSON.stringify;
const R = 6371;
const metres = (a, b) => { const rad = (x) => (x * Math.PI) / 180; const p = rad(b[1] - a[1]), l = rad(b[0] - a[0]); const h = Math.sin(p / 2) ** 2 + Math.cos(rad(a[1])) * Math.cos(rad(b[1])) * Math.sin(l / 2) ** 2; return R * 1000 * 2 * Math.atan2(Math.sqrt(h), Math.sqrt(1 - h)); };
class Unclear extends Error {}
/** Does the later position continue the earlier one? Values on the edge of a limit are not judged. */
function continues(p, q, t1, t2) {
  const s = (t2 - t1) / 1000;
  if (s < 0 || s > 305) return false;
  const d = metres(p, q);
  const near = (v, lim) => { if (Math.abs(v - lim) < lim * 0.004) throw new Unclear(); };
  near(d, 520); near(d, 200); near(d, 50);
  if (d > 520) return false;
  const v = s === 0 ? (d === 0 ? NaN : Infinity) : (d / s) * 3.6;
  near(v, 80); near(v, 20); near(v, 5);
  if (d > 50 && v > 80) return false;
  if (d > 200) return v >= 20;
  if (d > 50) return v >= 5;
  return true;
}
const sameSet = (a, b) => a.length === b.length && [...a].sort().join("|") === [...b].sort().join("|");
const xy = (p) => [p[0], p[1]];
const line = (ps) => ps.filter((p, i) => !i || canon(xy(p)) !== canon(xy(ps[i - 1])));

/** The trackings of a machine after its events have been handled. */
function handle(rows, events, mapped) {
  const tasksOf = (e) => [...new Set(e.ch.map((c) => mapped.get(c.trim())).filter(Boolean))];
  const out = rows.map((r) => ({ ...r }));
  const latest = out.filter((r) => !r.finished && !out.some((o) => o.prev === r.id)).sort((a, b) => b.end - a.end)[0];
  const evs = events.filter((e) => tasksOf(e).length && (!latest || e.t > latest.end)).sort((a, b) => a.t - b.t);
  if (!evs.length) return out;
  const groups = [[evs[0]]];
  for (let i = 1; i < evs.length; i++) {
    const p = evs[i - 1], e = evs[i];
    if (!continues(p.pos, e.pos, p.t, e.t)) groups.push([e]);
    else if (sameSet(p.ch, e.ch)) groups.at(-1).push(e);
    else { groups.at(-1).push({ ...e, ch: p.ch }); groups.push([e]); }
  }
  const added = groups.map((g, i) => ({ start: g[0].t, end: g.at(-1).t, tasks: tasksOf(g[0]).sort(), finished: i < groups.length - 1, prev: null, last: g.at(-1).pos, points: line(g.map((e) => e.pos)), dir: g.at(-1).hd }));
  if (latest) {
    const e = groups[0][0];
    if (continues(latest.last, e.pos, latest.end, e.t)) {
      if (canon(xy(latest.last)) !== canon(xy(e.pos))) { latest.points = line([...latest.points, e.pos]); latest.last = e.pos; latest.end = e.t; latest.dir = e.hd; }
      if (sameSet(latest.tasks, added[0].tasks)) added[0].prev = latest.id;
    }
    latest.finished = true;
  }
  return [...out, ...added];
}
const shape = (r) => canon([r.start, r.end, r.tasks, r.finished, r.prev, r.last, r.points, r.dir]);
const shapes = (rows) => rows.map(shape).sort();

export default {
  id: "N01",
  quickSec: 15,
  thoroughSec: 240,
  real: ["maintenance-tracking-municipality paikannin-update-data handler, services, source client (with ky) and DAO", "pg-promise, pg-pool, lib database and secrets", "synthesised timeout, concurrency and environment"],
  stubs: ["work event source behind fetch", "PostgreSQL with a little PostGIS (simplification keeps all points)", "Lambda and schedule", "Secrets Manager"],
  assumptions: ["an event is available once it is two minutes old; a machine's events have different times, apart from repeated events", "pairs of points within 0.4 % of a distance or speed limit are not judged", "an operator gives the contract its source and the tasks their names"],
  mustReach: ["n01.added", "n01.continued", "n01.appended", "n01.not-continued", "n01.task-change", "n01.same-count-change", "n01.split", "n01.repeat", "n01.device-failed", "n01.crash", "n01.new-channel", "n01.no-source", "n01.run-failed"],
  async setup() {
    return { wiring: await WIRINGS.municipality(), code: await bundle({ update: "road/maintenance-tracking-municipality/src/lambda/paikannin-update-data/paikannin-update-data.ts" }) };
  },
  scenarios: [
    {
      name: "trackings",
      gen(rng, tier) {
        const devices = Array.from({ length: rng.int(1, 4) }, (_, i) => {
          const many = rng.int(1, tier === "thorough" ? 80 : 35);
          let set = rng.int(0, SETS.length - 1);
          return { id: [7, 1234567, 88, 9001][i], alt: rng.pick([0, 91.5]), from: rng.int(0, 500), events: Array.from({ length: many }, () => { if (rng.bool(0.3)) set = rng.int(0, SETS.length - 1); return { dt: rng.pick([1, 10, 20, 30, 30, 60, 60, 120, 300, 305, 306, 700]), dm: rng.pick([0, 5, 40, 45, 100, 150, 180, 300, 450, 510, 530, 900]), set, hd: rng.int(0, 359), again: rng.bool(0.05), rev: rng.bool(0.15) }; }) };
        });
        const ops = Array.from({ length: rng.int(1, tier === "thorough" ? 20 : 8) }, () => ({ gap: rng.pick([5, 5, 5, 5, 5, 10, 15]), map: rng.bool(0.07), source: rng.bool(0.06), order: rng.int(0, 2) }));
        return { ops, cfg: { devices, noSource: rng.bool(0.05) }, faults: rng.bool(0.35) ? {} : undefined };
      },
      faults: { "db.connect.before": 0.02, "db.before": 0.01, "db.lost": 0.01, "db.error": 0.015, "secrets.before": 0.02, "http.before": 0.04, "http.lost": 0.03, "http.5xx": 0.06, "http.truncated": 0.04, crash: 0.005, slow: 0.008, recycle: 0.1 },
      maxEvents: 80000,
      async run(world, plan, ctx) {
        const pg = new PgServer(world);
        const aws = new Aws(world);
        const http = new Http(world);
        pg.slowMs = 15000;
        http.slowMs = 15000;
        aws.secrets.set("sec", JSON.stringify({ ...DB, [`mt.municipality.${DOMAIN}.url`]: "https://work.example", [`mt.municipality.${DOMAIN}.apikey`]: "cs-key-8841" }));
        pg.db.table("maintenance_tracking_domain", "name text primary key, source text");
        pg.db.table("maintenance_tracking_domain_contract", "domain text not null, contract text not null, name text not null, source text, start_date timestamptz, end_date timestamptz, data_last_updated timestamptz, primary key (domain, contract)");
        pg.db.table("maintenance_tracking_domain_task_mapping", "name text not null, original_id text not null, domain text not null, ignore boolean not null, info text, unique (domain, original_id)");
        pg.db.table("maintenance_tracking_work_machine", "id bigint primary key, harja_id bigint not null, harja_urakka_id bigint not null, type text, unique (harja_id, harja_urakka_id)");
        pg.db.table("maintenance_tracking", "id bigint primary key, sending_system text not null, sending_time timestamptz not null, last_point geometry not null, geometry geometry not null, work_machine_id bigint not null, start_time timestamptz not null, end_time timestamptz not null, direction numeric, finished boolean not null, domain text not null, contract text not null, message_original_id text, previous_tracking_id bigint, fk (work_machine_id) -> maintenance_tracking_work_machine(id), fk (previous_tracking_id) -> maintenance_tracking(id)");
        pg.db.table("maintenance_tracking_task", "maintenance_tracking_id bigint not null, task text not null, primary key (maintenance_tracking_id, task), fk (maintenance_tracking_id) -> maintenance_tracking(id)");
        pg.db.table("data_updated", "id bigint primary key, data_type text not null, subtype text not null default '-', updated timestamptz not null, unique (data_type, subtype)");
        if (!plan.cfg.noSource) pg.db.seed("maintenance_tracking_domain_contract", [{ domain: DOMAIN, contract: DOMAIN, name: DOMAIN, source: "Kuopio", data_last_updated: null }]);
        pg.db.seed("maintenance_tracking_domain_task_mapping", [{ name: TASK[CH[0]], original_id: CH[0], domain: DOMAIN, ignore: false, info: "x" }, { name: TASK[CH[1]], original_id: CH[1], domain: DOMAIN, ignore: false, info: "x" }, { name: "UNKNOWN", original_id: CH[3], domain: DOMAIN, ignore: true, info: "x" }, { name: "BRUSHING", original_id: CH[0], domain: "muu", ignore: false, info: "x" }]);
        const t0 = world.now;
        const devices = plan.cfg.devices.map((d) => {
          let t = t0 - 9 * MIN + d.from * 1000, m = 0;
          const events = [];
          for (const e of d.events) {
            t += e.dt * 1000; m += e.rev ? -e.dm : e.dm;
            const ev = { t, pos: [27.6, Number((62.8 + m / 111194.93).toFixed(6)), d.alt], ch: SETS[e.set].map((c) => (c === 1 ? `${CH[c]} ` : CH[c])), hd: e.hd };
            events.push(ev);
            if (e.again) events.push(ev);
          }
          return { ...d, events };
        });
        let start = t0, servedEvents = null, devicesRead = false, inRun = false, order = 0;
        const io = (ch) => ch.map((name, i) => ({ id: i + 1, name }));
        http.route("devices", (r) => r.url === "https://work.example/public/api/devices/all", (r) => {
          check(r.headers.api_key === "cs-key-8841", "request without the key", "key");
          devicesRead = true;
          return { status: 200, body: devices.map((d) => ({ id: String(d.id), description: "x", ioChannels: [...new Set(d.events.flatMap((e) => e.ch))].map((name, i) => ({ id: i, enabled: true, name })) })) };
        });
        http.route("events", (r) => r.url.startsWith("https://work.example/public/api/devices/workevents/alldevices/"), (r) => {
          check(r.headers.api_key === "cs-key-8841", "request without the key", "key");
          const [a, b] = r.url.split("/").slice(-2).map((x) => Date.parse(decodeURIComponent(x)));
          if (inRun) {
            check(b - a === 7 * MIN && a >= start - 9 * MIN - 1000 && a <= world.now - 9 * MIN + 1000, `events asked from ${new Date(a).toISOString()} to ${new Date(b).toISOString()} at ${new Date(world.now).toISOString()}`, "window");
          }
          const list = devices.map((d) => ({ d, ev: d.events.filter((e) => e.t >= a && e.t <= b) })).filter((x) => x.ev.length || x.d.id % 2);
          if (inRun) servedEvents = new Map(list.map((x) => [x.d.id, x.ev]));
          const mix = (l) => (order === 0 ? l : order === 1 ? [...l].reverse() : [...l].sort((p, q) => (p.t % 7) - (q.t % 7)));
          return { status: 200, body: list.map((x) => ({ deviceId: x.d.id, deviceName: `Auto ${x.d.id}`, workEvents: mix(x.ev).map((e) => ({ deviceId: x.d.id, deviceName: `Auto ${x.d.id}`, timest: new Date(e.t).toISOString(), altitude: e.pos[2], heading: e.hd, ioChannels: io(e.ch), lat: e.pos[1], lon: e.pos[0], speed: 5 })) })) };
        });
        http.route("unknown", () => true, (r) => { check(false, `request to ${r.url}`, "unknown-url"); });
        const d = deploy(world, ctx.wiring, { aws, fns: { update: { re: /paikannin/, code: ctx.code.update, svc: { pg, aws, http, fetch: http.fetch } } } });
        const read = () => {
          const machines = new Map(pg.db.rows("maintenance_tracking_work_machine").map((m) => [Number(m.id), Number(m.harja_id)]));
          const tasks = new Map();
          for (const t of pg.db.rows("maintenance_tracking_task")) { const k = Number(t.maintenance_tracking_id); if (!tasks.has(k)) tasks.set(k, []); tasks.get(k).push(t.task); }
          const all = new Map(devices.map((x) => [x.id, []]));
          for (const r of pg.db.rows("maintenance_tracking")) {
            const dev = machines.get(Number(r.work_machine_id));
            check(all.has(dev) && r.domain === DOMAIN && r.contract === DOMAIN && r.sending_system === DOMAIN && r.message_original_id === "none", `tracking ${r.id} belongs to machine ${dev}, domain ${r.domain}`, "identity");
            const c = r.geometry.g.coordinates;
            all.get(dev).push({ id: Number(r.id), start: +r.start_time, end: +r.end_time, tasks: (tasks.get(Number(r.id)) ?? []).sort(), finished: r.finished, prev: r.previous_tracking_id === null ? null : Number(r.previous_tracking_id), last: r.last_point.g.coordinates, points: r.geometry.g.type === "Point" ? [c] : c, dir: r.direction === null ? null : Number(r.direction), sent: +r.sending_time });
          }
          return all;
        };
        const mapping = () => new Map(pg.db.rows("maintenance_tracking_domain_task_mapping").filter((m) => m.domain === DOMAIN && !m.ignore).map((m) => [m.original_id, m.name]));
        let pre = read(), post = null, unclear = new Set(), hasSource = true, editing = false;
        const expected = () => {
          if (post) return post;
          post = new Map();
          const mapped = mapping();
          for (const x of devices) {
            try { post.set(x.id, hasSource ? handle(pre.get(x.id), servedEvents?.get(x.id) ?? [], mapped) : pre.get(x.id)); } catch (e) { if (!(e instanceof Unclear)) throw e; unclear.add(x.id); world.probe("n01.unclear"); }
          }
          return post;
        };
        const lastChecked = () => { const r = pg.db.rows("data_updated").find((x) => x.data_type === "MAINTENANCE_TRACKING_DATA_CHECKED" && x.subtype === DOMAIN); return r ? +r.updated : undefined; };
        pg.db.commitHooks.push((tx, changes) => {
          if (editing) return;
          try {
            const t = new Set(changes.map((c) => c.table.name));
            if (t.has("maintenance_tracking") || t.has("maintenance_tracking_task")) {
              check(servedEvents, "trackings were changed without events having been read", "no-events");
              const now = read(), want = expected();
              for (const x of devices) {
                if (unclear.has(x.id)) continue;
                const h = canon(shapes(now.get(x.id)));
                check(h === canon(shapes(pre.get(x.id))) || h === canon(shapes(want.get(x.id))), `the trackings of machine ${x.id} are ${h}; before the run they were ${canon(shapes(pre.get(x.id)))}, and with the events handled ${canon(shapes(want.get(x.id)))}`, "trackings");
              }
              const c = pg.db.rows("maintenance_tracking_domain_contract").find((r) => r.contract === DOMAIN);
              check(c.data_last_updated !== null && Math.abs(+c.data_last_updated - world.now) < 40000, "trackings were stored without the contract's time of data", "contract-time");
            }
            for (const c of changes) if (c.table.name === "maintenance_tracking_domain_task_mapping") check(c.op === "ins" && c.row.vals.name === "UNKNOWN" && c.row.vals.ignore === true && c.row.vals.domain === DOMAIN, `task mapping ${canon(c.row.vals)} was changed`, "mapping");
            if (t.has("data_updated")) {
              check(!hasSource || servedEvents, "data is recorded as checked although the events were not read", "checked-unread");
              check(Math.abs(lastChecked() - world.now) < 40000, "wrong check time", "checked-time");
            }
          } catch (e) { world.fail(e); }
        });
        const edit = (text) => { editing = true; try { const tx = pg.db.begin(); pg.db.execStmt(pg.db.parse(text)[0], tx, { params: [] }); pg.db.commit(tx); } finally { editing = false; } };
        const once = async (o) => {
          if (o.map && pg.db.rows("maintenance_tracking_domain_task_mapping").some((m) => m.original_id === CH[2])) edit(`UPDATE maintenance_tracking_domain_task_mapping SET name = 'BRUSHING', ignore = false WHERE original_id = '${CH[2]}'`);
          if (o.source && pg.db.rows("maintenance_tracking_domain_contract").length) edit(`UPDATE maintenance_tracking_domain_contract SET source = ${pg.db.rows("maintenance_tracking_domain_contract")[0].source ? "null" : "'Kuopio'"}`);
          pre = read(); post = null; unclear = new Set(); servedEvents = null; devicesRead = false; start = world.now; inRun = true; order = o.order;
          hasSource = !!pg.db.rows("maintenance_tracking_domain_contract").find((r) => r.contract === DOMAIN)?.source;
          const mark = world.firedFaults.length, c0 = lastChecked(), map0 = pg.db.rows("maintenance_tracking_domain_task_mapping");
          const r = await d.fns.update.invoke({});
          inRun = false;
          const fired = world.firedFaults.slice(mark).filter((f) => f.kind !== "recycle");
          world.record("run", { s: r.status, saved: r.value?.saved });
          if (r.status === "crash") world.probe("n01.crash");
          if (r.status === "error") world.probe("n01.run-failed");
          if (!hasSource) world.probe("n01.no-source");
          const now = read(), want = expected();
          const added = devices.reduce((n, x) => n + now.get(x.id).length - pre.get(x.id).length, 0);
          if (r.status === "ok") {
            check(lastChecked() !== c0, "the run succeeded without recording that the data was checked", "not-checked");
            const names = new Set(pg.db.rows("maintenance_tracking_domain_task_mapping").filter((m) => m.domain === DOMAIN).map((m) => m.original_id));
            check(devicesRead, "the run succeeded without reading the devices", "devices-unread");
            for (const x of devices) for (const e of x.events) for (const c of e.ch) check(names.has(c.trim()), `channel ${c} has no task mapping`, "unmapped");
            if (pg.db.rows("maintenance_tracking_domain_task_mapping").length > map0.length) world.probe("n01.new-channel");
            check(r.value.saved <= added, `the run says it stored ${r.value.saved} trackings, but there are ${added} new ones`, "saved-claim");
            if (!fired.length) check(r.value.saved === added && r.value.errors === 0, `without failures the run says it stored ${r.value.saved} of ${added} trackings, with ${r.value.errors} errors`, "result");
            if (r.value.errors) { world.probe("n01.device-failed"); }
            let undone = 0;
            for (const x of devices) if (!unclear.has(x.id) && canon(shapes(now.get(x.id))) !== canon(shapes(want.get(x.id)))) undone++;
            check(undone <= r.value.errors, `the trackings of ${undone} machines were not stored, but the run reports ${r.value.errors} errors`, "unreported");
          } else check(fired.length, `the run failed although nothing failed: ${r.error?.message}`, "failed");
          for (const x of devices) {
            if (unclear.has(x.id) || canon(shapes(now.get(x.id))) === canon(shapes(pre.get(x.id)))) continue;
            const fresh = now.get(x.id).filter((y) => !pre.get(x.id).some((z) => z.id === y.id));
            world.probe("n01.added");
            for (const y of fresh) check(y.sent === y.end, `tracking ${y.id} was sent at ${y.sent}`, "sent");
            if (fresh.some((y) => y.prev)) world.probe("n01.continued");
            for (const z of pre.get(x.id).filter((y) => !y.finished)) { const y = now.get(x.id).find((w) => w.id === z.id); if (y.end !== z.end) world.probe("n01.appended"); else if (y.finished) world.probe("n01.not-continued"); }
            if (fresh.length > 1) { world.probe("n01.split"); const l = fresh.sort((a, b) => a.start - b.start); for (let i = 1; i < l.length; i++) if (l[i].start === l[i - 1].end) { world.probe("n01.task-change"); if (l[i].tasks.length === l[i - 1].tasks.length) world.probe("n01.same-count-change"); } }
            if (servedEvents?.get(x.id)?.some((e) => pre.get(x.id).some((y) => y.start <= e.t && y.end >= e.t))) world.probe("n01.repeat");
          }
        };
        let fin = false;
        (async () => {
          for (const o of plan.ops) { const t = world.now; await once(o); await world.sleep(Math.max(1000, o.gap * MIN - (world.now - t))); }
          world.faultsEnabled = false;
          await once({ order: 0 });
          fin = true;
        })().catch((e) => world.fail(e));
        await world.run({ until: () => fin, deadline: world.now + 2000 * MIN });
        check(fin, "runs did not finish", "stuck");
      },
    },
  ],
};
