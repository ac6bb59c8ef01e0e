// W02: winter navigation answers show one committed state, completely, and nothing that is deleted.
import { bundle } from "../runtime.mjs";
import { LambdaFn } from "../lambda.mjs";
import { check } from "../check.mjs";
import { PgServer, Aws, Http, SECRET, Source, TYPES, schema, HOUR, DAY } from "../harness/winter.mjs";

const NAMES = Object.keys(TYPES);
const num = (x) => x ?? null;
const ts = (d) => (d === null || d === undefined ? null : +new Date(d));
/** JSON with sorted keys, times as instants. */
function canon(v, k) {
  if (v === null || v === undefined) return "null";
  if (/^(startTime|endTime)$/.test(k ?? "")) return String(ts(v));
  if (Array.isArray(v)) return `[${v.map((x) => canon(x)).join(",")}]`;
  if (typeof v === "object") return `{${Object.keys(v).sort().map((x) => `${x}:${canon(v[x], x)}`).join(",")}}`;
  return JSON.stringify(v);
}
const bag = (a) => a.map((x) => canon(x)).sort().join("|");

function model(db, now) {
  const all = (t) => db.rows(TYPES[t][0]);
  const on = (t) => all(t).filter((r) => !r.deleted);
  const locations = () => on("location").map((l) => ({
    id: l.id,
    codes: l.locode_list.split(","),
    feature: {
      type: "Feature",
      geometry: l.longitude && l.latitude ? { type: "Point", coordinates: [l.longitude, l.latitude] } : null,
      properties: {
        name: l.name, type: l.type, locodeList: l.locode_list, nationality: l.nationality, winterport: l.winterport,
        restrictions: on("restriction").filter((r) => r.location_id === l.id).map((r) => ({ startTime: r.start_time, endTime: r.end_time, textCompilation: r.text_compilation })),
        suspensions: on("port-suspension-location").filter((x) => x.location_id === l.id).flatMap((x) => on("port-suspension").filter((s) => s.id === x.suspension_id)).map((s) => ({ startTime: s.start_time, endTime: s.end_time, prenotification: s.prenotification, portsClosed: s.ports_closed, dueTo: s.due_to, specifications: num(s.specifications) })),
      },
    },
  }));
  const dirways = () => on("dirway").map((d) => ({ d, pts: on("dirwaypoint").filter((p) => p.dirway_id === d.id) })).filter((x) => x.pts.length).map(({ d, pts }) => ({ name: d.name, description: d.description, pts }));
  const within = (r, from, to) => (r.end_time !== null ? +r.start_time <= to && +r.end_time >= from : +r.start_time >= from && +r.start_time <= to);
  const sourceOf = (id) => all("source").find((s) => s.id === id);
  const vesselOf = (id) => all("vessel").find((v) => v.id === id);
  const vessel = (v, from, to) => {
    const rel = (rows) => rows.filter((r) => within(r, from, to)).flatMap((r) => { const s = sourceOf(r.icebreaker_id); return [...(r.vessel_id === v.id ? [r] : []), ...(s && s.vessel_id === v.id ? [r] : [])]; });
    const ib = (r) => { const s = sourceOf(r.icebreaker_id); return s ? vesselOf(s.vessel_id) : undefined; };
    const ref = (x) => ({ imo: num(x?.imo), mmsi: num(x?.mmsi), name: x?.name });
    const is = (x) => (x ? v.mmsi === x.mmsi || v.imo === x.imo : false);
    const activities = rel(on("activity")).map((a) => {
      const base = { type: a.type, reason: num(a.reason), publicComment: num(a.public_comment), startTime: a.start_time, endTime: a.end_time };
      const target = a.vessel_id ? vesselOf(a.vessel_id) : undefined;
      if (is(target) && sourceOf(a.icebreaker_id)) return { ...base, assistingVessel: ref(ib(a)) };
      if (is(ib(a)) && target) return { ...base, assistedVessel: ref(target) };
      return base;
    });
    const plannedAssistances = rel(on("queue")).map((q) => ({ ...(is(ib(q)) ? { assistedVessel: ref(vesselOf(q.vessel_id)) } : { assistingVessel: ref(ib(q)) }), queuePosition: q.order_num, startTime: q.start_time, endTime: q.end_time }));
    return { name: v.name, callSign: num(v.callsign), shortcode: num(v.shortcode), mmsi: num(v.mmsi), imo: num(v.imo), type: num(v.type), activities, plannedAssistances };
  };
  const vessels = (from, to) => on("vessel").map((v) => vessel(v, from, to)).filter((v) => v.activities.length || v.plannedAssistances.length);
  const check = (t) => ts(db.rows("updated_timestamp").find((x) => x.updated_name === `${TYPES[t][0].toUpperCase()}_CHECK`)?.updated_time);
  return { locations, dirways, vessel, vessels, on, check, now };
}
const locKey = (f) => canon({ ...f, lastUpdated: undefined, properties: { ...f.properties, restrictions: undefined, suspensions: undefined } }) + bag(f.properties.restrictions) + bag(f.properties.suspensions);
const vesKey = (v) => canon({ ...v, lastUpdated: undefined, activities: undefined, plannedAssistances: undefined }) + bag(v.activities) + bag(v.plannedAssistances);
const wayKey = (f) => {
  // points of equal order may come in either order
  const g = f.geometry;
  return `${f.properties.name}|${f.properties.description}|${g.type}|${(g.type === "Point" ? [g.coordinates] : g.coordinates).map((c) => c.join(",")).join(";")}`;
};
const wayKeys = ({ name, description, pts }) => {
  const groups = [...new Set(pts.map((p) => p.order_num))].sort((a, b) => a - b).map((o) => pts.filter((p) => p.order_num === o).map((p) => `${p.longitude},${p.latitude}`));
  return { head: `${name}|${description}|${pts.length === 1 ? "Point" : "LineString"}|`, groups };
};
function wayMatches(key, w) {
  if (!key.startsWith(w.head)) return false;
  const got = key.slice(w.head.length).split(";");
  let i = 0;
  for (const g of w.groups) { const part = got.slice(i, i + g.length).sort().join(";"); if (part !== [...g].sort().join(";")) return false; i += g.length; }
  return i === got.length;
}

export default {
  id: "W02",
  quickSec: 16,
  thoroughSec: 300,
  real: ["winter-navigation get-locations, get-dirways and get-vessels handlers, services and queries", "update-data handler as the concurrent writer", "pg-promise, pg-pool, lib database, secrets, last-updated"],
  stubs: ["IBNet endpoint", "PostgreSQL (read endpoint without replication lag)", "Lambda", "Secrets Manager"],
  assumptions: ["two active locations never share a locode, and two active vessels never share an IMO or MMSI", "an icebreaker's source record outlives its activities"],
  mustReach: ["w02.locations", "w02.location", "w02.vessels", "w02.vessel", "w02.dirways", "w02.not-found", "w02.error", "w02.concurrent", "w02.deleted-vessel"],
  async setup() {
    const b = (n) => `marine/winter-navigation/src/lambda/${n}/${n}.ts`;
    return { code: await bundle({ update: b("update-data"), locations: b("get-locations"), vessels: b("get-vessels"), dirways: b("get-dirways") }) };
  },
  scenarios: [
    {
      name: "reads",
      gen(rng, tier) {
        const focus = rng.pick([NAMES, NAMES, ["location", "restriction", "port-suspension", "port-suspension-location"], ["vessel", "source", "activity", "queue"], ["dirway", "dirwaypoint"]]);
        const ops = [];
        const k = rng.int(5, tier === "thorough" ? 90 : 45);
        for (let i = 0; i < k; i++) ops.push({ kind: "change", type: rng.pick(focus), n: rng.int(0, 4), s: rng.int(0, 40), del: rng.bool(0.25), late: rng.bool(0.3) });
        if (rng.bool(0.3)) { const n = rng.int(0, 4); ops.push({ kind: "change", type: "vessel", n, s: rng.int(0, 40), del: false, late: false }, { kind: "change", type: "vessel", n, s: 0, del: true, late: rng.bool(0.6) }); }
        const r = rng.int(1, 5);
        for (let i = 0; i < r; i++) { const gone = ops.filter((o) => o.type === "vessel" && o.del); ops.push({ kind: "read", what: rng.pick(["locations", "location", "vessels", "vessel", "vessel", "dirways"]), n: gone.length && rng.bool(0.4) ? rng.pick(gone).n : rng.int(0, 5), by: rng.pick(["imo", "mmsi"]), from: rng.pick([undefined, undefined, -400, -100, -17, 0]), to: rng.pick([undefined, undefined, -50, 3]), at: rng.int(0, 2500), quiet: rng.bool(0.5) }); }
        // the same question before and after the data has changed
        if (rng.bool(0.4)) for (const o of ops.filter((x) => x.kind === "read" && !x.quiet)) ops.push({ ...o, quiet: true });
        if (rng.bool(0.25)) {
          const n = rng.int(0, 4), type = rng.pick(["vessel", "location"]);
          for (const o of ops) if (o.type === type && o.n === n) o.late = true;
          ops.push({ kind: "change", type, n, s: rng.int(0, 40), del: false, late: true });
          const q = { kind: "read", what: type, n, by: rng.pick(["imo", "mmsi"]), at: rng.int(0, 150), quiet: false };
          ops.push(q, { ...q, quiet: true });
        }
        return { ops, cfg: {}, faults: rng.bool(0.4) ? {} : undefined };
      },
      faults: { "db.connect.before": 0.03, "db.before": 0.008, "db.lost": 0.008, "db.error": 0.008, "secrets.before": 0.03, crash: 0.004, slow: 0.003, recycle: 0.1 },
      maxEvents: 60000,
      async run(world, plan, ctx) {
        const pg = new PgServer(world);
        const aws = new Aws(world);
        const http = new Http(world);
        aws.secrets.set("sec", JSON.stringify(SECRET));
        schema(pg.db);
        const base = world.now;
        const src = new Source(base);
        src.route(http, world);
        const env = { SECRET_ID: "sec", AWS_REGION: "eu-west-1" };
        const mk = (n, svc) => new LambdaFn(world, n, ctx.code[n], { env, svc: { pg, aws, ...svc }, timeoutSec: 60 });
        const update = mk("update", { fetch: http.fetch });
        const fns = { locations: mk("locations"), vessels: mk("vessels"), dirways: mk("dirways") };
        const changes = plan.ops.filter((o) => o.kind === "change");
        for (const c of changes) if (!c.late) src.change(c);
        const saved = world.faultsEnabled;
        world.faultsEnabled = false;
        let ready;
        update.invoke({}).then((r) => { ready = r; });
        await world.run({ until: () => ready, deadline: world.now + HOUR });
        check(ready?.status === "ok", `the first update failed: ${ready?.error?.message}`, "update-failed");
        world.faultsEnabled = saved;
        const reads = plan.ops.filter((o) => o.kind === "read");
        // every committed state while a read is in progress
        const open = new Set();
        pg.db.commitHooks.push(() => { for (const r of open) r.snap(); });
        const judge = (o, res, cand, deleted) => {
          if (res.status !== "ok") { world.probe("w02.error"); if (!world.firedFaults.some((f) => f.kind !== "recycle")) check(false, `${o.what} failed although nothing failed: ${res.error?.message}`, "failed"); return; }
          const { status, body, timestamp } = res.value;
          const text = Buffer.from(body, "base64").toString();
          if (status === 500) { world.probe("w02.error"); check(world.firedFaults.some((f) => f.kind !== "recycle"), `${o.what} answered 500 although nothing failed`, "failed"); return; }
          if (status === 404) { world.probe("w02.not-found"); if (deleted) world.probe("w02.deleted-vessel"); }
          const hit = cand.some((c) => c.ok(status, status === 200 ? JSON.parse(text) : text, timestamp));
          check(hit, `${o.what} ${JSON.stringify({ n: o.n, by: o.by, from: o.from, to: o.to })} answered ${status} ${text.slice(0, 700)}, which no committed state explains; e.g. expected ${cand[cand.length - 1].show().slice(0, 700)}`, `wrong:${o.what}${deleted ? ":deleted" : ""}`);
          world.probe(`w02.${o.what}`);
          if (cand.length > 1) world.probe("w02.concurrent");
        };
        const read = (o) => new Promise((done) => {
          const from = o.from === undefined ? undefined : base + o.from * HOUR, to = o.to === undefined ? undefined : base + o.to * HOUR;
          const cand = [];
          let deletedTarget = false;
          const snap = () => {
            const m = model(pg.db, world.now);
            const stamps = { c: m.check(o.what.startsWith("loc") ? "location" : o.what.startsWith("ves") ? "vessel" : "dirway") };
            let c;
            if (o.what === "locations") { const want = m.locations().map((l) => locKey(l.feature)).sort().join("\n"); c = { ok: (s, b) => s === 200 && b.features.map(locKey).sort().join("\n") === want, show: () => want }; }
            else if (o.what === "location") { const code = `FI${o.n}A`; const l = m.locations().find((x) => x.codes.includes(code)); const want = l && locKey(l.feature); c = { ok: (s, b) => (l ? s === 200 && locKey(b) === want : s === 404), show: () => want ?? "404" }; }
            else if (o.what === "dirways") { const want = m.dirways().map(wayKeys); c = { ok: (s, b) => { if (s !== 200 || b.features.length !== want.length) return false; const left = b.features.map(wayKey); for (const w of want) { const i = left.findIndex((k) => wayMatches(k, w)); if (i < 0) return false; left.splice(i, 1); } return true; }, show: () => JSON.stringify(want) }; }
            else if (o.what === "vessels") { const want = m.vessels(from ?? base - 7 * DAY + 1, to ?? Infinity).map(vesKey).sort().join("\n"); c = { ok: (s, b) => s === 200 && b.vessels.map(vesKey).sort().join("\n") === want, show: () => want }; }
            else { const id = o.by === "imo" ? 9000000 + o.n : 230000000 + o.n; const v = m.on("vessel").find((x) => x.imo === id || x.mmsi === id); if (!v && pg.db.rows("wn_vessel").some((x) => x.imo === id || x.mmsi === id)) deletedTarget = true; const want = v && vesKey(m.vessel(v, from ?? -Infinity, to ?? Infinity)); c = { ok: (s, b) => (v ? s === 200 && vesKey(b) === want : s === 404), show: () => want ?? "404" }; }
            cand.push({ ...c, ...stamps });
          };
          const r = { snap };
          snap();
          open.add(r);
          const ev = {};
          if (o.what === "location") ev.locode = `FI${o.n}A`;
          if (o.what === "vessel") ev.vesselId = String(o.by === "imo" ? 9000000 + o.n : 230000000 + o.n);
          if (o.what.startsWith("vessel")) { if (from !== undefined) ev.activeFrom = new Date(from).toISOString(); if (to !== undefined) ev.activeTo = new Date(to).toISOString(); }
          const fn = fns[o.what === "location" ? "locations" : o.what === "vessel" ? "vessels" : o.what];
          fn.invoke(ev).then((res) => { open.delete(r); judge(o, res, cand, deletedTarget); done(); }).catch((e) => world.fail(e));
        });
        let left = reads.length;
        const t0 = world.now;
        for (const o of reads.filter((x) => !x.quiet)) world.after(o.at, "reader", () => { read(o).then(() => left--); });
        let updated = false;
        world.after(200, "updater", () => { for (const c of changes) if (c.late) src.change(c); update.invoke({}).then(() => { updated = true; }); });
        await world.run({ until: () => updated && left === reads.filter((x) => x.quiet).length, deadline: t0 + HOUR });
        for (const o of reads.filter((x) => x.quiet)) read(o).then(() => left--);
        await world.run({ until: () => !left, deadline: world.now + HOUR });
        check(!left, "reads did not finish", "stuck");
      },
    },
  ],
};
