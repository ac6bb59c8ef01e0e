// A01: ATON faults mirror their sources domain by domain, atomically, with an honest check time, and are served by state and age.
import { bundle } from "../runtime.mjs";
import { WIRINGS } from "../apps.mjs";
import { deploy } from "../lambda.mjs";
import { check } from "../check.mjs";
import { PgServer } from "../pgserver.mjs";
import { Aws, Http } from "../services.mjs";

const HOUR = 3600000;
const SECRET = { username: "u", password: "db-pass-of-x", host: "db-rw:1/x", ro_host: "db-ro:1/x", proxy_host: "db-rw:1/x", proxy_ro_host: "db-ro:1/x" };
const STATES = ["Avoin", "Korjattu", "Peruttu", "Aiheeton", "Kirjattu"];
const TYPES = ["Valo pimeä", "Sijainti väärä", "Muu"];
const DOM = { c: "C_NA", nc: "NC_NA" };
// the same instant written in Finnish time, with the offset worked out by ICU rather than by the library under test
const fmt = new Intl.DateTimeFormat("sv-SE", { timeZone: "Europe/Helsinki", year: "numeric", month: "2-digit", day: "2-digit", hour: "2-digit", minute: "2-digit", second: "2-digit", hourCycle: "h23" });
const finnish = (t) => (t === null ? null : fmt.format(new Date(t)));
const lang = { FI: "name_fi", SV: "name_sv", EN: "name_en" };

export default {
  id: "A01",
  quickSec: 16,
  thoroughSec: 240,
  real: ["aton-faults update-faults and get-faults handlers, services, source client (with ky) and fault DAO", "pg-promise, pg-pool, lib database, secrets, last-updated, date-fns time zone code", "synthesised timeout and sources of the update function"],
  stubs: ["fault sources behind fetch", "PostgreSQL", "Lambda and schedule", "Secrets Manager", "wkx (geometry decoding)"],
  assumptions: ["runs do not overlap (one every ten minutes, 60 s limit)", "only times, state and the fixed flag of a fault change", "no time falls into the hour repeated at the end of daylight saving"],
  mustReach: ["a01.inserted", "a01.changed", "a01.one-failed", "a01.refused", "a01.crash", "a01.registered", "a01.read", "a01.read-old", "a01.back-registered", "a01.summer"],
  async setup() {
    return { wiring: await WIRINGS.aton(), code: await bundle({ update: "marine/aton-faults/src/lambda/update-faults/update-faults.ts", get: "marine/aton-faults/src/lambda/get-faults/get-faults.ts" }) };
  },
  scenarios: [
    {
      name: "faults",
      gen(rng, tier) {
        const rounds = rng.int(1, tier === "thorough" ? 8 : 4);
        const ops = [];
        for (let r = 0; r < rounds; r++) ops.push({
          gap: rng.pick([600, 600, 7200, 86400]),
          changes: Array.from({ length: rng.pick([0, 1, 2, 5]) }, () => ({ d: rng.bool() ? "c" : "nc", id: rng.int(1, 4), st: rng.int(0, 4), type: rng.int(0, 2), entry: rng.int(-300, 0) * 24, fixed: rng.pick([null, null, -1, -5, -30, -167, -169, -400]), mid: rng.bool(0.1) ? rng.int(1, 3000) : 0 })),
          bad: rng.bool(0.08) ? rng.pick(["c", "nc"]) : undefined,
          read: rng.bool(0.7) ? { language: rng.pick(["FI", "SV", "EN", "en", "", "XX"]), hours: rng.pick([undefined, "", "2", "24", "168", "500"]) } : undefined,
        });
        // the same list asked for again soon after it has changed
        if (rng.bool(0.4)) {
          const read = { language: rng.pick(["FI", "SV", ""]), hours: rng.pick([undefined, "24", "500"]) };
          for (const o of ops) { o.read = read; if (rng.bool(0.7)) o.gap = rng.pick([5, 20, 45]); }
        }
        return { ops, cfg: {}, faults: rng.bool(0.3) ? {} : undefined };
      },
      faults: { "db.connect.before": 0.03, "db.before": 0.02, "db.lost": 0.02, "db.error": 0.03, "secrets.before": 0.04, "http.before": 0.05, "http.lost": 0.03, "http.5xx": 0.08, "http.truncated": 0.05, crash: 0.01, slow: 0.02, recycle: 0.2 },
      maxEvents: 40000,
      async run(world, plan, ctx) {
        const pg = new PgServer(world);
        const aws = new Aws(world);
        const http = new Http(world);
        pg.slowMs = 20000;
        http.slowMs = 15000;
        aws.secrets.set("sec", JSON.stringify(SECRET));
        const names = "name_fi text primary key, name_sv text not null, name_en text not null";
        pg.db.table("aton_fault_type", names);
        pg.db.table("aton_fault_state", names);
        pg.db.table("aton_type", names);
        pg.db.table("area", "area_number int primary key, description_fi text not null, description_sv text not null, description_en text not null");
        pg.db.table("aton_fault", "id bigint primary key, entry_timestamp timestamptz not null, fixed_timestamp timestamptz, state text not null, type text not null, domain text not null, fixed boolean not null, aton_id int not null, aton_name_fi text not null, aton_name_sv text not null, aton_type_fi text not null, fairway_number int not null, fairway_name_fi text not null, fairway_name_sv text not null, area_number int not null, geometry geometry not null, fk (type) -> aton_fault_type(name_fi), fk (state) -> aton_fault_state(name_fi), fk (aton_type_fi) -> aton_type(name_fi), fk (area_number) -> area(area_number)");
        pg.db.table("updated_timestamp", "updated_name text primary key, updated_time timestamptz not null, updated_by text not null");
        const tr = (n) => ({ name_fi: n, name_sv: `${n} sv`, name_en: `${n} en` });
        pg.db.seed("aton_fault_type", TYPES.map(tr));
        pg.db.seed("aton_fault_state", STATES.map(tr));
        pg.db.seed("aton_type", [tr("Poiju")]);
        pg.db.seed("area", [1, 2].map((n) => ({ area_number: n, description_fi: `alue ${n}`, description_sv: `område ${n}`, description_en: `area ${n}` })));
        const src = { c: new Map(), nc: new Map() };
        const bad = { c: false, nc: false };
        let answers = []; // full answers of the current run, in order
        let runStart = world.now;
        for (const d of ["c", "nc"]) http.route(`faults-${d}`, (r) => r.url === `https://aton.example/${d}`, () => {
          const list = [...src[d].values()].map((v) => ({ ...v }));
          answers.push({ d, list, t: world.now, bad: bad[d] });
          const features = list.map((v) => ({ type: "Feature", geometry: { type: "Point", coordinates: [v.lon, v.lat] }, properties: { ID: v.id, FAULT_ENTRY_TIMESTAMP: finnish(v.entry), FAULT_FIXED_TIMESTAMP: finnish(v.fixed), FAULT_STATE: v.state, FAULT_TYPE: v.type, TL_NUMERO: v.n, TL_NIMI_FI: `Nimi ä ${v.n}`, TL_NIMI_SE: `Namn å ${v.n}`, TL_TYYPPI_FI: "Poiju", VAYLA_JNRO: 7, VAYLA_NIMI_FI: "Väylä", VAYLA_NIMI_SE: "Farled", MERIALUE_NRO: v.area, FAULT_FIXED: v.fixed === null ? 0 : 1 } }));
          if (bad[d]) features.splice(Math.floor(features.length / 2), 0, { type: "Feature", geometry: { type: "Point", coordinates: [20, 60] }, properties: { ...(features[0]?.properties ?? { FAULT_ENTRY_TIMESTAMP: finnish(world.now), FAULT_FIXED_TIMESTAMP: null, TL_NUMERO: 1, TL_NIMI_FI: "x", TL_NIMI_SE: "x", TL_TYYPPI_FI: "Poiju", VAYLA_JNRO: 1, VAYLA_NIMI_FI: "x", VAYLA_NIMI_SE: "x", MERIALUE_NRO: 1, FAULT_FIXED: 0 }), ID: -999, FAULT_STATE: "Avoin", FAULT_TYPE: "Tuntematon" } });
          return { status: 200, body: JSON.stringify({ type: "FeatureCollection", features }), headers: { "content-type": "application/json" } };
        });
        const d = deploy(world, ctx.wiring, { aws, fns: { update: { re: /update-?faults/i, code: ctx.code.update, svc: { pg, aws, http, fetch: http.fetch } } } });
        const { LambdaFn } = await import("../lambda.mjs");
        const get = new LambdaFn(world, "get", ctx.code.get, { env: d.fns.update.env, svc: { pg, aws, http, fetch: http.fetch } });
        const first = new Map(); // id → version it was first stored with
        const expected = (v) => ({ entry_timestamp: v.entry, fixed_timestamp: v.fixed, state: v.state, fixed: v.fixed !== null });
        const apply = (c) => {
          const id = -(c.id + (c.d === "c" ? 0 : 100)) * 1000;
          const hour = Math.floor(world.now / HOUR) * HOUR;
          const old = src[c.d].get(id);
          const v = { id, domain: DOM[c.d], state: STATES[c.st], entry: hour + c.entry * HOUR + 12345000 % HOUR, fixed: c.fixed === null ? null : hour + c.fixed * HOUR, type: old?.type ?? TYPES[c.type], n: c.id * 10, area: old?.area ?? (c.id % 2) + 1, lon: 20 + c.id / 8, lat: 60 + c.id / 8 };
          // the repeated hour of the year cannot be told from its name
          for (const k of ["entry", "fixed"]) if (v[k] !== null) while (finnish(v[k]) === finnish(v[k] + HOUR) || finnish(v[k]) === finnish(v[k] - HOUR)) v[k] -= 3 * HOUR;
          if (finnish(v.entry).slice(11) !== finnish(v.entry - 180 * 24 * HOUR).slice(11)) world.probe("a01.summer");
          if (old && old.state !== "Kirjattu" && v.state === "Kirjattu") world.probe("a01.back-registered");
          src[c.d].set(id, v);
        };
        pg.db.commitHooks.push((tx, changes) => {
          try {
            const faults = changes.filter((c) => c.table.name === "aton_fault");
            const upd = changes.filter((c) => c.table.name === "updated_timestamp" && c.op === "ins");
            for (const c of faults) check(c.kind !== "delete", `fault ${c.row.vals.id} was removed`, "removed");
            if (!faults.length && !upd.length) return;
            check(upd.length === 1 && upd[0].row.vals.updated_name === "ATON_FAULTS_CHECK", `faults were stored ${upd.length ? "with another update time" : "without the check time"}`, "no-check-time");
            const ins = faults.filter((c) => c.op === "ins").map((c) => c.row.vals);
            const doms = new Set(ins.map((r) => r.domain));
            check(doms.size <= 1, "two domains in one transaction", "domains");
            // the answers of this run that this commit can be the result of
            const fits = answers.filter((a) => {
              if (a.bad || (doms.size && DOM[a.d] !== [...doms][0])) return false;
              const want = a.list.filter((v) => v.state !== "Kirjattu");
              const is = (r, v) => Number(r.id) === v.id && Object.entries(expected(v)).every(([k, x]) => (r[k] instanceof Date ? +r[k] : r[k]) === x);
              return ins.every((r) => want.some((v) => is(r, v))) && want.every((v) => pg.db.rows("aton_fault").some((r) => is(r, v)));
            });
            check(fits.length, `stored ${ins.length} faults (${ins.map((r) => `${r.id}:${r.state}`)}), which no complete answer of this run lists: ${answers.map((a) => `${a.d}[${a.list.map((v) => `${v.id}:${v.state}`)}]${a.bad ? " with an unknown type" : ""}`).join(" ") || "no answer at all"}`, "not-the-answer");
            const t = +upd[0].row.vals.updated_time;
            check(t >= runStart - 1 && fits.some((a) => t <= a.t), `check time ${new Date(t).toISOString()} lies outside the run or after its answer`, "check-time");
            for (const a of fits) a.stored = true;
            if (fits.some((a) => a.list.some((v) => v.state === "Kirjattu"))) world.probe("a01.registered");
            for (const r of ins) {
              const v = fits[0].list.find((x) => x.id === Number(r.id));
              if (first.has(v.id)) world.probe("a01.changed"); else { first.set(v.id, { ...v }); world.probe("a01.inserted"); }
              const f = first.get(v.id);
              check(r.type === f.type && r.aton_id === f.n && r.aton_name_fi === `Nimi ä ${f.n}` && r.aton_name_sv === `Namn å ${f.n}` && r.area_number === f.area && r.fairway_number === 7 && r.geometry.g.coordinates[0] === f.lon && r.geometry.g.coordinates[1] === f.lat, `content of fault ${v.id} differs: ${JSON.stringify(r)}`, "content");
            }
          } catch (e) { world.fail(e); }
        });
        const read = async (q) => {
          const ev = {};
          if (q.language !== "") ev.language = q.language; else ev.language = "";
          if (q.hours !== undefined) ev.fixed_in_hours = q.hours;
          const before = world.firedFaults.length;
          const t0 = world.now;
          const r = await get.invoke(ev);
          if (world.firedFaults.slice(before).some((f) => f.kind !== "recycle")) return;
          check(r.status === "ok" && r.value.status === 200, `the fault list answered ${r.status} ${r.value?.status}`, "read-failed");
          const body = JSON.parse(r.value.body.startsWith("{") ? r.value.body : Buffer.from(r.value.body, "base64").toString());
          const hours = Number(q.hours || 168), L = lang[(q.language || "EN").toUpperCase()] ?? "name_en";
          const suffix = L === "name_fi" ? "" : ` ${L.slice(5)}`;
          const got = new Map(body.features.map((f) => [f.properties.id, f]));
          check(got.size === body.features.length, "a fault is listed twice", "read-twice");
          for (const row of pg.db.rows("aton_fault")) {
            const fixed = row.fixed_timestamp && +row.fixed_timestamp;
            const id = Number(row.id);
            if (fixed && Math.abs(fixed - (t0 - hours * HOUR)) < 120000) { got.delete(id); continue; }
            const due = !fixed || fixed >= t0 - hours * HOUR;
            check(due === got.has(id), `fault ${id} (fixed ${fixed ? new Date(fixed).toISOString() : "never"}) is ${due ? "missing from" : "part of"} the list for ${hours} hours`, "read-set");
            if (!due) { world.probe("a01.read-old"); continue; }
            const p = got.get(id).properties;
            check(p.state === row.state + suffix && p.type === row.type + suffix && p.aton_type === `Poiju${suffix}` && p.domain === row.domain && p.fixed === row.fixed && +new Date(p.entry_timestamp) === +row.entry_timestamp && (p.fixed_timestamp === null ? !fixed : +new Date(p.fixed_timestamp) === fixed) && p.aton_id === row.aton_id && p.area_number === row.area_number && JSON.stringify(got.get(id).geometry.coordinates) === JSON.stringify(row.geometry.g.coordinates), `fault ${id} is served as ${JSON.stringify(got.get(id))}`, "read-content");
            got.delete(id);
            world.probe("a01.read");
          }
          check(!got.size, `the list has faults that are not stored: ${[...got.keys()]}`, "read-foreign");
          const u = pg.db.rows("updated_timestamp").find((x) => x.updated_name === "ATON_FAULTS_CHECK");
          check((u ? +u.updated_time : null) === (body.lastUpdated ? +new Date(body.lastUpdated) : null), `the list says it was checked ${body.lastUpdated}, it was ${u?.updated_time?.toISOString?.()}`, "read-time");
        };
        const once = async (o) => {
          bad.c = o.bad === "c"; bad.nc = o.bad === "nc";
          for (const c of o.changes) if (c.mid) world.after(c.mid, "source", () => apply(c)); else apply(c);
          runStart = world.now;
          answers = [];
          const mark = world.firedFaults.length;
          const r = await d.fns.update.invoke({});
          const fired = world.firedFaults.slice(mark).filter((f) => f.kind !== "recycle");
          world.record("run", { s: r.status, n: answers.length });
          if (r.status === "crash") world.probe("a01.crash");
          const onlyHttp = fired.every((f) => f.kind !== "crash" && /http\.faults-/.test(f.site));
          if (o.bad) world.probe("a01.refused");
          if (onlyHttp && !o.bad) {
            check(r.status === "ok", `run failed although at most a source failed: ${r.error?.message}`, "failed");
            for (const k of ["c", "nc"]) {
              if (fired.some((f) => f.site.includes(`http.faults-${k}`))) { world.probe("a01.one-failed"); continue; }
              check(answers.some((a) => a.d === k && a.stored), `the faults of ${DOM[k]} were not stored although nothing about them failed`, "not-stored");
            }
          }
          if (r.status === "ok" && !fired.length) {
            for (const a of answers.filter((x) => !x.bad)) check(a.stored, `a run succeeded without storing the faults of ${DOM[a.d]}`, "lost");
            check(!answers.some((a) => a.bad), "a run with an unknown fault type succeeded", "unknown-type");
          }
          if (o.read) await read(o.read);
        };
        let fin = false;
        (async () => {
          for (const o of plan.ops) { await once(o); await world.sleep(o.gap * 1000); }
          world.faultsEnabled = false;
          await once({ changes: [], read: { language: "FI" } });
          fin = true;
        })().catch((e) => world.fail(e));
        await world.run({ until: () => fin, deadline: world.now + 60 * 24 * HOUR });
        check(fin, "runs did not finish", "stuck");
      },
    },
  ],
};
