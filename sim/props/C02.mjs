// C02: counting sites mirror the source, and queries answer with one stored state.
import { bundle } from "../runtime.mjs";
import { WIRINGS } from "../apps.mjs";
import { deploy, LambdaFn } from "../lambda.mjs";
import { check } from "../check.mjs";
import { PgServer } from "../pgserver.mjs";
import { Aws, Http } from "../services.mjs";
import { DB, DIRS, GRANS, MODES, DAY, HOUR, MIN, tables, updatedAt } from "../harness/counting.mjs";

const NAMES = ["Baana", "Kaisaniemi, itä", 'Töölö "2"', "O'Hara", "$1 $& x", " väli ", "a\nb", "Kuja"];
const canon = (v) => JSON.stringify(v, (_k, x) => (x && typeof x === "object" && !Array.isArray(x) ? Object.fromEntries(Object.entries(x).sort(([a], [b]) => (a < b ? -1 : 1))) : x));
const sec = (d) => (d === null ? null : `${new Date(d).toISOString().slice(0, 19)}Z`);

export default {
  id: "C02",
  quickSec: 15,
  thoroughSec: 240,
  real: ["counting-site update-metadata, get-sites, get-values and get-values-csv handlers, services, source client (with ky) and DAO", "pg-promise, pg-pool, lib database, secrets and LambdaResponse", "synthesised timeout, concurrency and environment"],
  stubs: ["counting source behind fetch", "kysely's SQL compiler, @std/csv", "PostgreSQL with read-only connection", "Lambda, API and schedule", "Secrets Manager"],
  assumptions: ["the source lists a site once", "metadata updates do not overlap (one every hour, 60 s limit)", "Lambda runs in UTC"],
  mustReach: ["c02.added", "c02.updated", "c02.removed", "c02.kept-removed", "c02.returned", "c02.partial", "c02.crash", "c02.checked", "c02.sites", "c02.values", "c02.csv", "c02.not-found", "c02.bad-request", "c02.during-update", "c02.500", "c02.refused"],
  async setup() {
    const dir = "road/counting-site/src/lambda";
    return { wiring: await WIRINGS.countingSite(), code: await bundle({ meta: `${dir}/update-metadata/update-metadata.ts`, sites: `${dir}/get-sites/get-sites.ts`, values: `${dir}/get-values/get-values.ts`, csv: `${dir}/get-values-csv/get-values-csv.ts` }) };
  },
  scenarios: [
    {
      name: "sites",
      gen(rng, tier) {
        const site = () => ({ name: rng.int(0, NAMES.length - 1), desc: rng.pick(["", "kuvaus", null]), cid: rng.pick(["", "C1", null]), lat: rng.pick([60.1, 65, 60]), lon: rng.pick([24, 25.5]), g: rng.pick([undefined, 0, 1]), dir: rng.bool(), tm: rng.sample([0, 1, 2], rng.int(0, 3)) });
        const ops = [];
        const n = rng.int(1, tier === "thorough" ? 30 : 12);
        for (let i = 0; i < n; i++) {
          const k = rng.next?.() ?? rng.int(0, 99) / 100;
          if (k < 0.4) ops.push({ kind: "update", answer: rng.pick(["ok", "ok", "ok", "ok", "ok", "500", "junk"]), queries: rng.bool(0.4) ? rng.int(1, 3) : 0, q: Array.from({ length: 3 }, () => query(rng)), gap: rng.pick([1, 1, 3, 30]) });
          else if (k < 0.6) {
            ops.push({ kind: "source", id: rng.int(1, 5), site: rng.bool(0.65) ? site() : null });
            // a site leaves and comes back
            if (rng.bool(0.12)) for (const st of [null, site()]) ops.push({ kind: "source", id: 1, site: st }, { kind: "update", answer: "ok", queries: 0, q: [], gap: 1 });
            // an update that may fail half-way is followed by another of the same list
            if (rng.bool(0.4)) for (let j = rng.int(2, 3); j > 0; j--) ops.push({ kind: "update", answer: "ok", queries: 0, q: [], gap: 1 });
          }
          else if (k < 0.75) {
            const o = { kind: "data", id: rng.int(1, 5), m: rng.int(0, 2), d: rng.int(0, 2), g: rng.int(0, 2), at: rng.pick([0, 1, 23.99, 24, 25, 47.9, 48, 24 * 2, 24 * 3, 24 * 5, 24 * 30.9]), c: rng.int(0, 90), last: rng.bool(0.3) };
            // the same question before and after the data has changed
            const same = rng.bool(0.4) ? { kind: "query", q: o.at >= 48 || rng.bool() ? { of: "csv", p: { year: 2025, month: o.at >= 48 ? 3 : 2, siteId: o.id } } : { of: "values", p: { date: o.at < 24 ? "2025-02-27" : "2025-02-28", siteId: o.id } } } : null;
            if (same) ops.push(same);
            ops.push(o);
            if (same) ops.push(same);
          }
          else ops.push({ kind: "query", q: query(rng) });
        }
        return { ops, cfg: { first: Array.from({ length: rng.int(0, 4) }, () => site()) }, faults: rng.bool(0.35) ? {} : rng.bool(0.3) ? { "db.error": 0.12, "db.lost": 0.04 } : undefined };
      },
      faults: { "db.connect.before": 0.03, "db.before": 0.03, "db.lost": 0.03, "db.error": 0.04, "secrets.before": 0.03, "secrets.lost": 0.02, "http.before": 0.04, "http.lost": 0.04, "http.5xx": 0.08, "http.truncated": 0.04, crash: 0.01, slow: 0.02, recycle: 0.1 },
      maxEvents: 60000,
      async run(world, plan, ctx) {
        const pg = new PgServer(world);
        const aws = new Aws(world);
        const http = new Http(world);
        pg.slowMs = 15000;
        http.slowMs = 15000;
        aws.secrets.set("sec", JSON.stringify({ ...DB, "cs.url": "https://eco.example", "cs.apiKey": "cs-key-8841" }));
        tables(pg);
        // a site of another domain, and its data
        pg.db.seed("cs2_site", [{ id: 50, name: "Muu", domain: "Oulu", description: "", custom_id: "", latitude: 65, longitude: 25.5, granularity: "PT1H", directional: false, travel_modes: ["bike"], removed_timestamp: null, last_data_timestamp: null, modified: new Date(world.now - DAY) }]);
        const M0 = Date.UTC(2025, 1, 27); // the data lies around the end of February 2025
        const source = new Map(plan.cfg.first.map((s, i) => [i + 1, s]));
        const apiSite = (id, s) => ({ id, name: NAMES[s.name], description: s.desc, customId: s.cid, location: { lat: s.lat, lon: s.lon }, granularity: s.g === undefined ? undefined : GRANS[s.g], travelModes: s.tm.map((x) => MODES[x]), directional: s.dir });
        let served = null, answer = "ok", inRun = false, returnedSince = new Set();
        http.route("sites", (r) => r.url === "https://eco.example/api/v2/sites?include=domain", (r) => {
          if (!inRun) return { status: 200, body: [] };
          check(r.headers["x-api-key"] === "cs-key-8841", "request without the key", "key");
          if (answer === "500") return { status: 500, body: "down" };
          if (answer === "junk") return { status: 200, body: "{not json" };
          served = [...source].map(([id, s]) => apiSite(id, s));
          return { status: 200, body: served };
        });
        http.route("unknown", () => true, (r) => { check(false, `request to ${r.url}`, "unknown-url"); });
        const svc = { pg, aws, http, fetch: http.fetch };
        const d = deploy(world, ctx.wiring, { aws, fns: { meta: { re: /UpdateMetadata/, code: ctx.code.meta, svc } } });
        const api = Object.fromEntries(["sites", "values", "csv"].map((k) => [k, new LambdaFn(world, `get-${k}`, ctx.code[k], { env: { SECRET_ID: "sec", DB_APPLICATION: "T" }, svc, timeoutSec: 60 })]));
        const state = () => ({ sites: pg.db.rows("cs2_site"), data: pg.db.rows("cs2_data") });
        const states = [state()];
        const own = (rows) => rows.filter((r) => r.domain === "Fintraffic");
        const same = (row, s) => row.name === s.name && row.description === (s.description ?? null) && row.custom_id === (s.customId ?? null) && Number(row.latitude) === s.location.lat && Number(row.longitude) === s.location.lon && row.granularity === (s.granularity ?? null) && row.directional === s.directional && canon(row.travel_modes) === canon(s.travelModes);
        let editing = false;
        pg.db.commitHooks.push((tx, changes) => {
          try {
            const prev = states.at(-1), now = state();
            states.push(now);
            if (editing) return;
            for (const c of changes) check(c.table.name === "cs2_site" || c.table.name === "data_updated", `${c.table.name} was changed`, "other-table");
            const old = new Map(prev.sites.map((r) => [r.id, r]));
            for (const r of now.sites) {
              const o = old.get(r.id);
              if (o && canon({ ...o, modified: 0 }) === canon({ ...r, modified: 0 })) continue;
              check(r.domain === "Fintraffic" && (!o || o.domain === "Fintraffic"), `site ${r.id} of another domain was changed`, "other-domain");
              check(!o || +(o.last_data_timestamp ?? 0) === +(r.last_data_timestamp ?? 0), `time of last data of site ${r.id} was changed`, "last-data");
              const s = served?.find((x) => x.id === r.id);
              if (s) {
                check(same(r, s), `site ${r.id} was stored as ${canon(r)}, the source has ${canon(s)}`, "content");
                check(r.removed_timestamp === null, `site ${r.id} is marked as removed although the source has it`, "removed-wrongly");
                if (!o) world.probe("c02.added"); else if (o.removed_timestamp !== null) world.probe("c02.returned"); else world.probe("c02.updated");
              } else {
                check(served && o, `site ${r.id} was ${o ? "changed" : "added"} without the source having it`, "no-source");
                check(o.removed_timestamp === null, `site ${r.id} was removed at ${o.removed_timestamp?.toISOString()}, but that was changed to ${r.removed_timestamp?.toISOString()}`, "removal-time");
                check(r.removed_timestamp !== null && Math.abs(+r.removed_timestamp - world.now) < 20000 && canon({ ...o, modified: 0, removed_timestamp: 0 }) === canon({ ...r, modified: 0, removed_timestamp: 0 }), `site ${r.id} left the source, but became ${canon(r)}`, "removed");
                world.probe("c02.removed");
              }
            }
            check(prev.sites.every((r) => now.sites.some((x) => x.id === r.id)), "a site was deleted", "deleted");
            if (changes.some((c) => c.table.name === "data_updated")) {
              check(Math.abs(updatedAt(pg, "COUNTING_SITES_METADATA_CHECK") - world.now) < 40000, "wrong check time", "check-time");
              mirrored("is recorded as checked");
              world.probe("c02.checked");
            }
          } catch (e) { world.fail(e); }
        });
        const mirrored = (when) => {
          check(served, `the metadata ${when} without an answer of the source`, "checked-unread");
          const rows = own(pg.db.rows("cs2_site"));
          for (const s of served) { const r = rows.find((x) => x.id === s.id); check(r && same(r, s) && r.removed_timestamp === null, `the metadata ${when}, but site ${s.id} is ${canon(r)} and the source has ${canon(s)}`, "not-mirrored"); }
          for (const r of rows) if (!served.some((s) => s.id === r.id)) { check(r.removed_timestamp !== null, `the metadata ${when}, but site ${r.id}, which the source does not have, is not marked as removed`, "not-removed"); world.probe("c02.kept-removed"); }
        };
        const edit = (text, params) => { editing = true; try { const tx = pg.db.begin(); pg.db.execStmt(pg.db.parse(text)[0], tx, { params }); pg.db.commit(tx); } finally { editing = false; } };
        const feature = (r) => ({ type: "Feature", geometry: { type: "Point", coordinates: [Number(r.longitude), Number(r.latitude)] }, properties: { id: r.id, name: r.name, domain: r.domain, description: r.description, customId: r.custom_id, granularity: r.granularity, directional: r.directional, travelModes: r.travel_modes, lastDataTimestamp: sec(r.last_data_timestamp), removedTimestamp: sec(r.removed_timestamp), dataUpdatedTime: sec(r.modified) } });
        const order = (a, b) => a.site_id - b.site_id || (a.travel_mode < b.travel_mode ? -1 : a.travel_mode > b.travel_mode ? 1 : 0) || (a.direction < b.direction ? -1 : a.direction > b.direction ? 1 : 0) || a.data_timestamp - b.data_timestamp;
        const cell = (s) => (/[",\r\n]/.test(s) || /^\s|\s$/.test(s) ? `"${s.replaceAll('"', '""')}"` : s);
        /** The queried data in one state, sorted as promised (rows equal in the sort order are compared as a set). */
        const select = (st, q, from, to) => st.data.filter((r) => +r.data_timestamp >= from && +r.data_timestamp < to && (!q.siteId || r.site_id === q.siteId) && (!q.travelMode || r.travel_mode === q.travelMode));
        const ask = async (q) => {
          const i0 = states.length - 1, m0 = world.firedFaults.length, at = world.now;
          let r;
          const ev = Object.fromEntries(Object.entries(q.p).map(([k, v]) => [k, String(v)]));
          r = await api[q.of].invoke(ev);
          const faulty = world.firedFaults.slice(m0).some((f) => f.kind !== "recycle");
          if (r.status !== "ok" || r.value.status === 500) { world.probe("c02.500"); check(faulty, `get-${q.of} ${canon(q.p)} failed although nothing failed: ${r.error?.message ?? r.value?.status}`, "query-failed"); return; }
          const v = r.value;
          const body = Buffer.from(v.body, "base64").toString("utf8");
          if (q.bad) { check(v.status === 400, `get-${q.of} ${canon(q.p)} gives ${v.status}`, "bad-request"); world.probe("c02.bad-request"); return; }
          const seen = states.slice(i0);
          if (seen.length > 1) world.probe("c02.during-update");
          const p = q.p;
          const fits = (f) => { const why = []; for (const st of seen) { try { f(st); return; } catch (e) { if (!e.violation) throw e; why.push(e); } } throw why.at(-1); };
          if (q.of === "sites") {
            fits((st) => {
              const rows = st.sites.filter((x) => (p.siteId === undefined || x.id === p.siteId) && (p.domain === undefined || x.domain === p.domain));
              if (p.siteId && !rows.length) { check(v.status === 404, `get-sites for the unknown site ${p.siteId} gives ${v.status}`, "not-found"); world.probe("c02.not-found"); return; }
              check(v.status === 200, `get-sites ${canon(p)} gives ${v.status}`, "status");
              const fc = JSON.parse(body);
              const upd = rows.length ? Math.max(...rows.map((x) => +x.modified)) : 0;
              check(fc.type === "FeatureCollection" && fc.dataUpdatedTime === sec(upd), `get-sites ${canon(p)} was updated ${fc.dataUpdatedTime}, not ${sec(upd)}`, "sites-updated");
              const got = fc.features.map(canon).sort(), want = rows.map((x) => canon(feature(x))).sort();
              check(canon(got) === canon(want), `get-sites ${canon(p)} gives ${got}, stored is ${want}`, "sites");
              check(v.timestamp === new Date(Math.floor(upd / 1000) * 1000).toUTCString(), `get-sites has time ${v.timestamp}`, "sites-header");
            });
            world.probe("c02.sites");
            return;
          }
          check(v.status === 200, `get-${q.of} ${canon(p)} gives ${v.status}`, "status");
          const from = q.of === "csv" ? Date.UTC(p.year, p.month - 1, 1) : p.date ? Date.parse(p.date) : Math.floor((at - DAY) / DAY) * DAY;
          const to = q.of === "csv" ? Date.UTC(p.year, p.month, 1) : from + DAY;
          const spans = q.of === "values" && !p.date ? [from, Math.floor((world.now - DAY) / DAY) * DAY] : [from];
          check(seen.some((st) => spans.some((f) => { const rows = select(st, p, f, q.of === "csv" ? to : f + DAY); return rows.length ? v.timestamp === new Date(Math.max(...rows.map((x) => +x.modified))).toUTCString() : Math.abs(Date.parse(v.timestamp) - world.now) < 60000; })), `get-${q.of} ${canon(p)} has time ${v.timestamp}`, "values-header");
          fits((st) => {
            if (q.of === "values") {
              const rows = select(st, p, from, to);
              const got = JSON.parse(body);
              for (const g of got) check(canon(Object.keys(g).sort()) === canon(["count", "dataTimestamp", "direction", "granularity", "siteId", "travelMode"]), `value ${canon(g)}`, "value-shape");
              const line = (x) => canon([x.site_id, x.travel_mode, x.direction, new Date(x.data_timestamp).toISOString(), x.granularity, Number(x.counts)]);
              const rowsOut = got.map((g) => ({ site_id: g.siteId, travel_mode: g.travelMode, direction: g.direction, data_timestamp: new Date(g.dataTimestamp), granularity: g.granularity, counts: g.count }));
              check(canon(rowsOut.map(line).sort()) === canon(rows.map(line).sort()), `get-values ${canon(p)} gives ${rowsOut.map(line)}, stored is ${rows.map(line)}`, "values");
              for (let i = 1; i < rowsOut.length; i++) check(order(rowsOut[i - 1], rowsOut[i]) <= 0, "values are not sorted", "values-order");
            } else {
              const rows = select(st, p, from, to);
              const name = st.sites.find((x) => x.id === p.siteId)?.name;
              const lines = rows.map((x) => [cell(name), x.travel_mode, new Date(x.data_timestamp).toISOString(), x.granularity, x.direction, String(x.counts)].join(","));
              check(body.startsWith("SITE,TRAVELMODE,TIMESTAMP,GRANULARITY,DIRECTION,COUNT\r\n"), `the CSV starts ${JSON.stringify(body.slice(0, 60))}`, "csv-header");
              const rest = body.slice(body.indexOf("\r\n") + 2);
              check(rest === "" || rest.endsWith("\r\n"), "the CSV ends within a line", "csv-end");
              check(canon(rest.split("\r\n").slice(0, -1).sort()) === canon([...lines].sort()), `get-values-csv ${canon(p)} gives ${JSON.stringify(rest)}, stored is ${canon(lines)}`, "csv");
              check(v.fileName === `${p.year}-${p.month}.csv`, `the file is called ${v.fileName}`, "csv-name");
            }
          });
          world.probe(q.of === "csv" ? "c02.csv" : "c02.values");
        };
        const update = async (o) => {
          answer = o.answer; served = null; inRun = true;
          const m0 = world.firedFaults.length, u0 = updatedAt(pg, "COUNTING_SITES_METADATA_CHECK"), n0 = states.length;
          const asks = Array.from({ length: o.queries }, async (_, i) => { await world.sleep(20 + i * 35); await ask(o.q[i]); });
          const r = await d.fns.meta.invoke({});
          inRun = false;
          const fired = world.firedFaults.slice(m0).filter((f) => f.kind !== "recycle");
          world.record("update", { s: r.status });
          if (r.status === "crash") world.probe("c02.crash");
          const touched = updatedAt(pg, "COUNTING_SITES_METADATA_CHECK") !== u0;
          if (!fired.length && answer === "ok") { check(r.status === "ok" && touched, `the metadata was not checked although nothing failed (${r.status})`, "not-checked"); mirrored("was updated without failures"); }
          if (answer !== "ok" && !served) { check(!touched, "the metadata is recorded as checked although the source failed", "checked-failed"); check(states.length === n0 || o.queries, "sites were changed although the source failed", "changed-failed"); world.probe("c02.refused"); }
          if (!touched && states.length > n0) world.probe("c02.partial");
          await Promise.all(asks);
        };
        let fin = false;
        (async () => {
          for (const o of plan.ops) {
            if (o.kind === "source") { if (o.site) source.set(o.id, o.site); else source.delete(o.id); }
            else if (o.kind === "data") {
              if (!pg.db.rows("cs2_site").some((r) => r.id === o.id)) continue;
              const t = new Date(M0 + Math.round(o.at * HOUR));
              edit("INSERT INTO cs2_data(site_id, travel_mode, direction, data_timestamp, granularity, counts) VALUES ($1,$2,$3,$4,$5,$6)", [o.id, MODES[o.m], DIRS[o.d], t, GRANS[o.g], o.c]);
              if (o.last) edit("UPDATE cs2_site SET last_data_timestamp = $1 WHERE id = $2", [t, o.id]);
            } else if (o.kind === "query") await ask(o.q);
            else { await update(o); await world.sleep(o.gap * HOUR); }
            await world.sleep(1000);
          }
          world.faultsEnabled = false;
          await update({ answer: "ok", queries: 0 });
          for (const q of [{ of: "sites", p: {} }, { of: "sites", p: { siteId: 1, domain: "Fintraffic" } }, { of: "csv", p: { year: 2025, month: 2, siteId: 1 } }]) await ask(q);
          fin = true;
        })().catch((e) => world.fail(e));
        await world.run({ until: () => fin, deadline: world.now + 60 * DAY });
        check(fin, "runs did not finish", "stuck");
      },
    },
  ],
};
function query(rng) {
  const k = rng.int(0, 9);
  if (k < 4) { const p = {}; if (rng.bool(0.6)) p.siteId = rng.pick([1, 2, 3, 4, 5, 50, 77]); if (rng.bool(0.4)) p.domain = rng.pick(["Fintraffic", "Fintraffic", "Oulu", "x"]); const bad = rng.bool(0.1); if (bad) p[rng.pick(["foo", "siteId"])] = "abc"; return { of: "sites", p, bad }; }
  if (k < 7) { const p = {}; if (rng.bool(0.8)) p.date = rng.pick(["2025-02-27", "2025-02-28", "2025-03-01", "2025-03-02", "2025-03-30"]); if (rng.bool(0.5)) p.siteId = rng.int(1, 5); if (rng.bool(0.5)) p.travelMode = MODES[rng.int(0, 2)]; const bad = rng.bool(0.15); if (bad) Object.assign(p, rng.pick([{ date: "2025-02-31" }, { date: "x" }, { travelMode: "tank" }, { other: 1 }])); return { of: "values", p, bad }; }
  const p = { year: 2025, month: rng.pick([2, 2, 2, 3, 3, 12, 1]), siteId: rng.int(1, 5) };
  if (rng.bool(0.4)) p.travelMode = MODES[rng.int(0, 2)];
  const bad = rng.bool(0.15);
  if (bad) Object.assign(p, rng.pick([{ year: 2023 }, { month: 13 }, { month: 0 }, { siteId: "x" }, { travelMode: "tank" }]));
  return { of: "csv", p, bad };
}
