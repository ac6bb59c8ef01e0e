// R03: every stop monitoring message is saved and its unknown delays and tracks take effect whole, or it is archived.
import { bundle } from "../runtime.mjs";
import { WIRINGS } from "../apps.mjs";
import { deploy } from "../lambda.mjs";
import { check } from "../check.mjs";
import { MysqlServer } from "../mysqlserver.mjs";
import { Aws } from "../services.mjs";
import { SECRET, SEC, MIN, HOUR, DAY, STATIONS, canon, tables } from "../harness/rami.mjs";

const TRAINS = [9, 274, 81220];
const DATES = ["2025-03-03", "2025-03-04"];
const BROKEN = {
  noCall: (m) => { delete m.payload.monitoredStopVisits[0].monitoredVehicleJourney.monitoredCall; },
  none: (m) => { m.payload.monitoredStopVisits = []; },
  two: (m) => { m.payload.monitoredStopVisits.push(m.payload.monitoredStopVisits[0]); },
  name: (m) => { m.payload.monitoredStopVisits[0].monitoredVehicleJourney.vehicleJourneyName = "1234"; },
  extra: (m) => { m.other = 1; },
  time: (m) => { m.payload.monitoredStopVisits[0].monitoredVehicleJourney.monitoredCall.aimedArrivalTime = 5; },
  onward: (m) => { delete m.payload.monitoredStopVisits[0].monitoredVehicleJourney.onwardCalls; },
  noId: (m) => { delete m.headers.e2eId; },
};
const uuid = (n) => `00000000-0000-4000-8000-${String(n).padStart(12, "0")}`;
const date10 = (d) => (d instanceof Date ? d.toISOString() : String(d)).slice(0, 10);

function call(rng) {
  return { s: rng.int(0, 4), off: rng.pick([0, 0, 0, 0, 0, 1, 60]), sec: rng.pick([0, 0, 30, 59]), form: rng.int(0, 2), board: rng.bool(0.9), arr: rng.bool(0.85), dep: rng.bool(0.85), ea: rng.bool(), ed: rng.bool(), qa: rng.pick([0, 1, 1, 2]), qd: rng.pick([0, 1, 1, 2]) };
}
function gen(rng, tier) {
  const ops = [];
  let at = 0;
  const n = rng.int(1, tier === "thorough" ? 40 : 16);
  const slow = rng.bool(0.4);
  for (let i = 0; i < n; i++) {
    at += slow ? rng.pick([40, 60, 200]) * SEC : rng.pick([0, 0, 1, 30, 500, 5000, 6000, 30000]);
    const k = rng.int(0, 99);
    const calls = [];
    for (const c of Array.from({ length: rng.int(1, 6) }, () => call(rng))) if (!calls.some((x) => x.s === c.s)) calls.push(c);
    const m = { kind: "sm", at, train: rng.int(0, 2), date: rng.int(0, 1), bus: rng.bool(0.08), calls };
    if (k < 82) ops.push(m);
    else if (k < 88) ops.push({ ...m, how: rng.pick(Object.keys(BROKEN)) });
    else if (k < 91) ops.push({ kind: "raw", at, body: rng.pick(["{}", "not json", "null", "[]"]) });
    else if (k < 96) ops.push({ kind: "model", at });
    else ops.push({ kind: "clean", at });
  }
  return { ops, cfg: { slow, old: Array.from({ length: rng.int(0, 4) }, () => ({ train: rng.int(0, 2), date: rng.int(0, 1), s: rng.int(0, 4), type: rng.int(0, 1), d: rng.int(0, 1), t: rng.int(0, 1), age: rng.pick([0.1, 0.5, 0.99, 0.9999, 1.0001, 1.01, 2, 30]), seen: rng.bool() })), noTable: rng.bool(0.1) }, faults: rng.bool(0.3) ? {} : undefined };
}

export default {
  id: "R03",
  quickSec: 16,
  thoroughSec: 300,
  real: ["rail/rami process-sm-queue, process-udot-queue, delete-old-data and process-dlq handlers with their services, schemas and DAO", "util/database.ts, sqs.ts and tracing.ts, lib retry", "synthesised queues, triggers, redrive and concurrency"],
  stubs: ["MySQL (row locks, deadlocks, the update trigger of rami_udot) and the mysql2 pool", "middy", "SQS, Lambda, S3, Secrets Manager"],
  assumptions: ["a timetable row is found by station, minute and type", "the order of messages in flight at the same time is free", "InnoDB gap locks are not modelled"],
  mustReach: ["r03.saved", "r03.true", "r03.cleared", "r03.archived", "r03.invalid", "r03.bus", "r03.no-row", "r03.final", "r03.redelivered", "sql.deadlock", "r03.old-deleted", "r03.seen", "r03.history"],
  async setup() {
    const d = "rail/rami/src/lambda";
    return { wiring: await WIRINGS.rami(), code: await bundle({ sm: `${d}/process-sm-queue/process-sm-queue.ts`, udot: `${d}/process-udot-queue/process-udot-queue.ts`, dlq: `${d}/process-dlq/process-dlq.ts`, clean: `${d}/delete-old-data/delete-old-data.ts` }, { esm: true }) };
  },
  scenarios: [
    {
      name: "monitoring",
      gen,
      faults: { "db.connect.before": 0.02, "db.before": 0.015, "db.lost": 0.015, "db.error": 0.02, "db.locktimeout": 0.02, "db.deadlock": 0.03, "sqs.before": 0.03, "sqs.lost": 0.03, "sqs.partial": 0.02, "sqs.reorder": 0.2, "sqs.duplicate": 0.04, "sqs.delete-lost": 0.03, "secrets.before": 0.02, "s3.before": 0.03, "s3.lost": 0.02, crash: 0.008, slow: 0.015, recycle: 0.03 },
      maxEvents: 150000,
      async run(world, plan, ctx) {
        const my = new MysqlServer(world);
        my.slowMs = 12000;
        const aws = new Aws(world);
        aws.secrets.set("sec", JSON.stringify(SECRET));
        tables(my);
        const clean = plan.faults && !Object.keys(plan.faults).length;
        // the timetable: five stations for each train and date, arrivals and departures
        const T0 = Date.UTC(2025, 2, 3, 9);
        const rows = [];
        for (let t = 0; t < 3; t++) for (let d = 0; d < 2; d++) for (let s = 0; s < 5; s++) for (const type of [0, 1]) {
          if (plan.cfg.noTable && t === 1) continue;
          rows.push({ attap: 200 * t + 10 * s + type + 1, // the same on both dates
            t, d, s, type, time: T0 + d * DAY + t * HOUR + s * 10 * MIN + type * MIN });
        }
        my.db.seed("time_table_row", rows.map((r) => ({ attap_id: r.attap, departure_date: DATES[r.d], train_number: TRAINS[r.t], station_short_code: STATIONS[r.s], scheduled_time: new Date(r.time), type: r.type })));
        const seenOld = new Set();
        const old = [];
        for (const [i, o] of plan.cfg.old.entries()) {
          const r = rows.find((x) => x.t === o.train && x.d === o.date && x.s === o.s && x.type === o.type);
          if (!r || seenOld.has(r)) continue;
          seenOld.add(r);
          const created = new Date(world.now - o.age * DAY);
          old.push({ id: 900 + i, train_number: TRAINS[o.train], train_departure_date: DATES[o.date], attap_id: r.attap, unknown_delay: o.d, unknown_track: o.t, model_updated_time: o.seen ? created : null, created_db: created });
        }
        my.db.seed("rami_udot", old);
        my.db.seed("rami_udot_history", old.map((r) => ({ id: r.id, rami_message_id: "old", train_number: r.train_number, train_departure_date: r.train_departure_date, attap_id: r.attap_id, unknown_delay: r.unknown_delay, unknown_track: r.unknown_track, created_db: r.created_db })));
        my.db.seed("rami_stop_monitoring_message", old.map((r) => ({ id: r.id, rami_message_id: "old", train_number: r.train_number, train_departure_date: r.train_departure_date, message: "{}", created_db: r.created_db })));
        const svc = { mysql: my, aws };
        const d = deploy(world, ctx.wiring, { aws, fns: {
          sm: { re: /ProcessSmQueue$/, code: ctx.code.sm, svc },
          udot: { re: /ProcessUdotQueue$/, code: ctx.code.udot, svc },
          dlq: { re: /ProcessDlq$/, code: ctx.code.dlq, svc },
          clean: { re: /DeleteOldData$/, code: ctx.code.clean, svc },
        } });
        const q = d.queue(/SmSqs/);
        const sent = []; // {o, msg, body, t, id, effects: Map attap -> {d, t}}
        const keyOf = (r) => `${date10(r.train_departure_date)}/${r.train_number}/${r.attap_id}`;
        const state = new Map(old.map((r) => [keyOf(r), { d: r.unknown_delay, t: r.unknown_track }]));
        const held = new Map(); // key -> [{from, v}]: the values it had
        for (const [k, v] of state) held.set(k, [{ from: 0, v }]);
        const show = (v) => (v ? `${v.d}/${v.t}` : "none");
        my.db.commitHooks.push((tx, changes) => {
          try {
            const before = new Map(), after = new Map(), hist = [];
            for (const c of changes) {
              if (c.table.name === "rami_udot") {
                const k = keyOf(c.row.vals);
                const v = { d: Number(c.row.vals.unknown_delay), t: Number(c.row.vals.unknown_track), created: +c.row.vals.created_db };
                if (c.op === "del") { if (!before.has(k)) before.set(k, v); after.delete(k); if (!after.has(k)) after.set(k, undefined); } else { if (!before.has(k)) before.set(k, undefined); after.set(k, v); }
              } else if (c.table.name === "rami_udot_history" && c.op === "ins") hist.push(c.row.vals);
              if (c.op === "del" && c.kind === "delete" && c.table.name !== "rami_udot") check(+c.row.vals.created_db < world.now - DAY + SEC, `${c.table.name}: row of ${new Date(c.row.vals.created_db).toISOString()} was deleted at ${new Date(world.now).toISOString()}`, "deleted-new");
            }
            const changed = new Map();
            for (const [k, v] of after) {
              if (v === undefined) check(before.get(k) === undefined || before.get(k).created < world.now - DAY + SEC, `the values of ${k} were deleted while they were new`, "deleted-new");
              else if (show(v) !== show(before.get(k))) changed.set(k, v);
              if (v === undefined) { state.delete(k); world.probe("r03.old-deleted"); } else state.set(k, v);
              if (show(before.get(k)) !== show(v)) { if (!held.has(k)) held.set(k, [{ from: 0, v: undefined }]); held.get(k).push({ from: world.now, v }); }
            }
            // the history has nothing that its message did not say
            for (const h of hist) check(sent.some((s) => { const e = s.id === h.rami_message_id && s.effects?.get(keyOf(h)); return e && e.d === Number(h.unknown_delay) && e.t === Number(h.unknown_track); }), `the history has ${keyOf(h)}=${h.unknown_delay}/${h.unknown_track} of the message ${h.rami_message_id}, which does not say so`, "history-wrong");
            if (!changed.size) return;
            // all values set together come from one message, with all of its unknown values
            const fits = (s) => {
              for (const [k, v] of changed) if (!s.effects?.has(k) || show(s.effects.get(k)) !== show(v)) return "value";
              for (const [k, v] of s.effects) {
                if (v.d || v.t) { if (show(state.get(k)) !== show(v)) return "part"; continue; }
                const h = held.get(k) ?? [];
                const last = h.at(-1);
                // a value known for a while and not touched by others is cleared as well
                if (last && last.from < world.now - 60 * SEC && last.v && (last.v.d || last.v.t)) return "part";
              }
              const id = s.id;
              for (const [k, v] of changed) if (!hist.some((h) => h.rami_message_id === id && keyOf(h) === k && Number(h.unknown_delay) === v.d && Number(h.unknown_track) === v.t)) return "history";
              return undefined;
            };
            const why = sent.map(fits);
            const best = why.includes(undefined) ? undefined : why.includes("history") ? "history" : why.includes("part") ? "part" : "value";
            check(best === undefined, `values ${[...changed].map(([k, v]) => `${k}=${show(v)}`).join(", ")} were committed together, which ${best === "value" ? "no message says" : best === "part" ? "is only a part of a message" : "is not recorded in the history with the message"}`, best);
            world.probe("r03.history");
            for (const v of changed.values()) world.probe(v.d || v.t ? "r03.true" : "r03.cleared");
          } catch (e) { world.fail(e); }
        });
        const message = (o, i) => {
          const base = T0 + o.date * DAY + o.train * HOUR;
          const when = (ms, form) => { const s = new Date(ms).toISOString(); return form === 0 ? s : form === 1 ? s.slice(0, 19) : `${new Date(ms + 2 * HOUR).toISOString().slice(0, 19)}+02:00`; };
          const calls = o.calls.map((c) => {
            const a = base + c.s * 10 * MIN + c.off * MIN + c.sec * SEC;
            return {
              ...(c.arr ? { aimedArrivalTime: when(a, c.form), ...(c.ea ? { expectedArrivalTime: when(a + MIN, c.form) } : {}) } : {}),
              ...(c.dep ? { aimedDepartureTime: when(a + MIN, c.form), ...(c.ed ? { expectedDepartureTime: when(a + 2 * MIN, c.form) } : {}) } : {}),
              arrivalStopAssignment: { aimedQuayName: "1", ...(c.qa ? { expectedQuayName: c.qa === 2 ? "" : "7" } : {}) },
              departureStopAssignment: { aimedQuayName: "1", ...(c.qd ? { expectedQuayName: c.qd === 2 ? "" : "7" } : {}) },
              arrivalBoardingActivity: "alighting", departureBoardingActivity: c.board ? "boarding" : "noBoarding", stopPointRef: STATIONS[c.s], order: c.s,
            };
          });
          const msg = {
            headers: { e2eId: uuid(i), eventType: "StopMonitoringMessage", organisation: "AlmavivA", recordedAtTime: new Date(world.now).toISOString(), source: "sim" },
            payload: { monitoredStopVisits: [{ itemIdentifier: `i${i}`, monitoredVehicleJourney: { dataSource: "RAMI", monitoredCall: calls[0], onwardCalls: calls.slice(1), vehicleJourneyName: `${DATES[o.date].replaceAll("-", "")}1${String(TRAINS[o.train]).padStart(5, "0")}${o.bus ? "BUS" : ""}` } }] },
          };
          // what it says of the timetable's rows
          const effects = new Map();
          if (!o.bus) for (const c of o.calls) for (const type of [0, 1]) {
            if (!c.board || !(type ? c.dep : c.arr)) continue;
            const row = rows.find((r) => r.t === o.train && r.d === o.date && r.s === c.s && r.type === type && Math.floor(r.time / MIN) === Math.floor((base + c.s * 10 * MIN + (c.off + type) * MIN + c.sec * SEC) / MIN));
            if (!row) { world.probe("r03.no-row"); continue; }
            effects.set(`${DATES[o.date]}/${TRAINS[o.train]}/${row.attap}`, { d: Number(!(type ? c.ed : c.ea)), t: Number((type ? c.qd : c.qa) !== 1) });
          }
          return { msg, effects };
        };
        plan.ops.forEach((o, i) => world.after(o.at + 0.001 * i, "source", () => {
          try {
            if (o.kind === "raw") { sent.push({ o, body: o.body, t: world.now }); q.send(o.body); return; }
            if (o.kind === "model") { // the model has read all values
              const tx = my.db.begin();
              const hooks = my.db.commitHooks;
              my.db.commitHooks = [];
              try { my.db.execStmt(my.db.parse("update rami_udot set model_updated_time = current_timestamp")[0], tx, { params: [] }); my.db.commit(tx); world.probe("r03.seen"); } catch { my.db.rollback(tx); /* rows are locked: later */ }
              my.db.commitHooks = hooks;
              return;
            }
            if (o.kind === "clean") { d.fns.clean.invoke({}, { key: `c${i}` }); return; }
            const { msg, effects } = message(o, i + 1);
            const s = { o, msg, id: uuid(i + 1), t: world.now };
            if (o.how) BROKEN[o.how](msg); else s.effects = effects;
            s.body = JSON.stringify(msg);
            sent.push(s);
            q.send(s.body);
          } catch (e) { world.fail(e); }
        }));
        await world.run({ deadline: world.now + 2 * HOUR });
        world.faultsEnabled = false;
        await world.run({ deadline: world.now + 2 * HOUR });
        if (Object.values(d.queues).some((x) => x.redelivered)) world.probe("r03.redelivered");
        for (const [name, x] of Object.entries(d.queues)) check(x.remaining().length === 0, `${name} still holds ${x.remaining().length} messages two hours after faults stopped`, "stuck");
        const texts = [...aws.bucket("dlq-bucket").values()].map((x) => x.body.toString("utf8"));
        const saved = my.db.rows("rami_stop_monitoring_message");
        let lastOf = new Map();
        for (const s of sent) {
          const archived = texts.some((t) => (s.effects ? t.includes(s.id) : t === s.body || t.includes(JSON.stringify(s.body)) || (() => { try { const j = JSON.parse(t); return Array.isArray(j) && j.some((x) => x === s.body || (s.msg && canon(x) === canon(s.msg))); } catch { return false; } })()));
          if (archived) world.probe("r03.archived");
          if (!s.effects) { check(archived, `message ${s.body.slice(0, 200)} (${s.o.how ?? "raw"}) cannot be handled but is not archived`, "invalid-lost"); world.probe("r03.invalid"); check(!saved.some((r) => s.id && r.rami_message_id === s.id), "unusable message was saved", "invalid-saved"); continue; }
          const rec = saved.filter((r) => r.rami_message_id === s.id);
          const full = rec.some((r) => { try { return r.train_number === TRAINS[s.o.train] && date10(r.train_departure_date) === DATES[s.o.date] && canon(JSON.parse(r.message)) === canon(s.msg); } catch { return false; } });
          check(full || archived, `message ${s.id} is neither saved nor archived`, "lost");
          if (clean) check(!archived, `message ${s.id} was archived although nothing failed`, "archived");
          if (full) world.probe("r03.saved");
          if (s.o.bus) { world.probe("r03.bus"); continue; }
          for (const [k, v] of s.effects) {
            const h = held.get(k) ?? [{ from: 0, v: undefined }];
            const was = h.some((x, i) => (i + 1 === h.length || h[i + 1].from >= s.t) && (show(x.v) === show(v) || (!v.d && !v.t && x.v === undefined)));
            check(was || archived, `message ${s.id} of ${new Date(s.t).toISOString()} says ${k}=${show(v)}, which never took effect (values: ${h.map((x) => `${new Date(x.from).toISOString()} ${show(x.v)}`).join(", ")})`, "no-effect");
            lastOf.set(k, { s, v, archived });
          }
        }
        // messages far enough apart, without failures: the last one counts
        if (clean && plan.cfg.slow) for (const [k, { v, s }] of lastOf) {
          world.probe("r03.final");
          const now = state.get(k);
          const deletable = old.some((r) => keyOf(r) === k);
          check(show(now) === show(v) || (!v.d && !v.t && now === undefined) || (deletable && now === undefined), `the last message ${s.id} says ${k}=${show(v)} but it is ${show(now)}`, "final");
        }
        // old data is removed
        let done = false, r;
        d.fns.clean.invoke({}, { key: "final" }).then((x) => { r = x; done = true; });
        await world.run({ until: () => done, deadline: world.now + 5 * MIN });
        if (r?.status !== "ok") { done = false; d.fns.clean.invoke({}, { key: "final2" }).then((x) => { r = x; done = true; }); await world.run({ until: () => done, deadline: world.now + 5 * MIN }); }
        check(done && r.status === "ok", `removal of old data failed although nothing did: ${r?.status} ${r?.error?.message}`, "clean-failed");
        for (const t of ["rami_udot", "rami_udot_history", "rami_stop_monitoring_message"]) for (const row of my.db.rows(t)) check(+row.created_db >= world.now - DAY - MIN, `${t}: row of ${new Date(row.created_db).toISOString()} is still there at ${new Date(world.now).toISOString()}`, "not-removed");
      },
    },
  ],
};
