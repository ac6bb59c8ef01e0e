// P04: port activity answers show the latest estimates of one stored state, merged by the rules; only old timestamps are removed.
import { bundle } from "../runtime.mjs";
import { WIRINGS } from "../apps.mjs";
import { LambdaFn, deploy } from "../lambda.mjs";
import { check } from "../check.mjs";
import { portSchema, HOUR, DAY, SECRET, PgServer, Aws } from "../harness/portactivity.mjs";

const MIN = 60000;
const PORTS = ["FIHKO", "FIRAU"];
const SHIPS = [{ imo: 9000003, mmsi: 230000001 }, { imo: 9000015, mmsi: 230000002 }, { imo: 9000027, mmsi: 230000003 }];
const SOURCES = ["Portnet", "Awake.AI", "Awake.AI", "Awake.AI Pred", "Awake.AI Pred", "SCHEDULES_CALCULATED", "SCHEDULES_CALCULATED", "SCHEDULES_VTS_CONTROLLED", "Port HKO", "Pilotweb"];
const SHOWN = { Portnet: "PNET", "Awake.AI": "VTS A", "Port HKO": "Port HKO", SCHEDULES_VTS_CONTROLLED: "VTS O", SCHEDULES_CALCULATED: "VTS A", "Awake.AI Pred": "PRED" };
const PRIORITY = { "Awake.AI": 80, SCHEDULES_CALCULATED: 90 };
const TYPES = ["ETA", "ETA", "ETA", "ETB", "ETD", "ATA", "ATD"];
/** Event times around every limit, in minutes from now. */
const EVENTS = [-8 * 1440, -7 * 1440 - 3, -7 * 1440 + 3, -13 * 60, -723, -717, -363, -357, -63, -57, 0, 30, 90, 90, 120, 150, 233, 247, 300, 95 * 60, 97 * 60, 14 * 1440 - 5, 14 * 1440 + 5, 20 * 1440];
const RECORDS = [2, 5, 10, 30, 57, 63, 180];

/** Rows that are the latest of their kind. */
function latest(rows) {
  return rows.filter((a) => !rows.some((b) => b.event_type === a.event_type && b.location_locode === a.location_locode && b.ship_imo === a.ship_imo && b.event_source === a.event_source && (b.portcall_id === null || a.portcall_id === null || b.portcall_id === a.portcall_id) && b.record_time > a.record_time));
}
/** Merges estimates of equivalent sources; loose: how the unspecified cases are decided. */
function merge(rows, now, loose) {
  let out = [];
  const kept = rows.filter((a) => !(a.portcall_id === null && a.event_source === "Awake.AI Pred" && rows.some((b) => b.portcall_id !== null && b.event_source === a.event_source && b.ship_imo === a.ship_imo && b.location_locode === a.location_locode && b.event_type === a.event_type && b.event_time === a.event_time)));
  const groups = new Map();
  for (const r of kept) { const k = `${r.portcall_id ?? "none"}|${r.event_type}`; groups.set(k, [...(groups.get(k) ?? []), r]); }
  for (let g of groups.values()) {
    let vts = g.filter((r) => PRIORITY[r.event_source]);
    const calc = vts.find((r) => r.event_source === "SCHEDULES_CALCULATED"), awake = vts.find((r) => r.event_source === "Awake.AI");
    if (calc) {
      const old = now - calc.record_time > (loose & 1 ? 59 : 60) * MIN;
      const diff = awake ? calc.event_time - awake.event_time : 0;
      if (old || diff >= 60 * MIN || (loose & 2 && diff <= -60 * MIN)) { g = g.filter((r) => r !== calc); vts = vts.filter((r) => r !== calc); }
    }
    if (vts.length) g = g.filter((r) => r.event_source !== "Awake.AI Pred");
    if (vts.length > 1) {
      const best = [...vts].sort((a, b) => PRIORITY[b.event_source] - PRIORITY[a.event_source])[0];
      g = [...g.filter((r) => !vts.includes(r)), { ...best, event_time: vts.reduce((s, r) => s + r.event_time, 0) / vts.length, merged: true }];
    }
    out.push(...g);
  }
  return out;
}
const at = (x) => Math.floor(x);
const keyOf = (r) => [r.event_type, at(r.event_time), at(r.record_time), SHOWN[r.event_source] ?? r.event_source, r.ship_imo, r.ship_mmsi ?? "-", r.location_locode, r.location_portarea ?? "-", r.location_from_locode ?? "-", r.portcall_id ?? "-", r.source_id ?? "-", r.event_time_confidence_lower_diff ?? "-", r.event_time_confidence_upper_diff ?? "-"].join("|");
const keyOfApi = (t) => [t.eventType, Date.parse(t.eventTime), Date.parse(t.recordTime), t.source, t.ship.imo, t.ship.mmsi ?? "-", t.location.port, t.location.portArea ?? "-", t.location.from ?? "-", t.portcallId ?? "-", t.sourceId ?? "-", t.eventTimeConfidenceLowerDiff ?? "-", t.eventTimeConfidenceUpperDiff ?? "-"].join("|");
const uniq = (a) => [...new Set(a)].sort();

export default {
  id: "P04",
  quickSec: 15,
  thoroughSec: 300,
  real: ["portactivity get-timestamps, get-shiplist-public and delete-old-timestamps handlers with services, merging and queries", "pg-promise, lib database and secrets", "synthesised clean-up schedule and timeout"],
  stubs: ["PostgreSQL", "Secrets Manager", "Lambda; API Gateway replaced by direct invocations"],
  assumptions: ["estimates without a port call come from Awake.AI Pred only (others are not stored without one)", "whether a VTS estimate more than an hour earlier than Awake's is used is left open", "several port calls of a ship carry the same vessel name"],
  mustReach: ["p04.locode", "p04.mmsi", "p04.imo", "p04.source", "p04.list", "p04.default-interval", "p04.denied", "p04.merged", "p04.concurrent", "p04.cleaned", "p04.pair", "p04.future", "p04.error", "p04.arrived"],
  async setup() {
    return {
      wiring: await WIRINGS.portactivity(),
      code: await bundle({ get: "marine/portactivity/src/lambda/get-timestamps/get-timestamps.ts", list: "marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts", clean: "marine/portactivity/src/lambda/delete-old-timestamps/delete-old-timestamps.ts" }),
    };
  },
  scenarios: [
    {
      name: "answers",
      gen(rng, tier) {
        const row = () => ({ ship: rng.int(0, 2), call: rng.int(0, 1), type: rng.pick(TYPES), source: rng.pick(SOURCES), event: rng.pick(rng.bool(0.6) ? [30, 90, 120, 150, 233] : EVENTS), rec: rng.pick(RECORDS), nocall: rng.bool(0.3), pair: rng.bool(0.15), pairOff: rng.bool(0.4) ? rng.pick([-20, 7, 45]) : 0, mmsi: rng.bool(0.9), conf: rng.bool(0.2) ? [rng.int(-90, -1), rng.int(1, 90)] : undefined, area: rng.bool(0.3), sid: rng.bool(0.2) });
        const ops = [];
        for (let i = rng.int(2, tier === "thorough" ? 40 : 16); i > 0; i--) {
          const k = rng.int(0, 10);
          if (k < 4) ops.push({ kind: "ins", rows: Array.from({ length: rng.pick([1, 2, 5]) }, row) });
          else if (k < 8) ops.push({ kind: "get", by: rng.pick(["locode", "locode", "mmsi", "imo", "source", "none", "both"]), ship: rng.int(0, 2), port: rng.int(0, 1), source: rng.pick(SOURCES), low: rng.bool(0.2) });
          else if (k < 10) ops.push({ kind: "list", port: rng.int(0, 1), interval: rng.pick([undefined, undefined, 4, 96, 400]), auth: rng.pick(["list-auth-77", "list-auth-77", "list-auth-77", "list-auth-77", "wrong", undefined]) });
          else ops.push({ kind: "clean" });
          if (rng.bool(0.6)) ops.push({ kind: "wait", min: rng.pick([0, 0, 1, 5, 60, 700]) });
        }
        return { ops, cfg: {}, faults: rng.bool(0.4) ? {} : undefined };
      },
      faults: { "db.connect.before": 0.03, "db.before": 0.008, "db.lost": 0.008, "db.error": 0.01, "secrets.before": 0.03, crash: 0.004, slow: 0.003, recycle: 0.1 },
      maxEvents: 60000,
      async run(world, plan, ctx) {
        const pg = new PgServer(world), aws = new Aws(world);
        aws.secrets.set("sec", JSON.stringify({ ...SECRET, "shiplist.auth": "list-auth-77" }));
        portSchema(pg.db);
        // ship 2 is known by its port calls only
        pg.db.seed("vessel", [...SHIPS.slice(0, 2).map((s, i) => ({ mmsi: s.mmsi, imo: s.imo, timestamp: 1000, name: `SHIP ${i}` })), { mmsi: 230000077, imo: SHIPS[0].imo, timestamp: 500, name: "OLD NAME" }]);
        pg.db.seed("port_call", SHIPS.flatMap((s, i) => [0, 1].map((c) => ({ port_call_id: 100 + i * 2 + c, mmsi: s.mmsi, imo_lloyds: s.imo, port_to_visit: PORTS[c], port_call_timestamp: new Date(at(world.now)), vessel_name: `Call ${i}` }))));
        const nameOf = (imo) => [`SHIP 0`, `SHIP 1`, "CALL 2"][SHIPS.findIndex((s) => s.imo === imo)];
        const env = { SECRET_ID: "sec", AWS_REGION: "eu-west-1" };
        const mk = (n) => new LambdaFn(world, n, ctx.code[n], { env, svc: { pg, aws }, timeoutSec: 60 });
        const fns = { get: mk("get"), list: mk("list") };
        const d = deploy(world, ctx.wiring, { aws, fns: { clean: { re: /delete-?old-?timestamps/i, code: ctx.code.clean, svc: { pg, aws } } } });
        check(d.fns.clean.schedule.length > 0, "old timestamps are never removed", "schedule");
        const ms = (v) => (v === null || v === undefined ? v : +new Date(v));
        const rows = () => pg.db.rows("port_call_timestamp").map((r) => ({ ...r, event_time: ms(r.event_time), record_time: ms(r.record_time), portcall_id: r.portcall_id === null || r.portcall_id === undefined ? null : Number(r.portcall_id) }));
        let states = [{ t: world.now, rows: [] }];
        pg.db.commitHooks.push((tx, changes) => {
          try {
            for (const c of changes) {
              if (c.op !== "del") continue;
              const end = c.table.name === "pilotage" ? c.row.vals.pilotage_end_time : c.row.vals.event_time;
              check(/^(pilotage|port_call_timestamp)$/.test(c.table.name) && +new Date(end) < world.now - 7 * DAY, `${c.table.name} of ${end && new Date(end).toISOString()} was removed`, "removed");
              world.probe("p04.cleaned");
            }
            states.push({ t: world.now, rows: rows() });
          } catch (e) { world.fail(e); }
        });
        let n = 0, pil = 0;
        const insert = (o) => {
          const list = [];
          for (const x of o.rows) {
            const s = SHIPS[x.ship];
            const source = x.source, pred = source === "Awake.AI Pred";
            const call = 100 + x.ship * 2 + x.call;
            const r = { event_type: x.type, event_time: new Date(at(world.now / MIN) * MIN + x.event * MIN), event_source: source, record_time: new Date(at(world.now) - x.rec * MIN - (n++ % 1000)), ship_imo: s.imo, ship_mmsi: x.mmsi ? s.mmsi : null, location_locode: PORTS[x.call], portcall_id: pred && x.nocall ? null : call, location_portarea: x.area ? "A1" : null, location_from_locode: source === "Pilotweb" ? PORTS[1 - x.call] : x.sid ? "FIHKO" : null, source_id: x.sid ? `s${n}` : null, event_time_confidence_lower_diff: x.conf?.[0] ?? null, event_time_confidence_upper_diff: x.conf?.[1] ?? null };
            list.push(r);
            if (pred && x.pair) { list.push({ ...r, event_time: new Date(r.event_time.getTime() + (x.pairOff ?? 0) * MIN), portcall_id: r.portcall_id === null ? call : null }); world.probe("p04.pair"); }
            if (source === "Portnet" && x.event > 14 * 1440) world.probe("p04.future");
          }
          const tx = pg.db.begin();
          for (const r of list) pg.db.execStmt(pg.db.parse(`insert into port_call_timestamp(${Object.keys(r).join(",")}) values (${Object.keys(r).map((_, i) => `$${i + 1}`).join(",")}) on conflict do nothing`)[0], tx, { params: Object.values(r) });
          pg.db.execStmt(pg.db.parse("insert into pilotage(id, pilotage_end_time) values ($1, $2)")[0], tx, { params: [++pil, new Date(at(world.now / MIN) * MIN + o.rows[0].event * MIN)] });
          pg.db.commit(tx);
        };
        /** Everything the answer may be: any state and any instant during the call. */
        const explain = (start, end, f) => {
          const during = states.filter((s, i) => s.t <= end && (i === states.length - 1 || states[i + 1].t >= start));
          if (during.length > 1) world.probe("p04.concurrent");
          const times = end - start < 1 ? [end] : Array.from({ length: 7 }, (_, i) => start + ((end - start) * i) / 6);
          const seen = [];
          for (const s of during) for (const t of times) for (const t2 of times) if (t2 >= t) for (const loose of [0, 1, 2, 3]) seen.push(f(s.rows, t, t2, loose));
          return uniq(seen);
        };
        const read = async (o) => {
          const start = world.now, mark = world.firedFaults.length;
          const source = o.source;
          let ev, f;
          if (o.kind === "get") {
            const port = PORTS[o.port], s = SHIPS[o.ship];
            ev = { locode: { locode: o.low ? port.toLowerCase() : port }, mmsi: { mmsi: o.low ? String(s.mmsi) : s.mmsi }, imo: { imo: o.low ? String(s.imo) : s.imo }, source: { source }, none: {}, both: { mmsi: s.mmsi, imo: SHIPS[(o.ship + 1) % 3].imo } }[o.by];
            const hit = { locode: (r) => r.location_locode === port || (r.location_from_locode === port && r.event_source === "Pilotweb"), mmsi: (r) => r.ship_mmsi === s.mmsi, imo: (r) => r.ship_imo === s.imo, source: (r) => r.event_source === source, both: (r) => r.ship_imo === ev.imo }[o.by];
            f = (all, t, t2, loose) => JSON.stringify(uniq(merge(latest(all).filter((r) => r.event_time > t - 12 * HOUR && (r.event_source !== "Portnet" || r.event_time < t + 14 * DAY) && hit(r)), t2, loose).map((r) => { if (r.merged) world.probe("p04.merged"); return keyOf(r); })));
          } else {
            const port = PORTS[o.port], hours = o.interval ?? 96;
            if (o.interval === undefined) world.probe("p04.default-interval");
            ev = { queryStringParameters: { ...(o.auth ? { auth: o.auth } : {}), locode: port, ...(o.interval === undefined ? {} : { interval: String(o.interval) }) } };
            f = (all, t, t2, loose) => JSON.stringify(uniq(merge(latest(all).filter((r) => {
              const arrived = r.event_type === "ETA" && r.portcall_id !== null && all.some((x) => x.portcall_id === r.portcall_id && x.event_type === "ATA");
              if (arrived) world.probe("p04.arrived");
              return r.event_time > t - (/^AT[AD]$/.test(r.event_type) ? 6 : 1) * HOUR && r.event_time < t + hours * HOUR && !arrived && (r.location_locode === port || (r.location_from_locode === port && r.event_source === "Pilotweb"));
            // the list knows only its own port
            }).map((r) => ({ ...r, location_locode: port })).filter((r, i, a) => a.findIndex((x) => listKey(x, nameOf) === listKey(r, nameOf)) === i), t2, loose).map((r) => listKey(r, nameOf))));
          }
          const res = await fns[o.kind].invoke(ev, { key: `r${++n}` });
          const end = world.now;
          const fired = world.firedFaults.slice(mark).some((x) => x.kind !== "recycle");
          const status = res.status === "ok" ? (o.kind === "get" ? res.value.status : res.value.statusCode) : undefined;
          world.record("read", { k: o.kind, s: status ?? res.status });
          if (res.status !== "ok" || status === 500) {
            world.probe("p04.error");
            check(world.firedFaults.some((x) => x.kind !== "recycle"), `${JSON.stringify(ev)} failed although nothing failed: ${res.error?.message ?? status}`, "failed");
            return;
          }
          void fired;
          if (o.kind === "list" && o.auth !== "list-auth-77") {
            world.probe("p04.denied");
            check(status === (o.auth ? 403 : 401) && !/shiplist = /.test(res.value.body), `a ship list without its secret was answered ${status}`, "denied");
            return;
          }
          if (o.by === "none") { check(status === 400, `a request without a condition was answered ${status}`, "bad-request"); return; }
          check(status === 200, `${JSON.stringify(ev)} was answered ${status}`, "status");
          let got, times;
          if (o.kind === "get") {
            const body = JSON.parse(Buffer.from(res.value.body, "base64").toString());
            got = body.map(keyOfApi);
            times = body.map((t) => Date.parse(t.eventTime));
          } else {
            const m = /var shiplist = (.*);\n/.exec(res.value.body);
            check(m, "the page contains no ship list", "page");
            const body = JSON.parse(m[1]);
            got = body.map((t) => [t.event_type, at(Date.parse(t.event_time)), Date.parse(t.record_time), t.source, t.ship_name, t.ship_imo, t.portcall_id ?? "-"].join("|"));
            times = body.map((t) => Date.parse(t.event_time));
          }
          check(new Set(got).size === got.length, `an estimate is shown twice: ${JSON.stringify(got)}`, "twice");
          check(times.every((t, i) => !i || times[i - 1] <= t), "the answer is not in the order of time", "order");
          const want = explain(start, end, f);
          check(want.includes(JSON.stringify(uniq(got))), `${JSON.stringify(ev)} at ${new Date(at(end)).toISOString()} was answered ${JSON.stringify(uniq(got))}, no state of that time says so; e.g. ${want[want.length - 1]}`, `wrong:${o.kind}:${o.by ?? (o.interval === undefined ? "default" : "interval")}`);
          world.probe(o.kind === "list" ? "p04.list" : `p04.${o.by}`);
        };
        const clean = async () => {
          const start = world.now;
          const old = new Set(rows().filter((r) => r.event_time < start - 7 * DAY).map((r) => r.id));
          const oldP = new Set(pg.db.rows("pilotage").filter((r) => r.pilotage_end_time && ms(r.pilotage_end_time) < start - 7 * DAY).map((r) => r.id));
          const res = await d.fns.clean.invoke({});
          if (res.status === "throttled") return;
          if (res.status === "ok") check(!rows().some((r) => old.has(r.id)) && !pg.db.rows("pilotage").some((r) => oldP.has(r.id)), "old timestamps or pilotages are still there after the clean-up", "not-removed");
          else check(world.firedFaults.some((x) => x.kind !== "recycle"), `the clean-up failed although nothing failed: ${res.error?.message ?? res.status}`, "failed");
        };
        let fin = false;
        (async () => {
          const jobs = [];
          const guard = (p) => jobs.push(p.catch((e) => world.fail(e)));
          for (const o of plan.ops) {
            if (o.kind === "ins") insert(o);
            else if (o.kind === "wait") await world.sleep(o.min * MIN + 40);
            else if (o.kind === "clean") guard(clean());
            else guard(read(o));
            if (o.kind !== "wait") await world.sleep(world.rand("gap") * 60);
          }
          await Promise.all(jobs);
          fin = true;
        })().catch((e) => world.fail(e));
        await world.run({ until: () => fin, deadline: world.now + 60 * DAY });
        check(fin, "calls did not finish", "stuck");
      },
    },
  ],
};
function listKey(r, nameOf) { return [r.event_type, at(r.event_time), at(r.record_time), SHOWN[r.event_source] ?? r.event_source, nameOf(r.ship_imo), r.ship_imo, r.portcall_id ?? "-"].join("|"); }
