// P01: every queued port call timestamp is saved exactly once, deliberately dropped, or archived as a dead letter.
import { bundle } from "../runtime.mjs";
import { WIRINGS } from "../apps.mjs";
import { check } from "../check.mjs";
import { portSchema, portSeed, deployQueue, QUEUE_CODE, SHIPS, PORTS, HOUR, PgServer, Aws } from "../harness/portactivity.mjs";

const BASE = Date.UTC(2025, 2, 3, 8, 0, 0);
const iso = (ms) => new Date(ms).toISOString();

const IMOS = [9100001, 9100002, 9100003], MMSIS = [231000001, 231000002, 231000003, 231000004];
const MMSI_OF = [...MMSIS, 0]; // port calls of ships without a known MMSI have 0

/** The message of an op and what must become of it. */
function build(o) {
  const s = SHIPS[o.ship];
  const ts = {
    eventType: "ETA", eventTime: iso(BASE + 150 * HOUR + o.v * 60000), recordTime: iso(BASE - o.rec * 1000),
    source: o.source, ship: { imo: s.imo, mmsi: s.mmsi }, location: { port: PORTS[o.ship], ...(o.area ? { portArea: "A1" } : {}), ...(o.from ? { from: "SESTO" } : {}) },
    portcallId: 100 + o.ship, ...(o.sid ? { sourceId: `sid-${o.v}` } : {}),
  };
  const exp = { imo: s.imo, mmsi: s.mmsi, portcall: 100 + o.ship, lower: null, upper: null };
  let outcome = "save";
  switch (o.kind) {
    case "full": break;
    case "conf": ts.eventTimeConfidenceLowerDiff = -60 - o.v; ts.eventTimeConfidenceUpperDiff = 30 + o.v; exp.lower = -60 - o.v; exp.upper = 30 + o.v; break;
    case "badconf": ts.eventTimeConfidenceLowerDiff = 60; ts.eventTimeConfidenceUpperDiff = 30; break;
    case "find-portcall": delete ts.portcallId; break;
    case "find-portcall-etb": delete ts.portcallId; ts.eventType = "ETB"; ts.source = "Awake.AI"; break;
    case "find-etd": delete ts.portcallId; ts.eventType = "ETD"; if (ts.source === "Awake.AI Pred") ts.source = "Awake.AI"; break;
    case "no-portcall": delete ts.portcallId; ts.location.port = "FIXXX"; if (ts.source === "Awake.AI Pred") ts.source = "Awake.AI"; outcome = "drop"; break;
    case "pred": delete ts.portcallId; ts.location.port = "FIXXX"; ts.source = "Awake.AI Pred"; exp.portcall = null; break;
    case "no-imo": delete ts.ship.imo; break;
    case "unknown-ship": ts.ship = { mmsi: 999 }; outcome = "drop"; break;
    case "no-mmsi": delete ts.ship.mmsi; break;
    case "zero-mmsi": ts.ship.mmsi = 0; break;
    case "unknown-mmsi": ts.ship = { imo: 7000000 + o.v }; exp.imo = 7000000 + o.v; exp.mmsi = null; break;
    case "invalid": outcome = "drop";
      switch (o.v % 8) {
        case 0: ts.eventType = "XXX"; break;
        case 1: delete ts.eventTime; break;
        case 2: ts.eventTime = "yesterday"; break;
        case 3: delete ts.recordTime; break;
        case 4: delete ts.source; break;
        case 5: ts.ship = undefined; break;
        case 6: ts.location = { port: "TOOLONG" }; break;
        case 7: delete ts.location; break;
      }
      break;
    case "stationary": ts.source = "SCHEDULES_CALCULATED"; outcome = o.ship === 2 ? "save" : "drop"; break;
    case "poison": outcome = "poison"; return { outcome, body: [`not json ${o.v}`, "null", `{"eventType":"ETA",${o.v}`][o.v % 3] };
    case "poison-db": outcome = "poison"; ts.ship.imo = `abc${o.v}`; break;
  }
  const key = [exp.imo, ts.source, ts.location?.port, ts.eventType, ts.eventTime, ts.recordTime, exp.portcall].join("|");
  return { outcome, body: JSON.stringify(ts), ts, exp, key };
}

export default {
  id: "P01",
  quickSec: 16,
  thoroughSec: 400,
  real: ["portactivity process-queue and process-dlq handlers, timestamps service and DAO, validation", "synthesised queue, redrive, trigger and concurrency settings", "pg-promise, pg-pool, lib database and secrets"],
  stubs: ["SQS, Lambda and event source mapping", "PostgreSQL", "S3, Secrets Manager", "@middy/core and @middy/sqs-partial-batch-failure (re-implemented semantics)"],
  assumptions: ["unique index on the columns the insert names as its conflict target, NULLs distinct", "SQS standard queue, at-least-once delivery"],
  mustReach: ["p01.unknown", "p01.portcall", "p01.completed", "p01.saved", "p01.poison", "p01.redelivered", "p01.archived", "p01.clean-run"],
  async setup() {
    return { wiring: await WIRINGS.portactivity(), code: await bundle(QUEUE_CODE) };
  },
  scenarios: [
    {
      name: "queue",
      gen(rng, tier) {
        const n = rng.int(1, tier === "thorough" ? 50 : 24);
        const burst = rng.bool(0.7);
        const poison = rng.bool(0.5);
        const ops = [];
        for (let i = 0; i < n; i++) {
          if (i && rng.bool(0.12)) { ops.push({ ...rng.pick(ops), at: burst ? rng.int(0, 300) : rng.int(0, 60000) }); continue; }
          ops.push({
            at: burst ? rng.int(0, 300) : rng.int(0, 60000), ship: rng.int(0, 2), v: rng.int(0, 40), rec: rng.int(0, 5), source: rng.pick(["Portnet", "Awake.AI", "SCHEDULES_VTS_CONTROLLED", "Awake.AI Pred", "Pilotweb"]),
            kind: rng.pick(["full", "full", "full", "full", "conf", "badconf", "find-portcall", "find-portcall-etb", "find-etd", "no-portcall", "pred", "no-imo", "unknown-ship", "no-mmsi", "zero-mmsi", "unknown-mmsi", "invalid", "stationary", ...(poison ? ["poison", "poison", "poison-db"] : [])]),
            area: rng.bool(), from: rng.bool(0.3), sid: rng.bool(0.3),
          });
        }
        return { ops, cfg: {} , faults: rng.bool(0.25) ? {} : undefined };
      },
      faults: { "db.connect.before": 0.03, "db.before": 0.01, "db.lost": 0.015, "db.error": 0.01, "secrets.before": 0.05, "s3.before": 0.05, "sqs.reorder": 0.3, "sqs.duplicate": 0.04, "sqs.delete-lost": 0.04, crash: 0.004, slow: 0.006, recycle: 0.1 },
      maxEvents: 80000,
      async run(world, plan, ctx) {
        const pg = new PgServer(world);
        const aws = new Aws(world);
        pg.slowMs = 22000;
        portSchema(pg.db);
        portSeed(pg.db, world.now);
        pg.db.seed("vessel_location", [{ mmsi: SHIPS[0].mmsi, sog: 0.5, nav_stat: 0, modified: new Date(world.now + 12 * HOUR) }, { mmsi: SHIPS[1].mmsi, sog: 9, nav_stat: 1, modified: new Date(world.now + 12 * HOUR) }, { mmsi: SHIPS[2].mmsi, sog: 9, nav_stat: 0, modified: new Date(world.now + 12 * HOUR) }]);
        const d = deployQueue(world, ctx, { pg, aws });
        check(d.esms.length === 2, "queue or dead-letter queue has no trigger", "no-trigger");
        const q = d.queue(/Timestamps$/);
        const dlq = d.queue(/Timestamps-DLQ$/);
        // an archived message is one that went through the dead-letter queue
        const msgs = plan.ops.map((o) => ({ o, ...build(o) }));
        for (const m of msgs) world.after(m.o.at, "produce", () => { m.id = q.send(m.body).id; });
        await world.run({ deadline: world.now + 2 * HOUR });
        world.faultsEnabled = false;
        await world.run({ deadline: world.now + 2 * HOUR });
        check(!q.remaining().length && !dlq.remaining().length, "messages are still queued two hours after faults stopped", "stuck");

        const clean = world.firedFaults.filter((f) => !["sqs.reorder", "recycle", "sqs.duplicate"].includes(f.kind)).length === 0 && d.fns.process.stats.timeout === 0 && d.fns.process.stats.crash === 0;
        const archived = [...aws.bucket("dlq-bucket").values()].map((x) => x.body.toString());
        const rows = pg.db.rows("port_call_timestamp");
        const keyOf = (r) => [r.ship_imo, r.event_source, r.location_locode, r.event_type, r.event_time.toISOString(), r.record_time.toISOString(), r.portcall_id === null ? null : Number(r.portcall_id)].join("|");
        const byKey = new Map();
        for (const r of rows) { const k = keyOf(r); byKey.set(k, [...(byKey.get(k) ?? []), r]); }
        const wanted = new Map();
        for (const m of msgs) if (m.outcome === "save") wanted.set(m.key, m);
        // Portnet rows of a port call are replaced when the port changes: all messages here keep one port per port call
        for (const [k, rs] of byKey) {
          const m = wanted.get(k);
          check(m, `a row no message asked for: ${k}`, () => { const src = msgs.find((x) => x.ts && x.ts.eventTime === rs[0].event_time.toISOString()); return `unexpected-row:${src ? src.o.kind : "?"}`; });
          if (m.exp.portcall !== null) check(rs.length === 1, `timestamp stored ${rs.length} times: ${k}`, "duplicate");
        }
        for (const m of msgs) {
          const arch = archived.some((a) => a === m.body);
          if (m.outcome === "save") {
            const rs = byKey.get(m.key);
            check(rs || arch, `a valid timestamp (${m.o.kind}) was lost: neither stored nor archived`, `lost:${m.o.kind}`);
            if (clean) check(rs, `a valid timestamp (${m.o.kind}) was not stored although nothing failed`, `not-stored:${m.o.kind}`);
            if (rs) {
              const r = rs[0];
              const same = msgs.filter((x) => x.key === m.key);
              const ok = same.some((x) => (r.ship_mmsi ?? null) === x.exp.mmsi && (r.event_time_confidence_lower_diff ?? null) === x.exp.lower && (r.event_time_confidence_upper_diff ?? null) === x.exp.upper && (r.location_portarea ?? null) === (x.ts.location.portArea ?? null) && (r.location_from_locode ?? null) === (x.ts.location.from ?? null) && (r.source_id ?? null) === (x.ts.sourceId ?? null));
              check(ok, `stored timestamp differs from its message (${m.o.kind}): ${JSON.stringify(r)} vs ${m.body}`, `content:${m.o.kind}`);
              world.probe("p01.saved");
            }
          } else if (m.outcome === "poison") {
            check(arch, `an unprocessable message was not archived: ${m.body.slice(0, 60)}`, `poison-lost:${m.o.kind}`);
            world.probe("p01.poison");
          } else if (clean) check(!arch, `an invalid timestamp (${m.o.kind}) was retried into the archive`, `drop-archived:${m.o.kind}`);
          if (arch) world.probe("p01.archived");
        }
        check(pg.sessions.size === 0 || d.fns.process.stats.timeout + d.fns.process.stats.crash > 0, `${pg.sessions.size} database connections left open`, "connection-leak");
        if (q.redelivered) world.probe("p01.redelivered");
        if (clean) world.probe("p01.clean-run");
        for (const r of rows) void r;
      },
    },
    {
      // which ship and which port call a timestamp belongs to
      name: "identify",
      gen(rng, tier) {
        const hours = rng.shuffle([-70, -50, -30, -20, -12, -5, 5, 9, 14, 22, 26, 40, 44, 60, 75, 90, 110, 130]);
        const time = () => (rng.bool(0.35) ? null : hours[rng.int(0, hours.length - 1)]);
        const ages = rng.shuffle(Array.from({ length: 20 }, (_, i) => i + 1));
        const vessels = MMSIS.map((_, m) => ({ m, imo: rng.int(0, 2), age: ages.pop() })).filter(() => rng.bool(0.6));
        const calls = Array.from({ length: rng.int(1, 7) }, () => ({ m: rng.bool(0.2) ? 4 : rng.int(0, MMSIS.length - 1), imo: rng.int(0, 2), port: rng.pick([0, 0, 1]), age: ages.pop(), areas: Array.from({ length: rng.pick([1, 1, 1, 2, 0]) }, () => ({ eta: time(), etd: time(), ata: time(), atd: time() })) }));
        const ops = [];
        for (let i = rng.int(1, tier === "thorough" ? 20 : 10); i > 0; i--) {
          const imo = rng.bool(0.6) ? rng.int(0, 3) : null;
          ops.push({ n: ops.length, imo, m: imo === null || rng.bool(0.5) ? rng.int(0, MMSIS.length) : rng.pick([null, null, "zero"]), port: rng.pick([0, 0, 1]), type: rng.pick(["ETA", "ETA", "ETB", "ETD", "ATA", "ATD"]), source: rng.pick(["Awake.AI", "SCHEDULES_VTS_CONTROLLED", "Pilotweb", "Awake.AI Pred", "SCHEDULES_CALCULATED"]), h: rng.pick([-40, -25, -10, 7, 12, 24, 42, 80]), id: rng.bool(0.15) });
        }
        return { ops, cfg: { vessels, calls }, faults: rng.bool(0.6) ? {} : undefined };
      },
      faults: { "db.connect.before": 0.03, "db.before": 0.01, "db.lost": 0.01, "db.error": 0.01, "sqs.reorder": 0.3, "sqs.duplicate": 0.05, crash: 0.003, recycle: 0.1 },
      maxEvents: 60000,
      async run(world, plan, ctx) {
        const pg = new PgServer(world), aws = new Aws(world), { vessels, calls } = plan.cfg;
        portSchema(pg.db);
        const t0 = Math.floor(world.now / 1000) * 1000, at = (h) => (h === null ? null : new Date(t0 + h * HOUR));
        pg.db.seed("vessel", vessels.map((v) => ({ mmsi: MMSIS[v.m], imo: IMOS[v.imo], timestamp: t0 - v.age * 1000 })));
        pg.db.seed("port_call", calls.map((c, i) => ({ port_call_id: 500 + i, mmsi: MMSI_OF[c.m], imo_lloyds: IMOS[c.imo], port_to_visit: PORTS[c.port], port_call_timestamp: new Date(t0 - c.age * 60000) })));
        pg.db.seed("port_area_details", calls.flatMap((c, i) => c.areas.map((a) => ({ port_call_id: 500 + i, eta: at(a.eta), etd: at(a.etd), ata: at(a.ata), atd: at(a.atd) }))));
        const latest = (list, f) => list.filter(f).sort((a, b) => a.age - b.age)[0];
        const mmsiOf = (imo) => MMSI_OF[(latest(vessels, (v) => IMOS[v.imo] === imo) ?? latest(calls, (c) => c.m !== 4 && IMOS[c.imo] === imo))?.m];
        const imoOf = (mmsi) => (latest(vessels, (v) => MMSIS[v.m] === mmsi) ?? latest(calls, (c) => MMSI_OF[c.m] === mmsi));
        const d = deployQueue(world, ctx, { pg, aws });
        const q = d.queue(/Timestamps$/), dlq = d.queue(/Timestamps-DLQ$/);
        const msgs = plan.ops.map((o) => {
          const imo = o.imo === null ? undefined : [...IMOS, 7999999][o.imo];
          const mmsi = o.m === null ? undefined : o.m === "zero" ? 0 : [...MMSIS, 239999999][o.m];
          const eventTime = t0 + o.h * HOUR + 17 * 60000 + o.n * 1000;
          const ts = { eventType: o.type, eventTime: iso(eventTime), recordTime: iso(t0 - 60000), source: o.source, ship: { ...(imo && { imo }), ...(mmsi !== undefined && { mmsi }) }, location: { port: PORTS[o.port] }, ...(o.id && { portcallId: 900 + o.n }) };
          const asMmsi = mmsi || mmsiOf(imo), asImo = imo ?? (imoOf(mmsi) && IMOS[imoOf(mmsi).imo]);
          const kind = o.type === "ETB" ? (["Awake.AI", "SCHEDULES_CALCULATED"].includes(o.source) ? "eta" : null) : o.type.toLowerCase();
          let best = null, by = Infinity;
          calls.forEach((c, i) => {
            if (c.port !== o.port || !(MMSI_OF[c.m] === asMmsi || IMOS[c.imo] === asImo) || !kind) return;
            for (const a of c.areas) {
              const h = a[kind];
              if (h === null || (kind[0] === "e" ? h < 0 : h > 0)) continue;
              const far = Math.abs(t0 + h * HOUR - eventTime);
              if (far < by) { by = far; best = 500 + i; }
            }
          });
          // two port calls that are equally far are both right
          const equal = new Set(calls.flatMap((c, i) => (c.port === o.port && kind && (MMSI_OF[c.m] === asMmsi || IMOS[c.imo] === asImo) && c.areas.some((a) => a[kind] !== null && Math.abs(t0 + a[kind] * HOUR - eventTime) === by) ? [500 + i] : [])));
          const call = o.id ? 900 + o.n : best;
          const saved = !(o.source === "Awake.AI Pred" && o.type === "ETD") && asImo !== undefined && (call !== null || o.source === "Awake.AI Pred");
          const m2 = mmsi > 0 ? mmsi : (mmsiOf(asImo) ?? null);
          return { o, body: JSON.stringify(ts), ts, saved, call, equal: o.id ? new Set([call]) : equal, imo: asImo, mmsi: m2 };
        });
        for (const m of msgs) world.after(m.o.n * 50, "produce", () => { q.send(m.body); });
        await world.run({ deadline: world.now + HOUR });
        world.faultsEnabled = false;
        await world.run({ deadline: world.now + HOUR });
        check(!q.remaining().length && !dlq.remaining().length, "messages are still queued two hours after faults stopped", "stuck");
        const archived = [...aws.bucket("dlq-bucket").values()].map((x) => x.body.toString());
        const rows = pg.db.rows("port_call_timestamp");
        const failed = world.firedFaults.some((f) => !["sqs.reorder", "recycle", "sqs.duplicate"].includes(f.kind));
        for (const m of msgs) {
          const rs = rows.filter((r) => r.event_time.toISOString() === m.ts.eventTime);
          const what = `${m.o.type} of ${JSON.stringify(m.ts.ship)} in ${m.ts.location.port} from ${m.o.source}`;
          check(m.saved || !rs.length, `${what} was stored with ship ${rs[0]?.ship_imo} and port call ${rs[0]?.portcall_id}, which nothing known says`, "identified");
          if (!m.saved) { world.probe("p01.unknown"); continue; }
          if (!rs.length) { check(failed && archived.includes(m.body), `${what} was not stored`, "not-identified"); continue; }
          const r = rs[0];
          check(Number(r.ship_imo) === m.imo && (r.ship_mmsi ?? null) === m.mmsi, `${what} was stored for ship ${r.ship_imo} ${r.ship_mmsi}, it is ${m.imo} ${m.mmsi}`, "ship");
          check(m.call === null ? r.portcall_id === null : m.equal.has(Number(r.portcall_id)), `${what} was stored for port call ${r.portcall_id}, it belongs to ${m.call}`, "portcall");
          if (m.call !== null && !m.o.id) world.probe("p01.portcall");
          if (m.ts.ship.imo === undefined || !(m.ts.ship.mmsi > 0)) world.probe("p01.completed");
        }
      },
    },
  ],
};
