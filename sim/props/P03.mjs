// P03: the pilotage mirror converges to the source and every change reaches the timestamp queue.
import { bundle } from "../runtime.mjs";
import { WIRINGS } from "../apps.mjs";
import { deploy } from "../lambda.mjs";
import { httpsModule } from "../services.mjs";
import { check } from "../check.mjs";
import { portSchema, portSeed, SECRET, SHIPS, HOUR, PgServer, Aws, Http } from "../harness/portactivity.mjs";

const BASE = Date.UTC(2025, 2, 3, 8, 0, 0);
const iso = (ms) => new Date(ms).toISOString();
const NEXT = { ESTIMATE: ["ESTIMATE", "NOTICE", "ORDER"], NOTICE: ["NOTICE", "ORDER"], ORDER: ["ORDER", "ACTIVE"], ACTIVE: ["ACTIVE", "FINISHED"], FINISHED: [] };

function pilotage(p) {
  const s = SHIPS[p.ship];
  return {
    id: p.id, state: p.state, vessel: { name: `Alus ä${p.ship}`, ...(p.known !== "imo" && { mmsi: s.mmsi }), ...(p.known !== "mmsi" && { imo: s.imo }) },
    route: { start: { code: p.start }, end: { code: p.end, ...(p.id % 2 ? { berth: { code: "B1" } } : {}) } },
    vesselEta: iso(BASE + (30 + p.v) * HOUR), pilotBoardingTime: p.boarding ? iso(BASE + (30 + p.v + p.boarding) * HOUR) : undefined, endTime: iso(BASE + (40 + p.v) * HOUR),
    scheduleSource: "S", scheduleUpdated: iso(BASE + p.v * 60000 + p.id), portnetPortCallId: p.pc ? 500 + p.id : undefined,
  };
}
const PORT_OF = { FILEV: "FIHKO", FIKMU: "FIKTK" }; // places that belong to a port with another code
const portOf = (code) => PORT_OF[code] ?? code;
function expected(j) {
  const max = j.pilotBoardingTime && j.pilotBoardingTime > j.vesselEta ? j.pilotBoardingTime : j.vesselEta;
  const [eventType, eventTime] = { ESTIMATE: ["RPS", max], NOTICE: ["RPS", max], ORDER: ["PPS", max], ACTIVE: ["APS", j.vesselEta], FINISHED: ["APC", j.endTime] }[j.state];
  return `${j.id}|${eventType}|${eventTime}|${j.scheduleUpdated}`;
}

export default {
  id: "P03",
  quickSec: 16,
  thoroughSec: 300,
  real: ["portactivity update-timestamps-from-pilotweb handler, pilotweb service and API client, pilotage and timestamp DAOs", "queue-service", "lib database, secrets"],
  stubs: ["Pilotweb endpoint over node:https (streamed, truncated, failing answers)", "PostgreSQL", "SQS with an immediate consumer", "Lambda", "Secrets Manager"],
  assumptions: ["the source lists each pilotage once and changes scheduleUpdated with every change", "a truncated answer is signalled by the connection (aborted)", "a timestamp sent just before a failed save may outlive a pilotage that the source drops before the next successful run", "runs do not overlap (one run a minute, 15 s limit)"],
  mustReach: ["p03.call-found", "p03.removed", "p03.updated", "p03.finished", "p03.crash", "p03.fetch-failed", "p03.stored-removed"],
  async setup() {
    return { wiring: await WIRINGS.portactivity(), code: await bundle({ pilotweb: "marine/portactivity/src/lambda/update-timestamps-from-pilotweb/update-timestamps-from-pilotweb.ts" }) };
  },
  scenarios: [
    {
      name: "mirror",
      gen(rng, tier) {
        const n = rng.int(2, tier === "thorough" ? 16 : 8);
        const ops = [];
        for (let r = 0; r < n; r++) {
          const changes = [];
          const k = rng.int(0, 4);
          for (let i = 0; i < k; i++) changes.push({ op: rng.pick(["add", "add", "change", "change", "advance", "advance", "remove"]), id: rng.int(1, 6), state: rng.pick(["ESTIMATE", "NOTICE", "ORDER", "ACTIVE", "FINISHED"]), boarding: rng.int(-2, 2), to: rng.int(0, 2), pc: rng.bool(0.65), known: rng.pick(["both", "both", "imo", "mmsi"]), start: rng.pick(["FIHKO", "FIHKO", "FILEV"]), end: rng.pick(["FIRAU", "FIRAU", "FIKMU"]) });
          ops.push({ changes });
        }
        return { ops, cfg: { calls: Array.from({ length: rng.int(0, 5) }, (_, i) => ({ id: 700 + i, ship: rng.int(0, 2), port: rng.pick(["FIHKO", "FIRAU", "FIKTK", "FIHEL"]), age: rng.pick([1, 20, 20, 40, 90]) })) }, faults: rng.bool(0.15) ? {} : undefined };
      },
      faults: { "db.connect.before": 0.04, "db.before": 0.02, "db.lost": 0.03, "db.error": 0.02, "secrets.before": 0.04, "sqs.before": 0.05, "sqs.lost": 0.05, "http.before": 0.06, "http.lost": 0.03, "http.5xx": 0.04, "http.truncated": 0.05, crash: 0.02, slow: 0.01, recycle: 0.1 },
      maxEvents: 60000,
      async run(world, plan, ctx) {
        const pg = new PgServer(world);
        const aws = new Aws(world);
        const http = new Http(world);
        http.slowMs = 20000;
        pg.slowMs = 20000;
        portSchema(pg.db);
        portSeed(pg.db, world.now);
        pg.db.seed("port_call", plan.cfg.calls.map((c) => ({ port_call_id: c.id, mmsi: SHIPS[c.ship].mmsi, imo_lloyds: SHIPS[c.ship].imo, port_to_visit: c.port, port_call_timestamp: new Date(world.now - c.age * HOUR) })));
        // the recent port calls of the pilotage's ship in the ports it goes between
        const recent = [{ id: 100, ship: 0, port: "FIHKO" }, { id: 101, ship: 1, port: "FIRAU" }, { id: 102, ship: 2, port: "FIKTK" }, ...plan.cfg.calls.filter((c) => c.age < 36)];
        const callsOf = (p) => (p.pc ? [500 + p.id] : recent.filter((c) => c.ship === p.ship && [portOf(p.start), portOf(p.end)].includes(c.port)).map((c) => c.id));
        aws.secrets.set("sec", JSON.stringify({ ...SECRET, "pilotweb.url": "pilotweb.example", "pilotweb.auth": "cGlsb3Q6d2Vi" }));
        const live = new Map();
        const everSeen = new Map(); // id → last fetched pilotage by a run
        http.route("pilotweb", (r) => r.url === "https://pilotweb.example/digitraffic/pilotages/active", (r) => {
          check(r.headers.authorization === "Basic cGlsb3Q6d2Vi", "pilotweb request without credentials", "auth");
          return { status: 200, body: [...live.values()].map(pilotage) };
        });
        const d = deploy(world, ctx.wiring, { aws, fns: { pilotweb: { re: /UpdateTimestampsFromPilotweb$/, code: ctx.code.pilotweb, svc: { pg, aws, fetch: http.fetch, modules: { https: httpsModule(http) } } } } });
        const q = d.queue(/Timestamps$/);
        const sent = new Set();
        const send0 = q.send.bind(q);
        let serial = 0;
        q.send = (body, o) => {
          const t = JSON.parse(body);
          sent.add(`${t.sourceId}|${t.eventType}|${t.eventTime}|${t.recordTime}`);
          const of = everSeen.get(Number(t.sourceId));
          check(t.source === "Pilotweb" && of && t.ship.mmsi === pilotage(of).vessel.mmsi && t.ship.imo === pilotage(of).vessel.imo && t.location.port === portOf(of.end) && t.location.from === portOf(of.start), `malformed timestamp sent: ${body}`, "malformed");
          check(callsOf(of).includes(t.portcallId), `a timestamp of pilotage ${t.sourceId} was sent for port call ${t.portcallId}, its ship has ${callsOf(of)} there`, "port-call");
          if (!of.pc) world.probe("p03.call-found");
          // the consumer saves it at once
          const key = (r) => `${r.source_id}|${r.event_type}|${+r.event_time}|${+r.record_time}`;
          const row = { event_type: t.eventType, event_time: new Date(t.eventTime), event_source: t.source, record_time: new Date(t.recordTime), location_locode: t.location.port, ship_mmsi: t.ship.mmsi, ship_imo: SHIPS[of.ship].imo, portcall_id: t.portcallId, source_id: t.sourceId };
          if (!pg.db.rows("port_call_timestamp").some((r) => key(r) === key(row))) pg.db.seed("port_call_timestamp", [row]);
          serial++;
          return { id: `x${serial}` };
        };
        void send0;
        // a foreign timestamp whose source id equals a pilotage id must survive
        pg.db.seed("port_call_timestamp", [1, 2, 3].map((i) => ({ event_type: "ETA", event_time: new Date(BASE + 5 * HOUR), event_source: "Awake.AI", record_time: new Date(BASE + i), location_locode: "FIRAU", ship_imo: 9000001, portcall_id: 100, source_id: String(i) })));
        const fn = d.fns.pilotweb;
        let v = 1;
        const step = async (o) => {
          for (const c of o.changes) {
            const cur = live.get(c.id);
            if (c.op === "add" && !cur && !everSeen.has(c.id)) { live.set(c.id, { id: c.id, ship: c.id % 3, state: c.state, v: v++, boarding: c.boarding, pc: c.pc, known: c.known, start: c.start, end: c.end }); everSeen.set(c.id, live.get(c.id)); }
            else if (c.op === "change" && cur && cur.state !== "FINISHED") live.set(c.id, { ...cur, v: v++, boarding: c.boarding });
            else if (c.op === "advance" && cur) { const n = NEXT[cur.state]; if (n.length) { const s = n[Math.min(n.length - 1, c.to)]; live.set(c.id, { ...cur, state: s, v: v++ }); if (s === "FINISHED") world.probe("p03.finished"); } }
            else if (c.op === "remove" && cur) { live.delete(c.id); world.probe("p03.removed"); }
          }
          const r = await fn.invoke({});
          if (r.status === "crash") world.probe("p03.crash");
          world.record("run", { s: r.status });
          return r;
        };
        const stored = new Set(); // pilotages that were ever stored
        pg.db.commitHooks.push((tx, changes) => { for (const c of changes) if (c.table.name === "pilotage" && c.op === "ins") stored.add(Number(c.row.vals.id)); });
        const drive = (async () => {
          for (const o of plan.ops) { await step(o); await world.sleep(45000); }
          world.faultsEnabled = false;
          await step({ changes: [] });
          await world.sleep(60000);
          const seen = sent.size;
          await step({ changes: [] });
          check(sent.size === seen, "an unchanged pilotage was sent again", "resent-unchanged");
          return true;
        })();
        let fin;
        drive.then(() => { fin = true; }, (e) => world.fail(e));
        await world.run({ until: () => fin, deadline: world.now + 3 * HOUR });
        check(fin, "pilotweb runs did not finish", "stuck");
        const rows = new Map(pg.db.rows("pilotage").map((r) => [Number(r.id), r]));
        const stamps = pg.db.rows("port_call_timestamp");
        for (const p of live.values()) {
          const j = pilotage(p);
          const r = rows.get(p.id);
          if (p.state === "FINISHED" && !r) continue; // never known while active
          check(r, `pilotage ${p.id} (${p.state}) of the source is not stored`, "missing");
          const same = r.state === j.state && +r.schedule_updated === +new Date(j.scheduleUpdated) && +r.vessel_eta === +new Date(j.vesselEta) && (r.vessel_imo ?? undefined) === j.vessel.imo && (r.vessel_mmsi ?? undefined) === j.vessel.mmsi && +r.pilotage_end_time === +new Date(j.endTime) && (r.pilot_boarding_time === null ? undefined : +r.pilot_boarding_time) === (j.pilotBoardingTime && +new Date(j.pilotBoardingTime)) && r.start_code === j.route.start.code && r.end_code === j.route.end.code && r.vessel_name === j.vessel.name && (r.end_berth ?? undefined) === j.route.end.berth?.code;
          check(same, `stored pilotage ${p.id} differs from the source: ${JSON.stringify(r)} vs ${JSON.stringify(j)}`, "differs");
          if (callsOf(p).length) check(sent.has(expected(j)), `the ${p.state} timestamp of pilotage ${p.id} was never sent to the queue`, `not-sent`);
          if (p.v > 1) world.probe("p03.updated");
        }
        for (const [id, r] of rows) if (r.state !== "FINISHED") check(live.has(id), `pilotage ${id} is stored as ${r.state} although the source no longer lists it`, "not-removed");
        for (const id of stored) if (!live.has(id)) world.probe("p03.stored-removed");
        for (const s of stamps) {
          if (s.event_source !== "Pilotweb") continue;
          const id = Number(s.source_id);
          if (stored.has(id)) check(live.has(id) || rows.has(id), `a timestamp of pilotage ${id} outlived it`, "timestamp-not-removed");
        }
        check(stamps.filter((s) => s.event_source === "Awake.AI").length === 3, "a timestamp of another source was removed", "foreign-removed");
        if (world.faultCounts["http.before"] || world.faultCounts["http.truncated"]) world.probe("p03.fetch-failed");
      },
    },
  ],
};
