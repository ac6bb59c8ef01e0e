// P02: a Portnet timestamp replaces, atomically, the Portnet timestamps its port call had for another port.
import { bundle } from "../runtime.mjs";
import { WIRINGS } from "../apps.mjs";
import { check } from "../check.mjs";
import { portSchema, portSeed, deployQueue, QUEUE_CODE, SHIPS, PORTS, HOUR, PgServer, Aws } from "../harness/portactivity.mjs";

const BASE = Date.UTC(2025, 2, 3, 8, 0, 0);
const iso = (ms) => new Date(ms).toISOString();

export default {
  id: "P02",
  quickSec: 16,
  thoroughSec: 300,
  real: ["portactivity process-queue handler, timestamps service and DAO", "synthesised queue, redrive, trigger and concurrency settings", "pg-promise, pg-pool, lib database and secrets"],
  stubs: ["SQS, Lambda and event source mapping", "PostgreSQL (READ COMMITTED, row locks, deadlock detection)", "S3, Secrets Manager"],
  assumptions: ["two timestamps of one port call saved at the same time need not see each other; the order is that of their transactions"],
  mustReach: ["p02.replaced", "p02.other-source-kept", "p02.crash", "p02.concurrent"],
  async setup() {
    return { wiring: await WIRINGS.portactivity(), code: await bundle(QUEUE_CODE) };
  },
  scenarios: [
    {
      name: "locode-change",
      gen(rng, tier) {
        const n = rng.int(2, tier === "thorough" ? 40 : 20);
        const gap = rng.pick([0, 5, 400, 3000]);
        const ops = [];
        let at = 0;
        for (let i = 0; i < n; i++) {
          at += rng.int(0, gap);
          ops.push({ at, ship: rng.int(0, 1), port: rng.int(0, 3), v: rng.int(0, 6), type: rng.pick(["ETA", "ETD", "ATA"]), source: rng.bool(0.75) ? "Portnet" : rng.pick(["Awake.AI", "Pilotweb", "SCHEDULES_VTS_CONTROLLED"]), pc: rng.bool(0.9) });
        }
        return { ops, cfg: {}, faults: rng.bool(0.2) ? {} : undefined };
      },
      faults: { "db.connect.before": 0.02, "db.before": 0.01, "db.lost": 0.012, "db.error": 0.015, "sqs.reorder": 0.3, "sqs.duplicate": 0.03, "sqs.delete-lost": 0.03, crash: 0.008, slow: 0.004, recycle: 0.1 },
      maxEvents: 80000,
      async run(world, plan, ctx) {
        const pg = new PgServer(world);
        const aws = new Aws(world);
        portSchema(pg.db);
        portSeed(pg.db, world.now);
        // rows other port calls and other sources have had all along
        const old = [];
        for (const [i, s] of SHIPS.entries()) for (const src of ["Portnet", "Awake.AI"]) old.push({ event_type: "ETA", event_time: new Date(BASE + 50 * HOUR), event_source: src, record_time: new Date(BASE - 90000), location_locode: PORTS[i], ship_mmsi: s.mmsi, ship_imo: s.imo, portcall_id: 100 + i });
        pg.db.seed("port_call_timestamp", old);
        pg.db.commitHooks.push((tx, changes) => {
          const ins = changes.filter((c) => c.table.name === "port_call_timestamp" && c.op === "ins").map((c) => c.row);
          const del = changes.filter((c) => c.table.name === "port_call_timestamp" && c.op === "del").map((c) => c.row.vals);
          const all = pg.db.getTable("port_call_timestamp").rows.filter((r) => r.xmin.state === "committed" && !(r.xmax && r.xmax.tx.state === "committed"));
          for (const r of ins) {
            const v = r.vals;
            world.record("insert", { pc: v.portcall_id, l: v.location_locode, s: v.event_source });
            if (v.event_source !== "Portnet") continue;
            const stale = all.filter((x) => x.vals.event_source === "Portnet" && String(x.vals.portcall_id) === String(v.portcall_id) && x.vals.location_locode !== v.location_locode && x.xmin.commitSeq <= tx.beganSeq);
            // rows another transaction is just removing do not count
            const bad = stale.filter((x) => !(x.xmax && x.xmax.tx.state === "active"));
            check2(world, !bad.length, `port call ${v.portcall_id}: Portnet timestamp for ${v.location_locode} committed while ${bad.length} for ${bad[0]?.vals.location_locode} from before remain`, "stale-locode");
            const conc = all.filter((x) => x.vals.event_source === "Portnet" && String(x.vals.portcall_id) === String(v.portcall_id) && x.vals.location_locode !== v.location_locode);
            if (conc.length) world.probe("p02.concurrent");
          }
          for (const v of del) {
            check2(world, v.event_source === "Portnet", `a timestamp of ${v.event_source} was removed by a port change`, "removed-other-source");
            const now = all.filter((x) => x.vals.event_source === "Portnet" && String(x.vals.portcall_id) === String(v.portcall_id) && x.vals.location_locode !== v.location_locode);
            check2(world, now.length, `port call ${v.portcall_id}: Portnet timestamp for ${v.location_locode} removed although no other port's timestamp is stored`, "removed-without-replacement");
            world.probe("p02.replaced");
          }
          if (ins.some((r) => r.vals.event_source !== "Portnet") && all.some((x) => x.vals.event_source === "Portnet")) world.probe("p02.other-source-kept");
        });
        const d = deployQueue(world, ctx, { pg, aws });
        const q = d.queue(/Timestamps$/);
        const dlq = d.queue(/Timestamps-DLQ$/);
        const msgs = plan.ops.map((o) => {
          const s = SHIPS[o.ship];
          return { o, body: JSON.stringify({ eventType: o.type, eventTime: iso(BASE + 150 * HOUR + o.v * 60000), recordTime: iso(BASE - 1000), source: o.source, ship: s, location: { port: PORTS[o.port] }, portcallId: 100 + o.ship }) };
        });
        for (const m of msgs) world.after(m.o.at, "produce", () => q.send(m.body));
        await world.run({ deadline: world.now + 2 * HOUR });
        world.faultsEnabled = false;
        await world.run({ deadline: world.now + 2 * HOUR });
        check(!q.remaining().length && !dlq.remaining().length, "messages are still queued two hours after faults stopped", "stuck");
        const rows = pg.db.rows("port_call_timestamp");
        const archived = new Set([...aws.bucket("dlq-bucket").values()].map((x) => x.body.toString()));
        // untouched: the third port call, and every other source's rows
        for (const o of old) {
          if (o.event_source === "Portnet" && o.portcall_id !== 102) continue;
          check(rows.some((r) => String(r.portcall_id) === String(o.portcall_id) && r.event_source === o.event_source && +r.event_time === +o.event_time), `the ${o.event_source} timestamp of port call ${o.portcall_id} disappeared`, "unrelated-removed");
        }
        for (const m of msgs) {
          if (m.o.source === "Portnet" || archived.has(m.body)) continue;
          const e = JSON.parse(m.body);
          check(rows.some((r) => r.event_source === e.source && r.location_locode === e.location.port && r.event_time.toISOString() === e.eventTime && r.event_type === e.eventType), `timestamp of ${e.source} for ${e.location.port} is not stored`, "other-source-lost");
        }
        // every port call that got a Portnet timestamp still has one
        for (const pc of [100, 101, 102]) check(rows.some((r) => r.event_source === "Portnet" && Number(r.portcall_id) === pc), `port call ${pc} has no Portnet timestamp left`, "all-removed");
        // one message after another: only the last port is left
        if (!world.firedFaults.length && plan.ops.length <= 12) {
          for (const ship of [0, 1]) {
            const mine = msgs.filter((m) => m.o.source === "Portnet" && m.o.ship === ship);
            const ports = new Set(mine.map((m) => PORTS[m.o.port]));
            if (ports.size === 1) check(rows.filter((r) => r.event_source === "Portnet" && Number(r.portcall_id) === 100 + ship).every((r) => ports.has(r.location_locode)), `port call ${100 + ship} keeps timestamps of its old port`, "old-port-kept");
          }
        }
        if (d.fns.process.stats.crash) world.probe("p02.crash");
      },
    },
  ],
};
function check2(world, cond, msg, fp) {
  if (cond) return;
  try { check(false, msg, fp); } catch (e) { world.fail(e); }
}
