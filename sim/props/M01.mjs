// M01: every accepted maintenance tracking message is stored completely and once, or archived.
import { bundle } from "../runtime.mjs";
import { WIRINGS } from "../apps.mjs";
import { deploy, LambdaFn } from "../lambda.mjs";
import { check } from "../check.mjs";
import { PgServer } from "../pgserver.mjs";
import { Aws } from "../services.mjs";

const HOUR = 3600000;
const BASE = Date.UTC(2025, 1, 1, 6, 0, 0);
const SECRET = { username: "u", password: "db-pass-of-x", host: "db-rw:1/x", ro_host: "db-ro:1/x", proxy_host: "db-rw:1/x", proxy_ro_host: "db-ro:1/x" };

const observation = (o) => ({ havainto: { tyokone: { id: 10 + o.m, tyokonetyyppi: "aura-auto" }, sijainti: { koordinaatit: { x: 293358 + o.v, y: 6889073 } }, suunta: 45, havaintoaika: new Date(BASE + o.v * 1000).toISOString(), ...(o.c ? { urakkaid: 900 + o.c } : {}), suoritettavatTehtavat: ["suolaus", "auraus ja sohjonpoisto"] } });

function build(o, i) {
  const obs = o.obs.map(observation);
  if (o.kind === "big") obs.push(...Array.from({ length: 700 }, (_, k) => observation({ m: 5, v: 100000 + o.id * 1000 + k, c: 1 })));
  const header = { lahettaja: { jarjestelma: "Järjestelmä €", organisaatio: { ytunnus: "1" } }, viestintunniste: { id: i }, lahetysaika: new Date(BASE + 100000 + o.id).toISOString() };
  let system = "Järjestelmä €";
  if (o.kind === "no-system") { delete header.lahettaja.jarjestelma; system = "UNKNOWN"; }
  if (o.kind === "no-sender") delete header.lahettaja;
  if (o.kind === "bad-observation") obs.splice(Math.min(1, obs.length), 0, { havainto: { tyokone: { id: "x" }, havaintoaika: new Date(BASE).toISOString() } });
  if (o.kind === "bad-time") obs.push({ havainto: { tyokone: { id: 3 }, urakkaid: 1, havaintoaika: "kello viisi" } });
  let body = JSON.stringify({ otsikko: header, havainnot: obs });
  if (o.kind === "not-json") body = `{"otsikko": ${i}`;
  return { body, obs, system, sent: header.lahetysaika, poison: ["no-sender", "bad-observation", "bad-time"].includes(o.kind), o };
}

export default {
  id: "M01",
  quickSec: 16,
  thoroughSec: 400,
  real: ["maintenance-tracking update-queue, process-queue and process-dlq handlers, service and DAO", "synthesised queue, redrive, trigger and concurrency settings", "pg-promise, pg-pool, lib database, secrets and S3 helper"],
  stubs: ["SQS, Lambda and event source mapping", "sqs-extended-client (payload offloading re-implemented)", "PostgreSQL with deadlock detection", "S3, Secrets Manager"],
  assumptions: ["an accepted message is one the upload function answered with 200", "an offloaded payload is archived as its reference and stays in the payload bucket"],
  mustReach: ["m01.saved", "m01.archived", "m01.redelivered", "m01.big", "m01.refused"],
  async setup() {
    const b = (n) => `road/maintenance-tracking/src/lambda/${n}/${n}.ts`;
    return { wiring: await WIRINGS.maintenance(), code: await bundle({ update: b("update-queue"), process: b("process-queue"), dlq: b("process-dlq") }) };
  },
  scenarios: [
    {
      name: "ingest",
      gen(rng, tier) {
        const n = rng.int(1, tier === "thorough" ? 30 : 12);
        const spread = rng.pick([0, 20, 5000]);
        const ops = [];
        for (let i = 0; i < n; i++) {
          if (i && rng.bool(0.15)) { ops.push({ ...rng.pick(ops), at: rng.int(0, spread) }); continue; }
          const k = rng.int(0, 5);
          ops.push({ id: i, at: rng.int(0, spread), kind: rng.pick(["ok", "ok", "ok", "ok", "ok", "no-system", "no-sender", "bad-observation", "bad-time", "not-json", ...(rng.bool(0.25) ? ["big"] : [])]), obs: Array.from({ length: k }, () => ({ m: rng.int(0, 2), v: rng.int(0, 12), c: rng.int(1, 2) })) });
        }
        return { ops, cfg: {}, faults: rng.bool(0.2) ? {} : undefined };
      },
      faults: { "db.connect.before": 0.04, "db.before": 0.01, "db.lost": 0.012, "db.error": 0.01, "secrets.before": 0.05, "s3.before": 0.05, "s3.lost": 0.03, "sqs.before": 0.05, "sqs.lost": 0.05, "sqs.reorder": 0.3, "sqs.duplicate": 0.05, "sqs.delete-lost": 0.05, crash: 0.005, slow: 0.005, recycle: 0.1 },
      maxEvents: 120000,
      async run(world, plan, ctx) {
        const pg = new PgServer(world);
        const aws = new Aws(world);
        pg.slowMs = 70000;
        aws.secrets.set("sec", JSON.stringify(SECRET));
        pg.db.table("maintenance_tracking_observation_data", "id bigint primary key, observation_time timestamptz not null, sending_time timestamptz not null, json text not null, harja_workmachine_id int not null, harja_contract_id int, sending_system text not null, status text not null, hash text not null, s3_uri text not null, unique(hash)");
        pg.db.sequence?.("seq_maintenance_tracking_observation_data");
        const d = deploy(world, ctx.wiring, { aws, fns: { process: { re: /ProcessQueue$/, code: ctx.code.process, svc: { pg, aws } }, dlq: { re: /ProcessDlq$/, code: ctx.code.dlq, svc: { aws } } } });
        check(d.esms.length === 2, "the tracking queue or its dead-letter queue has no trigger", "no-trigger");
        const q = d.queue(/Queue$/);
        const dlq = d.queue(/Queue-DLQ$/);
        const upload = new LambdaFn(world, "update", ctx.code.update, { env: { SQS_QUEUE_URL: q.url, SQS_BUCKET_NAME: "msg-bucket", SECRET_ID: "sec", AWS_REGION: "eu-west-1" }, svc: { aws }, timeoutSec: 60, reserved: 100 });
        // transactions are complete messages
        pg.db.commitHooks.push((tx, changes) => { if (changes.length) world.record("commit", { n: changes.length }); });
        const msgs = plan.ops.map(build);
        for (const m of msgs) world.after(m.o.at, "upload", () => { upload.invoke({ body: m.body }).then((r) => { m.accepted = r.status === "ok" && r.value?.statusCode === 200; m.answered = r.status; world.record("answer", { id: m.o.id, ok: m.accepted }); }); });
        await world.run({ deadline: world.now + 2 * HOUR });
        world.faultsEnabled = false;
        await world.run({ deadline: world.now + 2 * HOUR });
        check(!q.remaining().length && !dlq.remaining().length, "messages are still queued two hours after faults stopped", "stuck");
        const rows = pg.db.rows("maintenance_tracking_observation_data");
        const archived = [...aws.bucket("dlq-bucket").values()].map((x) => x.body.toString());
        const payload = (text) => aws.bucket("msg-bucket").get(text)?.body.toString();
        const byJson = new Map();
        for (const r of rows) byJson.set(r.json, [...(byJson.get(r.json) ?? []), r]);
        const known = new Map();
        for (const m of msgs) for (const x of m.obs) { const k = JSON.stringify(x.havainto); known.set(k, [...(known.get(k) ?? []), m]); }
        for (const [json, rs] of byJson) {
          check(known.has(json), `a stored observation no message contained: ${json.slice(0, 200)}`, "unknown-row");
          check(rs.length === 1, `an observation is stored ${rs.length} times: ${json.slice(0, 120)}`, "duplicate");
          const x = JSON.parse(json), r = rs[0];
          const ms = known.get(json);
          check(+r.observation_time === +new Date(x.havaintoaika) && r.harja_workmachine_id === x.tyokone.id && r.harja_contract_id === (x.urakkaid ?? null) && r.status === "UNHANDLED" && ms.some((m) => m.system === r.sending_system && +new Date(m.sent) === +r.sending_time), `stored observation differs from its message: ${JSON.stringify(r).slice(0, 400)}`, "content");
        }
        const failuresPossible = world.firedFaults.some((f) => !["sqs.reorder", "recycle", "sqs.duplicate", "sqs.delete-lost"].includes(f.kind)) || d.fns.process.stats.timeout > 0;
        for (const m of msgs) {
          if (m.o.kind === "not-json") { check(!m.accepted, "a message that is not JSON was accepted", "accepted-garbage"); world.probe("m01.refused"); continue; }
          if (!m.accepted) { if (!failuresPossible) check(false, `message ${m.o.kind} was refused although nothing failed`, "refused"); continue; }
          const arch = archived.some((a) => a === m.body || payload(a) === m.body);
          const stored = m.obs.filter((x) => byJson.has(JSON.stringify(x.havainto))).length;
          if (m.poison) check(arch || (m.o.kind === "bad-time" && stored === m.obs.length), `an accepted message that cannot be stored (${m.o.kind}) was lost: not archived`, `poison-lost:${m.o.kind}`);
          else {
            check(stored === m.obs.length || arch, `accepted message ${m.o.id}: ${stored} of ${m.obs.length} observations stored and it is not archived`, stored ? "partly-lost" : "lost");
            if (!failuresPossible) check(stored === m.obs.length || !m.obs.length || pg.db.deadlocks, `accepted message ${m.o.id} not stored although nothing failed`, "not-stored");
            if (stored) world.probe("m01.saved");
            if (m.o.kind === "big" && stored) world.probe("m01.big");
          }
          if (arch) world.probe("m01.archived");
        }
        if (q.redelivered) world.probe("m01.redelivered");
      },
    },
  ],
};
