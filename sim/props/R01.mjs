// R01: every uploaded passenger information message is stored whole, or archived.
import { bundle } from "../runtime.mjs";
import { WIRINGS } from "../apps.mjs";
import { deploy } from "../lambda.mjs";
import { check } from "../check.mjs";
import { MysqlServer } from "../mysqlserver.mjs";
import { Aws } from "../services.mjs";
import { SECRET, HOUR, MIN, canon, dbMessages, genRosm, rosmMessage, stored, tables } from "../harness/rami.mjs";

// ways in which an upload can be wrong
const BROKEN = {
  noVersion: (m) => { delete m.payload.messageVersion; return m; },
  badDate: (m) => { m.payload.startValidity = "tomorrow"; return m; },
  badType: (m) => { m.payload.messageType = "OTHER"; return m; },
  noPayload: (m) => ({ headers: m.headers }),
  empty: () => ({}),
  oddTime: (m) => { m.payload.creationDateTime = 5; return m; },
  extra: (m) => ({ ...m, unknownPart: { x: 1 } }),
  longTitle: (m) => { m.payload.title = "t".repeat(300); return m; },
  nullChannel: (m) => { if (m.payload.scheduledMessage) m.payload.scheduledMessage.deliveryChannels = ["OTHER"]; else m.payload.monitoredJourneyScheduledMessage.messageContentType = "OTHER"; return m; },
  nullName: (m) => { const d = m.payload.scheduledMessage?.onGroundRecipient?.deliveryPoints; if (d) d[0].nameLong = null; else m.payload.monitoredJourneyScheduledMessage.deliveryPoints[0].id = 5; return m; },
  noGround: (m) => { if (m.payload.scheduledMessage) m.payload.scheduledMessage.onGroundRecipient = null; else m.payload.title = 7; return m; },
  nullAudioText: (m) => { const a = m.payload.scheduledMessage?.onGroundRecipient?.recipientAudioMessagesToDeliver; if (a) a.media = 5; else m.payload.operation = "OTHER"; return m; },
};

export default {
  id: "R01",
  quickSec: 16,
  thoroughSec: 300,
  real: ["rail/rami upload-rosm-message, process-rosm-queue and process-dlq handlers with their services, zod and JSON schemas and DAO", "util/database.ts, sqs.ts, s3.ts and secret.ts", "synthesised queues, triggers, redrive and concurrency"],
  stubs: ["MySQL (autocommit, statement rollback) and the mysql2 pool", "ajv-formats' formats, middy", "SQS, Lambda, S3, Secrets Manager"],
  assumptions: ["an upload is judged when it was answered", "messages name at least one station", "deletions and versions of one message are not uploaded within half an hour of each other unless their order is free"],
  mustReach: ["r01.stored", "r01.archived", "r01.invalid", "r01.deleted", "r01.conflict", "r01.refused", "r01.crash", "r01.unparseable", "r01.redelivered"],
  async setup() {
    const d = "rail/rami/src/lambda";
    return { wiring: await WIRINGS.rami(), code: await bundle({ upload: `${d}/upload-rosm-message/upload-rosm-message.ts`, rosm: `${d}/process-rosm-queue/process-rosm-queue.ts`, dlq: `${d}/process-dlq/process-dlq.ts` }, { esm: true }) };
  },
  scenarios: [
    {
      name: "uploads",
      gen(rng, tier) {
        const n = rng.int(1, tier === "thorough" ? 40 : 18);
        const ops = [];
        let at = 0;
        for (let i = 0; i < n; i++) {
          at += rng.pick([0, 0, 0, 1, 30, 400, 5000]);
          const k = rng.int(0, 99);
          const p = genRosm(rng, { ids: 5, versions: 3 });
          const direct = rng.bool(0.75); // straight to the queue: validating an upload takes long
          if (k < 68) ops.push({ kind: "save", at, direct, op: rng.pick(["INSERT", "UPDATE"]), p });
          else if (k < 80) ops.push({ kind: "delete", at, direct, p });
          else if (k < 94) ops.push({ kind: "broken", at, how: rng.pick(Object.keys(BROKEN)), direct, p });
          else ops.push({ kind: "raw", at, body: rng.pick(["{}", "not json", "null", "[]", '{"payload":{}}']) });
        }
        return { ops, cfg: { conn: rng.bool(0.3) }, faults: rng.bool(0.3) ? {} : undefined };
      },
      faults: { "db.connect.before": 0.03, "db.before": 0.02, "db.lost": 0.02, "db.error": 0.03, "db.locktimeout": 0.02, "db.deadlock": 0.02, "sqs.before": 0.03, "sqs.lost": 0.03, "sqs.reorder": 0.2, "sqs.duplicate": 0.04, "sqs.delete-lost": 0.03, "secrets.before": 0.03, "s3.before": 0.04, "s3.lost": 0.03, crash: 0.01, slow: 0.02, recycle: 0.05 },
      maxEvents: 120000,
      async run(world, plan, ctx) {
        const my = new MysqlServer(world);
        my.slowMs = 12000;
        const aws = new Aws(world);
        aws.secrets.set("sec", JSON.stringify(SECRET));
        tables(my);
        const svc = { mysql: my, aws };
        const d = deploy(world, ctx.wiring, { aws, fns: {
          upload: { re: /UploadRamiRosmMessage$/, code: ctx.code.upload, svc },
          rosm: { re: /ProcessRosmQueue$/, code: ctx.code.rosm, svc },
          dlq: { re: /ProcessDlq$/, code: ctx.code.dlq, svc },
        } });
        const q = d.queue(/RosmSqs/);
        const clean = plan.faults && !Object.keys(plan.faults).length;
        const sent = []; // {o, msg, body, t}
        // what is stored is always one of the sent messages, whole
        const wanted = new Map(); // id/version -> Set of canonical stored forms
        const firstSeen = new Map();
        my.db.commitHooks.push(() => {
          try {
            for (const { m, deleted } of dbMessages(my)) {
              const key = `${m.id}/${m.version}`;
              if (!firstSeen.has(key)) firstSeen.set(key, world.now);
              const set = wanted.get(key);
              check(set?.has(canon(m)), `stored message ${canon(m)} is not an uploaded one: ${[...(set ?? [])].join(" | ").slice(0, 600)}`, "content");
              if (deleted !== null) check(sent.some((s) => s.o.kind === "delete" && s.msg.payload.messageId === m.id), `message ${key} is marked as deleted but no deletion was sent`, "deleted");
            }
          } catch (e) { world.fail(e); }
        });
        let pending = plan.ops.length;
        plan.ops.forEach((o, i) => world.after(o.at + 0.001 * i, "upload", async () => {
          try {
            let msg, body;
            if (o.kind === "raw") { sent.push({ o, body: o.body, raw: true }); q.send(o.body); pending--; return; }
            msg = rosmMessage(o.p, o.kind === "delete" ? "DELETE" : o.op ?? "INSERT", world.now, `00000000-0000-4000-8000-${String(i).padStart(12, "0")}`);
            if (o.kind === "broken") { o.invalid = true; msg = BROKEN[o.how](msg); }
            const s = { o, msg, body: JSON.stringify(msg), t: world.now, ok: false };
            sent.push(s);
            if (msg.payload && o.kind !== "delete") try { const x = stored(msg); const key = `${x.id}/${x.version}`; if (!wanted.has(key)) wanted.set(key, new Set()); wanted.get(key).add(canon(x)); s.key = key; s.canon = canon(x); } catch { /* not a complete message */ }
            if (o.direct) { s.ok = true; q.send(s.body); pending--; return; }
            const r = await d.fns.upload.invoke(msg, { key: `up${i}` });
            pending--;
            s.ok = r.status === "ok" && r.value?.status === 200;
            if (r.status === "crash") world.probe("r01.crash");
            if (!s.ok) { world.probe("r01.refused"); if (clean) check(false, `upload failed although nothing did: ${r.status} ${r.error?.message}`, "refused"); }
          } catch (e) { world.fail(e); }
        }));
        await world.run({ deadline: world.now + 2 * HOUR });
        world.faultsEnabled = false;
        await world.run({ deadline: world.now + 2 * HOUR });
        check(pending === 0, "an upload was never answered", "no-answer");
        if (q.redelivered) world.probe("r01.redelivered");
        for (const [name, x] of Object.entries(d.queues)) check(x.remaining().length === 0, `${name} still holds ${x.remaining().length} messages two hours after faults stopped`, "stuck");
        const texts = [...aws.bucket("dlq-bucket").values()].map((x) => x.body.toString("utf8"));
        const inDlq = (s) => texts.some((t) => {
          if (t === s.body) return true;
          try { const j = JSON.parse(t); return Array.isArray(j) && j.length === 2 && (j[1] === s.body || (s.msg !== undefined && canon(j[1]) === canon(s.msg))); } catch { return false; }
        });
        const db = new Map(dbMessages(my).map((x) => [`${x.m.id}/${x.m.version}`, x]));
        const deletions = sent.filter((s) => s.o.kind === "delete" && s.ok);
        for (const s of sent) {
          const archived = inDlq(s);
          if (archived) world.probe("r01.archived");
          if (s.raw) { check(archived, `queued message ${s.body} vanished: it is not in the archive`, "raw-lost"); world.probe("r01.unparseable"); continue; }
          if (!s.ok) continue;
          if (s.o.kind === "broken") world.probe("r01.invalid");
          if (s.o.kind === "delete") {
            // what was stored before the deletion was uploaded is deleted; nothing stays visible
            const kept = [...db.values()].filter((x) => x.m.id === s.msg.payload.messageId && x.deleted === null && firstSeen.get(`${x.m.id}/${x.m.version}`) < s.t);
            check(!kept.length || archived, `message ${s.msg.payload.messageId} was deleted at ${new Date(s.t).toISOString()} but is still shown: ${canon(kept[0]?.m)}`, "not-deleted");
            world.probe("r01.deleted");
            continue;
          }
          const x = db.get(s.key);
          const isStored = s.key && x && canon(x.m) === s.canon;
          check(isStored || archived, `${s.o.kind} of ${s.key} (${s.o.how ?? s.o.op}) is neither stored nor archived: ${s.body.slice(0, 300)}`, s.o.kind === "broken" ? `lost:${s.o.how}` : "lost");
          if (isStored) world.probe("r01.stored");
          if (clean && s.o.kind === "save") {
            const rivals = sent.filter((y) => y.key === s.key);
            if (rivals.length > 1) world.probe("r01.conflict");
            else check(isStored, `valid message ${s.key} was archived instead of stored although nothing failed`, "not-stored");
            if (rivals.length > 1) check(x, `none of the messages ${s.key} is stored although nothing failed`, "not-stored");
            if (x?.deleted !== null && x) check(deletions.some((y) => y.msg.payload.messageId === x.m.id), "deleted", "deleted");
          }
        }
      },
    },
  ],
};
