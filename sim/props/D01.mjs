// D01: dead-letter archives keep every message.
import { bundle } from "../runtime.mjs";
import { Aws } from "../services.mjs";
import { deploy } from "../lambda.mjs";
import { WIRINGS } from "../apps.mjs";
import { dlqCode } from "../synth.mjs";
import { check } from "../check.mjs";

const HOUR = 3600000;

const KINDS = {
  lib: { dlq: /-DLQ$/, fn: /DLQ-Function/, bucket: "teststack-t-thing-dlq" },
  portactivity: { dlq: /Timestamps-DLQ$/, fn: /ProcessTimestampsDLQ/, bucket: "dlq-bucket" },
  maintenance: { dlq: /Queue-DLQ$/, fn: /ProcessDlq/, bucket: "dlq-bucket" },
  rami: { dlq: /RAMI-DLQ$/, fn: /ProcessDlq/, bucket: "dlq-bucket" },
};

const TEXTS = ["plain", "ääkköset €", '"quoted"', "back\\slash", "$& $1 $$", "<xml a='1'/>", "line\nbreak\ttab", "x".repeat(3000), "{}", "[", "\u2028"];

export default {
  id: "D01",
  quickSec: 16,
  thoroughSec: 400,
  real: ["DigitrafficSqsQueue / DigitrafficDLQueue (synthesised queue, trigger, function and the generated inline function code)", "portactivity, maintenance-tracking and rami dead-letter functions with their synthesised queues and triggers", "lib aws/runtime/s3.ts"],
  stubs: ["SQS (standard queue: reordering, duplicates, lost deletes, redrive)", "Lambda (cold/warm, timeout, crash, concurrency)", "S3"],
  assumptions: ["S3 failures end within the four-day retention of the queue", "AWS event source mapping semantics for (non-)reported batch failures"],
  mustReach: ["d01.lib", "d01.portactivity", "d01.maintenance", "d01.rami", "d01.retried"],
  async setup() {
    const w = {};
    for (const k of Object.keys(KINDS)) w[k] = await WIRINGS[k]();
    const libFn = w.lib.fn(KINDS.lib.fn);
    const names = (p) => (typeof p === "string" ? p : w.lib.buckets.find((b) => b.id === (p.Ref ?? p["Fn::GetAtt"]?.[0]))?.name ?? JSON.stringify(p));
    const deployed = typeof libFn.zip === "string" ? libFn.zip : libFn.zip["Fn::Join"][1].map(names).join("");
    const bucketName = /const bucketName = "([^"]*)"/.exec(deployed)?.[1] ?? KINDS.lib.bucket;
    const zip = await dlqCode(bucketName);
    const code = await bundle({
      portactivity: "marine/portactivity/src/lambda/process-dlq/lambda-process-dlq.ts",
      maintenance: "road/maintenance-tracking/src/lambda/process-dlq/process-dlq.ts",
      rami: "rail/rami/src/lambda/process-dlq/process-dlq.ts",
      lib: { code: zip },
    });
    return { w, code };
  },
  scenarios: [
    {
      name: "archive",
      gen(rng, tier) {
        const kind = rng.pick(Object.keys(KINDS));
        const n = rng.int(1, tier === "thorough" ? 60 : 25);
        const burst = rng.bool();
        const ops = [];
        for (let i = 0; i < n; i++) ops.push({ at: burst ? rng.int(0, 3) : rng.int(0, 90000), text: rng.pick(TEXTS), form: rng.pick(["json", "json", "json", "raw", "bare"]), id: i });
        return { ops, cfg: { kind, outage: rng.bool(0.3) ? rng.int(1, kind === "rami" || tier === "thorough" ? HOUR / 2 : 3 * HOUR) : 0 } };
      },
      faults: { "s3.before": 0.1, "s3.lost": 0.08, "sqs.reorder": 0.3, "sqs.duplicate": 0.04, "sqs.delete-lost": 0.04, crash: 0.03, slow: 0.08, recycle: 0.1 },
      maxEvents: 400000,
      async run(world, plan, ctx) {
        const { kind, outage } = plan.cfg;
        const K = KINDS[kind];
        const aws = new Aws(world);
        aws.slowMs = 12000;
        const start = world.now;
        const put = aws.exec.bind(aws);
        aws.handlers["s3.PutObject"] = (i, inst) => {
          if (world.now < start + outage) { world.scripted("s3-outage"); world.probe("d01.retried"); const e = new Error("S3 is down"); e.name = "ServiceUnavailable"; throw e; }
          delete aws.handlers["s3.PutObject"];
          try { return put(inst, "s3", "PutObject", i); } finally { aws.handlers["s3.PutObject"] = self; }
        };
        const self = aws.handlers["s3.PutObject"];
        const d = deploy(world, ctx.w[kind], { aws, fns: { archive: { re: K.fn, code: ctx.code[kind], svc: { aws } } } });
        check(d.esms.length === 1, `dead-letter queue of ${kind} has ${d.esms.length} triggers`, `no-trigger:${kind}`);
        const q = d.queue(K.dlq);
        const sent = plan.ops.map((o) => {
          let body;
          let expect;
          // bodies that are hardly anything: white space, a number, a string, an empty list
          if (o.form === "bare") body = [" ".repeat(o.id + 1), String(o.id), JSON.stringify(String(o.id)), `[${"\n".repeat(o.id + 1)}]`][o.id % 4];
          else if (kind === "rami") {
            if (o.form === "json") {
              expect = { messageType: ["ROSM", "UDOT", "SM"][o.id % 3], message: { id: o.id, t: o.text }, errors: `${o.id} ${o.text}` };
              body = JSON.stringify(expect);
            } else body = `${o.id} raw ${o.text}`;
          } else body = o.form === "json" ? JSON.stringify({ id: o.id, t: o.text }) : `${o.id} ${o.text}`;
          world.after(o.at + 0.01 * o.id, "dead-letter", () => q.send(body));
          return { body, expect, o };
        });
        await world.run({ deadline: world.now + 4 * HOUR });
        world.faultsEnabled = false;
        await world.run({ deadline: world.now + 4 * HOUR });
        check(q.remaining().length === 0, `${kind}: ${q.remaining().length} dead letters are still queued 4 h after faults stopped`, `stuck:${kind}`);
        const objects = [...aws.bucket(K.bucket).values()];
        for (const [b, m] of aws.buckets) check(b === K.bucket || !m.size, `${kind}: archived to an unexpected bucket ${b}`, `bucket:${kind}`);
        const texts = objects.map((x) => ({ key: x.key, s: x.body.toString("utf8") }));
        for (const { body, expect, o } of sent) {
          let hits;
          if (expect) {
            hits = texts.filter((t) => {
              let p;
              try { p = JSON.parse(t.s); } catch { return false; }
              return Array.isArray(p) && p[0]?.errors === expect.errors && JSON.stringify(p[1]) === JSON.stringify(expect.message) && t.key.startsWith(`${expect.messageType}/`);
            });
          } else if (kind === "rami") hits = texts.filter((t) => t.s === body || t.s.includes(JSON.stringify(body)));
          else hits = texts.filter((t) => t.s === body);
          check(hits.length >= 1, `${kind}: dead letter ${o.id} (${JSON.stringify(body.slice(0, 60))}) is not in the archive (${objects.length} objects)`, `lost:${kind}:${expect ? "parsed" : o.form}`);
        }
        if (q.redelivered) world.probe("d01.retried");
        world.probe(`d01.${kind}`);
      },
    },
  ],
};
