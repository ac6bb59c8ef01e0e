// Synthesises an application's real CDK stack (in a scratch directory) and reads the deployed wiring from the template:
// queues, redrive policies, event source mappings, function timeouts and concurrency.
import { createRequire } from "node:module";
import fs from "node:fs";
import os from "node:os";
import path from "node:path";
import { esbuildFor, evalEsm, REPO, BuildError, shared } from "./runtime.mjs";

const LIB = path.join(REPO, "lib/digitraffic-common");
const libRequire = createRequire(path.join(LIB, "package.json"));

/**
 * @param o.code  TypeScript glue: must export `build(cdk, app)` which constructs the stack(s)
 * @param o.app   app directory relative to the repo (its src/lambda/* become asset directories)
 */
export async function synth(o) {
  const t = await shared(["synth", o.code, o.app], () => templates(o));
  return Object.assign(wiring(t), { templates: t });
}
async function templates({ code, app, missing, files }) {
  const scratch = fs.mkdtempSync(path.join(os.tmpdir(), "synth-"));
  const cwd = process.cwd();
  const env = { ...process.env };
  const errWrite = process.stderr.write;
  process.stderr.write = () => true; // CDK prints template warnings
  try {
    for (const d of ["dist/lambda", "dist/canaries", "dist/src/canaries", "out"]) fs.mkdirSync(path.join(scratch, d), { recursive: true });
    if (app) {
      const l = path.join(REPO, app, "src/lambda");
      if (fs.existsSync(l)) for (const d of fs.readdirSync(l)) fs.mkdirSync(path.join(scratch, "dist/lambda", d.replace(/\.ts$/, "")), { recursive: true });
      const c = path.join(REPO, app, "src/canaries");
      if (fs.existsSync(c)) for (const f of fs.readdirSync(c)) for (const d of ["dist", "dist/canaries", "dist/src/canaries"]) fs.writeFileSync(path.join(scratch, d, f.replace(/\.ts$/, ".js")), "exports.handler=()=>{}");
      for (const d of ["dist/lambda", "dist/src/canaries", "dist/canaries"]) fs.writeFileSync(path.join(scratch, d, ".keep"), "");
    }
    for (const [f, text] of Object.entries(files ?? {})) { fs.mkdirSync(path.dirname(path.join(scratch, f)), { recursive: true }); fs.rmSync(path.join(scratch, f), { recursive: true, force: true }); fs.writeFileSync(path.join(scratch, f), text); }
    process.chdir(scratch);
    const text = await esbuildFor(code, missing);
    const mod = { exports: {} };
    const req = (id) => {
      try { return libRequire(id); } catch (e) {
        if (e.code === "MODULE_NOT_FOUND") return new Proxy(function () {}, { get: (_t, k) => (k === "__esModule" ? true : k === "then" ? undefined : () => { throw new Error(`package ${id} missing in synth`); }) });
        throw e;
      }
    };
    new Function("require", "module", "exports", "__dirname", "__filename", text)(req, mod, mod.exports, scratch, path.join(scratch, "x.js"));
    const cdk = libRequire("aws-cdk-lib");
    const a = new cdk.App({ outdir: path.join(scratch, "out"), context: { "aws:cdk:bundling-stacks": [], "cdk:nag": false }, analyticsReporting: false });
    const stack = mod.exports.build(cdk, a);
    const asm = a.synth();
    const out = [];
    for (const s of asm.stacksRecursively ?? asm.stacks) out.push(s.template);
    void stack;
    return out;
  } catch (e) {
    if (e instanceof BuildError) throw e;
    throw new BuildError(`synthesising ${app}: ${e.stack}`);
  } finally {
    process.stderr.write = errWrite;
    process.chdir(cwd);
    for (const k of Object.keys(process.env)) if (!(k in env)) delete process.env[k];
    fs.rmSync(scratch, { recursive: true, force: true });
  }
}

/** The text of the dead-letter function the shared construct generates for a bucket. */
export const dlqCode = (bucket) => shared(["dlq", bucket], () => dlqText(bucket));
async function dlqText(bucket) {
  const any = new Proxy(function () {}, { get: (_t, k) => (k === "__esModule" ? true : any), construct: () => ({}) });
  const req = (id) => { try { return libRequire(id); } catch (e) { if (e.code === "MODULE_NOT_FOUND") return any; throw e; } };
  const m = await evalEsm(`export { getDlqCode } from "@digitraffic/common/dist/aws/infra/sqs-queue-internal.js";`, req);
  const c = m.getDlqCode(bucket);
  return c.code ?? c.inlineCode;
}

function ref(v) {
  if (v && typeof v === "object") {
    if (v.Ref) return v.Ref;
    if (v["Fn::GetAtt"]) return Array.isArray(v["Fn::GetAtt"]) ? v["Fn::GetAtt"][0] : v["Fn::GetAtt"].split(".")[0];
    if (v["Fn::Join"]) return v["Fn::Join"][1].map(ref).join(v["Fn::Join"][0]);
    return JSON.stringify(v);
  }
  return v;
}

export function wiring(templates) {
  const fns = new Map(), queues = new Map(), esms = [], rules = [], subs = [], buckets = new Map();
  for (const t of templates) {
    for (const [id, r] of Object.entries(t.Resources ?? {})) {
      const p = r.Properties ?? {};
      if (r.Type === "AWS::Lambda::Function") {
        const env = {};
        for (const [k, v] of Object.entries(p.Environment?.Variables ?? {})) env[k] = ref(v);
        fns.set(id, { id, name: p.FunctionName ? String(ref(p.FunctionName)) : id, timeoutSec: p.Timeout ?? 3, reserved: p.ReservedConcurrentExecutions, handler: p.Handler, runtime: p.Runtime, env, zip: p.Code?.ZipFile, key: p.Code?.S3Key });
      } else if (r.Type === "AWS::SQS::Queue") {
        queues.set(id, { id, name: p.QueueName ? String(ref(p.QueueName)) : id, visibilitySec: p.VisibilityTimeout ?? 30, retentionSec: p.MessageRetentionPeriod ?? 345600, delaySec: p.DelaySeconds ?? 0, maxReceive: p.RedrivePolicy?.maxReceiveCount, dlq: p.RedrivePolicy ? ref(p.RedrivePolicy.deadLetterTargetArn) : undefined });
      } else if (r.Type === "AWS::Lambda::EventSourceMapping") {
        esms.push({ queue: ref(p.EventSourceArn), fn: ref(p.FunctionName), batchSize: p.BatchSize ?? 10, windowSec: p.MaximumBatchingWindowInSeconds ?? 0, report: (p.FunctionResponseTypes ?? []).includes("ReportBatchItemFailures"), maxConcurrency: p.ScalingConfig?.MaximumConcurrency, enabled: p.Enabled !== false });
      } else if (r.Type === "AWS::Events::Rule") {
        rules.push({ id, schedule: p.ScheduleExpression, targets: (p.Targets ?? []).map((x) => ref(x.Arn)), inputs: (p.Targets ?? []).map((x) => (x.Input === undefined ? undefined : JSON.parse(typeof x.Input === "string" ? x.Input : ref(x.Input)))), state: p.State });
      } else if (r.Type === "AWS::SNS::Subscription") {
        if (p.Protocol === "lambda") subs.push({ topic: ref(p.TopicArn), fn: ref(p.Endpoint) });
      } else if (r.Type === "AWS::S3::Bucket") buckets.set(id, { id, name: p.BucketName ? String(ref(p.BucketName)) : id });
    }
  }
  const apis = apisOf(templates);
  return {
    apis,
    fns: [...fns.values()], queues: [...queues.values()], esms, rules, subs, buckets: [...buckets.values()],
    fn: (re) => [...fns.values()].find((f) => re.test(f.name)),
    queue: (re) => [...queues.values()].find((q) => re.test(q.name)),
    esmOf: (fnId) => esms.filter((e) => e.fn === fnId),
    scheduleOf: (fnId) => rules.filter((r) => r.targets.includes(fnId)).map((r) => r.schedule),
  };
}

/** REST APIs of the templates: methods with their full path, function, mapping templates and authorizer. */
function apisOf(templates) {
  const out = [];
  for (const t of templates) {
    const all = Object.entries(t.Resources ?? {});
    const res = Object.fromEntries(all.filter(([, r]) => r.Type === "AWS::ApiGateway::Resource").map(([id, r]) => [id, r.Properties]));
    const fnIn = (v) => { const m = JSON.stringify(v ?? null).match(/"Fn::GetAtt":\["([^"]+)","Arn"\]/); return m?.[1]; };
    const pathOf = (v) => { const id = v?.Ref; return id && res[id] ? `${pathOf(res[id].ParentId)}/${res[id].PathPart}` : ""; };
    const auth = Object.fromEntries(all.filter(([, r]) => r.Type === "AWS::ApiGateway::Authorizer").map(([id, r]) => [id, { id, type: r.Properties.Type, fn: fnIn(r.Properties.AuthorizerUri), identitySource: String(r.Properties.IdentitySource ?? "").split(",").map((x) => x.trim()).filter(Boolean), ttlSec: r.Properties.AuthorizerResultTtlInSeconds ?? 300 }]));
    for (const [id, r] of all) {
      if (r.Type !== "AWS::ApiGateway::RestApi") continue;
      const methods = all.filter(([, m]) => m.Type === "AWS::ApiGateway::Method" && m.Properties.RestApiId?.Ref === id && m.Properties.HttpMethod !== "OPTIONS").map(([, m]) => {
        const p = m.Properties, i = p.Integration ?? {};
        const own = /lambda:path|functions/.test(JSON.stringify(i.Uri ?? null)) ? fnIn(i.Uri) : undefined;
        return {
          path: pathOf(p.ResourceId) || "/", httpMethod: p.HttpMethod, fn: own, authorizer: p.AuthorizerId ? auth[p.AuthorizerId.Ref] : undefined, apiKey: p.ApiKeyRequired === true, proxy: i.Type === "AWS_PROXY",
          uri: ref(i.Uri), params: i.RequestParameters ?? {}, asks: p.RequestParameters ?? {}, static: i.Type === "MOCK", template: i.RequestTemplates?.["application/json"],
          responses: (i.IntegrationResponses ?? []).map((x) => ({ status: x.StatusCode, pattern: x.SelectionPattern, template: Object.values(x.ResponseTemplates ?? {})[0], type: Object.keys(x.ResponseTemplates ?? {})[0] })),
        };
      });
      out.push({ id, name: r.Properties.Name, methods });
    }
  }
  return out;
}
