// Y01: published plan and station files are always one whole, valid answer of their own source.
import { bundle, evalEsm } from "../runtime.mjs";
import { createRequire } from "node:module";
import { WIRINGS } from "../apps.mjs";
import { deploy } from "../lambda.mjs";
import { check } from "../check.mjs";
import { Aws, Http } from "../services.mjs";

const MIN = 60000, HOUR = 3600000, DAY = 24 * HOUR;
const schemaModule = await evalEsm(`export { schema } from "REPO/rail/yearly-plans/src/model/schema.ts";`, createRequire(import.meta.url));
const schema = schemaModule.schema;
const def = (s) => (s.$ref ? def(schema.definitions[s.$ref.replace("#/definitions/", "")]) : s);

/** A document that follows the schema; `spots` collects the places where it can be broken. */
function make(s0, rng, depth, set, spots) {
  const s = def(s0);
  if (s.oneOf) {
    const alts = s.oneOf.map(def);
    const nul = alts.find((a) => a.type === "null");
    const rest = alts.filter((a) => a.type !== "null");
    if (nul && (!rest.length || depth > 7 || rng.bool(0.4))) { set(null); return; }
    make(rng.pick(rest), rng, depth, set, nul ? [] : spots);
    return;
  }
  if (s.enum) { set(rng.pick(s.enum)); spots.push({ set, bad: "NO SUCH VALUE" }); return; }
  switch (s.type) {
    case "object": {
      const o = {};
      set(o);
      for (const k of s.required ?? []) spots.push({ drop: () => { delete o[k]; } });
      for (const [k, v] of Object.entries(s.properties ?? {})) {
        if (!s.required?.includes(k) && rng.bool(0.4)) continue;
        make(v, rng, depth + 1, (x) => { o[k] = x; }, spots);
      }
      if (rng.bool(0.1)) o.somethingNew = "ä \" €";
      return;
    }
    case "array": {
      const a = [];
      set(a);
      const n = depth > 6 ? rng.int(0, 1) : rng.int(0, 2);
      for (let i = 0; i < n; i++) make(s.items ?? {}, rng, depth + 1, (x) => { a[i] = x; }, spots);
      if (s.uniqueItems && new Set(a.map((x) => JSON.stringify(x))).size < a.length) a.length = 1;
      spots.push({ set, bad: {} });
      return;
    }
    case "integer": set(s.format === "int64" ? 1234567890123 : rng.int(-5, 5000)); spots.push({ set, bad: 1.5 }, { set, bad: "5" }, ...(s.format === "int32" ? [{ set, bad: 2147483648 }] : [])); return;
    case "number": set(1.5); spots.push({ set, bad: "1.5" }); return;
    case "boolean": set(rng.bool()); spots.push({ set, bad: "true" }); return;
    case "null": set(null); return;
    case "string": {
      const good = { date: "2024-02-29", "date-time": "2024-12-03T10:15:30Z", "partial-time": "10:20", uuid: "123e4567-e89b-12d3-a456-426614174000", byte: "YWJj" }[s.format];
      set(good ?? `teksti ${rng.int(0, 9)}`);
      spots.push({ set, bad: 7 });
      if (s.format === "date") spots.push({ set, bad: "2023-02-29" });
      if (s.format === "date-time") spots.push({ set, bad: "2024-12-03" });
      if (s.format === "partial-time") spots.push({ set, bad: "1020" });
      return;
    }
    default: set("x");
  }
}
function plans(rng, root, bad) {
  let doc;
  const spots = [];
  make({ $ref: `#/definitions/${root}` }, rng, 0, (x) => { doc = x; }, spots);
  if (bad) { const sp = rng.pick(spots); if (sp.drop) sp.drop(); else sp.set(sp.bad); }
  return doc;
}
const FILES = {
  plans: [
    { bucket: "yearly-bucket", key: "yearly-plans.json", path: "/yearly-plan", root: "YearlyPlanListRedactedDto", type: "application/json" },
    { bucket: "project-bucket", key: "project-plans.json", path: "/project-plan", root: "ProjectPlanListRedactedDto", type: "application/json" },
  ],
  lam: [{ bucket: "lam-bucket", key: "pisteet.json", path: "/pisteet" }, { bucket: "lam-bucket", key: "pistejoukot.json", path: "/joukot" }],
};

const scenario = (name) => ({
  name,
  gen(rng, tier) {
    const ops = [];
    const last = [undefined, undefined];
    for (let i = rng.int(1, tier === "thorough" ? 10 : 5); i > 0; i--) ops.push({ answers: [0, 1].map((x) => { const kind = rng.pick(["ok", "ok", "ok", "ok", "bad", "html", "empty", "500", "403", ...(name === "lam" ? ["206", "202"] : [])]); const v = last[x] !== undefined && rng.bool(0.5) ? last[x] : rng.int(0, 1e9); if (kind === "ok") last[x] = v; return { kind, v }; }), rotate: rng.bool(0.2), gap: rng.pick([DAY, DAY, DAY, MIN, 3 * MIN]) });
    return { ops, cfg: {}, faults: rng.bool(0.3) ? {} : undefined };
  },
  faults: { "secrets.before": 0.1, "secrets.lost": 0.05, "http.before": 0.08, "http.lost": 0.06, "http.5xx": 0.08, "http.429": 0.04, "http.truncated": 0.08, "s3.before": 0.25, "s3.lost": 0.2, crash: 0.02, slow: 0.04, recycle: 0.2 },
  maxEvents: 20000,
  async run(world, plan, ctx) {
    const { Rng } = await import("../world.mjs");
    const aws = new Aws(world), http = new Http(world);
    http.slowMs = 40000;
    const files = FILES[name];
    let key = 0, current;
    const replaced = []; // when key n was replaced
    const setKey = () => aws.secrets.set("sec", JSON.stringify(name === "plans" ? { "yp.url": `https://src.example/${key}`, "yp.apiKey": `source-key-${key}` } : { "tms-history.pisteUrl": `https://src.example/${key}/pisteet`, "tms-history.pistejoukkoUrl": `https://src.example/${key}/joukot`, "tms-history.snowflakeApikey": `source-key-${key}` }));
    setKey();
    for (const f of files) aws.bucket(f.bucket);
    /** What was answered in this run, per file: text of complete usable answers. */
    let answered = [new Set(), new Set()], asked = [0, 0], texts = [undefined, undefined];
    const serve = (r) => {
      const m = /^\/(\d+)(\/.*)$/.exec(r.path);
      const i = files.findIndex((f) => f.path === m?.[2]);
      check(i >= 0 && r.method === "GET", `unexpected request ${r.method} ${r.url}`, "request");
      const n = Number(m[1]);
      const given = name === "plans" ? r.headers["api-key"] : r.headers["x-api-key"];
      check(given === `source-key-${n}`, `source ${r.url} was called with key ${given}`, "key");
      if (n !== key) check(world.now - replaced[n] < 6 * MIN, "the source was called with a key that was replaced more than six minutes ago", "old-key");
      asked[i]++;
      const a = current.answers[i];
      if (a.kind === "500" || a.kind === "403") return { status: Number(a.kind), body: { message: "no" } };
      if (a.kind === "html") return { status: 200, body: "<html>Maintenance</html>", headers: { "content-type": "text/html" } };
      if (a.kind === "206" || a.kind === "202") return { status: Number(a.kind), body: JSON.stringify(a.kind === "206" ? { pisteet: [] } : { status: "pending" }), headers: { "content-type": "application/json" } };
      if (a.kind === "empty") return { status: 200, body: "" };
      texts[i] ??= JSON.stringify(name === "plans" ? plans(new Rng(String(a.v)), files[i].root, a.kind === "bad") : { pisteet: Array.from({ length: 1 + (a.v % 4) }, (_, k) => ({ id: k, nimi: `vt${a.v}_Äyö` })) });
      if (name === "lam" || a.kind === "ok") answered[i].add(texts[i]);
      return { status: 200, body: texts[i], headers: { "content-type": "application/json" } };
    };
    aws.keyLabel = (i) => i.Key;
    for (const [i, f] of [...files.entries(), [2, {}]]) http.route(i < 2 ? f.path.slice(1) : "src", (r) => r.url.startsWith("https://src.example/") && (i === 2 || r.path.endsWith(f.path)), (r) => { try { return serve(r); } catch (e) { world.fail(e); return { status: 500, body: "x" }; } });
    const norm = (t) => { try { return JSON.stringify(JSON.parse(t)); } catch { return undefined; } };
    let fresh = [false, false];
    const exec = aws.exec.bind(aws);
    aws.exec = (inst, svc, cmd, i, ...rest) => {
      if (svc === "s3" && cmd === "PutObject") {
        try {
          const f = files.findIndex((x) => x.bucket === i.Bucket && x.key === i.Key);
          check(f >= 0, `unexpected object ${i.Bucket}/${i.Key}`, "object");
          const text = norm(String(i.Body));
          check(text !== undefined, `${i.Key} was replaced by something that is not JSON: ${String(i.Body).slice(0, 40)}`, "not-json");
          if (inst.state !== "dead") check([...answered[f]].some((x) => norm(x) === text), `${i.Key} was replaced by something that its source did not answer in this run${current.answers[f].kind === "bad" ? " (the answer does not follow the schema)" : ""}`, current.answers[f].kind === "bad" ? "invalid" : "content");
          if (files[f].type) check(i.ContentType === files[f].type, `${i.Key} has type ${i.ContentType}`, "type");
          fresh[f] = true;
        } catch (e) { world.fail(e); }
      }
      return exec(inst, svc, cmd, i, ...rest);
    };
    const d = deploy(world, ctx[name].wiring, { aws, fns: { u: { re: /update/i, code: ctx[name].code.u, svc: { aws, http, fetch: http.fetch } } } });
    check(d.fns.u.schedule.length === 1 && /^(cron\(0 0 \* \* \? \*\)|rate\(1 day\))$/.test(d.fns.u.schedule[0]), `the update is scheduled ${d.fns.u.schedule}`, "schedule");
    const stored = (f) => aws.bucket(f.bucket).get(f.key);
    const once = async (o) => {
      if (o.rotate) { replaced[key++] = world.now; setKey(); world.probe("y01.rotated"); }
      current = o; answered = [new Set(), new Set()]; asked = [0, 0]; texts = [undefined, undefined]; fresh = [false, false];
      const mark = world.firedFaults.length;
      const before = files.map((f) => stored(f)?.body?.toString());
      const r = await d.fns.u.invoke({});
      const fired = world.firedFaults.slice(mark).filter((x) => x.kind !== "recycle");
      world.record("run", { s: r.status, fresh: fresh.join() });
      if (r.status === "crash") world.probe("y01.crash");
      for (const [i, f] of files.entries()) {
        const a = o.answers[i], good = a.kind === "ok" || (name === "lam" && a.kind === "bad");
        const now = stored(f)?.body?.toString();
        if (!good) { world.probe(`y01.${a.kind}`); check(now === before[i], `${f.key} changed although its source gave no usable answer (${a.kind})`, "unusable"); }
        if (!fresh[i]) check(now === before[i], `${f.key} changed without being written`, "changed");
        // failures that can only concern the other file do not keep this one back
        const other = fired.every((x) => new RegExp(`${files[1 - i].path.slice(1)}|${files[1 - i].key}`).test(x.site) && x.kind !== "crash" && x.kind !== "slow");
        if (good && (!fired.length || other) && r.status !== "timeout") {
          if (!fired.length && o.answers[1 - i].kind !== "ok") world.probe("y01.other-failed");
          check(now !== undefined && norm(now) === norm(texts[i] ?? ""), `${f.key} was not replaced although its source answered (${asked[i]} requests)${o.answers[1 - i].kind === "ok" ? "" : `; the other source failed (${o.answers[1 - i].kind})`}`, "not-replaced");
          world.probe("y01.replaced");
        }
        if (r.status === "ok") check(good && norm(now ?? "") === norm(texts[i] ?? ""), `the run reported success, but ${f.key} does not show the answer of its source (${a.kind})`, "false-success");
      }
      if (!fired.length && o.answers.every((a) => a.kind === "ok")) check(r.status === "ok", `the run failed although nothing failed: ${r.error?.message ?? r.status}`, "failed");
    };
    let fin = false;
    (async () => {
      for (const o of plan.ops) { await once(o); await world.sleep(o.gap); }
      world.faultsEnabled = false;
      await world.sleep(DAY);
      await once({ answers: [{ kind: "ok", v: 11 }, { kind: "ok", v: 12 }] });
      fin = true;
    })().catch((e) => world.fail(e));
    await world.run({ until: () => fin, deadline: world.now + 30 * DAY });
    check(fin, "runs did not finish", "stuck");
  },
});

export default {
  id: "Y01",
  quickSec: 15,
  thoroughSec: 180,
  real: ["yearly-plans and lam-history update handlers with ky, ajv and the interface schema, lib secrets", "synthesised schedules, buckets, timeouts"],
  stubs: ["source systems behind fetch", "S3", "Secrets Manager", "Lambda and schedule", "ajv-formats (formats used by the schema)"],
  assumptions: ["runs do not overlap", "the sources accept a replaced key for six minutes"],
  mustReach: ["y01.replaced", "y01.other-failed", "y01.bad", "y01.html", "y01.206", "y01.202", "y01.rotated", "y01.crash"],
  async setup() {
    return {
      plans: { wiring: await WIRINGS.yearlyPlans(), code: await bundle({ u: "rail/yearly-plans/src/lambda/update-plans/update-plans.ts" }) },
      lam: { wiring: await WIRINGS.lamHistory(), code: await bundle({ u: "road/lam-history/src/lambda/update-lam-stations/update-lam-stations.ts" }) },
    };
  },
  scenarios: [scenario("plans"), scenario("lam")],
};
