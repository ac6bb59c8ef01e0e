// L06: log entries are whole, faithful lines, logging never fails, and no credential is ever written to a log. All other checks' simulations are run once more, with every line the code logs and
// every credential it was given or sent kept, and compared after each run.
import fs from "node:fs";
import path from "node:path";
import { fileURLToPath } from "node:url";
import { Violation, check } from "../check.mjs";
import { bundle, Instance } from "../runtime.mjs";

const HERE = path.dirname(fileURLToPath(import.meta.url));
const ids = fs.readdirSync(HERE).map((f) => f.replace(/\.mjs$/, "")).filter((id) => !["L06", "H02", ...(process.env.L06_SKIP ?? "").split(",")].includes(id) && (!process.env.L06_ONLY || process.env.L06_ONLY.split(",").includes(id)));
// about how long one run takes, in ms: every service gets about the same share of the time
const COST = { A01: 38, C01: 106, C02: 53, D01: 67, E01: 7, G01: 26, H01: 4, H02: 6, J01: 77, K01: 20, K02: 9, L01: 4, L02: 8, L03: 5, L04: 18, L05: 5, M01: 75, M02: 32, N01: 80, O01: 359, O02: 17, O03: 175, P01: 20, P02: 25, P03: 18, P04: 20, P05: 12, R01: 299, R02: 110, R03: 167, R04: 50, S01: 14, S02: 24, T01: 45, T02: 63, T03: 6, U01: 54, U02: 58, U03: 48, V01: 41, V02: 40, V03: 4, W01: 73, W02: 80, Y01: 46 };
const props = {};
for (const id of ids) props[id] = (await import(`./${id}.mjs`)).default;
const b64 = (s) => Buffer.from(s).toString("base64");
/** The forms in which a value could be read from a log. */
const forms = (v) => [...new Set([v, JSON.stringify(v).slice(1, -1), JSON.stringify(JSON.stringify(v).slice(1, -1)).slice(1, -1), encodeURIComponent(v), b64(v), b64(v).replace(/=+$/, "")])];

const TEXTS = ["", "plain", "a.b started", "line\nbreak", 'quo"te', "k=v", "ääkkönen 🚢", "\u2028x", "\ud800", "x".repeat(3000)];
const VALUES = [["s", ...TEXTS], ["n", 0, -1.5, 1e21], ["nan"], ["big", "12", "-9007199254740993"], ["b", true, false], ["null"], ["undef"], ["date", 0, 1740988800123], ["baddate"]];
const ERRORS = ["none", "error", "type-error", "string", "object", "circular", "bigint", "cause", "undefined", "array", "throws"];
const value = ([kind, v]) => ({ s: v, n: v, nan: Number.NaN, big: kind === "big" ? BigInt(v) : 0, b: v, null: null, undef: undefined, date: new Date(v), baddate: new Date(Number.NaN) })[kind];
const image = ([kind, v]) => ({ s: [v], n: [v], nan: [null, "NaN"], big: [v, Number(v)], b: [v], null: [null], undef: [undefined], date: kind === "date" ? [new Date(v).toISOString()] : [], baddate: [null, "Invalid Date"] })[kind];
const wrong = (kind, text) => {
  const o = { code: 5, text };
  switch (kind) {
    case "none": return undefined;
    case "error": return new Error(text);
    case "type-error": return new TypeError(text);
    case "cause": { const e = new Error(text, { cause: o }); e.self = e; return e; }
    case "string": return text;
    case "circular": o.self = o; return o;
    case "bigint": return { ...o, n: 10n };
    case "array": return [text, 1];
    case "throws": return { toJSON() { throw new Error("no"); } };
    case "undefined": return undefined;
    default: return o;
  }
};
const logging = {
  name: "logging",
  weight: 3,
  faults: {},
  maxEvents: 20000,
  gen(rng) {
    const ops = [];
    for (let n = rng.int(1, 25); n > 0; n--) {
      const fields = rng.sample(["Id", "Count", "SomeLongName", "x", "URL"], rng.int(0, 3)).map((k) => { const [kind, ...vs] = rng.pick(VALUES); return [k, kind, vs.length ? rng.pick(vs) : 0]; });
      ops.push({ task: rng.int(0, 3), gap: rng.pick([0, 0, 1, 50]), as: rng.pick(["info", "info", "warn", "error", "error", "debug", "exception", "exception", "lead"]), text: rng.pick(TEXTS), fields, err: rng.pick(ERRORS), stack: rng.bool(0.3), took: rng.pick([undefined, 0, 12, 3.5, Number.NaN]) });
    }
    return { ops, cfg: { names: rng.bool(0.5) } };
  },
  async run(world, plan, ctx) {
    const inst = new Instance(world, "fn", ctx.logging.s, { env: {} });
    const S = inst.exports;
    let text = "";
    const want = [];
    const logger = new S.DtLogger({ ...(plan.cfg.names && { lambdaName: "own", runTime: "own-runtime" }), writeStream: { write(s) { text += s; return world.rand("write") < 0.5; } } });
    const start = world.logLines.length;
    const one = (op) => {
      const custom = Object.fromEntries(op.fields.map(([k, ...v]) => [`custom${k}`, value(v)]));
      const e = wrong(op.err, op.text);
      const own = op.as === "lead" ? undefined : { op, e };
      const arg = { ...custom, method: "svc.do", ...(op.text && { message: op.text }), ...(op.took !== undefined && { tookMs: op.took }), ...(op.err !== "none" && { error: e }) };
      const before = { ...arg };
      try {
        if (op.as === "debug") logger.debug(op.err === "none" ? op.text : e);
        else if (op.as === "exception") S.logException(logger, op.err === "none" ? op.text : e, op.stack);
        else if (op.as === "lead") { S.logLeadTimes({ target: "t", leadTimeMs: op.took, processTimeMs: 5, extraFields: custom }); }
        else logger[op.as](arg);
      } catch (x) {
        throw new Violation(`logging ${JSON.stringify(op)} fails: ${x.message}`, "logging-fails");
      }
      check(Object.keys(before).length === Object.keys(arg).length && Object.keys(before).every((k) => Object.is(before[k], arg[k])), `logging changed what it was given: ${JSON.stringify(op)}`, "logging-changes");
      if (own) want.push(own);
      if (op.err === "circular" || op.err === "bigint") world.probe("l06.odd-error");
    };
    let fin = 0;
    for (let t = 0; t < 4; t++) (async () => { for (const op of plan.ops.filter((o) => o.task === t)) { await world.sleep(op.gap); one(op); } fin++; })().catch((e) => world.fail(e));
    await world.run({ until: () => fin === 4, deadline: world.now + 60000 });
    check(fin === 4, "unfinished", "unfinished");
    const lines = text.split("\n");
    check(lines.pop() === "", "the last entry has no end of line", "line");
    check(lines.length === want.length, `${want.length} entries were logged in ${lines.length} lines`, "line");
    lines.forEach((line, i) => {
      const { op, e } = want[i];
      let o;
      try { o = JSON.parse(line); } catch { throw new Violation(`not a JSON line: ${line.slice(0, 200)}`, "json"); }
      const what = `${JSON.stringify(op)} is logged as ${line.slice(0, 400)}`;
      check(o.level === ({ info: "INFO", warn: "WARN", debug: "DEBUG" })[op.as] || (o.level === "ERROR" && ["error", "exception"].includes(op.as)), what, "level");
      check(o.lambdaName === (plan.cfg.names ? "own" : "fn") && (!plan.cfg.names || o.runtime === "own-runtime"), what, "names");
      if (op.as === "debug") { if (op.err === "none") check(o.message === op.text.replace("\ud800", "\ud800"), what, "message"); return; }
      check(typeof o.message === "string" && o.message.includes(o.method ?? "?"), what, "method");
      if (op.as === "exception") {
        if (op.err === "none" || e instanceof Error || typeof e === "string") check(o.message.includes(e instanceof Error ? e.message : op.text), what, "exception");
        check(!!o.stack === (op.stack && e instanceof Error), what, "stack");
        return;
      }
      check(o.method === "svc.do" && o.message.includes(op.text), what, "message");
      for (const [k, ...v] of op.fields) {
        const name = k[0].toLowerCase() + k.slice(1), ok = image(v);
        check(ok.some((x) => x === o[name]) || (ok[0] === undefined && o[name] === undefined), `${what}: ${name}`, "field");
        check(o.message.includes(`${name}=`), `${what}: ${name} is not part of the message`, "field-text");
      }
      if (op.took !== undefined) check(o.tookMs === op.took || Number.isNaN(op.took), what, "took");
      if (e instanceof Error) check(o.error === `${e.name}: ${e.message}` && o.stack === e.stack, what, "error");
      else if (typeof e === "string" && e) check(o.error === e, what, "error");
      else if (e && op.err !== "throws") check(typeof o.error === "string" && o.error.includes(op.err === "array" ? "1" : "code"), what, "error");
      world.probe("l06.line");
    });
    // lead times go to the standard logger
    const leads = world.logLines.slice(start).map(([, l]) => l);
    const expected = plan.ops.filter((o) => o.as === "lead").reduce((n, o) => n + (Number.isSafeInteger(o.took) ? 2 : 1), 0);
    check(leads.length === expected, `${expected} lead times were logged in ${leads.length} lines`, "lead");
    for (const l of leads) { let o; try { o = JSON.parse(l); } catch { throw new Violation(`not a JSON line: ${l}`, "json"); } check(o.leadTime === true && Number.isSafeInteger(o.tookMs) && o.target === "t" && ["lead-time", "process-time"].includes(o.name), `a lead time is logged as ${l}`, "lead"); world.probe("l06.lead"); }
  },
};

export default {
  id: "L06",
  watchLogs: true,
  quickSec: 100,
  thoroughSec: 400,
  real: ["all lambda functions of the other checks", "DtLogger, logException"],
  stubs: ["as in the other checks; standard output is kept"],
  assumptions: ["credentials are the values of fields, headers and variables named as such (password, secret, token, key of an API, authorization)", "Python functions are not watched"],
  mustReach: ["l06.watched", "l06.error-lines", "l06.line", "l06.odd-error", "l06.lead"],
  async setup(o) {
    const ctx = { logging: await bundle({ s: { code: `
      export { DtLogger } from "@digitraffic/common/dist/aws/runtime/dt-logger.js";
      export { logException } from "@digitraffic/common/dist/utils/logging.js";
      export { logLeadTimes } from "@digitraffic/common/dist/utils/lead-time-logging.js";` } }) };
    // code that is gone or does not build is the matter of the other checks
    for (const id of ids) try { ctx[id] = { it: await props[id].setup?.(o) }; } catch { ctx[id] = undefined; }
    return ctx;
  },
  scenarios: [logging, ...ids.flatMap((id) => props[id].scenarios.map((sc) => ({
    name: `${id}/${sc.name}`,
    weight: (20 / (COST[id] ?? 20)) ** 0.8 * (sc.weight ?? 1) / props[id].scenarios.reduce((a, s) => a + (s.weight ?? 1), 0),
    faults: sc.faults,
    maxEvents: sc.maxEvents,
    gen(rng, tier) {
      const plan = sc.gen(rng, tier);
      // what is logged of failures matters most here, so half of the runs have more of them
      const kinds = Object.entries(sc.faults ?? {});
      if (!plan.faults && kinds.length && rng.bool(0.6)) {
        const one = rng.bool(0.6) ? rng.pick(kinds.map(([k]) => k)) : undefined;
        plan.faults = Object.fromEntries(kinds.map(([k, p]) => [k, one ? (k === one ? (k === "crash" ? p * 2 : Math.max(0.4, p)) : p / 3) : Math.min(0.3, k === "crash" ? p : p * 3)]));
      }
      return plan;
    },
    async run(world, plan, ctx) {
      world.softViolation = () => {};
      if (!ctx[id]) return;
      try {
        await sc.run(world, { ...plan, property: id, scenario: sc.name }, ctx[id].it);
      } catch (e) {
        if (e?.eventLimit) throw e;
        world.probe("l06.other-failure");
      }
      world.fatal = undefined; // what the other checks judge is not judged here
      if (world.secretValues.size && world.logLines.length) world.probe("l06.watched");
      const all = [...world.secretValues].map(([v, key]) => ({ key, v, forms: forms(v) }));
      for (const [by, line] of world.logLines) {
        if (line.includes('"level":"ERROR"')) world.probe("l06.error-lines");
        for (const s of all) {
          const f = s.forms.find((x) => line.includes(x));
          if (f) { const at = line.indexOf(f); throw new Violation(`the log of ${by} shows the value of ${s.key}: ${line.slice(Math.max(0, at - 160), at + f.length + 20)}`, `${id}:${s.key}`); }
        }
      }
    },
  })))],
};
