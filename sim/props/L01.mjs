// L01: the retry helpers start the operation the right number of times, at the right moments.
import { bundle, Instance } from "../runtime.mjs";
import { check } from "../check.mjs";

const MIN30 = 30 * 60 * 1000;

export default {
  id: "L01",
  quickSec: 15,
  thoroughSec: 300,
  real: ["lib/digitraffic-common/src/utils/retry.ts and its error types and logger"],
  stubs: ["clock and timers (virtual)", "the retried operation (scripted durations and failures)"],
  assumptions: ["the retried operation settles or hangs as scripted; timers fire in virtual-time order, ties in seeded order of arming"],
  mustReach: ["retry.exhausted", "retry.declined", "retry.timeout-overlap", "retry.recovered"],
  async setup() {
    return bundle({
      retry: { code: `export * from "@digitraffic/common/dist/utils/retry.js"; export { HttpError } from "@digitraffic/common/dist/types/http-error.js";` },
    });
  },
  scenarios: [
    {
      name: "calls",
      weight: 1,
      gen(rng) {
        const ops = [];
        const n = rng.int(1, 4);
        for (let i = 0; i < n; i++) {
          const kind = rng.pick(["retry", "retry", "retry", "request", "invalid", "defaults"]);
          const outcomes = [];
          const m = rng.int(1, 9);
          const lastOk = rng.bool(0.6);
          for (let j = 0; j < m; j++) {
            outcomes.push({
              ms: rng.pick([0, 0, 5, 50, 400, 3000, 60000, rng.int(0, 100000), rng.bool(0.1) ? MIN30 + rng.int(1, 900000) : 10]),
              out: lastOk && j === m - 1 ? "ok" : rng.pick(["err", "err", "err", "h403", "h429", "h500", "h404", "reject-string", "reject-undef", "sync-throw", "look429"]),
              hang: rng.bool(0.02),
            });
          }
          ops.push({
            id: i,
            kind,
            delay: rng.pick([0, 0, 10, 500, rng.int(0, 30000)]),
            outcomes,
            retries: kind === "invalid" ? rng.pick(["NaN", "Infinity", "-Infinity", 101, 1000, 100.5]) : rng.pick([0, 0, 1, 2, 3, 4, 5, 8, -1, -5, 100]),
            timeout: rng.pick(["none", "exp", "const", "dec", "zero-then"]),
            predicate: rng.pick(["always", "always", "status", "not-string", "nth"]),
            nth: rng.int(1, 4),
            log: rng.int(0, 2),
          });
          // 2^n s stops being a representable timer after n = 21 (24 days); nobody can wait that long
          const o = ops[ops.length - 1];
          if (o.timeout === "exp" && o.retries === 100 && o.kind === "retry") o.retries = 12;
        }
        return { ops };
      },
      faults: {},
      maxEvents: 20000,
      async run(world, plan, ctx) {
        const inst = new Instance(world, "caller", ctx.retry);
        const R = inst.exports;
        const calls = [];
        for (const op of plan.ops) {
          const c = { op, starts: [], ends: [], open: 0, settled: undefined };
          calls.push(c);
          const mkErr = (o) => {
            switch (o) {
              case "h403": return new R.HttpError(403, "forbidden");
              case "h429": return new R.HttpError(429, "slow down");
              case "h500": return new R.HttpError(500, "oops");
              case "h404": return new R.HttpError(404, "nope");
              case "look429": return Object.assign(new Error("429"), { statusCode: 429 });
              case "reject-string": return "just a string";
              case "reject-undef": return undefined;
              default: return new Error("failed");
            }
          };
          const asyncFn = (...a) => {
            const k = c.starts.length;
            const o = op.outcomes[Math.min(k, op.outcomes.length - 1)];
            c.starts.push({ t: world.now, k, o, args: a });
            world.record(`start${op.id}`, { k });
            if (o.hang) world.scripted("op.hang");
            else if (o.out === "sync-throw") world.scripted("op.sync-throw");
            else if (o.ms > MIN30) world.scripted("op.too-slow");
            else if (o.out !== "ok") world.scripted("op.reject");
            check(!c.settled, `retry call ${op.id}: operation started again after the call had settled`, "start-after-settle");
            if (o.out === "sync-throw") {
              const e = mkErr("err");
              c.ends.push({ t: world.now, k, err: e, sync: true });
              throw e;
            }
            return new Promise((res, rej) => {
              if (o.hang) return;
              inst.setTimer(() => {
                const e = mkErr(o.out);
                if (o.out === "ok") { c.ends.push({ t: world.now, k, ok: true }); res(`value-${op.id}-${k}`); }
                else { c.ends.push({ t: world.now, k, err: e, bad: true }); rej(e); }
              }, o.ms, [], false);
            });
          };
          c.predCalls = [];
          const predicate = (e) => {
            let v = true;
            if (op.predicate === "status") v = R.retryPredicates.retryBasedOnStatusCode(e);
            else if (op.predicate === "not-string") v = typeof e !== "string" && e !== undefined;
            else if (op.predicate === "nth") v = c.predCalls.length + 1 !== op.nth;
            c.predCalls.push(v);
            return v;
          };
          c.backoffs = [];
          const timeoutFn = (n) => {
            const v = op.timeout === "exp" ? R.timeoutFunctions.exponentialTimeout(n) : op.timeout === "const" ? 1500 : op.timeout === "dec" ? Math.max(0, 5000 - n * 1000) : op.timeout === "zero-then" ? (n % 2 ? 0 : 700) : 0;
            return v;
          };
          c.expectBackoff = (n) => (op.kind === "request" ? 2 ** n * 1000 : op.kind === "defaults" ? 0 : op.timeout === "exp" ? 2 ** n * 1000 : timeoutFn(n));
          world.after(op.delay, "call", () => inst.deliverNow(() => {
            let p;
            if (op.kind === "request") p = R.retryRequest(asyncFn, "a1", op.id);
            else if (op.kind === "defaults") p = R.retry(asyncFn);
            else p = R.retry(asyncFn, typeof op.retries === "string" ? Number(op.retries) : op.retries, op.log, timeoutFn, predicate);
            p.then((v) => { c.settled = { ok: true, v, t: world.now }; world.record("settle", { id: op.id, ok: true }); }, (e) => { c.settled = { ok: false, e, t: world.now }; world.record("settle", { id: op.id, ok: false }); });
          }));
        }
        await world.run();
        for (const c of calls) judge(world, c);
      },
    },
  ],
};

function statusRetry(o) { return o === "h403" || o === "h429"; }

function judge(world, c) {
  const { op } = c;
  const tag = `retry call ${op.id} (${op.kind}, retries=${op.retries})`;
  if (op.kind === "invalid") {
    check(c.starts.length === 0, `${tag}: invalid retry count but the operation was started ${c.starts.length} times`, "invalid-count-started");
    check(c.settled && !c.settled.ok, `${tag}: invalid retry count was not rejected`, "invalid-count-accepted");
    return;
  }
  const retries = op.kind === "request" ? 5 : op.kind === "defaults" ? 3 : op.retries;
  // reference: walk the scripted outcomes
  let t = undefined;
  let k = 0;
  let expected;
  for (;;) {
    const o = op.outcomes[Math.min(k, op.outcomes.length - 1)];
    const s = c.starts[k];
    check(s, `${tag}: attempt ${k + 1} was never started (attempts so far ${c.starts.length})`, "too-few-attempts");
    if (t !== undefined) {
      const need = c.expectBackoff(k);
      check(s.t >= t + need - 0.01, `${tag}: attempt ${k + 1} started ${Math.round(s.t - t)} ms after the previous failure; the back-off is ${need} ms`, "backoff-too-short");
      check(s.t <= t + need + 50, `${tag}: attempt ${k + 1} started ${Math.round(s.t - t)} ms after the previous failure; the back-off is ${need} ms`, "backoff-too-long");
    }
    if (op.kind === "request") check(s.args.length === 2 && s.args[0] === "a1" && s.args[1] === op.id, `${tag}: arguments not passed through`, "args");
    const dur = o.out === "sync-throw" ? 0 : o.hang ? Infinity : Math.max(1, o.ms);
    const timedOut = dur > MIN30;
    if (timedOut) world.probe("retry.timeout-overlap");
    const end = s.t + Math.min(dur, MIN30);
    if (o.out === "ok" && !timedOut) { expected = { ok: true, v: `value-${op.id}-${k}`, t: end }; if (k) world.probe("retry.recovered"); break; }
    if (k >= retries || retries <= 0) { expected = { ok: false, t: end }; world.probe("retry.exhausted"); break; }
    const willRetry = op.kind === "defaults" ? true
      : op.kind === "request" || op.predicate === "status" ? !timedOut && statusRetry(o.out)
      : op.predicate === "not-string" ? timedOut || (o.out !== "reject-string" && o.out !== "reject-undef")
      : op.predicate === "nth" ? k + 1 !== op.nth
      : true;
    if (!willRetry) { expected = { ok: false, t: end }; world.probe("retry.declined"); break; }
    t = end;
    k++;
  }
  check(c.starts.length === k + 1, `${tag}: operation started ${c.starts.length} times, expected ${k + 1}`, "attempt-count");
  check(c.settled, `${tag}: never settled`, "never-settled");
  check(c.settled.ok === expected.ok, `${tag}: ${c.settled.ok ? "resolved" : "rejected"}, expected ${expected.ok ? "success" : "failure"}`, "wrong-outcome");
  if (expected.ok) check(c.settled.v === expected.v, `${tag}: returned ${String(c.settled.v)}, expected ${expected.v}`, "wrong-value");
  check(c.settled.t <= expected.t + 50 && c.settled.t >= expected.t - 1, `${tag}: settled at +${Math.round(c.settled.t - world.start)} ms, expected +${Math.round(expected.t - world.start)} ms`, "settle-time");
}
