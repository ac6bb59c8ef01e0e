// T01: NodePing checks are off exactly while a maintenance is on, and the status page is told of every maintenance.
import { bundle } from "../runtime.mjs";
import { WIRINGS } from "../apps.mjs";
import { deploy } from "../lambda.mjs";
import { check } from "../check.mjs";
import { Aws, Http } from "../services.mjs";
import { StatusServices, cstateTime } from "../harness/status.mjs";

const MIN = 60000;

export default {
  id: "T01",
  quickSec: 15,
  thoroughSec: 240,
  real: ["status handle-maintenance handler, maintenance service, NodePing and cState clients (with ky), SlackApi", "secrets, retry", "synthesised schedule, timeout and concurrency"],
  stubs: ["NodePing, cState page, GitHub and Slack behind fetch", "Lambda and schedule", "Secrets Manager"],
  assumptions: ["the page shows a maintenance as a pinned issue until it ends; a maintenance counts as on from one minute before its start time", "NodePing re-enables with disableall=false exactly the checks that disableall=true switched off", "NodePing accepts a replaced token for six minutes", "promises about the final state are judged once the page has not changed for five minutes and failures stopped at least eight minutes ago"],
  mustReach: ["t01.disabled", "t01.enabled", "t01.triggered", "t01.trigger-failed", "t01.future", "t01.refused", "t01.manual", "t01.rotated", "t01.crash", "t01.added", "t01.settled-on", "t01.settled-off", "t01.other-issue", "t01.ignored-refusal"],
  async setup() {
    return { wiring: await WIRINGS.status(), code: await bundle({ m: "other/status/src/lambda/handle-maintenance/lambda-handle-maintenance.ts" }) };
  },
  scenarios: [
    {
      name: "maintenance",
      gen(rng, tier) {
        const n = rng.int(2, tier === "thorough" ? 20 : 9);
        const ops = [];
        for (let i = 0; i < n; i++) ops.push({ gap: rng.pick([0.3, 1, 1.5, 2, 6, 9, 15]), kind: rng.pick(["start", "start", "end", "end", "other", "add", "manual", "refuse", "rotate", "none"]), ahead: rng.pick([0, 0, -3, 0.5, 0.9, 1.1, 3, 7, 60]), n: rng.int(0, 9), ignore: rng.bool(0.5) });
        return { ops, cfg: { checks: rng.int(1, 6), quiet: rng.int(0, n), phase: rng.int(0, 59) }, faults: rng.bool(0.3) ? {} : undefined };
      },
      faults: { "secrets.before": 0.05, "http.before": 0.08, "http.lost": 0.06, "http.5xx": 0.15, "http.429": 0.03, "http.truncated": 0.05, crash: 0.02, slow: 0.03, recycle: 0.1 },
      maxEvents: 60000,
      async run(world, plan, ctx) {
        const aws = new Aws(world), http = new Http(world);
        http.slowMs = 40000;
        const s = new StatusServices(world, http, aws);
        const clean = plan.faults && !Object.keys(plan.faults).length;
        for (let i = 0; i < plan.cfg.checks; i++) s.add(`check ${i}`);
        const history = []; // {from, to, starts}: what the page showed as maintenance
        let lastChange = world.now, quietSince = clean ? world.now : Infinity;
        const on = (h, a, b) => Math.max(a, h.from, h.starts - MIN - 2) <= Math.min(b, h.to);
        const onDuring = (a, b) => history.some((h) => on(h, a, b));
        const offDuring = (a, b) => [a, b, ...history.flatMap((h) => [h.to + 1, Math.max(h.from, h.starts - MIN) - 3])].some((t) => t >= a && t <= b && !history.some((h) => t >= Math.max(h.from, h.starts - MIN + 2) && t <= h.to));
        const states = () => [...s.checks.values()];
        let period = null; // the maintenance period that is going on: {from, disabled}
        const refresh = () => {
          const now = world.now, active = history.some((h) => h.from <= now && now <= h.to && h.starts - MIN <= now);
          if (active && !period) { period = { from: now, off: 0, sent: 0 }; lastChange = now; }
          if (!active && period) { period = null; lastChange = now; }
        };
        s.onChange = (c) => {
          try {
            if (c.inst.state === "dead") return; // sent by a run that has ended since
            refresh();
            if (c.kind === "disableall") {
              check(onDuring(c.inst.startedRun, world.now), "all checks were disabled although no maintenance was on", "disabled-without");
              world.probe("t01.disabled");
              if (period && c.count) period.off++;
            } else if (c.kind === "enableall" || c.kind === "enable") {
              check(offDuring(c.inst.startedRun, world.now), "checks were enabled although a maintenance was on all the time", "enabled-during");
              if (c.kind === "enable") check(c.data.enabled === true, "a check was switched off", "switched-off");
              world.probe("t01.enabled");
            } else check(false, `NodePing was changed: ${c.kind}`, "other-change");
          } catch (e) { world.fail(e); }
        };
        s.onDispatch = (d) => {
          try {
            refresh();
            check(d.url === "https://api.github.com/repos/tmfg/cstate/actions/workflows/maintenance.yml/dispatches" && d.body.ref === "refs/heads/prod" && d.body.inputs.baseUrl === "https://status.example", `the page's workflow was called as ${d.url} ${JSON.stringify(d.body)}`, "workflow");
            const h = history.find((x) => x.permalink === d.body.inputs.permalink);
            check(h, `the workflow was started for ${d.body.inputs.permalink}, which is no maintenance`, "no-maintenance");
            check(d.inst.state === "dead" || on(h, d.inst.startedRun, world.now), `the workflow was started for ${h.permalink}, which is not on`, "not-on");
            for (const p of [period]) if (p) p.sent++;
            world.probe("t01.triggered");
          } catch (e) { world.fail(e); }
        };
        const d = deploy(world, ctx.wiring, { aws, fns: { m: { re: /handle-?maintenance/i, code: ctx.code.m, svc: { aws, http, fetch: http.fetch } } } });
        const rate = d.fns.m.schedule ?? ctx.wiring.scheduleOf?.(d.fns.m.id) ?? [];
        const every = everyMs(rate);
        check(every && every <= 60 * MIN, `maintenance is looked for at ${JSON.stringify(rate)}`, "schedule");
        let fin = false, busy = 0;
        const tick = async () => {
          if (fin) return;
          world.after(every, "schedule", tick);
          busy++;
          const mark = world.firedFaults.length, sent = s.dispatches.length, slack = s.slack.length, changed = s.changes.length, before = states().filter((c) => c.enable === "active").length;
          const r = await d.fns.m.invoke({});
          busy--;
          refresh();
          if (r.status === "crash") world.probe("t01.crash");
          world.record("run", { s: r.status });
          const fired = world.firedFaults.slice(mark);
          if (fired.some((f) => /github/.test(f.site))) world.probe("t01.trigger-failed");
          if (clean && r.status !== "throttled") {
            check(r.status === "ok" || s.refuse.size, `the run failed although nothing failed: ${r.error?.message}`, "failed");
            if (s.changes.slice(changed).some((c) => c.kind === "disableall" && c.count)) {
              check(s.dispatches.length - sent === 1, `the page's workflow was started ${s.dispatches.length - sent} times for a maintenance`, "trigger-count");
              check(s.slack.length > slack, "nobody was told that checks were disabled", "slack");
            } else check(s.dispatches.length === sent, "the page's workflow was started although no check had to be disabled", "trigger-again");
            if (s.changes.slice(changed).some((c) => c.kind === "enableall" && c.count)) check(s.slack.length > slack, "nobody was told that checks were enabled", "slack");
          }
        };
        const settled = () => {
          refresh();
          const now = world.now;
          if (now - lastChange < 5 * MIN || now - quietSince < 8 * MIN) return;
          // a maintenance becoming active within the minute may be handled either way
          if (history.some((h) => h.to >= now && Math.abs(h.starts - MIN - now) < 5 * MIN)) return;
          if (period) {
            const left = states().filter((c) => c.enable === "active" && now - (c.since ?? 0) > 5 * MIN);
            check(!left.length, `a maintenance has been on for ${Math.round((now - lastChange) / MIN)} minutes but check ${left[0]?.label} is enabled`, "not-disabled");
            if (period.off) check(period.sent, "checks were disabled for a maintenance but the status page's workflow was not started for it", "not-triggered");
            world.probe("t01.settled-on");
          } else {
            const left = states().filter((c) => c.enable !== "active" && !s.refuse.has(c._id) && now - (c.since ?? 0) > 5 * MIN);
            check(!left.length, `no maintenance has been on for ${Math.round((now - lastChange) / MIN)} minutes but check ${left[0]?.label} is ${left[0]?.enable}`, "not-enabled");
            world.probe("t01.settled-off");
          }
        };
        (async () => {
          await world.sleep(plan.cfg.phase * 1000);
          world.after(every, "schedule", tick);
          let i = 0, seq = 0;
          for (const o of plan.ops) {
            if (i++ === plan.cfg.quiet && !clean) { world.faultsEnabled = false; quietSince = world.now; }
            await world.sleep(o.gap * MIN);
            settled();
            refresh();
            const cs = states();
            if (o.kind === "start" && s.issues.filter((x) => /maintenance/.test(x.permalink)).length < 2) {
              const starts = Math.floor(world.now + o.ahead * MIN), permalink = `https://status.example/issues/digitraffic-maintenance/m${++seq}/`;
              if (o.ahead > 1) world.probe("t01.future");
              s.issues[o.n % 2 ? "push" : "unshift"]({ is: "issue", title: `Maintenance ${seq}`, createdAt: cstateTime(starts), lastMod: cstateTime(world.now), permalink, affected: [], filename: `m${seq}.md` });
              history.push({ from: world.now, to: Infinity, starts, permalink });
            } else if (o.kind === "other") {
              world.probe("t01.other-issue");
              s.issues[o.n % 2 ? "push" : "unshift"]({ is: "issue", title: "Something", createdAt: cstateTime(world.now - MIN * 10), lastMod: cstateTime(world.now), permalink: `https://status.example/issues/2025-03-0${o.n % 9}-other/`, affected: [], filename: "x.md" });
            } else if (o.kind === "end") {
              const k = s.issues.findIndex((x) => /digitraffic-maintenance/.test(x.permalink));
              if (k >= 0) { const [x] = s.issues.splice(k, 1); history.find((h) => h.permalink === x.permalink).to = world.now; }
            } else if (o.kind === "add") { s.add(`added ${o.n}`).since = world.now; world.probe("t01.added"); }
            else if (o.kind === "manual" && cs.length) { const c = cs[o.n % cs.length]; c.enable = "inactive"; c.since = world.now; world.probe("t01.manual"); }
            else if (o.kind === "refuse" && cs.length && !s.refuse.size) { const c = cs[o.n % cs.length]; c.enable = "inactive"; s.refuse.add(c._id); s.ignoreRefused = o.ignore; world.probe(o.ignore ? "t01.ignored-refusal" : "t01.refused"); }
            else if (o.kind === "rotate") { s.rotate(); world.probe("t01.rotated"); }
            refresh();
          }
          if (!clean) { world.faultsEnabled = false; quietSince = Math.min(quietSince, world.now); }
          await world.sleep(9 * MIN);
          settled();
          fin = true;
        })().catch((e) => world.fail(e));
        await world.run({ until: () => fin && !busy, deadline: world.now + 24 * 60 * MIN });
        check(fin, "runs did not finish", "stuck");
      },
    },
  ],
};

/** The longest pause between two runs of an EventBridge rate or cron expression of minutes. */
function everyMs(exprs) {
  for (const e of exprs) {
    const r = /^rate\((\d+) (minute|hour|day)s?\)$/.exec(e);
    if (r) return Number(r[1]) * { minute: MIN, hour: 60 * MIN, day: 1440 * MIN }[r[2]];
    const c = /^cron\((\*|\*\/\d+|\d+\/\d+) \* /.exec(e);
    if (c) return c[1] === "*" ? MIN : Number(c[1].split("/")[1]) * MIN;
  }
  return undefined;
}
