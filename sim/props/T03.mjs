// T03: the hourly comparison of NodePing and the status page reports exactly the differences there are.
import { bundle } from "../runtime.mjs";
import { WIRINGS } from "../apps.mjs";
import { deploy } from "../lambda.mjs";
import { check } from "../check.mjs";
import { Aws, Http } from "../services.mjs";
import { StatusServices, cstateTime } from "../harness/status.mjs";

const HOUR = 3600000;
const APPS = ["Road", "Marine", "Rail", "Parking"];
/** Names of one component: as NodePing's check (after the application) and as the page's system. */
const NAMES = [
  ["/api/foo/v1/bar", "/api/foo/v1/bar"],
  ["/api/foo/v1", "/api/foo/v1"],
  ["/last-updated/", "/last-updated"],
  ["Swagger UI", "/swagger-ui"],
  ["Data is Up To Date", "/data-is-up-to-date"],
  ["infra-api Swagger", "/infra-api/swagger"],
  ["MQTT", "/mqtt"],
  ["UI", "/ui"],
];

export default {
  id: "T03",
  quickSec: 15,
  thoroughSec: 240,
  real: ["status check-component-states handler, status service, NodePing and cState clients (with ky), SlackApi", "secrets, retry", "synthesised schedule, timeout and concurrency"],
  stubs: ["NodePing, cState page and Slack behind fetch", "Lambda and schedule", "Secrets Manager"],
  assumptions: ["checks and page do not change while a run is in progress", "a check without an application in its name belongs to the only component of that name", "a report whose delivery to Slack fails is not repeated before the next hour"],
  mustReach: ["t03.missing-system", "t03.missing-check", "t03.up-down", "t03.down-up", "t03.maintenance", "t03.in-sync", "t03.same-name", "t03.no-app", "t03.beta", "t03.crash", "t03.rotated"],
  async setup() {
    return { wiring: await WIRINGS.status(), code: await bundle({ c: "other/status/src/lambda/check-component-states/lambda-check-component-states.ts" }) };
  },
  scenarios: [
    {
      name: "compare",
      gen(rng, tier) {
        const n = rng.int(1, tier === "thorough" ? 10 : 4);
        const comp = () => ({ app: rng.int(0, 3), name: rng.int(0, NAMES.length - 1), check: rng.bool(0.85), system: rng.bool(0.85), up: rng.bool(0.8), status: rng.pick(["ok", "ok", "ok", "notice", "disrupted", "down"]) });
        const ops = [];
        for (let i = 0; i < n; i++) ops.push({ comps: Array.from({ length: rng.pick([0, 1, 3, 8]) }, comp), fix: rng.bool(0.2), noApp: rng.bool(0.3) ? { check: rng.bool(0.8), system: rng.bool(0.8), up: rng.bool(0.7), status: rng.pick(["ok", "down"]) } : undefined, beta: rng.bool(0.3), maintenance: rng.bool(0.2), issues: rng.int(0, 5), rotate: rng.bool(0.15), turn: rng.int(0, 9), slash: rng.bool(0.5) });
        return { ops, cfg: {}, faults: rng.bool(0.3) ? {} : undefined };
      },
      faults: { "secrets.before": 0.05, "http.before": 0.08, "http.lost": 0.06, "http.5xx": 0.15, "http.429": 0.03, "http.truncated": 0.05, crash: 0.02, slow: 0.03, recycle: 0.1 },
      maxEvents: 40000,
      async run(world, plan, ctx) {
        const aws = new Aws(world), http = new Http(world);
        http.slowMs = 40000;
        const s = new StatusServices(world, http, aws);
        const d = deploy(world, ctx.wiring, { aws, fns: { c: { re: /check-?component-?states/i, code: ctx.code.c, svc: { aws, http, fetch: http.fetch } } } });
        check(d.fns.c.schedule.length === 1, "the function has no schedule", "schedule");
        s.onChange = (c) => { try { check(false, `NodePing was changed: ${c.kind}`, "changed"); } catch (e) { world.fail(e); } };
        s.onDispatch = () => { try { check(false, "a workflow was started", "workflow"); } catch (e) { world.fail(e); } };
        const comps = new Map();
        let fin = false;
        (async () => {
          for (const o of plan.ops) {
            for (const c of o.comps) comps.set(`${c.app}:${c.name}`, c);
            if (o.fix) for (const c of comps.values()) { c.check = c.system = c.up = true; c.status = "ok"; }
            if (o.rotate) { s.rotate(); world.probe("t03.rotated"); }
            const list = [...comps.values()].map((c) => ({ ...c, label: `${APPS[c.app]} ${NAMES[c.name][0]}`, system: c.system && `${APPS[c.app].toLowerCase()}${NAMES[c.name][1]}` }));
            if (o.noApp) { world.probe("t03.no-app"); list.push({ ...o.noApp, label: "/api/only/v1/here", system: o.noApp.system && "road/api/only/v1/here" }); }
            s.checks.clear(); s.systems = [];
            // NodePing and the page list things in their own order
            const turn = (a) => a.slice(o.turn % (a.length || 1)).concat(a.slice(0, o.turn % (a.length || 1)));
            for (const c of turn(list)) if (c.check) s.add(c.label).state = c.up ? 1 : 0;
            for (const c of turn([...list].reverse())) if (c.system) s.systems.push({ name: c.system, description: "", category: "Road", status: c.status });
            if (o.beta) { s.add("Road /api/beta/thing").state = 0; world.probe("t03.beta"); }
            s.issues = o.maintenance ? [{ is: "issue", title: "M", createdAt: cstateTime(world.now - 600000), lastMod: cstateTime(world.now), permalink: "https://status.example/issues/digitraffic-maintenance/m/", affected: [], filename: "m.md" }] : [];
            const issue = (starts, path) => ({ is: "issue", title: "T", createdAt: cstateTime(starts), lastMod: cstateTime(world.now), permalink: `https://status.example/issues/${path}/`, affected: [], filename: "x.md" });
            if (o.issues & 1) s.issues.unshift(issue(world.now - HOUR, "2025-03-01-other"));
            if (o.issues & 4) s.issues.unshift(issue(world.now + 5 * HOUR, "digitraffic-maintenance/later"));
            const want = [];
            for (const c of list) {
              if (c.check && !c.system) { want.push(`${c.label} system-missing`); world.probe("t03.missing-system"); }
              if (!c.check && c.system) { want.push(`${c.system} check-missing`); world.probe("t03.missing-check"); }
              if (c.check && c.system && !o.maintenance && c.up && c.status === "down") { want.push(`${c.system} up-down`); world.probe("t03.up-down"); }
              if (c.check && c.system && !o.maintenance && !c.up && c.status !== "down") { want.push(`${c.system} down-up`); world.probe("t03.down-up"); }
            }
            if (new Set(list.map((c) => c.name)).size < list.length) world.probe("t03.same-name");
            if (o.maintenance) world.probe("t03.maintenance");
            if (!want.length) world.probe("t03.in-sync");
            const n = s.slack.length, mark = world.firedFaults.length;
            const r = await d.fns.c.invoke({});
            if (r.status === "crash") world.probe("t03.crash");
            await world.sleep(60000);
            const fired = world.firedFaults.slice(mark).filter((f) => f.kind !== "recycle");
            const sent = s.slack.slice(n);
            world.record("run", { s: r.status, n: sent.length });
            for (const m of sent) {
              const got = m.text.split("\n").map((line) => {
                const name = line.slice(0, line.indexOf(": ")), rest = line.slice(line.indexOf(": "));
                return `${name} ${/system missing/.test(rest) ? "system-missing" : /check missing/.test(rest) ? "check-missing" : /UP.*DOWN/.test(rest) ? "up-down" : /DOWN.*UP/.test(rest) ? "down-up" : rest}`;
              });
              for (const g of got) check(want.includes(g), `reported "${g}", which is not so; the differences are ${JSON.stringify(want)}`, "false");
              for (const w of want) check(got.includes(w), `the report does not contain "${w}"`, "missing");
              check(got.length === want.length, "a difference was reported twice", "twice");
            }
            const slackHit = fired.some((f) => /slack/.test(f.site));
            if (!slackHit) check(sent.length <= 1, `${sent.length} reports were sent`, "reports");
            if (r.status === "ok" && want.length && !slackHit) check(sent.length === 1, "there are differences but no report was sent", "no-report");
            if (!fired.length) check(r.status === "ok", `the run failed although nothing failed: ${r.error?.message ?? r.status}`, "failed");
            await world.sleep(HOUR);
          }
          fin = true;
        })().catch((e) => world.fail(e));
        await world.run({ until: () => fin, deadline: world.now + 100 * HOUR });
        check(fin, "runs did not finish", "stuck");
      },
    },
  ],
};
