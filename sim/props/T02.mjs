// T02: every monitored endpoint has exactly one, correctly configured NodePing check; other checks are left alone.
import { createRequire } from "node:module";
import { bundle, evalEsm } from "../runtime.mjs";
import { WIRINGS } from "../apps.mjs";
import { deploy } from "../lambda.mjs";
import { check } from "../check.mjs";
import { Aws, Http } from "../services.mjs";
import { StatusServices, SECRET } from "../harness/status.mjs";

const HOUR = 3600000;
const USER = "internal-digitraffic-status";
const CONTACT = "GitHub Actions for status prod";
const WF = "https://api.github.com/repos/tmfg/cstate/actions/workflows/update.yml/dispatches";
/** The shapes an operation of an OpenAPI specification takes and the query its check needs (undefined: cannot be checked). */
const SHAPES = [
  { item: { get: {} }, q: "" },
  { item: { get: { parameters: [{ name: "a", in: "query", required: false, schema: {} }] } }, q: "" },
  { item: { get: { parameters: [{ name: "a", in: "query", required: true, schema: { default: "5" } }, { name: "b", in: "query", required: false, schema: { default: "9" } }] } }, q: "?a=5" },
  { item: { get: { parameters: [{ name: "a", in: "query", required: true, schema: { default: ["x", "y"] } }, { name: "c", in: "query", required: true, schema: { default: "1" } }] } }, q: "?a=x&a=y&c=1" },
  { item: { get: { parameters: [{ name: "a", in: "query", required: true, schema: {} }] } } },
  { item: { get: { parameters: [{ name: "a", in: "query", required: true, schema: { default: "1" } }, { name: "b", in: "query", required: true, schema: { default: [] } }] } } },
  { item: { post: {} } },
  { item: { get: {}, post: {} }, q: "" },
];
const PATHS = ["/api/a/v1/x", "/api/a/v1/x/{id}", "/api/a/v1", "/api/b/v1/marine-crossings", "/api/beta/c", "/api/b/v2/railway", "/api/d/v1/zones.json", "/api/e/v1/y/latest", "/api/roadworks/v1", "/api/f/v1/y"];

export default {
  id: "T02",
  quickSec: 15,
  thoroughSec: 240,
  real: ["status update-status handler, status service, Digitraffic and NodePing clients (with ky), the monitored applications as configured", "secrets, retry", "synthesised schedule, timeout and concurrency"],
  stubs: ["NodePing and the applications' OpenAPI specifications behind fetch", "Lambda and schedule", "Secrets Manager"],
  assumptions: ["runs do not overlap (hourly, one at a time, 60 s limit)", "nobody else changes NodePing between two runs except where the plan says so", "no endpoint of a specification has the name or address of an extra endpoint of the configuration, or an application name with its capital letter in its path", "the final state is judged after three runs without failures"],
  mustReach: ["t02.created", "t02.updated", "t02.contact", "t02.beta", "t02.extra", "t02.stale", "t02.moved", "t02.crash", "t02.spec-down", "t02.second-app", "t02.no-change"],
  async setup() {
    const { monitoredApps } = await evalEsm(`export { monitoredApps } from "REPO/other/status/src/monitored-apps.ts";`, createRequire(import.meta.url));
    return { apps: monitoredApps, wiring: await WIRINGS.status(), code: await bundle({ u: "other/status/src/lambda/update-status/lambda-update-status.ts" }) };
  },
  scenarios: [
    {
      name: "checks",
      gen(rng, tier) {
        const n = rng.int(1, tier === "thorough" ? 8 : 4);
        const ops = [];
        const ep = () => ({ app: rng.int(0, 3), path: rng.int(0, PATHS.length - 1), shape: rng.int(0, SHAPES.length - 1) });
        for (let i = 0; i < n; i++) ops.push({ add: Array.from({ length: rng.int(0, 3) }, ep), remove: rng.bool(0.2) ? rng.int(0, 9) : -1, down: rng.bool(0.15) ? rng.int(0, 3) : -1, spoil: rng.bool(0.5) ? { n: rng.int(0, 60), what: rng.pick(["threshold", "interval", "headers", "method", "contacts", "contacts+", "target"]) } : undefined, rotate: rng.bool(0.1) });
        // checks that exist from the beginning: most of the extra endpoints, some outdated
        const seed = Array.from({ length: rng.int(0, 40) }, () => ({ n: rng.int(0, 60), bad: rng.pick([undefined, undefined, "threshold", "interval", "headers", "method", "contacts", "target", "type"]), inactive: rng.bool(0.1) }));
        return { ops, cfg: { seed, contact: rng.bool(0.5), beta: rng.bool(0.4), stale: rng.bool(0.4), other: rng.bool(0.6) }, faults: rng.bool(0.3) ? {} : undefined };
      },
      faults: { "secrets.before": 0.02, "http.before": 0.012, "http.lost": 0.012, "http.5xx": 0.02, "http.429": 0.005, "http.truncated": 0.012, crash: 0.002, slow: 0.004, recycle: 0.1 },
      maxEvents: 80000,
      async run(world, plan, ctx) {
        const aws = new Aws(world), http = new Http(world);
        http.slowMs = 30000;
        http.latency = [20, 150];
        const s = new StatusServices(world, http, aws);
        const clean = plan.faults && !Object.keys(plan.faults).length;
        const apps = ctx.apps;
        const withSpec = apps.filter((a) => a.hasOpenApiSpec !== false);
        const spec = new Map(withSpec.map((a) => [a.name, new Map()]));
        let down = -1;
        for (const [i, a] of withSpec.entries()) http.route(`spec ${a.name}`, (r) => r.url === a.url, () => (i === down ? { status: 503, body: "down" } : { status: 200, headers: { "content-type": "application/json" }, body: JSON.stringify({ paths: Object.fromEntries([...spec.get(a.name)].map(([p, k]) => [p, SHAPES[k].item])) }) }));
        if (plan.cfg.contact) s.contacts.set("GH", { _id: "GH", name: CONTACT, custrole: "notify", addresses: { GHA: { address: WF, type: "webhook" } } });
        s.contacts.set("SL", { _id: "SL", name: "Slack", custrole: "notify", addresses: { SLACK1: { address: "x", type: "slack" } } });
        const gh = () => Object.keys([...s.contacts.values()].find((c) => c.name === CONTACT)?.addresses ?? {})[0];
        const notify = (...ids) => ids.map((id) => ({ [id]: { delay: 0, schedule: "All" } }));
        const extras = apps.flatMap((a) => a.endpoints.map((e) => ({ a, e })));
        const want = (a, name, e) => ({ app: a.name, name, labels: [name, `${a.name} ${name}`], extra: e, type: e?.protocol === 1 ? "WEBSOCKET" : "HTTPADV", target: e?.url ?? `${a.hostPart}${name}`, method: e?.method ?? "HEAD", postdata: e?.sendData, contentstring: e?.contentstring, invert: e?.contentstring ? e.invert ?? false : undefined });
        const wanted = () => apps.flatMap((a) => [
          ...[...(spec.get(a.name) ?? [])].filter(([p, k]) => SHAPES[k].q !== undefined && !p.includes("{") && !p.includes("beta")).map(([p, k]) => p + SHAPES[k].q).filter((p) => !a.excluded.includes(p)).map((p) => want(a, p)),
          ...a.endpoints.map((e) => want(a, e.name, e))]);
        const spoil = (c, what) => {
          const p = c.parameters;
          if (what === "threshold") p.threshold = 25;
          if (what === "interval") c.interval = 15;
          if (what === "headers") p.sendheaders = { "accept-encoding": "gzip" };
          if (what === "method") p.method = p.method === "GET" ? "HEAD" : "GET";
          if (what === "contacts") c.notifications = notify("SLACK1");
          if (what === "contacts+") c.notifications = [...c.notifications, ...notify("SOMEONE")];
          if (what === "type" || what === "target") p.target = what === "target" ? "https://old.example/x" : p.target;
        };
        for (const o of plan.cfg.seed) {
          const { a, e } = extras[o.n % extras.length], w = want(a, e.name, e);
          const label = e.name.includes(a.name) ? e.name : `${a.name} ${e.name}`;
          if ([...s.checks.values()].some((c) => c.label === label)) continue;
          const c = s.add(label, { type: w.type, target: w.target, method: w.method, threshold: 10, interval: 5, postdata: w.postdata, contentstring: w.contentstring, invert: w.invert, regex: w.contentstring ? false : undefined, sendheaders: { "accept-encoding": "gzip", "digitraffic-user": USER, ...(w.postdata ? { "content-type": "application/json" } : {}) }, notifications: notify("SLACK1", "SLACK2", ...(gh() ? [gh()] : [])) });
          if (o.inactive) c.enable = "inactive";
          if (o.bad === "target") world.probe("t02.moved");
          spoil(c, o.bad);
        }
        const others = new Map();
        if (plan.cfg.other) for (const l of ["Afir charging", "Own homepage", "MQTT"]) { const c = s.add(l, { threshold: 3, method: "GET" }); others.set(c._id, JSON.stringify(c)); }
        if (plan.cfg.beta) s.add("Road /api/beta/old", { target: "https://tie.digitraffic.fi/api/beta/old", sendheaders: {}, notifications: notify("SLACK1", ...(gh() ? [gh()] : [])) });
        const stale = plan.cfg.stale ? s.add("Marine /api/gone/v1", { target: "https://meri.digitraffic.fi/api/gone/v1", threshold: 3 }) : undefined;
        const inactive = new Set([...s.checks.values()].filter((c) => c.enable !== "active").map((c) => c._id));
        s.onChange = (c) => {
          try {
            if (c.kind === "contact") {
              world.probe("t02.contact");
              check([...s.contacts.values()].filter((x) => x.name === CONTACT).length <= 1, "the contact of the status page was created twice", "contact-twice");
              const a = c.data.newaddresses?.[0];
              check(c.data.name === CONTACT && a?.address === WF && a.type === "webhook" && a.action === "post" && a.headers.Authorization === "token github-pat-5" && a.data.ref === "refs/heads/prod", `the contact was created as ${JSON.stringify(c.data)}`, "contact");
            } else if (c.kind === "create") {
              world.probe("t02.created");
              const w = wanted().find((x) => x.labels.includes(c.data.label) && [...s.checks.values()].filter((y) => x.labels.includes(y.label)).length);
              check(w || c.inst.state === "dead", `a check ${c.data.label} was created, which is not monitored`, "create-unknown");
              check(!w || [...s.checks.values()].filter((y) => w.labels.includes(y.label)).length === 1, `check ${c.data.label} was created although there already is one`, "create-twice");
              if (w?.extra) world.probe("t02.extra");
            } else if (c.kind === "update") world.probe("t02.updated");
            else check(false, `NodePing was changed: ${c.kind}`, "other-change");
          } catch (e) { world.fail(e); }
        };
        const d = deploy(world, ctx.wiring, { aws, fns: { u: { re: /update-?status/i, code: ctx.code.u, svc: { aws, http, fetch: http.fetch } } } });
        check(d.fns.u.schedule.length === 1, "the function has no schedule", "schedule");
        const judge = () => {
          const all = [...s.checks.values()];
          for (const w of wanted()) {
            const mine = all.filter((c) => w.labels.includes(c.label));
            check(mine.length === 1, `endpoint ${w.app} ${w.name} has ${mine.length} checks`, "count");
            const [c] = mine, p = c.parameters, where = `check "${c.label}"`;
            check(c.type === w.type, `${where} is of type ${c.type}`, "type");
            check(p.target === w.target, `${where} calls ${p.target} instead of ${w.target}`, "target");
            if (w.type === "HTTPADV") {
              check(p.method === w.method, `${where} uses method ${p.method} instead of ${w.method}`, "method");
              check(p.sendheaders["digitraffic-user"] === USER && p.sendheaders["accept-encoding"] === "gzip", `${where} sends headers ${JSON.stringify(p.sendheaders)}`, "headers");
              check(Boolean(p.sendheaders["content-type"]) === Boolean(w.postdata), `${where} ${w.postdata ? "posts data without" : "has no data but sends"} a content type`, "content-type");
            }
            check(p.postdata === w.postdata && p.contentstring === w.contentstring && (!w.contentstring || Boolean(p.invert) === w.invert), `${where} posts ${p.postdata} and looks for ${p.contentstring} (inverted: ${p.invert})`, "content");
            check(p.threshold === 10 && c.interval === 5, `${where} has threshold ${p.threshold} s and interval ${c.interval} min`, "timing");
            const ids = c.notifications.flatMap((n) => Object.keys(n)).sort().join();
            check(ids === [SECRET.nodePingContactIdSlack1, SECRET.nodePingContactIdSlack2, gh()].sort().join(), `${where} notifies ${ids}`, "contacts");
            check(c.enable === (inactive.has(c._id) ? "inactive" : "active"), `${where} is ${c.enable}`, "enabled");
          }
          const beta = all.find((c) => /beta/.test(c.label));
          if (beta) { world.probe("t02.beta"); const ids = beta.notifications.flatMap((n) => Object.keys(n)).sort().join(); check(ids === "SLACK1,SLACK2", `the check of a beta endpoint notifies ${ids}`, "beta-contacts"); }
          if (stale) { world.probe("t02.stale"); const c = s.checks.get(stale._id); check(c && c.parameters.target === "https://meri.digitraffic.fi/api/gone/v1" && c.parameters.threshold === 10, "the check of an endpoint that is gone was not kept up to date", "stale"); }
          for (const [id, was] of others) check(JSON.stringify(s.checks.get(id)) === was, `check ${s.checks.get(id)?.label}, which belongs to no application, was changed`, "foreign");
        };
        let fin = false;
        const once = async () => {
          const n = s.changes.length, mark = world.firedFaults.length;
          const r = await d.fns.u.invoke({});
          if (r.status === "crash") world.probe("t02.crash");
          world.record("run", { s: r.status, n: s.changes.length - n });
          const fired = world.firedFaults.slice(mark).filter((f) => f.kind !== "recycle");
          if (!fired.length && down < 0) { check(r.status === "ok", `the run failed although nothing failed: ${r.error?.message ?? r.status}`, "failed"); }
          return s.changes.length - n;
        };
        (async () => {
          for (const o of plan.ops) {
            for (const e of o.add) {
              const a = withSpec[e.app % withSpec.length];
              if (e.app) world.probe("t02.second-app");
              spec.get(a.name).set(PATHS[e.path], e.shape);
            }
            if (o.remove >= 0) for (const m of spec.values()) m.delete(PATHS[o.remove]);
            if (o.rotate) s.rotate();
            if (o.spoil) { const all = [...s.checks.values()].filter((c) => !others.has(c._id) && c.type === "HTTPADV" && wanted().some((w) => w.extra && w.labels.includes(c.label))); if (all.length) { spoil(all[o.spoil.n % all.length], o.spoil.what); if (o.spoil.what === "target") world.probe("t02.moved"); } }
            down = o.down;
            if (down >= 0) world.probe("t02.spec-down");
            await once();
            await world.sleep(HOUR - 70000);
          }
          down = -1;
          world.faultsEnabled = false;
          for (let i = 0; i < (clean ? 1 : 3); i++) { await once(); await world.sleep(HOUR - 70000); }
          judge();
          const changed = await once();
          check(!changed, "a run changed checks although everything was up to date", "not-idempotent");
          world.probe("t02.no-change");
          judge();
          fin = true;
        })().catch((e) => world.fail(e));
        await world.run({ until: () => fin, deadline: world.now + 100 * HOUR });
        check(fin, "runs did not finish", "stuck");
      },
    },
  ],
};
