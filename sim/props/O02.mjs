// O02: an update of the OpenSearch monitors that is reported as successful leaves exactly the configured monitors, and they alarm when configured to.
import { createRequire } from "node:module";
import { bundle, evalEsm } from "../runtime.mjs";
import { WIRINGS } from "../apps.mjs";
import { deploy } from "../lambda.mjs";
import { isDeepStrictEqual as same } from "node:util";
import { check } from "../check.mjs";
import { Aws, Http } from "../services.mjs";
import { evaluate, phrase } from "../harness/oslog.mjs";

const MIN = 60000;
const NAMES = ["5xx RUNBOOK-A1", "Häiriöt päivittämättä", "lines", "ääkköset ÄÖ 🚢", "x RUNBOOK-B2 y", "plain"];
const DOMAINS = ["marine", "road", "rail"], ENVS = ["prod", "test"], LEVELS = ["ERROR", "WARN", "INFO"];
const LINES = ["connection refused by peer", "task timed out after 60 seconds", "refused", "peer connection", "ok"];
const PHRASES = [["level", "ERROR"], ["level", "WARN"], ["line", "connection refused"], ["line", "timed out"], ["app", "tis"], ["exists", "method"], ["or", "a"], ["multi", "refused"]];
const APPS = ["tis", "afir", "cameras"];
/** What a phrase means. */
const MEANS = {
  level: (v) => (d) => d.level === v,
  line: (v) => (d) => phrase(d.log_line, v),
  app: (v) => (d) => d.app === v,
  exists: () => (d) => d.method !== undefined,
  or: () => (d) => d.level === "ERROR" || d.app === "afir",
  multi: (v) => (d) => phrase(d.log_line, v) || (d.message !== undefined && phrase(d.message, v)),
};
const fields = (t) => ({ name: t.name, condition: t.condition, actions: t.actions });

export default {
  id: "O02",
  quickSec: 15,
  thoroughSec: 240,
  real: ["monitor builder (queries, time range, triggers, messages)", "update-os-monitors handler: delete, create, check, reports", "OpenSearch client", "lib secrets, Slack (ky)", "synthesised function with its environment and timeout"],
  stubs: ["OpenSearch alerting API behind NodeHttpHandler, evaluating the stored monitors on a log", "Slack behind fetch", "STS, Secrets Manager, request signing", "the deployed monitors.json"],
  assumptions: ["at most 200 monitors, each with a name of its own", "a search finds what has been created and deleted before it", "a run starts when the requests of the previous one have ended"],
  mustReach: ["o02.updated", "o02.failed", "o02.stale", "o02.foreign", "o02.truncated", "o02.again", "o02.fires", "o02.quiet", "o02.delay", "o02.buckets"],
  async setup() {
    return {
      wiring: await WIRINGS.osMonitors(),
      code: await bundle({ c: "other/opensearch-monitors/src/lambda/update-os-monitors.ts" }),
      b: await evalEsm(`export * from "REPO/other/opensearch-monitors/src/monitor/monitor-builder.ts";`, createRequire(import.meta.url)),
    };
  },
  scenarios: [
    {
      name: "update",
      gen(rng) {
        const spec = (n) => ({ n, domain: rng.int(0, 2), env: rng.int(0, 1), range: rng.pick([5, 10, 60]), minutes: rng.pick([0, 0, 7, 30]), delay: rng.pick([0, 0, 0, 3]), cron: rng.pick(["*/5 * * * *", "0 6 * * *"]), and: rng.sample(PHRASES, rng.int(0, 2)).map((p) => PHRASES.indexOf(p)), not: rng.sample(PHRASES, rng.pick([0, 0, 1, 2])).map((p) => PHRASES.indexOf(p)), kind: rng.pick(["default", "more", "more", "range", "always", "buckets"]), a: rng.int(0, 4), b: rng.int(0, 3), msg: rng.bool(), dests: rng.int(1, 3), throttle: rng.pick([15, 60]), index: rng.int(0, 1) });
        const base = rng.sample([0, 1, 2, 3, 4, 5], 4);
        const ops = [];
        for (let i = rng.int(1, 3); i > 0; i--) ops.push({ mons: rng.sample(base, rng.int(1, 4)).map(spec), foreign: rng.pick([0, 0, 1, 2]), shared: rng.int(0, PHRASES.length - 1), docs: Array.from({ length: rng.pick([0, 6, 30]) }, () => ({ at: rng.pick(["in", "in", "in", "early", "late"]), r: rng.int(0, 1000), level: rng.int(0, 2), line: rng.int(0, LINES.length - 1), env: rng.int(0, 1), app: rng.int(0, 2), method: rng.bool(0.3), message: rng.bool(0.2), index: rng.int(0, 1) })) });
        return { ops, cfg: {}, faults: rng.bool(0.25) ? {} : undefined };
      },
      faults: { "http.before": 0.06, "http.lost": 0.05, "http.5xx": 0.06, "http.429": 0.02, "http.truncated": 0.06, "sts.before": 0.03, "sts.lost": 0.03, "secrets.before": 0.03, "secrets.lost": 0.02, crash: 0.003, slow: 0.02, recycle: 0.3 },
      maxEvents: 100000,
      async run(world, plan, ctx) {
        const aws = new Aws(world), http = new Http(world), b = ctx.b;
        http.slowMs = 4000;
        aws.secrets.set("sec", JSON.stringify({ reportUrl: "https://slack.example/report", slackAlarmHook: "https://slack.example/alarm" }));
        let file = [], reports = [], alarms = [], seq = 0;
        const store = new Map();
        for (const [k, list] of [["report", () => reports], ["alarm", () => alarms]]) http.route(`slack-${k}`, `https://slack.example/${k}`, (req, inst) => { if (inst.state !== "dead") list().push(JSON.parse(req.body).text); return { status: 200, body: "ok" }; });
        const P = "/_plugins/_alerting/monitors";
        http.route("os", "https://os-vpc.example/", (req, inst) => {
          check(req.headers.host === "os.example", `request to host ${req.headers.host}`, "request");
          if (inst.state === "dead") return { status: 503, body: {} };
          const path = req.path.replace(/\/$/, "");
          const bytes = (o) => Buffer.from(JSON.stringify(o));
          if (req.method === "POST" && path === `${P}/_search`) {
            const hits = [...store].map(([id, m]) => ({ _index: ".opendistro-alerting-config", _id: id, _score: 1, _source: { ...m, enabled: m.enabled ?? true } }));
            return { status: 200, body: bytes({ took: 3, timed_out: false, _shards: { total: 1, successful: 1, skipped: 0, failed: 0 }, hits: { total: { value: hits.length, relation: "eq" }, hits: hits.slice(0, JSON.parse(req.body).size ?? 20) } }) };
          }
          if (req.method === "POST" && path === P) {
            const m = JSON.parse(req.body);
            const id = `m${++seq}`;
            store.set(id, m);
            return { status: 201, body: bytes({ _id: id, _version: 1, monitor: m }) };
          }
          if (req.method === "DELETE" && path.startsWith(`${P}/`)) {
            const id = path.slice(P.length + 1);
            const had = store.delete(id);
            return had ? { status: 200, body: bytes({ _index: ".opendistro-alerting-config", _id: id, result: "deleted", _shards: { total: 2, successful: 2, failed: 0 } }) } : { status: 404, body: bytes({ error: { type: "status_exception", reason: "not found" }, status: 404 }) };
          }
          check(false, `unexpected request ${req.method} ${req.path}`, "request");
        });
        const fsModule = () => ({ readFileSync: (name) => { check(/(^|\/)monitors\.json$/.test(String(name)), `file ${name} is read`, "file"); return Buffer.from(JSON.stringify(file)); } });
        const d = deploy(world, ctx.wiring, { aws, fns: { c: { re: /UpdateOSMonitors/i, code: ctx.code.c, svc: { aws, http, fetch: http.fetch, modules: { fs: fsModule } } } } });
        const query = (i) => {
          const [k, v] = PHRASES[i];
          return k === "exists" ? b.exists("method") : k === "or" ? b.or(b.matchPhrase("level", "ERROR"), b.matchPhrase("app", "afir")) : k === "multi" ? b.multiMatchPhrase(["log_line", "message"], v) : b.matchPhrase(k === "line" ? "log_line" : k, v);
        };
        const RUNBOOK = "https://wiki.example/search/SEARCH_TERM";
        /** Builds the monitors of an update; also says what they should do. */
        const build = (op) => {
          const phrases = [query(op.shared)]; // shared by the monitors, as applications do
          return op.mons.map((s) => {
            const dests = Array.from({ length: s.dests }, (_, i) => `dest${i}`);
            const mb = new b.OsMonitorBuilder(NAMES[s.n], { domain: DOMAINS[s.domain], env: ENVS[s.env], index: `logs-${s.index}`, cron: s.cron, rangeInMinutes: s.range, phrases, slackDestinations: dests, throttleMinutes: s.throttle, messageSubject: "default message", runbookSearchLink: RUNBOOK });
            for (const p of s.and) { const [k, v] = PHRASES[p]; if (k === "level") mb.level(v); else if (k === "line") mb.logLine(v); else if (k === "app") mb.app(v); else mb.and(query(p)); }
            if (s.not.length) mb.not(...s.not.map(query));
            if (s.minutes) mb.minutes(s.minutes);
            if (s.delay) mb.delay(s.delay);
            let kind = s.kind;
            if (s.msg) { mb.withMessage("own message", "https://link.example"); if (kind === "default") { kind = "more"; } }
            let fires;
            if (kind === "more") { mb.moreThan(s.a); fires = (ds) => ds.length > s.a; }
            else if (kind === "range") { mb.notInRange(s.a, s.a + s.b); fires = (ds) => ds.length < s.a || ds.length > s.a + s.b; }
            else if (kind === "always") { mb.always(); fires = () => true; }
            else if (kind === "buckets") {
              mb.aggregate(b.aggregateTerms("app", { name: "apps", bucketFilter: s.b ? { name: "f", bucketPaths: { count: "_count" }, script: `params.count > ${s.b}` } : undefined }));
              const t = s.a % 2;
              mb.aggregationBucketsMoreThan("apps", t);
              fires = (ds) => APPS.filter((a) => ds.filter((x) => x.app === a).length > s.b).length > t;
            } else fires = (ds) => ds.length > 0;
            const range = s.minutes || s.range;
            const wanted = [...op.mons[0] ? [op.shared] : [], ...s.and].map((p) => MEANS[PHRASES[p][0]](PHRASES[p][1]));
            const not = s.not.map((p) => MEANS[PHRASES[p][0]](PHRASES[p][1]));
            const counts = (x, now) => x.index === `logs-${s.index}` && x.env === ENVS[s.env] && x["@timestamp"] >= now - range * MIN && (!s.delay || x["@timestamp"] <= now - s.delay * MIN) && wanted.every((f) => f(x)) && !not.some((f) => f(x));
            const name = `${DOMAINS[s.domain].toUpperCase()} ${ENVS[s.env].toUpperCase()} ${NAMES[s.n]}`;
            return { s, kind, name, dests, fires, counts, range, mon: mb.build(), text: s.msg ? "own message" : "default message" };
          });
        };
        /** The monitor that the alerting plugin should have of a configured one. */
        const storedAs = (m) => {
          check(m.type === "monitor" && (m.monitor_type ?? "query_level_monitor") === "query_level_monitor" && m.enabled !== false, `monitor stored as ${JSON.stringify(m).slice(0, 200)}`, "content");
          check(m.schedule?.cron?.timezone === "UTC", `${m.name} has schedule ${JSON.stringify(m.schedule)}`, "content");
          const { aggs, track_total_hits, ...query } = m.inputs[0].search.query;
          check(track_total_hits === true, `${m.name} does not count all hits`, "content");
          return { name: m.name, cron: m.schedule.cron.expression, indices: m.inputs[0].search.indices, query, aggregations: aggs, triggers: m.triggers.map((t) => t.query_level_trigger).map((t) => ({ name: t.name, condition: t.condition.script.source, actions: t.actions.map((a) => { check(a.throttle_enabled === true && a.throttle.unit === "MINUTES", `${m.name} is not throttled`, "content"); return { destination: a.destination_id, subject: a.subject_template.source, message: a.message_template.source, throttleMinutes: a.throttle.value }; }) })) };
        };
        const configured = (o) => JSON.parse(JSON.stringify({ ...o, triggers: o.triggers.map((t) => ({ ...fields(t), actions: t.actions.map((a) => ({ destination: a.destination, subject: a.subject || " ", message: a.message || " ", throttleMinutes: a.throttleMinutes })) })) }));
        const byName = (x, y) => (x.name < y.name ? -1 : 1);
        let fin = false;
        (async () => {
        for (const op of plan.ops) {
          const built = build(op);
          file = built.map((x) => x.mon);
          for (let i = 0; i < op.foreign; i++) { store.set(`f${++seq}`, { ...JSON.parse(JSON.stringify({ name: i ? built[0].name : "made by hand", type: "monitor" })) }); world.probe("o02.foreign"); }
          for (let attempt = 0; ; attempt++) {
            if (attempt) { await world.sleep(MIN); world.probe("o02.again"); }
            if (attempt === 3) world.faultsEnabled = false;
            reports = []; alarms = [];
            const mark = world.firedFaults.length;
            const before = new Set(store.keys());
            const r = await d.fns.c.invoke({});
            const fired = world.firedFaults.slice(mark).filter((f) => f.kind !== "recycle" && f.kind !== "slow");
            world.record("run", { s: r.status, n: store.size });
            if (fired.some((f) => f.kind === "http.truncated")) world.probe("o02.truncated");
            if ([...store.keys()].some((k) => before.has(k))) world.probe("o02.stale");
            check(r.status !== "timeout", "the update did not end in time", "hang");
            if (r.status === "ok" || reports.length) {
              check(same([...store.values()].map((m) => { check(m.triggers, `${m.name} was left although the update succeeded`, "stale"); return storedAs(m); }).sort(byName), file.map(configured).sort(byName)), `the update succeeded with ${JSON.stringify([...store.values()].map((m) => m.name))} for ${JSON.stringify(file.map((m) => m.name))}, or with other contents`, "content");
            }
            if (r.status === "ok") {
              world.probe("o02.updated");
              check(alarms.length === 0, `alarm although the update succeeded: ${alarms[0]}`, "report");
              if (!fired.some((f) => /slack/.test(f.site))) check(reports.length > 0, "the update succeeded and was not reported", "report");
              break;
            }
            check(fired.length > 0, `the update failed although nothing failed: ${r.error?.message ?? r.status}`, "failed");
            world.probe("o02.failed");
            if (r.status === "error" && !fired.some((f) => /slack|secret/i.test(f.site))) check(alarms.some((a) => typeof a === "string" && a.length > 0), "a failed update raised no alarm", "report");
          }
          // the stored monitors on a log
          const now = Math.floor(world.now);
          for (const x of built) {
            const lo = now - x.range * MIN, hi = x.s.delay ? now - x.s.delay * MIN : now;
            if (x.s.delay) world.probe("o02.delay");
            const docs = op.docs.map((q) => ({ index: `logs-${q.index}`, env: ENVS[q.env], level: LEVELS[q.level], log_line: LINES[q.line], app: APPS[q.app], ...(q.method && { method: "m" }), ...(q.message && { message: "refused" }), "@timestamp": q.at === "in" ? lo + 1000 + Math.floor(((hi - lo - 2000) * q.r) / 1000) : q.at === "early" ? lo - 1000 - q.r * 1000 : x.s.delay ? hi + 1000 + Math.floor(((now - hi - 1000) * q.r) / 1000) : lo - 5000 }));
            const m = [...store.values()].find((y) => y.name === x.name);
            check(m, `no monitor ${x.name}`, "content");
            const ds = docs.filter((y) => x.counts(y, now));
            const want = x.fires(ds);
            const got = evaluate(m, docs, now);
            if (x.kind === "buckets") world.probe("o02.buckets");
            world.probe(want ? "o02.fires" : "o02.quiet");
            check(got.length > 0 === want, `${x.name} (${x.kind} ${x.s.a} ${x.s.b}, ${x.range} min${x.s.delay ? ` until ${x.s.delay} min ago` : ""}) ${got.length ? "raises an alarm" : "is quiet"} with ${ds.length} matching lines of ${docs.length}`, "alarm");
            for (const t of got) {
              check(same(t.actions.map((a) => a.destination_id).sort(), x.dests), `${x.name} alarms ${JSON.stringify(t.actions.map((a) => a.destination_id))}`, "alarm");
              for (const a of t.actions) {
                const plain = a.subject_template.source.replace(/<[^|>]*\|([^>]*)>/g, "$1");
                check(plain.includes(x.name) && a.throttle.value === x.s.throttle && a.message_template.source.includes(x.text), `${x.name} says "${a.subject_template.source}: ${a.message_template.source}" every ${a.throttle.value} min`, "alarm");
                for (const [, url, term] of a.subject_template.source.matchAll(/<([^|>]*)\|([^>]*)>/g)) check(url === RUNBOOK.replace("SEARCH_TERM", encodeURIComponent(term)), `runbook link ${url} of ${term}`, "alarm");
              }
            }
          }
          await world.sleep(MIN);
        }
        fin = true;
        })().catch((e) => world.fail(e));
        await world.run({ until: () => fin, deadline: world.now + 86400000 });
        check(fin, "the updates did not finish", "stuck");
      },
    },
  ],
};
