// O01: every key figure of a month is stored exactly once, and is what the access log of that month says.
import { bundle } from "../runtime.mjs";
import { WIRINGS } from "../apps.mjs";
import { deploy } from "../lambda.mjs";
import { check } from "../check.mjs";
import { Aws, Http } from "../services.mjs";
import { AccessLog, KeyDb } from "../harness/keyfigures.mjs";

const MIN = 60000, HOUR = 3600000, DAY = 86400000;
const SERVICES = ["rail", "road", "marine", "afir"];
const SITES = { rail: "rata", road: "tie", marine: "meri", afir: "afir" };
const CUSTOM = { rail: ["/api/v2/graphql/", "/infra-api/", "/jeti-api/", "/history/", "/vuosisuunnitelmat/", "/schedules/", "/mqtt/"], road: ["/*.JPG/", "/mqtt/"], marine: ["/mqtt/"], afir: ["/mqtt/"] };
/** Paths of the OpenAPI descriptions. */
const PATHS = ["/api/v1/things", "/api/v1/things/{id}", "/api/v1/other-things/{id}/parts", "/api/weather/v2/stations", "/api/weather/v2/stations/{id}/data", "/api/weather/v2/stations/summary/{id}", "/blocks/{x}", "/files/v1/list"];
const endpointsOf = (svc, paths) => [...new Set([...paths.map((p) => { const e = p.split("{")[0]; return e.endsWith("/") ? e : `${e}/`; }), ...CUSTOM[svc]])];
const USERS = [undefined, "acme", "acme'", '"acme"', "Junamies/FoobarApp 1.0", "constructor", "__proto__", "u\\1", "zz", "Öljysäiliö 🚢"];
const METRICS = ["Http req", "Http req 200", "Bytes out", "Unique IPs", "Top 10 Referers", "Top 10 digitraffic-users", "Top 10 User Agents", "Top 10 IPs", "Top digitraffic-users by bytes"];
const month = (t, n) => { const d = new Date(Math.floor(t)); return Date.UTC(d.getUTCFullYear(), d.getUTCMonth() + n, 1); };
const day = (t) => new Date(t).toISOString().slice(0, 10);
const clean = (k) => k.replace(/["'\\]/g, "");
/** The figure a metric has on the requests. */
function figure(name, docs) {
  const top = (f, n, missing, val = () => 1) => {
    const m = new Map();
    for (const d of docs) { const k = f(d) ?? missing; if (k !== undefined) m.set(k, (m.get(k) ?? 0) + val(d)); }
    return [...m].sort((a, b) => b[1] - a[1] || (a[0] < b[0] ? -1 : 1)).slice(0, n);
  };
  switch (name) {
    case "Http req": return docs.length;
    case "Http req 200": return docs.filter((d) => d.status === 200).length;
    case "Bytes out": return docs.reduce((s, d) => s + d.bytes, 0);
    case "Unique IPs": return new Set(docs.map((d) => d.ip)).size;
    case "Top 10 Referers": return top((d) => d.referer, 10, "__missing__");
    case "Top 10 digitraffic-users": return top((d) => d.user, 100, "__missing__");
    case "Top 10 User Agents": return top((d) => d.agent, 10, "__missing__");
    case "Top 10 IPs": return top((d) => d.ip, 10);
    case "Top digitraffic-users by bytes": return top((d) => d.user, 100, "__missing__", (d) => d.bytes);
  }
}
/** Values that differ only in quotes are one value. */
function canon(v) {
  if (typeof v === "number") return String(v);
  const m = new Map();
  for (const [k, n] of Array.isArray(v) ? v : Object.entries(v)) m.set(clean(k), (m.get(clean(k)) ?? 0) + n);
  return JSON.stringify([...m].sort((a, b) => (a[0] < b[0] ? -1 : 1)));
}

export default {
  id: "O01",
  quickSec: 15,
  thoroughSec: 240,
  real: ["collect-os-key-figures handler: endpoint discovery (ky, zod), metric queries, retries, OpenSearch client, MySQL store", "synthesised monthly rules with their inputs, timeout"],
  stubs: ["MySQL behind the mysql driver (sessions, autocommit, DDL)", "OpenSearch behind NodeHttpHandler, evaluating the queries on an access log", "OpenAPI descriptions behind fetch", "STS, request signing", "Lambda with its retries of asynchronous invocations, schedule"],
  assumptions: ["the access log of a month does not change after the month", "endpoints are recognised by their path; paths that contain another endpoint's path in the middle are not generated", "a response that lacks shards says so (_shards.failed or timed_out)"],
  mustReach: ["o01.stored", "o01.rerun", "o01.boundary", "o01.quotes", "o01.partial", "o01.truncated", "o01.dbfault", "o01.missing", "o01.crash", "o01.nested", "o01.group2", "o01.month2", "o01.crowd"],
  async setup() {
    return { wiring: await WIRINGS.osKeyFigures(), code: await bundle({ c: "other/os-key-figures/src/lambda/collect-os-key-figures.ts" }) };
  },
  scenarios: [
    {
      name: "collect",
      gen(rng, tier) {
        const doc = () => ({ svc: rng.int(0, 4), ep: rng.int(0, 30), more: rng.bool(), at: rng.pick(["in", "in", "in", "in", "from", "to", "last", "before"]), r: rng.int(0, 27 * DAY), status: rng.pick([200, 200, 304, 404, 500]), bytes: rng.int(0, 5000), ip: rng.int(0, 13), referer: rng.pick([0, 0, 1, 2, 3]), user: rng.int(0, USERS.length - 1), agent: rng.int(0, 12), x: rng.pick(["", "", "", "", "", "skip", "host", "line"]) });
        const ops = [];
        for (let i = rng.pick([1, 1, 2, tier === "thorough" ? 4 : 2]); i > 0; i--) ops.push({ docs: Array.from({ length: rng.pick([0, 5, 40]) }, doc), crowd: rng.bool(0.1) ? rng.pick([9, 12, 99, 130]) : undefined, apis: SERVICES.map(() => PATHS.filter(() => rng.bool(0.3))), only: rng.bool(0.5) ? rng.sample([0, 1, 2, 3, 4, 5], rng.int(1, 3)) : undefined, again: Array.from({ length: rng.pick([0, 0, 1, 2]) }, () => rng.int(0, 5)) });
        return { ops, cfg: {}, faults: rng.bool(0.25) ? {} : undefined };
      },
      faults: { "http.before": 0.02, "http.lost": 0.02, "http.5xx": 0.03, "http.429": 0.006, "http.truncated": 0.02, "os.partial": 0.02, "db.connect.before": 0.02, "db.before": 0.002, "db.lost": 0.002, "db.error": 0.005, "sts.before": 0.02, "sts.lost": 0.02, crash: 0.0006, slow: 0.003, recycle: 0.1 },
      maxEvents: 200000,
      async run(world, plan, ctx) {
        const my = new KeyDb(world), aws = new Aws(world), http = new Http(world), log = new AccessLog();
        http.slowMs = 5000;
        let apis = SERVICES.map(() => []);
        for (const [i, svc] of SERVICES.entries()) http.route(`openapi-${svc}`, `https://${SITES[svc]}.digitraffic.fi/swagger/openapi.json`, () => ({ status: 200, body: { openapi: "3.0.1", info: { title: svc, version: "1" }, paths: Object.fromEntries(apis[i].map((p) => [p, { get: { responses: {} } }])) } }));
        http.route("os", "https://os-vpc.example/", (req, inst) => {
          const m = /^\/([\w,]+)\/(_count|_search)$/.exec(req.path);
          check(m && req.method === "POST" && req.headers.host === "os.example", `unexpected request ${req.method} ${req.url} (${req.headers.host})`, "request");
          const r = { ...log.search(m[1], m[2], JSON.parse(req.body)), timed_out: false, _shards: { total: 5, successful: 5, skipped: 0, failed: 0 } };
          if (m[2] === "_count") delete r.timed_out;
          if (world.fault(inst.site, "os.partial")) {
            world.probe("o01.partial");
            const half = new AccessLog();
            half.docs = log.docs.filter((_, i) => i % 2);
            const h = half.search(m[1], m[2], JSON.parse(req.body));
            return { status: 200, body: { ...r, ...h, _shards: { total: 5, successful: 2, skipped: 0, failed: 3 } } };
          }
          return { status: 200, body: r };
        });
        const d = deploy(world, ctx.wiring, { aws, fns: { c: { re: /collect/i, code: ctx.code.c, svc: { mysql: my, aws, http, fetch: http.fetch } } } });
        const rules = ctx.wiring.rules.filter((r) => r.targets.some((t) => /collect/i.test(t))).map((r) => {
          const m = /^cron\((\d+) (\d+) (\d+) \* \? \*\)$/.exec(r.schedule);
          check(m, `the rule ${r.id} is not monthly: ${r.schedule}`, "schedule");
          return { id: r.id, at: ((Number(m[3]) - 1) * 24 + Number(m[2])) * HOUR + Number(m[1]) * MIN, input: r.inputs?.[0] ?? {} };
        }).sort((a, b) => a.at - b.at);
        for (const t of ["*", ...SERVICES]) {
          const rs = rules.filter((r) => r.input.TRANSPORT_TYPE === t);
          const whole = rs.filter((r) => r.input.ENDPOINT_GROUP === undefined || !(r.input.TOTAL_GROUPS > 1)).length;
          const groups = new Set(rs.map((r) => r.input.ENDPOINT_GROUP));
          check(whole || (rs.length && rs.every((r) => r.input.TOTAL_GROUPS === rs.length && groups.has(rs.indexOf(r) + 1))), `the rules do not collect all of ${t}: ${JSON.stringify(rs.map((r) => r.input))}`, "schedule");
        }
        const rows = () => (my.db.tables.has("key_figures") ? my.db.execStmt(my.db.parse("select * from key_figures")[0], my.db.begin(), {}).rows : []);
        /** What the log says, by from|filter|name. */
        const expected = new Map();
        const expect = (from, to) => {
          const counts = (svc) => (dd) => dd.ts >= from && dd.ts < to && !dd.skip && !/\.integration\.digitraffic\.fi$/.test(dd.host) && dd.line === undefined && (svc === "*" ? SERVICES.some((s) => dd.account === `acc-${s}`) : dd.account === `acc-${svc}` && dd.index === (svc === "afir" ? "afir" : "access"));
          const put = (filter, docs) => { for (const m of METRICS) expected.set(`${day(from)}|${filter}|${m}`, canon(figure(m, docs))); };
          put("@transport_type:*", log.docs.filter(counts("*")));
          for (const [i, svc] of SERVICES.entries()) {
            const docs = log.docs.filter(counts(svc));
            put(`@transport_type:${svc}`, docs);
            for (const e of endpointsOf(svc, apis[i])) put(`@transport_type:${svc} AND @fields.request_uri:"${e}"`, docs.filter((dd) => `${dd.request}/`.startsWith(e)));
          }
        };
        const stored = new Map();
        my.onDrop = (t) => { try { check(t !== "key_figures", "the table of key figures was dropped", "dropped"); } catch (e) { world.fail(e); } };
        my.db.commitHooks.push((_tx, changes) => {
          try {
            for (const c of changes) {
              if (c.table.name !== "key_figures") continue;
              check(c.op === "ins", "a stored key figure was changed or deleted", "changed");
              const v = c.row.vals;
              const key = `${v.from}|${v.filter}|${v.name}`;
              check(!stored.has(key), `${key} was stored again`, "twice");
              check(expected.has(key), `${key} was stored, which nobody asked for`, "unknown");
              check(v.to === day(month(Date.parse(v.from), 1)), `${key} was stored until ${v.to}`, "period");
              const got = canon(JSON.parse(v.value));
              check(got === expected.get(key), `${key} was stored as ${got}, the log says ${expected.get(key)}`, "value");
              stored.set(key, got);
              world.probe("o01.stored");
            }
          } catch (e) { world.fail(e); }
        });
        const keysOf = (from, input) => [...expected.keys()].filter((k) => k.startsWith(`${day(from)}|@transport_type:${input.TRANSPORT_TYPE}`));
        let fin = false;
        const once = async (rule) => {
          const mark = world.firedFaults.length;
          const r = await d.fns.c.invoke(rule.input);
          const fired = world.firedFaults.slice(mark).filter((f) => f.kind !== "recycle" && f.kind !== "slow");
          world.record("run", { rule: rule.id, s: r.status, n: stored.size });
          check(r.status !== "timeout", `collecting ${JSON.stringify(rule.input)} did not end in time`, "hang");
          if (r.status === "crash") world.probe("o01.crash");
          if (fired.some((f) => /^db/.test(f.kind))) world.probe("o01.dbfault");
          if (fired.some((f) => f.kind === "http.truncated" && /:http\.os/.test(f.site))) world.probe("o01.truncated");
          if (!fired.length) check(r.status === "ok", `collecting failed although nothing failed: ${r.error?.message ?? r.status}`, "failed");
          return { r, fired };
        };
        const fire = async (rule) => {
          let x;
          for (let a = 0; a < 3; a++) {
            if (a) { await world.sleep(a * MIN); world.probe("o01.retry"); }
            x = await once(rule);
            if (x.r.status === "ok") break;
          }
          return x;
        };
        (async () => {
          for (const [oi, o] of plan.ops.entries()) {
            const from = month(world.now, 0), to = month(world.now, 1);
            if (oi) world.probe("o01.month2");
            apis = o.apis.map((a) => [...a]);
            for (const x of o.docs) {
              const svc = SERVICES[x.svc] ?? "unknown";
              const eps = svc === "unknown" ? ["/x/"] : endpointsOf(svc, apis[x.svc]).filter((e) => !e.includes("*"));
              const e = eps[x.ep % eps.length];
              if (eps.some((y) => y !== e && e.startsWith(y))) world.probe("o01.nested");
              const ts = { in: from + 12 * HOUR + x.r, from, to, last: to - 1, before: from - 1 }[x.at];
              if (x.at !== "in" && svc !== "unknown") world.probe("o01.boundary");
              if (/["'\\]/.test(USERS[x.user] ?? "")) world.probe("o01.quotes");
              log.docs.push({ index: svc === "afir" ? "afir" : "access", ts: x.at === "before" && !oi ? ts : x.at === "before" ? from : ts, account: `acc-${svc}`, request: `${e}${x.more ? "abc" : ""}`.replace(/\/$/, x.r % 2 ? "/" : ""), status: x.status, bytes: x.bytes, ip: `10.0.0.${x.ip}`, referer: [undefined, "https://a.example/", "https://b.example/?q='x'", "https://b.example/?q=x"][x.referer], user: USERS[x.user], agent: `agent ${x.agent}`, host: x.x === "host" ? "x.integration.digitraffic.fi" : "tie.digitraffic.fi", skip: x.x === "skip" ? true : undefined, line: x.x === "line" ? "raw" : undefined });
            }
            if (o.crowd) {
              // more users, referers and agents than a list of the most frequent ones holds
              world.probe("o01.crowd");
              for (let k = 0; k < o.crowd; k++) for (let n = 0; n <= k % 3; n++) { const svc = SERVICES[k % 4]; log.docs.push({ index: svc === "afir" ? "afir" : "access", ts: from + DAY + k, account: `acc-${svc}`, request: "/mqtt", status: 200, bytes: 10 + k * 7, ip: `10.1.0.${k}`, referer: `https://r.example/${k}`, user: `crowd${k}`, agent: `crowd agent ${k}`, host: "tie.digitraffic.fi" }); }
            }
            await world.sleep(to - world.now);
            expect(from, to);
            const todo = rules.filter((_, i) => !o.only || o.only.includes(i));
            for (const rule of todo) {
              if (to + rule.at > world.now) await world.sleep(to + rule.at - world.now);
              const before = stored.size;
              const { r, fired } = await fire(rule);
              if (rule.input.ENDPOINT_GROUP > 1) world.probe("o01.group2");
              if (r.status === "ok" && !fired.some((f) => /^db/.test(f.kind))) {
                const os = fired.filter((f) => /^(http|os)\./.test(f.kind)).length;
                if (!(rule.input.TOTAL_GROUPS > 1)) {
                  const missing = keysOf(from, rule.input).filter((k) => !stored.has(k));
                  if (missing.length) world.probe("o01.missing");
                  check(missing.length * 3 <= os, `${missing.length} figures such as ${missing[0]} were not stored although only ${os} requests failed`, "missing");
                } else if (!os && !fired.length) check(stored.size > before || !keysOf(from, rule.input).some((k) => !stored.has(k)), "a group stored nothing", "group");
              }
            }
            for (const a of o.again) { const rule = todo[a % todo.length]; await world.sleep(HOUR); world.probe("o01.rerun"); await fire(rule); }
            // a run by hand after the faults completes what is missing
            world.faultsEnabled = false;
            await world.sleep(HOUR);
            for (const rule of todo) await once(rule);
            const groups = new Map();
            for (const rule of todo) { const t = rule.input.TRANSPORT_TYPE; groups.set(t, (groups.get(t) ?? 0) + 1); }
            for (const [t, n] of groups) {
              if (n < rules.filter((x) => x.input.TRANSPORT_TYPE === t).length) continue;
              const missing = keysOf(from, { TRANSPORT_TYPE: t }).filter((k) => !stored.has(k));
              check(!missing.length, `${missing.length} figures of ${t} such as ${missing[0]} are missing`, "missing");
            }
            check(rows().length === stored.size, "key figures have been lost", "lost");
            world.faultsEnabled = true;
          }
          fin = true;
        })().catch((e) => world.fail(e));
        await world.run({ until: () => fin, deadline: world.now + 400 * DAY });
        check(fin, "runs did not finish", "stuck");
      },
    },
  ],
};
