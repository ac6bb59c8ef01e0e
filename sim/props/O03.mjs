// O03: the statistics pages show every stored key figure, whatever the names in it.
import vm from "node:vm";
import { bundle } from "../runtime.mjs";
import { WIRINGS } from "../apps.mjs";
import { deploy } from "../lambda.mjs";
import { check, Violation } from "../check.mjs";
import { Aws } from "../services.mjs";
import { KeyDb } from "../harness/keyfigures.mjs";
import { Json } from "../sql/values.mjs";

const MIN = 60000, HOUR = 3600000, DAY = 86400000;
const SERVICES = ["rail", "road", "marine", "afir"];
const TOTALS = ["@transport_type:*", ...SERVICES.map((s) => `@transport_type:${s}`)];
const PATHS = ["/api/v1/things/", "/api/weather/v2/stations/", "/api/v1/things/a/", "/*.JPG/", "/mqtt/", "/api/v2/graphql/", "/files/v1/list/"];
/** Names that clients give of themselves, as they are stored (without quotes and backslashes). */
const NAMES = ["acme", "Junamies/FoobarApp 1.0", "__missing__", "constructor", "__proto__", "toString", "Öljysäiliö 🚢", "</script><b>x", "x<!--<script>", "a${1}b", "</SCRIPT >", "<script>pwned()</script>", "10.0.0.1", "17", "hasOwnProperty", "a\u2028b", "", " x ", "a&amp;b", "`x`", "// x", "/* x"];
const TOPS = { top10digitrafficUsers: "Top 10 digitraffic-users", top10IPs: "Top 10 IPs", top10userAgents: "Top 10 User Agents", top10referers: "Top 10 Referers" };
const SINGLES = { requests: ["Http req", "Requests"], bytesOut: ["Bytes out", "Bytes out"], uniqueIPs: ["Unique IPs", "Unique IPs"] };
const TITLES = { requests: "Requests", bytesOut: "Bytes out", uniqueIPs: "Unique IPs", top10digitrafficUsers: "Top 10 Digitraffic-Users", top10IPs: "Top 10 IPs", top10userAgents: "Top 10 User agents", top10referers: "Top 10 Referers", roadEndpoints: "Road Requests", railEndpoints: "Rail Requests", marineEndpoints: "Marine Requests", afirEndpoints: "AFIR Requests" };
const month = (t, n) => { const d = new Date(Math.floor(t)); return Date.UTC(d.getUTCFullYear(), d.getUTCMonth() + n, 1); };
const file = (filter) => `${Buffer.from(filter).toString("base64")}.html`;
const friendly = (filter) => /request_uri:"(.*)"/.exec(filter)?.[1] ?? filter;

class VisuDb extends KeyDb {
  // the driver returns JSON columns as text
  out(v) { return v instanceof Json ? JSON.stringify(v.v) : super.out(v); }
}

/** Scripts of a page as a browser finds them, and the rest of the page. */
function split(html) {
  const scripts = [];
  let rest = "", at = 0;
  for (;;) {
    const open = /<script\b([^>]*)>/i.exec(html.slice(at));
    if (!open) return { scripts, rest: rest + html.slice(at) };
    rest += html.slice(at, at + open.index);
    const from = at + open.index + open[0].length;
    // inside "<!-- <script" an end tag ends the inner script only
    let end = from, double = false, escaped = false;
    for (;;) {
      const m = /<!--|-->|<script[\s/>]|<\/script[\s/>]/i.exec(html.slice(end));
      if (!m) return { scripts, rest, open: true };
      end += m.index;
      const t = m[0].toLowerCase();
      if (t === "<!--") escaped = true;
      else if (t === "-->") escaped = double = false;
      else if (t.startsWith("<script")) { if (escaped) double = true; }
      else if (double) double = false;
      else break;
      end += m[0].length;
    }
    if (!/\bsrc=/i.test(open[1])) scripts.push(html.slice(from, end));
    at = end + html.slice(end).indexOf(">") + 1;
  }
}

/** Runs the scripts of a page and returns what its charts show. */
function render(html) {
  const { scripts, rest, open } = split(html);
  if (open) return { error: "a script of the page does not end" };
  const charts = {}, titles = {};
  const chain = () => new Proxy(function () {}, { get: (t, k) => (k === Symbol.toPrimitive ? () => "x" : chain()), apply: () => chain(), set: () => true });
  const selection = (sel) => {
    const id = /#(\w+)/.exec(sel)?.[1];
    return new Proxy({}, { get: (_t, k) => (k === "datum" ? (d) => { charts[id] = d; return selection(sel); } : () => selection(sel)) });
  };
  const element = (id) => ({ style: {}, classList: { add() {} }, prepend(...els) { this.append(...els); }, append(...els) { for (const e of els) titles[id] = e.innerText ?? e.textContent ?? String(e); }, appendChild(e) { this.append(e); }, insertBefore(e) { this.append(e); } });
  const ready = [];
  const document = { createElement: () => element(), getElementById: (id) => element(id), querySelector: (s) => element(/#(\w+)/.exec(s)?.[1]), addEventListener: (_e, f) => ready.push(f) };
  const window = { addEventListener: (_e, f) => ready.push(f) };
  const g = { window, document, nv: { addGraph: (f) => f(), models: chain(), utils: chain() }, d3: new Proxy(chain(), { get: (_t, k) => (k === "select" ? selection : chain()) }), console: { log() {} } };
  try {
    const c = vm.createContext(g);
    for (const s of scripts) vm.runInContext(s, c, { timeout: 5000 });
    for (const f of [...ready, window.onload].filter(Boolean)) f();
    // what the page holds, as plain data of this realm
    return { charts: Object.fromEntries(Object.entries(charts).map(([k, v]) => [k, JSON.parse(JSON.stringify([v].flat(Number.POSITIVE_INFINITY).map((s) => ({ key: String(s.key), values: s.values.map(([x, y]) => [Number(new Date(x)), Number(y)]) }))))])), titles, rest };
  } catch (e) {
    return { error: `the page's script fails: ${e?.message}` };
  }
}
/** Series in a fixed order; the points of each keep theirs. */
const canon = (series) => JSON.stringify(series.filter((s) => s.values.length).sort((a, b) => (a.key < b.key ? -1 : a.key > b.key ? 1 : 0)));

export default {
  id: "O03",
  quickSec: 15,
  thoroughSec: 240,
  real: ["create-visualizations handler: queries, pages, uploads", "synthesised rule, timeout, environment"],
  stubs: ["MySQL behind the mysql driver", "S3 behind the AWS SDK", "browser: script extraction as HTML parsing has it, scripts run in a vm context with stand-ins for d3, nv and the document", "Lambda with its retries of asynchronous invocations, schedule"],
  assumptions: ["names are stored without quotes and backslashes (O01)", "endpoints have no quotes, angle brackets or backslashes in their paths", "order of series in a chart is open; a filter without a request count may show anything as its count"],
  mustReach: ["o03.page", "o03.index", "o03.hard-name", "o03.no-requests", "o03.month2", "o03.retry", "o03.dbfault", "o03.s3fault", "o03.over50k", "o03.warm-after-failure", "o03.crash"],
  async setup() {
    return { wiring: await WIRINGS.osKeyFigures(), code: await bundle({ v: "other/os-key-figures/src/lambda/create-visualizations.ts" }) };
  },
  scenarios: [
    {
      name: "pages",
      gen(rng, tier) {
        const ops = [];
        for (let i = rng.pick([1, 2, 2, tier === "thorough" ? 5 : 3]); i > 0; i--) ops.push({
          eps: Array.from({ length: rng.int(0, 4) }, () => ({ svc: rng.int(0, 3), path: rng.int(0, PATHS.length - 1), gone: rng.bool(0.15) ? rng.pick(["Http req", "Top 10 IPs", "Bytes out"]) : undefined, n: rng.pick([0, 7, 49999, 50000, 50001, 1234567, 9]) })),
          totals: TOTALS.map(() => rng.bool(0.8)), names: rng.sample(NAMES.map((_, k) => k), rng.int(0, 4)), n: rng.int(1, 3000000),
        });
        return { ops, cfg: { first: rng.bool(0.2) }, faults: rng.bool(0.3) ? {} : undefined };
      },
      faults: { "db.connect.before": 0.04, "db.before": 0.006, "db.lost": 0.006, "db.error": 0.006, "s3.before": 0.02, "s3.lost": 0.02, crash: 0.001, slow: 0.004, recycle: 0.1 },
      maxEvents: 200000,
      async run(world, plan, ctx) {
        const my = new VisuDb(world), aws = new Aws(world);
        my.db.table("key_figures", "id bigserial primary key, from timestamptz not null, to timestamptz not null, name text not null, filter text not null, query text not null, value jsonb not null");
        const rows = [];
        const put = (from, filter, name, value) => {
          if (rows.some((r) => r.from === from && r.filter === filter && r.name === name)) return;
          rows.push({ from, filter, name, value });
          my.db.seed("key_figures", [{ from: new Date(from), to: new Date(month(from, 1)), name, filter, query: "q", value }]);
        };
        const d = deploy(world, ctx.wiring, { aws, fns: { v: { re: /visuali[sz]ation/i, code: ctx.code.v, svc: { mysql: my, aws } } } });
        const rules = ctx.wiring.rules.filter((r) => r.targets.some((t) => /visuali[sz]ation/i.test(t)));
        check(rules.length, "nothing runs the update of the pages", "schedule");
        const m = /^cron\((\d+) (\d+) (\S+) \* \? \*\)$/.exec(rules[0].schedule);
        check(m && Number(m[3]) >= 1 && Number(m[3]) <= 28, `the pages are not updated monthly: ${rules[0].schedule}`, "schedule");
        const ruleAt = ((Number(m[3]) - 1) * 24 + Number(m[2])) * HOUR + Number(m[1]) * MIN;
        const singles = (filter, name, key) => [{ key, values: rows.filter((r) => r.filter === filter && r.name === name).sort((a, b) => a.from - b.from).map((r) => [r.from, r.value]) }];
        const tops = (filter, name) => {
          const s = new Map();
          for (const r of rows.filter((x) => x.filter === filter && x.name === name).sort((a, b) => a.from - b.from)) for (const [k, v] of Object.entries(r.value)) s.set(k, [...(s.get(k) ?? []), [r.from, v]]);
          return [...s].map(([key, values]) => ({ key, values }));
        };
        const compare = (page, id, got, want, title) => {
          const has = canon(got.charts[id] ?? []), should = canon(want);
          if (has !== should) throw new Violation(`chart ${id} of ${page} shows ${has.slice(0, 300)}, stored is ${should.slice(0, 300)}`, "chart");
          check(got.charts[id] !== undefined, `${page} has no chart ${id}`, "chart");
          check(new RegExp(`id=["']?${id}\\b`).test(got.rest), `${page} has no place for chart ${id}`, "chart");
          check((got.titles[id] ?? "").toLowerCase().startsWith(TITLES[id].toLowerCase()) && got.titles[id].includes(title), `chart ${id} of ${page} is titled ${got.titles[id]}`, "title");
        };
        const checkPage = (key, html) => {
          const got = render(html);
          if (key === "index.html") {
            check(!got.error, `index: ${got.error}`, "broken");
            for (const [id, [name]] of Object.entries(SINGLES)) compare("index", id, got, TOTALS.flatMap((f) => singles(f, name, f)), "");
            for (const s of SERVICES) {
              const filters = [...new Set(rows.map((r) => r.filter))].filter((f) => f.startsWith(`@transport_type:${s} AND `));
              const want = filters.map((f) => ({ key: friendly(f), values: singles(f, "Http req", "")[0].values.filter(([, n]) => n > 50000) })).filter((x) => x.values.length);
              if (want.length) world.probe("o03.over50k");
              compare("index", `${s}Endpoints`, got, want, "");
              // table of links
              const part = got.rest.slice(got.rest.indexOf(`class="${s}-links"`));
              const table = part.slice(0, part.indexOf("</table>"));
              const links = [...table.matchAll(/<a href="([^"]*)">([^<]*)<\/a><\/td><td>([^<]*)<\/td>/g)].map((x) => ({ href: x[1], label: x[2], n: x[3] }));
              const mine = [...new Set(rows.map((r) => r.filter))].filter((f) => f.startsWith(`@transport_type:${s}`));
              const missing = mine.filter((f) => !links.some((l) => l.href === file(f)));
              check(!missing.length, `the index has no link to ${missing[0]}`, "links");
              check(links.length === mine.length, `the index has ${links.length} links for ${mine.length} filters of ${s}`, "links");
              let last = Number.POSITIVE_INFINITY;
              for (const l of links) {
                const f = mine.find((x) => file(x) === l.href);
                check(l.label === friendly(f), `the link to ${f} is labelled ${l.label}`, "links");
                const vs = singles(f, "Http req", "")[0].values;
                if (!vs.length) { world.probe("o03.no-requests"); continue; }
                const want = vs.at(-1)[1];
                check(l.n.replace(/\D/g, "") === String(want), `${f} is said to have ${l.n} requests instead of ${want}`, "count");
                check(want <= last, `${f} with ${want} requests follows one with ${last}`, "order");
                last = want;
              }
            }
            world.probe("o03.index");
            return;
          }
          const filter = Buffer.from(key.replace(/\.html$/, ""), "base64").toString();
          check(rows.some((r) => r.filter === filter), `a page was made for ${filter}, which has no figures`, "unknown");
          check(!got.error, `${filter}: ${got.error}`, "broken");
          for (const [id, [name, label]] of Object.entries(SINGLES)) compare(filter, id, got, singles(filter, name, label), friendly(filter));
          for (const [id, name] of Object.entries(TOPS)) compare(filter, id, got, tops(filter, name), friendly(filter));
          world.probe("o03.page");
        };
        const pages = new Map();
        aws.onPut = (o) => {
          const { bucket, key } = o;
          try {
            check(bucket === "visu", `a page was put in ${bucket}`, "bucket");
            check(/^text\/html\b/.test(o.contentType ?? ""), `${key} was put as ${o.contentType}`, "type");
            const html = o.body.toString();
            checkPage(key, html);
            pages.set(key, { at: world.now, n: rows.length });
          } catch (e) { world.fail(e); }
        };
        let fin = false, failedWarm = false;
        const once = async () => {
          const mark = world.firedFaults.length;
          const r = await d.fns.v.invoke({});
          const fired = world.firedFaults.slice(mark).filter((f) => f.kind !== "recycle" && f.kind !== "slow");
          world.record("run", { s: r.status, n: pages.size });
          check(r.status !== "timeout", "updating the pages did not end in time", "hang");
          if (r.status === "crash") world.probe("o03.crash");
          if (fired.some((f) => /^db/.test(f.kind))) world.probe("o03.dbfault");
          if (fired.some((f) => /^s3/.test(f.kind))) world.probe("o03.s3fault");
          if (!fired.length) check(r.status === "ok", `updating the pages failed although nothing failed: ${r.error?.message ?? r.status}`, "failed");
          if (r.status === "ok") {
            const todo = ["index.html", ...[...new Set(rows.map((x) => x.filter))].map(file)].filter((k) => pages.get(k)?.n !== rows.length);
            check(!todo.length, `${todo.length} pages such as ${Buffer.from((todo[0] ?? "").replace(".html", ""), "base64")} were not updated`, "missing");
            if (failedWarm) world.probe("o03.warm-after-failure");
          }
          failedWarm = r.status === "error";
          return r;
        };
        (async () => {
          for (const [oi, o] of plan.ops.entries()) {
            const from = month(world.now, 0);
            if (oi) world.probe("o03.month2");
            const names = o.names.map((i) => NAMES[i]);
            if (names.some((x) => /[<`$]|^constr|proto|^toStr|^hasOwn/.test(x))) world.probe("o03.hard-name");
            const all = (filter, gone, n) => {
              for (const [name] of Object.values(SINGLES)) if (name !== gone) put(from, filter, name, name === "Http req" ? n : n * 3);
              for (const name of Object.values(TOPS)) if (name !== gone) put(from, filter, name, JSON.parse(`{${names.map((x, i) => `${JSON.stringify(x)}:${n + i + 1}`).join(",")}}`));
            };
            for (const [i, f] of TOTALS.entries()) if (o.totals[i]) all(f, undefined, o.n + i);
            for (const e of o.eps) all(`@transport_type:${SERVICES[e.svc]} AND @fields.request_uri:"${PATHS[e.path]}"`, e.gone, e.n);
            await world.sleep(month(world.now, 1) + ruleAt - world.now);
            for (let a = 0; a < 3; a++) {
              if (a) { await world.sleep(a * MIN); world.probe("o03.retry"); }
              if ((await once()).status === "ok") break;
            }
            // a run by hand after the faults
            world.faultsEnabled = false;
            await world.sleep(5 * MIN);
            await once();
            world.faultsEnabled = true;
          }
          fin = true;
        })().catch((e) => world.fail(e));
        await world.run({ until: () => fin, deadline: world.now + 400 * DAY });
        check(fin, "runs did not finish", "stuck");
      },
    },
  ],
};
