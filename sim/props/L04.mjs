// L04: every REST API hands a request to its function unchanged and gives its caller exactly what the function answered.
import { bundle } from "../runtime.mjs";
import { WIRINGS } from "../apps.mjs";
import { LambdaFn } from "../lambda.mjs";
import { RestApi } from "../gateway.mjs";
import { check } from "../check.mjs";
import { Http } from "../services.mjs";

const APIS = { lib: "apiLib", rami: "apiRami", signs: "apiSigns", counting: "apiCounting", aton: "apiAton", winter: "apiWinter", port: "apiPort", calls: "portCallPublic", marinecam: "marinecamApi", sse: "sse" };
const VALUES = ["1", "FIHKO", "a b", "ä ö €", "L'Austral", "say \"hi\"", "back\\slash", "a\\\"b", "\",\"id\":\"other", "$util.base64Encode('x')", "#set($x=1)", "{\"a\":[1]}", "</script>", "100%", "a/b", "rivi\nvaihto", "\u{1F6A2}", "'", "\\'", "a,b", "_x", "2025-03-03T10:00:00+02:00"];
const NAMES = ["limit", "id", "a", "b", "m", "siteId", "vesselId", "locode", "text", "_id", "_a", "x-client", "a\"b", "q'q", "date"];
const BODIES = ["{}", "[]", "{\"nimi\":\"Ähtäri 'a' \\\"b\\\" €\"}", "<xml>&amp; $x #if</xml>", "plain", " \n reunat \n", "$util.base64Decode('x')", "\u{1F6A2}"];
const STATUSES = [200, 200, 200, 200, 200, 200, 400, 404, 500, 501, 401, 413];
/** What the methods of the library's own example hand to the function: query names, or all of them. */
const LIB = { "/api/all/{id}": { all: true }, "/api/all": { all: true }, "/api/named": { names: ["a", "b"] }, "/api/named/{id}/{sub}": { names: ["a"], header: "x-client" }, "/api/multi/{id}": { all: true, multi: "m" }, "/api/body": { body: true }, "/api/body/{id}": { body: true, names: ["a"] }, "/api/none": {}, "/api/old/{id}": { old: true } };
const CODE = `
import { LambdaResponseBuilder, LambdaResponse } from "@digitraffic/common/dist/aws/types/lambda-response";
export async function handler(event) {
  const r = await fetch("https://backend.example/", { method: "POST", body: JSON.stringify(event === undefined ? null : event) });
  const p = await r.json();
  if (p.fail) throw new Error(p.fail);
  if (p.nothing) return undefined;
  if (p.big) return LambdaResponseBuilder.create("x".repeat(p.big)).build();
  if (p.plain) return p.plain;
  if (p.empty) return LambdaResponse.ok("");
  const b = LambdaResponseBuilder.create(p.many ? p.body.repeat(p.many) : p.body).withStatus(p.status);
  if (p.file) b.withFileName(p.file);
  if (p.time) b.withTimestamp(new Date(p.time));
  return b.build();
}`;

export default {
  id: "L04",
  quickSec: 16,
  thoroughSec: 240,
  real: ["synthesised REST APIs of rami, variable-signs, counting-site, aton-faults, winter-navigation, portactivity, port-call, marinecam and sea-state-estimate, and of an example with every kind of parameter: resources, request and response mapping templates (velocityjs), error patterns, timeouts and concurrency", "lib lambda response builder"],
  stubs: ["the functions' own code (one that reports its event and answers as told)", "API Gateway (routing, 29 s limit, error document of a failed function)", "Lambda", "HTTP backend of that function"],
  assumptions: ["a failed function's error document is mapped by the response whose pattern matches its message, otherwise by the default one (200)", "of repeated parameters only those declared as repeated are given", "a parameter that was not given may be missing or empty"],
  mustReach: ["l04.path", "l04.query", "l04.all", "l04.multi", "l04.header", "l04.body", "l04.quote", "l04.override", "l04.status", "l04.file", "l04.time", "l04.thrown", "l04.timeout", "l04.crash", "l04.throttled", "l04.nothing", "l04.big", "l04.long", "l04.old", "l04.plain", "l04.gateway-timeout"],
  async setup() {
    const wiring = {};
    for (const [k, n] of Object.entries(APIS)) wiring[k] = await WIRINGS[n]();
    return { wiring, code: (await bundle({ echo: { code: CODE } })).echo };
  },
  scenarios: [
    {
      name: "requests",
      gen(rng, tier) {
        const ops = [];
        const api = rng.bool(0.4) ? "lib" : rng.pick(Object.keys(APIS));
        for (let i = rng.int(2, tier === "thorough" ? 40 : 14); i > 0; i--) {
          const how = rng.int(0, 99);
          const val = () => rng.pick(VALUES);
          ops.push({
            gap: rng.pick([0, 0, 1, 50, 3000]), method: rng.int(0, 99), path: [val(), val()], asked: Array.from({ length: 8 }, () => (rng.bool(0.4) ? val() : undefined)),
            extra: rng.bool(0.4) ? [[rng.pick(NAMES), val()]] : [], multi: rng.bool(0.5) ? Array.from({ length: rng.int(1, 3) }, val) : undefined, header: rng.bool(0.4) ? val() : undefined, body: rng.pick(BODIES),
            answer: how < 70 ? { status: rng.pick(STATUSES), body: rng.pick(BODIES), file: rng.bool(0.2) ? rng.pick(["a.csv", "laskenta-2025_01.csv"]) : undefined, time: rng.bool(0.4) ? 1741000000000 + rng.int(0, 1e9) : undefined }
              : how < 78 ? { fail: rng.pick(["Error", "kaput", "rivi\ntoinen", "ERROR", "{\"errorType\":\"ERROR\"}", "timeout \"x\"", "Forbidden", "404", ""]) || " " }
              : how < 81 ? { nothing: true } : how < 82 ? { status: 200, body: rng.pick(["ä", "Ähtäri, ", "\u{1F6A2}x", "a"]), many: rng.pick([9000, 70000, 200000]) } : how < 83 ? { big: rng.pick([4600000, 4800000]) } : how < 86 ? { wait: rng.pick([20000, 31000, 90000]) } : how < 88 ? { empty: true }
              : { status: 200, body: rng.pick(BODIES) },
          });
        }
        return { ops, cfg: { api }, faults: rng.bool(0.5) ? {} : undefined };
      },
      faults: { "http.before": 0.05, "http.lost": 0.05, "http.5xx": 0.03, crash: 0.05, slow: 0.02, recycle: 0.1 },
      maxEvents: 60000,
      async run(world, plan, ctx) {
        const http = new Http(world);
        http.slowMs = 40000;
        const which = plan.cfg.api, w = ctx.wiring[which];
        const clean = plan.faults && !Object.keys(plan.faults).length;
        const calls = new Map();
        http.route("backend", (r) => r.url === "https://backend.example/", async (r, inst) => {
          const c = calls.get(inst.site.slice(inst.site.indexOf(":") + 1));
          check(c, `a function was called for no request: ${inst.site}`, "no-request");
          c.events.push(JSON.parse(r.body));
          if (c.o.answer.wait) await world.sleep(c.o.answer.wait);
          return { status: 200, body: which === "sse" && !c.o.answer.fail ? { plain: { saved: 1, errors: 0 } } : c.o.answer };
        });
        const fns = {};
        for (const f of w.fns) fns[f.id] = new LambdaFn(world, f.name, ctx.code, { env: {}, svc: { http, fetch: http.fetch }, timeoutSec: f.timeoutSec, reserved: f.reserved });
        const api = w.apis.find((a) => a.methods.some((m) => m.fn));
        const methods = api.methods.filter((m) => m.fn && !m.proxy && !m.authorizer);
        check(methods.length > 0, "the API has no methods", "no-methods");
        const gw = new RestApi(world, { api, fns });
        const etags = new Map();
        const ask = async (o, i) => {
          const m = methods[o.method % methods.length], key = `r${i}`;
          const spec = which === "lib" ? LIB[m.path] : undefined;
          const asked = spec?.names ?? Object.keys(m.asks).map((x) => /^method\.request\.querystring\.(.*)$/.exec(x)?.[1]).filter(Boolean);
          const pathParams = (m.path.match(/\{[^}]+\}/g) ?? []).map((x) => x.slice(1, -1));
          const params = Object.fromEntries(pathParams.map((p, j) => [p, o.path[j]]));
          const query = {};
          asked.forEach((a, j) => { if (o.asked[j % 8] !== undefined) query[a] = o.asked[j % 8]; });
          if (which !== "sse") for (const [n, v] of o.extra) { if (!asked.includes(n)) { query[n] = v; if (n in params || `_${Object.keys(params)[0]}` === n) world.probe("l04.override"); } }
          if (spec?.multi) { delete query[spec.multi]; if (o.multi) query[spec.multi] = o.multi; }
          const headers = { host: "x", "user-agent": "u", ...(o.header ? { "x-client": o.header } : {}) };
          const post = m.httpMethod === "POST";
          const body = which === "sse" ? JSON.stringify({ SSE_Reports: [{ x: o.body }] }) : post ? o.body : undefined;
          const call = { o, events: [] };
          calls.set(key, call);
          const mark = world.firedFaults.length;
          const path = m.path.replace(/\{([^}]+)\}/g, (_, p) => encodeURIComponent(params[p]));
          const r = await gw.request({ method: m.httpMethod, path, query, headers, body, key });
          const hurt = world.firedFaults.slice(mark).some((f) => f.kind !== "recycle");
          const what = `${m.httpMethod} ${path} ${JSON.stringify(query)}`;
          // the request as the function saw it
          check(r.status !== 400 || call.events.length || o.answer.big, `${what} did not reach the function: ${r.body} ${r.detail ?? ""}`, "not-passed");
          for (const e of call.events) {
            if (which === "sse") { check(JSON.stringify(e) === body, `${what}: the body arrived as ${JSON.stringify(e)}`, "body"); continue; }
            const ev = e ?? {};
            const got = (n) => (Object.hasOwn(ev, n) ? ev[n] : undefined);
            for (const p of pathParams) { check(got(p) === params[p], `${what}: path parameter ${p} arrived as ${JSON.stringify(got(p))}`, "path"); world.probe("l04.path"); }
            const given = { ...query, ...params };
            if (spec?.header) { given[spec.header] = o.header; check((got(spec.header) || undefined) === o.header, `${what}: header ${o.header} arrived as ${got(spec.header)}`, "header"); if (o.header) world.probe("l04.header"); }
            for (const n of spec?.all ? Object.keys(query).filter((x) => !x.startsWith("_") && x !== spec.multi && !pathParams.includes(x)) : asked.filter((x) => !pathParams.includes(x))) {
              if (spec?.all) world.probe("l04.all");
              check((got(n) || undefined) === query[n], `${what}: query parameter ${n} arrived as ${JSON.stringify(got(n))}`, "query");
              if (query[n] !== undefined) { world.probe("l04.query"); if (/['"\\]/.test(query[n])) world.probe("l04.quote"); }
            }
            if (spec?.multi) { check(JSON.stringify(got(spec.multi) ?? []) === JSON.stringify(o.multi ?? []), `${what}: ${spec.multi} arrived as ${JSON.stringify(got(spec.multi))}`, "multi"); if (o.multi) world.probe("l04.multi"); }
            if (spec?.body) { check(Buffer.from(got("payload") ?? "", "base64").toString() === body, `${what}: body ${body} arrived as ${JSON.stringify(ev)}`, "body"); world.probe("l04.body"); }
            for (const n of Object.keys(ev)) if (n !== spec?.multi && !(spec?.body && n === "payload")) check(!ev[n] || (Array.isArray(ev[n]) && !ev[n].length) || ev[n] === given[n], `${what}: the function was given ${n} = ${JSON.stringify(ev[n])}`, "foreign");
          }
          // the answer as the caller saw it
          const a = o.answer, ok = r.status >= 200 && r.status < 300;
          if (r.detail || r.status === 504) {
            check(!ok, `${what}: a failed function (${r.detail}) was answered ${r.status} ${r.body}`, "failure-as-success");
            check(r.status >= 500 || (which === "sse" && /BAD REQUEST/.test(r.detail)), `${what}: a failed function (${r.detail}) was answered ${r.status}`, "failure-status");
            check(!clean || a.fail || a.wait || /throttled/.test(r.detail), `${what} failed although nothing failed: ${r.detail}`, "failed");
            world.probe(r.status === 504 ? "l04.gateway-timeout" : /^timeout/.test(r.detail) ? "l04.timeout" : /^crash/.test(r.detail) ? "l04.crash" : /^throttled/.test(r.detail) ? "l04.throttled" : "l04.thrown");
            return;
          }
          check(call.events.length > 0 && !a.fail, `${what} was answered ${r.status} although the function gave no answer`, "made-up");
          if (which === "sse") { check(r.status === 200 && JSON.parse(r.body).saved === 1, `the answer of the function arrived as ${r.status} ${r.body}`, "answer"); world.probe("l04.plain"); return; }
          if (a.nothing) { check(!ok, `${what}: a function without an answer was answered ${r.status} ${r.body}`, "nothing-as-success"); world.probe("l04.nothing"); return; }
          if (a.many) { check(r.status === 200 && r.body === a.body.repeat(a.many), `a long answer arrived as ${r.status} with ${r.body.length} characters, or others`, "long"); world.probe("l04.long"); return; }
          if (a.big) { check(r.status === 400 || (ok && r.body.length === a.big), `a large answer arrived as ${r.status} with ${r.body.length} characters`, "large"); world.probe("l04.big"); return; }
          const want = a.empty ? { status: 200, body: "" } : a.wait ? undefined : a;
          if (!want) return;
          check(r.status === want.status, `${what}: status ${want.status} arrived as ${r.status}`, "status");
          check(r.body === want.body, `${what}: answer ${JSON.stringify(want.body)} arrived as ${JSON.stringify(r.body)}`, "answer");
          check(r.type === (want.status === 200 ? m.responses.find((x) => !x.pattern).type : "text/plain"), `${what}: status ${want.status} has content type ${r.type}`, "type");
          const h = r.headers;
          check(h["Access-Control-Allow-Origin"] === "*", "no CORS header", "cors");
          check((h["Last-Modified"] ?? undefined) === (want.time ? new Date(want.time).toUTCString() : undefined), `time ${want.time} arrived as ${h["Last-Modified"]}`, "last-modified");
          check((h["Content-Disposition"] ?? undefined) === (want.file ? `attachment; filename="${want.file}"` : undefined), `file ${want.file} arrived as ${h["Content-Disposition"]}`, "file-name");
          if (!a.empty) {
            check(h.ETag, "no ETag", "no-etag");
            const seen = etags.get(want.body);
            check(seen === undefined || seen === h.ETag, `the same content has ETags ${seen} and ${h.ETag}`, "etag-changed");
            for (const [b, t] of etags) check(b === want.body || t !== h.ETag, `different contents have the ETag ${t}`, "etag-same");
            etags.set(want.body, h.ETag);
          }
          if (spec?.old) { check(h.Deprecation === "true" && h.Sunset === "Sat, 20 Dec 2025 00:00:00 GMT", `deprecation arrived as ${h.Deprecation} ${h.Sunset}`, "deprecation"); world.probe("l04.old"); }
          if (want.status !== 200) world.probe("l04.status");
          if (want.file) world.probe("l04.file");
          if (want.time) world.probe("l04.time");
          void hurt;
          world.record("answer", { s: r.status });
        };
        let open = 0, ended = false;
        (async () => {
          for (const [i, o] of plan.ops.entries()) {
            await world.sleep(o.gap + 1);
            open++;
            ask(o, i).catch((e) => world.fail(e)).finally(() => open--);
          }
          while (open) await world.sleep(100);
          ended = true;
        })().catch((e) => world.fail(e));
        await world.run({ deadline: world.now + 3600000, until: () => ended });
        check(ended, "a request was never answered", "no-answer");
      },
    },
  ],
};
