// H01: whoever asks through the edge gets what the edge was configured to give: the origin's answer to exactly that
// request, or the documented refusal, redirect or placeholder, and nothing else.
import fs from "node:fs";
import path from "node:path";
import { edgeText, REPO } from "../runtime.mjs";
import { synth } from "../synth.mjs";
import { CloudFront } from "../edge.mjs";
import { check } from "../check.mjs";
import { Aws } from "../services.mjs";

const MIN = 60000;
const APP = "other/cloudfront";
const FRESH = 5 * MIN + 10000; // a secret is used for at most five minutes, plus one fetch
const HOST = "api.digitraffic.example", REDIR = "old.digitraffic.example", TARGET = "https://www.digitraffic.fi/en/";
const IPS = ["10.0.0.1", "10.0.0.2", "10.0.0.3", "10.0.0.11", "2001:db8::1", "110.0.0.1", "10.0.0"];
const GLUE = `
import { CloudfrontCdkStack } from "REPO/${APP}/src/cloudfront-cdk-stack.ts";
import { WafRules } from "REPO/${APP}/src/acl/waf-rules.ts";
import { Behavior } from "REPO/${APP}/src/distribution/behavior.ts";
export function build(cdk, app) {
  const SM = "arn:aws:secretsmanager:eu-west-1:123456789012:secret:road-AbCdEf";
  return new CloudfrontCdkStack(app, "Edge", { env: { account: "123456789012", region: "us-east-1" } }).withLogConfig("arn:aws:cloudfront::123456789012:realtime-log-config/x").withAclRule(WafRules.per5min(500, 100, 200, 60))
    .withDistribution("Main", "arn:aws:acm:us-east-1:123456789012:certificate/1", (b) => b.withAliasName("${HOST}").withBehaviors(
      Behavior.apiGateway("*", { endpointUrl: "main.execute-api.example", apiKey: "key-main" }),
      Behavior.apiGateway("/restricted/*", { endpointUrl: "restricted.execute-api.example", apiKey: "key-restricted" }).withoutGzipRequirementLambda().withIpRestrictionLambda("first", "10.0.0.1,10.0.0.2"),
      Behavior.nginxPlain("/closed/*", "closed.example").withIpRestrictionLambda("second", "10.0.0.3,2001:db8::1").withCacheTtl(120),
      Behavior.nginx("/nginx/*", "nginx.example").withCacheTtl(30).withCacheHeaders("Accept"),
      Behavior.nginx("/keys/*", "keys.example").withQueryCacheKeys("a", "b"),
      Behavior.nginx("/bykey/*", "bykey.example").withQueryCacheKeys("Accept"),
      Behavior.nginx("/byname/*", "byname.example").withCacheHeaders("Accept"),
      Behavior.apiGatewayPlain("/plain/*", "plain.execute-api.example").withCacheHeaders("Authorization").withHttpHeadersFunction(),
      Behavior.s3("/weathercam/*", "weathercam-bucket").withWeathercamLambdas("images.example", "lb.images.example"),
      Behavior.s3("/api/tms/v1/history*", "lam-history").withLamLambdas(SM),
      Behavior.s3("/ui/tms/history*", "lam-history").withLamLambdas(SM).withCacheTtl(120),
      Behavior.swagger("/swagger/*", "swagger-bucket"),
      Behavior.s3("/files/one/*", "files-bucket").withRemovePathFunction(2).withHttpHeadersFunction(),
      Behavior.s3("/other/*", "other-bucket").withRemovePathFunction(1),
    ))
    .withDistribution("Old", "arn:aws:acm:us-east-1:123456789012:certificate/2", (b) => b.withAliasName("${REDIR}").withBehaviors(Behavior.redirect("${TARGET}")));
}`;
const S3 = (b) => `${b}.s3.eu-west-1.amazonaws.com`;
/** What the configuration above means, in the words of the behaviours. */
const AREAS = {
  main: { at: "", domain: "main.execute-api.example", prefix: "/prod", key: "key-main", gzip: true, cors: true, ttl: 60, vary: [] },
  restricted: { at: "/restricted", domain: "restricted.execute-api.example", prefix: "/prod", key: "key-restricted", ips: ["10.0.0.1", "10.0.0.2"], cors: true, ttl: 60, vary: [] },
  closed: { at: "/closed", domain: "closed.example", ips: ["10.0.0.3", "2001:db8::1"], ttl: 120, vary: [] },
  nginx: { at: "/nginx", domain: "nginx.example", gzip: true, cors: true, ttl: 30, vary: ["accept"] },
  keys: { at: "/keys", domain: "keys.example", gzip: true, cors: true, ttl: 60, vary: [], query: ["a", "b"] },
  byname: { at: "/byname", domain: "byname.example", gzip: true, cors: true, ttl: 60, vary: ["accept"] },
  bykey: { at: "/bykey", domain: "bykey.example", gzip: true, cors: true, ttl: 60, vary: [], query: ["Accept"] },
  plain: { at: "/plain", domain: "plain.execute-api.example", prefix: "/prod", cors: true, ttl: 60, vary: ["authorization"], all: true },
  weathercam: { at: "/weathercam", domain: S3("weathercam-bucket"), cors: true, ttl: 60, vary: [], cam: true },
  lam: { at: "/api/tms/v1/history", domain: S3("lam-history"), cors: true, ttl: 60, vary: [], lam: true },
  lamui: { at: "/ui/tms/history", domain: S3("lam-history"), cors: true, ttl: 120, vary: [], lam: true },
  swagger: { at: "/swagger", domain: S3("swagger-bucket"), ttl: 60, vary: [], index: true },
  files: { at: "/files/one", domain: S3("files-bucket"), cors: true, ttl: 60, vary: [], drop: 2 },
  other: { at: "/other", domain: S3("other-bucket"), ttl: 60, vary: [], drop: 1 },
};
const PATHS = {
  main: ["/", "/api/x/v1/a", "/api/x/v1/b", "/restrictedish", "/ui/tms/histor"],
  restricted: ["/restricted/", "/restricted/a", "/restricted/a/b"],
  closed: ["/closed/a", "/closed/b"],
  nginx: ["/nginx/a", "/nginx/b/c"],
  keys: ["/keys/a", "/keys/b"],
  byname: ["/byname/a", "/byname/b"],
  bykey: ["/bykey/a", "/bykey/b"],
  plain: ["/plain/a", "/plain/b"],
  weathercam: ["/weathercam/C1.jpg", "/weathercam/C2.jpg", "/weathercam/C3-history.jpg"],
  lam: ["/api/tms/v1/history", "/api/tms/v1/history", "/api/tms/v1/history", "/api/tms/v1/history/raw/lamraw_101_21_365.csv", "/api/tms/v1/history/raw/lamraw_101_22_1.csv", "/api/tms/v1/history/raw/lamraw_101_25_15.csv", "/api/tms/v1/history/raw/lamraw_101_9_15.csv", "/api/tms/v1/history/raw/readme.txt", "/api/tms/v1/history/raw/a/lamraw_1_24_3.csv"],
  lamui: ["/ui/tms/history", "/ui/tms/history/", "/ui/tms/history/index.html", "/ui/tms/history/main.js", "/ui/tms/history/css/a.css", "/ui/tms/history"],
  swagger: ["/swagger/", "/swagger/index.html", "/swagger/sub/", "/swagger/a.js"],
  files: ["/files/one/a.txt", "/files/one/two/b.txt", "/files/one/"],
  other: ["/other/a.txt", "/other/b/", "/other/"],
};
const lamQuery = (rng) => {
  const q = [];
  const add = (k, v) => q.push(`${k}=${encodeURIComponent(v)}`);
  if (!rng.bool(0.06)) add("api", rng.pick(["liikennemaara", "keskinopeus"]));
  if (!rng.bool(0.06)) add("tyyppi", rng.pick(["h", "h", "vrk", "v"]));
  const d = rng.int(0, 9);
  if (d < 7) add("pvm", rng.pick(["2024-03-01", "2023-12-31", "2025-01"]));
  if (d >= 6 && d < 9) add("viikko", rng.pick(["2024-12", "2023-52"]));
  if (rng.bool(0.3)) add("loppu", rng.pick(["2025-04-01", ""]));
  const p = rng.int(0, 9);
  if (p < 7) add("piste", rng.pick(["1", "23301", "a&b=c"]));
  if (p >= 6 && p < 9) add("pistejoukko", rng.pick(["kaikki", "väylä 1+2"]));
  for (let n = rng.pick([0, 0, 1, 2]); n > 0; n--) add("suunta", rng.pick(["1", "2"]));
  if (rng.bool(0.2)) add("sisallytakaistat", "1");
  for (let n = rng.pick([0, 0, 1, 3]); n > 0; n--) add("ryhma", rng.pick(["kaikki", "ha", "ka"]));
  for (let n = rng.pick([0, 0, 0, 1, 2]); n > 0; n--) add("luokka", rng.pick(["1", "2"]));
  if (rng.bool(0.2)) add("lam_type", "option1");
  return q.join("&");
};
/** Multi-valued reading of a query. */
const parse = (s) => { const m = {}; for (const [k, v] of new URLSearchParams(s)) (m[k] ??= []).push(v); return m; };
const sorted = (s) => JSON.stringify([...new URLSearchParams(s)].sort((a, b) => (a[0] < b[0] ? -1 : a[0] > b[0] ? 1 : 0)));
/** The question the history service is to be asked, or undefined when the request does not say enough. */
function lamAsk(query) {
  const q = parse(query), one = (k) => (q[k]?.length === 1 ? q[k][0] : q[k]);
  const has = (k) => q[k]?.some((x) => x !== "");
  if (!has("api") || !has("tyyppi") || (!has("piste") && !has("pistejoukko")) || (!has("pvm") && !has("viikko"))) return undefined;
  const r = { tyyppi: one("tyyppi") };
  const date = has("pvm") ? "pvm" : "viikko";
  r[date] = one(date) + (has("loppu") ? `-${one("loppu")}` : "");
  const at = has("piste") ? "piste" : "pistejoukko";
  r[at] = one(at);
  if (has("suunta")) r.suunta = q.suunta.join("-");
  if (has("sisallytakaistat")) r.sisallytakaistat = one("sisallytakaistat");
  if (has("ryhma")) r.ryhma = q.ryhma.join(",");
  else if (has("luokka")) { if (one("tyyppi") !== "h") return undefined; r.ajoneuvoluokka = q.luokka.join(","); }
  return { api: one("api"), query: r, file: `${one("api")}_${one("tyyppi")}_${r[date]}.csv` };
}

export default {
  id: "H01",
  quickSec: 15,
  thoroughSec: 150,
  real: ["edge lambdas and functions, as inlined by the stack", "synthesised distributions: behaviours, origins, cache policies, function associations", "lib SecretHolder"],
  stubs: ["CloudFront (routing, cache, edge function rules)", "origins (S3, API Gateway, nginx, image server, history service)", "Secrets Manager, Lambda@Edge"],
  assumptions: ["errors are not cached", "two concurrent requests are not collapsed into one", "the text of an edge function is what esbuild prints instead of rollup and terser"],
  mustReach: ["h01.refused-ip", "h01.allowed-ip", "h01.no-gzip", "h01.preflight", "h01.redirect", "h01.index", "h01.dropped", "h01.cam-version", "h01.cam-missing", "h01.cam-modified", "h01.raw-new", "h01.raw-old", "h01.history", "h01.history-bad", "h01.moved", "h01.page", "h01.rotated", "h01.failed", "edge.cached"],
  async setup() {
    const dir = path.join(REPO, APP, "src/lambda");
    const files = {};
    for (const f of fs.readdirSync(dir).filter((x) => /^(lambda|function)-.*\.ts$/.test(x) && x !== "function-events.ts")) files[`dist/lambda/${f.replace(/\.ts$/, ".cjs")}`] = await edgeText(`${APP}/src/lambda/${f}`);
    return { wiring: await synth({ app: APP, code: GLUE, files }) };
  },
  scenarios: [
    {
      name: "edge",
      gen(rng, tier) {
        const ops = [];
        const areas = rng.bool(0.5) ? rng.sample(Object.keys(AREAS), rng.int(1, 3)) : Object.keys(AREAS);
        for (let n = rng.int(2, tier === "thorough" ? 40 : 18); n > 0; n--) {
          const x = rng.int(0, 99);
          const gap = rng.pick([0, 0, 0, 0, 1, 3, 20, 61, 130, 310]);
          if (x < 6) { ops.push({ kind: "rotate", gap }); continue; }
          if (x < 10) { ops.push({ kind: "redirect", gap, path: rng.pick(["/", "/a/b"]) }); continue; }
          const area = rng.pick(areas), a = AREAS[area];
          const method = rng.pick(["GET", "GET", "GET", "GET", "GET", "HEAD", "OPTIONS", ...(a.all ? ["POST"] : [])]);
          let query = rng.pick(["", "", "a=1", "b=2&a=1", "c=3", "a=1&c=4"]);
          if (a.query?.includes("Accept")) query = rng.pick(["", "Accept=fi", "Accept=sv", "a=1&Accept=fi"]);
          if (a.cam) query = rng.pick(["", "", "versionId=v1", "versionId=v2"]);
          if (a.lam) query = rng.bool(0.55) ? lamQuery(rng) : "";
          ops.push({ kind: "ask", gap, area, path: rng.pick(PATHS[area]), method, query, ip: rng.pick(a.ips ? [...IPS, ...a.ips, ...a.ips] : IPS), gzip: rng.pick(["gzip", "gzip, deflate, br", "br;q=1.0, gzip;q=0.8", "gzip", "br", "identity", undefined]), accept: rng.pick([undefined, "text/html", "application/json"]), auth: rng.pick([undefined, "Basic a", "Basic b"]), status: rng.pick([200, 200, 200, 200, 200, 200, 404, 403, 500, 304]), meta: rng.pick([undefined, "lower", "upper"]), cc: rng.pick([undefined, undefined, "no-cache", "max-age=10"]) });
        }
        return { ops, cfg: {}, faults: rng.bool(0.4) ? {} : undefined };
      },
      faults: { "http.before": 0.05, "http.lost": 0.04, "http.5xx": 0.05, "secrets.before": 0.06, "secrets.lost": 0.05, crash: 0.005, slow: 0.03, recycle: 0.1 },
      maxEvents: 60000,
      async run(world, plan, ctx) {
        const aws = new Aws(world);
        aws.secretRegion = "eu-west-1";
        aws.slowMs = 2500;
        const secret = [];
        const rotate = () => {
          const n = secret.length, s = { t: world.now, domain: `snow${n}.example`, key: `snow-key-${n}`, raw: S3(`lam-ongoing-${n}`) };
          secret.push(s);
          aws.secrets.set("road", JSON.stringify({ "tms-history.snowflakeDomain": s.domain, "tms-history.snowflakeApikey": s.key, "tms-history.s3DomainTmsRawOngoing": s.raw, "tms-history.s3DomainTmsRawHistory": S3("lam-history"), "mqtt.password": "x" }));
        };
        rotate();
        const recs = [];
        const asked = new Map();
        const origin = async (r) => {
          const op = asked.get(r.id);
          const rec = { n: recs.length, t: world.now, ...r, op };
          recs.push(rec);
          await world.sleep(world.delay(`origin:${r.id}`, 2, 200));
          if (world.fault(`edge:${r.id}:origin`, "http.before") || world.fault(`edge:${r.id}:origin`, "http.lost")) { rec.failed = true; return { failed: true, status: 502 }; }
          if (world.fault(`edge:${r.id}:origin`, "http.5xx")) { rec.status = 503; return { status: 503, headers: { "content-type": "text/plain", "transfer-encoding": "chunked" }, body: "injected" }; }
          rec.status = op.status;
          rec.body = `origin:${rec.n}:${"x".repeat(rec.n % 50)}`;
          const at = new Date(world.now - 3600000).toUTCString();
          rec.meta = op.meta && new Date(world.now - 7200000).toUTCString();
          rec.at = at;
          const snow = secret.some((s) => s.domain === r.domain);
          const own = { "content-type": snow ? "application/octet-stream" : "text/plain", "last-modified": at, etag: `"${rec.n}"`, "x-n": String(rec.n), "transfer-encoding": "chunked", via: "1.1 x" };
          if (op.cc) own["cache-control"] = op.cc;
          if (rec.meta) own[op.meta === "lower" ? "x-amz-meta-last-modified" : "X-Amz-Meta-Last-Modified"] = rec.meta;
          if (snow) Object.assign(own, { "x-api-key": r.headers["x-api-key"] ?? "", "x-amzn-remapped-host": r.domain, "x-amzn-remapped-x-forwarded-for": "1.2.3.4" });
          return { status: op.status, headers: own, body: rec.body };
        };
        const cf = new CloudFront(world, { templates: ctx.wiring.templates, svc: { aws }, region: "eu-north-1", origin });
        const all = [];
        const judge = (op, r, t0, from) => {
          const a = op.kind === "redirect" ? undefined : AREAS[op.area];
          const mine = recs.filter((x) => x.id === op.id);
          const faulty = world.firedFaults.slice(from).some((f) => !["recycle"].includes(f.kind));
          const body = r.body.toString();
          const what = `${op.method ?? "GET"} ${op.path}${op.query ? `?${op.query}` : ""} of ${op.ip ?? "someone"} answered ${r.status}${r.failed ? ` (${r.failed})` : ""}`;
          for (const v of Object.values(r.headers)) check(!secret.some((s) => v.includes(s.key)) && !/key-(main|restricted)/.test(v), `${what}: a key is shown to the caller: ${v}`, "key-shown");
          if (r.failed) { check(faulty || mine.some((x) => x.status >= 400) || (a?.lam && op.query && !lamAsk(op.query)), `${what} though nothing failed`, "failed-unfaulted"); check(!body.includes("origin:"), `${what} with content`, "failed-content"); world.probe("h01.failed"); if (a?.lam && op.query && !op.path.includes("/raw/") && !lamAsk(op.query)) { check(!mine.length, `${what} after asking ${mine[0]?.domain}`, "bad-asked"); world.probe("h01.history-bad"); } return; }
          if (!a) { check(r.status === 302 && r.headers.location === TARGET && !mine.length, `${what}, location ${r.headers.location}`, "redirect"); world.probe("h01.redirect"); return; }
          if (a.ips && !a.ips.includes(op.ip)) { check(r.status === 403 && !body.includes("origin:") && !mine.length, `${what}: the area is closed to this address`, "ip"); world.probe("h01.refused-ip"); return; }
          if (a.ips) world.probe("h01.allowed-ip");
          if (a.gzip && op.method === "OPTIONS") { check(r.status === 204 && r.headers["access-control-allow-origin"] === "*" && /GET/.test(r.headers["access-control-allow-methods"] ?? "") && r.headers["access-control-allow-headers"] && !mine.length, `${what}: not a preflight answer`, "preflight"); world.probe("h01.preflight"); return; }
          if (a.gzip && op.method === "GET" && !/gzip/.test(op.gzip ?? "")) { check(r.status === 406 && !body.includes("origin:") && !mine.length, `${what} without compression`, "gzip"); world.probe("h01.no-gzip"); return; }
          // where the answer has to come from
          const want = { domain: a.domain, path: `${a.prefix ?? ""}${op.path}`, query: op.query };
          let ask, secretOf;
          if (a.index && op.path.endsWith("/")) { want.path += "index.html"; world.probe("h01.index"); }
          if (a.drop) { const seg = op.path.split("/").slice(1); want.path = `/${seg.slice(Math.min(a.drop, seg.length - 1)).join("/")}`; world.probe("h01.dropped"); }
          if (a.cam && op.query) { want.domain = "lb.images.example"; want.host = "images.example"; world.probe("h01.cam-version"); }
          if (a.lam) {
            const last = op.path.slice(op.path.lastIndexOf("/"));
            if (op.path.includes("/api/tms/v1/history/raw/")) {
              want.path = last;
              const year = Number.parseInt(last.split("_")[2], 10);
              if (last.split("_").length > 2 && year > 21) { secretOf = (s) => s.raw; world.probe("h01.raw-new"); } else world.probe("h01.raw-old");
            } else if (op.query) {
              ask = lamAsk(op.query);
              check(ask, `${what}: the question is incomplete`, "bad-answered");
              secretOf = (s) => s.domain;
              want.path = `/prod/${ask.api}`;
              want.query = new URLSearchParams(ask.query).toString();
              world.probe("h01.history");
            } else if (op.path.endsWith("/ui/tms/history") || op.path.includes("/ui/tms/history/index.")) {
              check(r.status === 301 && r.headers.location === "/ui/tms/history/" && !mine.length, `${what}, location ${r.headers.location}`, "moved");
              world.probe("h01.moved");
              return;
            } else if (op.path.includes("/ui/tms/history/")) { want.path = op.path.endsWith("/ui/tms/history/") ? "/index.html" : last; world.probe("h01.page"); }
          }
          if (a.cam && mine.some((x) => x.status === 403 || x.status === 404)) {
            check(r.status === 200 && r.headers["content-type"] === "image/jpeg" && /no-cache|no-store/.test(r.headers["cache-control"] ?? "") && Buffer.isBuffer(r.body) && r.body.subarray(0, 3).toString("hex") === "ffd8ff", `${what} for a missing image: ${r.headers["content-type"]} ${r.headers["cache-control"]}`, "placeholder");
            if (op.method === "GET") check(r.headers["access-control-allow-origin"] === "*", `${what}: the placeholder is not for all origins`, "cors");
            world.probe("h01.cam-missing");
            return;
          }
          if (r.status === 503 && mine.some((x) => x.status === 503)) { world.probe("h01.failed"); return; }
          const m = body.match(/^origin:(\d+):(x*)$/);
          check(m, `${what} with ${JSON.stringify(body.slice(0, 60))}, which no origin gave`, "content");
          const rec = recs[Number(m[1])];
          check(body === rec.body && r.status === rec.status, `${what}: the origin gave ${rec.status} ${rec.body?.length} bytes`, "changed");
          // the answer has to be one to this request
          check(rec.method === op.method, `${what} with the answer to ${rec.method}`, "method");
          check(rec.t >= t0 - (rec.op.cc === "max-age=10" ? Math.min(10, a.ttl) : rec.op.cc ? 0 : a.ttl) * 1000 - 300, `${what} with an answer asked ${(t0 - rec.t) / 1000} s ago`, "stale");
          check(rec.path === want.path, `${what} from the path ${rec.path} instead of ${want.path}`, "path");
          const cut = (s) => (a.query ? [...new URLSearchParams(s)].filter(([k]) => a.query.includes(k)).map(([k, v]) => `${k}=${v}`).join("&") : s);
          check(sorted(cut(rec.query)) === sorted(cut(want.query)), `${what} from the query ${rec.query} instead of ${want.query}`, "query");
          for (const h of a.vary) check(rec.headers[h] === (h === "accept" ? op.accept : op.auth), `${what} with the answer to ${h} ${rec.headers[h]}`, "vary");
          if (secretOf) {
            const ok = secret.filter((s, i) => s.t <= world.now && (i + 1 >= secret.length || secret[i + 1].t >= rec.t - FRESH));
            const s = ok.find((x) => secretOf(x) === rec.domain);
            check(s, `${what} from ${rec.domain}, known: ${ok.map(secretOf)}`, "domain");
            check(rec.headers.host === rec.domain, `${what}: the host ${rec.headers.host} was asked of ${rec.domain}`, "host");
            if (ask) check(rec.headers["x-api-key"] === s.key, `${what}: asked with the key ${rec.headers["x-api-key"]}`, "key");
            if (secret.length > 1 && s !== secret[0]) world.probe("h01.rotated");
          } else check(rec.domain === want.domain, `${what} from ${rec.domain} instead of ${want.domain}`, "domain");
          if (want.host) check(rec.headers.host === want.host, `${what}: the host ${rec.headers.host} was asked of ${rec.domain}`, "host");
          if (!ask) check(rec.headers["x-api-key"] === a.key, `${what}: asked with the key ${rec.headers["x-api-key"]}`, "key");
          // and is handed on as it came
          check(r.headers.etag === `"${rec.n}"` && r.headers["x-n"] === String(rec.n), `${what} without the origin's headers`, "headers");
          if (rec.status < 400 && op.method === "GET") check(!a.cors || r.headers["access-control-allow-origin"] === "*", `${what}: not for all origins`, "cors");
          if (rec.status < 400 && op.method === "GET" && a.cors) check(/Digitraffic-User/i.test(r.headers["access-control-allow-headers"] ?? "") && /Digitraffic-User/i.test(r.headers["access-control-expose-headers"] ?? "") && /GET/.test(r.headers["access-control-allow-methods"] ?? ""), `${what}: ${JSON.stringify(r.headers)}`, "cors");
          if (a.cam && op.method === "GET") { check(r.headers["last-modified"] === (rec.meta ?? rec.at), `${what} last modified ${r.headers["last-modified"]} instead of ${rec.meta ?? rec.at}`, "modified"); if (rec.meta) world.probe("h01.cam-modified"); }
          else check(r.headers["last-modified"] === rec.at, `${what} last modified ${r.headers["last-modified"]} instead of ${rec.at}`, "modified");
          if (ask) {
            check(!("x-api-key" in r.headers) && !Object.keys(r.headers).some((k) => k.startsWith("x-amzn-remapped")), `${what} with internal headers ${Object.keys(r.headers)}`, "internal");
            if (rec.status === 200) check(r.headers["content-disposition"] === `attachment; filename="${ask.file}"` && /^text\/csv/.test(r.headers["content-type"]), `${what}: ${r.headers["content-disposition"]} ${r.headers["content-type"]}`, "csv");
          } else check(r.headers["content-type"] === "text/plain", `${what}: content type ${r.headers["content-type"]}`, "type");
        };
        let fin = false;
        (async () => {
          let n = 0;
          for (const op of plan.ops) {
            await world.sleep((op.gap ?? 0) * 1000 + 1);
            if (op.kind === "rotate") { rotate(); continue; }
            const o = { ...op, id: `r${n++}` };
            asked.set(o.id, o);
            const t0 = world.now, from = world.firedFaults.length;
            const headers = {};
            if (op.gzip) headers["Accept-Encoding"] = op.gzip;
            if (op.accept) headers.Accept = op.accept;
            if (op.auth) headers.Authorization = op.auth;
            all.push((async () => {
              const r = await cf.request({ host: op.kind === "redirect" ? REDIR : HOST, method: op.method ?? "GET", path: op.path, query: op.query ?? "", headers, ip: op.ip ?? "10.0.0.9", id: o.id });
              judge(o, r, t0, from);
            })().catch((e) => world.fail(e)));
          }
          await Promise.all(all);
          fin = true;
        })().catch((e) => world.fail(e));
        await world.run({ until: () => fin, deadline: world.now + 6 * 3600000 });
        check(fin, "a request is never answered", "unanswered");
      },
    },
  ],
};
