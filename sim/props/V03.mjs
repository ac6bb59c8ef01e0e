// V03: the voyage plan gateway gives those who may ask the schedules for exactly what they asked, and nobody else any.
import { bundle } from "../runtime.mjs";
import { WIRINGS } from "../apps.mjs";
import { LambdaFn } from "../lambda.mjs";
import { RestApi } from "../gateway.mjs";
import { check } from "../check.mjs";
import { Aws, Http } from "../services.mjs";

const MIN = 60000, HOUR = 3600000;
const KNOWN = ["name", "callsign", "imo", "mmsi", "uuid", "locode", "externalID"];
const VALUES = ["FINNLADY", "9000001", "230000001", "FIHKO", "A B", "M/S Åland", "X&imo=9", "50% off", "a+b", "x#y", "x=y", "?", "", "a/../b", "ÄÖ🚢", "\"q\"", "urn:mrn:s124:1;2", "%26"];
const TOKENS = ["token-1", "tök en&2", "true"];
const BASE = ["https://vts.example/schedules", "https://vts.example/api/v1/schedules"];
const FRESH = 5 * MIN + 10000;

export default {
  id: "V03",
  quickSec: 10,
  thoroughSec: 120,
  real: ["get-schedules handler, ky, lib secrets", "synthesised REST API: method, proxy integration, timeout, concurrency"],
  stubs: ["API Gateway (routing, proxy events)", "VTS schedules behind fetch", "Secrets Manager, Lambda"],
  assumptions: ["the gateway decodes the query of the caller", "a key of the API is required at the gateway (not simulated beyond the template)", "an answer that breaks off without a sign of it may be passed on as it came"],
  mustReach: ["v03.served", "v03.denied", "v03.direction", "v03.special", "v03.no-query", "v03.rotated", "v03.failed", "v03.calculated", "v03.bad-direction"],
  async setup() {
    return { wiring: await WIRINGS.voyagePlan(), code: await bundle({ s: "marine/voyage-plan-gateway/src/lambda/get-schedules/lambda-get-schedules.ts" }) };
  },
  scenarios: [
    {
      name: "schedules",
      gen(rng, tier) {
        const ops = [];
        for (let n = rng.int(1, tier === "thorough" ? 20 : 8); n > 0; n--) {
          if (rng.bool(0.12)) ops.push({ kind: "rotate", gap: rng.pick([1, 60, 400]), token: rng.int(0, TOKENS.length - 1), base: rng.int(0, BASE.length - 1) });
          else ops.push({ kind: "ask", gap: rng.pick([0, 0, 1, 30, 200, 400]), bare: rng.bool(0.05), auth: rng.pick(["right", "right", "right", "right", "right", "right", "none", "wrong", "old", "empty"]), dir: rng.pick([undefined, undefined, "east", "west", "east", "north", "EAST", "../x", ""]), calc: rng.pick([undefined, undefined, "true", "false", "1"]), q: Object.fromEntries(rng.sample(KNOWN, rng.pick([0, 1, 1, 2, 3])).map((k) => [k, rng.int(0, VALUES.length - 1)])), other: rng.bool(0.2), size: rng.pick([0, 10, 5000]), status: rng.pick([200, 200, 200, 200, 200, 404, 500, 400]) });
        }
        return { ops, cfg: {}, faults: rng.bool(0.4) ? {} : undefined };
      },
      faults: { "http.before": 0.05, "http.lost": 0.05, "http.5xx": 0.06, "http.429": 0.02, "http.truncated": 0.05, "secrets.before": 0.05, "secrets.lost": 0.05, crash: 0.005, slow: 0.03, recycle: 0.1 },
      maxEvents: 60000,
      async run(world, plan, ctx) {
        const aws = new Aws(world), http = new Http(world);
        http.slowMs = 15000;
        const secret = [];
        const rotate = (token, base) => { secret.push({ t: world.now, token: TOKENS[token], base: BASE[base] }); aws.secrets.set("sec", JSON.stringify({ "vpgw.schedulesAccessToken": TOKENS[token], "vpgw.schedulesUrl": BASE[base], "other.key": "x" })); };
        rotate(0, 0);
        const calls = [];
        let serve = () => ({ status: 200, body: "" });
        http.route("vts", "https://vts.example/", (req, inst) => {
          const c = { url: req.url, t: world.now, by: inst.site, method: req.method, headers: req.headers };
          calls.push(c);
          c.answer = serve(c);
          return c.answer;
        });
        const fns = {};
        for (const f of ctx.wiring.fns) fns[f.id] = new LambdaFn(world, f.name, ctx.code.s, { env: f.env, svc: { aws, http, fetch: http.fetch }, timeoutSec: f.timeoutSec, reserved: f.reserved });
        const api = ctx.wiring.apis.find((a) => a.methods.some((m) => m.fn));
        check(api && api.methods.every((m) => m.apiKey || m.authorizer || !m.fn), "a method is open to everyone", "open");
        const method = api.methods.find((m) => m.fn);
        const gw = new RestApi(world, { api, fns });
        let n = 0;
        const ask = async (o) => {
          const t0 = world.now, at = calls.length, mark = world.firedFaults.length, key = `q${n++}`;
          const query = {};
          if (!o.bare) {
            if (o.auth === "right") query.auth = secret.at(-1).token;
            else if (o.auth === "old") query.auth = secret.at(-2)?.token ?? "token-0";
            else if (o.auth === "wrong") query.auth = `${secret.at(-1).token}x`;
            else if (o.auth === "empty") query.auth = "";
            if (o.dir !== undefined) query.direction = o.dir;
            if (o.calc !== undefined) query.calculated = o.calc;
            for (const [k, v] of Object.entries(o.q)) query[k] = VALUES[v];
            if (o.other) Object.assign(query, { other: "x", Name: "y" });
          }
          const body = `${"<schedules>".repeat(1)}${key}${"ö".repeat(o.size)}</schedules>`;
          serve = (c) => ({ status: o.status, body: o.status === 200 ? body : "failed", headers: { "content-type": "application/xml" } });
          const r = await gw.request({ path: method.path, query, key });
          const now = world.now;
          const mine = calls.slice(at);
          world.record("ask", { k: key, s: r.status, n: mine.length });
          check(now - t0 <= 29500, `the answer took ${now - t0} ms`, "slow-answer");
          const fired = world.firedFaults.slice(mark).filter((f) => f.kind !== "recycle");
          // secrets that may have been known
          const may = secret.filter((s, i) => i === secret.length - 1 || secret[i + 1].t >= t0 - FRESH);
          if (may.length > 1) world.probe("v03.rotated");
          const right = may.filter((s) => s.token === query.auth), sure = right.length === may.length;
          const ok = !query.direction || ["east", "west"].includes(query.direction);
          if (mine.length || r.status === 200) check(right.length && ok, `${JSON.stringify(query)} was passed on${right.length ? "" : " without access"}`, "let-in");
          for (const c of mine) {
            const u = new URL(c.url);
            const bases = right.map((s) => `${s.base}${query.direction ? `/${query.direction}` : ""}${query.calculated === "true" ? "/calculated" : ""}`);
            check(c.method === "GET" && bases.includes(`${u.origin}${u.pathname}`) && !u.hash, `${JSON.stringify(query)} was asked from ${c.url}`, "url");
            const want = Object.entries(query).filter(([k]) => KNOWN.includes(k)).map((e) => JSON.stringify(e)).sort();
            const got = [...u.searchParams].map((e) => JSON.stringify(e)).sort();
            check(JSON.stringify(want) === JSON.stringify(got), `${JSON.stringify(query)} was asked as ${u.search}`, "query");
            if (query.direction) world.probe("v03.direction");
            if (query.calculated === "true") world.probe("v03.calculated");
            if (Object.entries(query).some(([k, v]) => KNOWN.includes(k) && /[&#+%=?]/.test(v))) world.probe("v03.special");
          }
          if (r.status === 200) {
            check(mine.some((c) => c.answer.status === 200) && (r.body === body || (fired.some((f) => f.kind === "http.truncated") && body.startsWith(r.body.replace(/\ufffd$/, "")))), `the answer to ${JSON.stringify(query)} is not what the VTS gave: ${r.body.slice(0, 60)} (${r.body.length})`, "body");
            world.probe("v03.served");
          } else if (r.status === 403) { check(!sure, `${JSON.stringify(query)} was denied`, "denied"); world.probe(o.bare ? "v03.no-query" : "v03.denied"); }
          else if (r.status === 400) { check(!ok, `${JSON.stringify(query)} was answered with 400 ${r.body}`, "bad"); world.probe("v03.bad-direction"); }
          else {
            check(r.status >= 500 || (r.status >= 400 && mine.length), `${JSON.stringify(query)} was answered with ${r.status}`, "status");
            check(fired.length || (ok && mine.some((c) => c.answer.status !== 200)), `${JSON.stringify(query)} was answered with ${r.status} although nothing failed: ${r.detail}`, "failed");
            world.probe("v03.failed");
          }
          if (!fired.length && !right.length) check(r.status === 403, `${JSON.stringify(query)} was answered with ${r.status} without access`, "not-403");
        };
        let fin = false;
        (async () => {
          for (const o of plan.ops) {
            await world.sleep(o.gap * 1000 + 1);
            if (o.kind === "rotate") rotate(o.token, o.base); else await ask(o);
          }
          fin = true;
        })().catch((e) => world.fail(e));
        await world.run({ until: () => fin, deadline: world.now + 24 * HOUR });
        check(fin, "a request was never answered", "no-answer");
      },
    },
  ],
};
