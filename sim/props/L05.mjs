// L05: canaries report success only when every expectation they were given held.
import { EventEmitter } from "node:events";
import zlib from "node:zlib";
import { bundle, Instance } from "../runtime.mjs";
import { PgServer } from "../pgserver.mjs";
import { Aws } from "../services.mjs";
import { check } from "../check.mjs";

export default {
  id: "L05",
  quickSec: 15,
  thoroughSec: 300,
  real: ["lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts", "lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts", "database.ts, secrets, pg-promise"],
  stubs: ["CloudWatch Synthetics runtime (steps)", "HTTP endpoint streaming its answer in chunks", "PostgreSQL", "Secrets Manager"],
  assumptions: ["a Synthetics HTTP step fails when its callback rejects", "an unfinished answer never ends: the canary then may not report success"],
  mustReach: ["l05.db-pass", "l05.db-fail", "l05.url-pass", "l05.url-fail"],
  async setup() {
    return bundle({
      c: { code: `
      export * from "@digitraffic/common/dist/aws/infra/canaries/url-checker.js";
      export { DatabaseCountChecker } from "@digitraffic/common/dist/aws/infra/canaries/database-checker.js";` },
    });
  },
  scenarios: [
    {
      name: "database",
      gen(rng) {
        const ops = [];
        const n = rng.int(1, 5);
        for (let i = 0; i < n; i++) ops.push({ op: rng.pick(["expectOne", "expectZero", "expectOneOrMore"]), g: rng.int(0, 3) });
        return { ops, cfg: { counts: [0, rng.int(0, 1), rng.int(0, 3), 1], proxy: rng.bool() } };
      },
      faults: { "db.connect.before": 0.04, "db.before": 0.03, "db.lost": 0.03, "db.error": 0.03, "secrets.before": 0.04 },
      async run(world, plan, ctx) {
        const pg = new PgServer(world);
        const aws = new Aws(world);
        aws.secrets.set("sec", JSON.stringify({ username: "u", password: "db-pass-of-x", proxy_host: "db-rw:1/x", proxy_ro_host: "db-ro:1/x", host: "db-rw:1/x", ro_host: "db-ro:1/x" }));
        pg.db.table("items", "id serial primary key, g int");
        plan.cfg.counts.forEach((c, g) => { for (let i = 0; i < c; i++) pg.db.seed("items", [{ g }]); });
        const synthetics = { steps: [], failed: [] };
        const inst = new Instance(world, "canary", ctx.c, { env: { SECRET_ID: "sec" }, svc: { pg, aws, synthetics } });
        let st;
        inst.deliverNow(() => {
          const c = plan.cfg.proxy ? inst.exports.DatabaseCountChecker.createForProxy() : inst.exports.DatabaseCountChecker.createForRds();
          plan.ops.forEach((o, i) => c[o.op](`step ${i}`, `select count(*) from items where g = ${o.g}`));
          c.expect().then((v) => { st = { ok: true, v }; world.record("pass", {}); }, (e) => { st = { ok: false, e }; world.record("fail", { m: String(e.message) }); });
        });
        await world.run();
        check(st, "database canary never finished", "never-finished");
        const bad = plan.ops.filter((o) => { const n = plan.cfg.counts[o.g]; return o.op === "expectOne" ? n !== 1 : o.op === "expectZero" ? n !== 0 : n < 1; });
        if (bad.length) { check(!st.ok, `database canary passed although ${bad[0].op} met a count of ${plan.cfg.counts[bad[0].g]}`, `passed-${bad[0].op}`); world.probe("l05.db-fail"); }
        else if (!world.firedFaults.length) { check(st.ok, `database canary failed although every count was as expected: ${st.e?.message}`, "db-spurious"); world.probe("l05.db-pass"); }
        if (!plan.ops.length) check(!st.ok, "database canary without checks passed", "empty-passed");
        check([...pg.sessions].length === 0, "database canary left connections open", "connection-leak");
      },
    },
    {
      name: "url",
      gen(rng) {
        const n = rng.int(1, 4);
        const ops = [];
        for (let i = 0; i < n; i++) {
          ops.push({
            method: rng.pick(["expect200", "expect200", "expect200", "expect404", "expect400", "expect403"]),
            status: rng.pick([200, 200, 200, 404, 400, 403, 500]),
            type: rng.pick(["application/json", "application/json", "text/plain", "application/geo+json;charset=UTF-8", "text/html"]),
            cors: rng.bool(0.9),
            gzip: rng.bool(0.5),
            body: rng.pick(["list", "list", "empty", "geojson", "badgeo", "notjson"]),
            chunks: rng.int(1, 5),
            hdr: rng.bool(0.5),
            checks: Array.from({ length: rng.int(1, 3) }, () => rng.pick(["type", "json", "content", "geo", "header", "noheader", "asyncfail", "asyncok"])),
          });
        }
        return { ops };
      },
      faults: { "http.reset": 0.05, "http.refused": 0.03 },
      async run(world, plan, ctx) {
        for (const [k, o] of plan.ops.entries()) {
          const text = { list: '[{"a":"ä€"},{"a":2}]', empty: "[]", geojson: '{"type":"FeatureCollection","features":[]}', badgeo: '{"type":"Feature"}', notjson: "<html>" }[o.body];
          let cut = false;
          let sentHeaders;
          const request = (inst, opts) => new Promise((resolve, reject) => {
            sentHeaders = opts.headers;
            if (world.fault(`canary:${k}`, "http.refused")) { inst.deliver(5, "refused", () => reject(new Error("ECONNREFUSED"))); return; }
            inst.deliver(world.delay("lat", 2, 300), "headers", () => {
              const res = new EventEmitter();
              res.statusCode = o.status;
              res.statusMessage = "S";
              res.headers = { "content-type": o.type };
              if (o.cors) res.headers["access-control-allow-origin"] = "*";
              if (o.gzip) res.headers["content-encoding"] = "gzip";
              if (o.hdr) res.headers["x-thing"] = "1";
              res.setEncoding = () => res;
              res.resume = () => res;
              const bytes = o.gzip ? zlib.gzipSync(text) : Buffer.from(text);
              let pos = 0;
              let t = 0;
              const reset = world.fault(`canary:${k}:body`, "http.reset") ? world.int("cut", 0, o.chunks - 1) : -1;
              for (let i = 0; i < o.chunks; i++) {
                const end = i === o.chunks - 1 ? bytes.length : Math.min(bytes.length, pos + world.int("chunk", 0, bytes.length));
                const part = bytes.subarray(pos, end);
                pos = end;
                t += world.delay("chunkdelay", 0.5, 200);
                if (i === reset) { cut = true; inst.deliver(t, "aborted", () => { res.emit("aborted"); if (res.listenerCount("error")) res.emit("error", new Error("aborted")); res.emit("close"); }); break; }
                inst.deliver(t, "data", () => res.emit("data", part));
              }
              if (!cut) inst.deliver(t + 0.5, "end", () => { res.emit("end"); res.emit("close"); });
              resolve(res);
            });
          });
          const synthetics = { steps: [], failed: [], request };
          const inst = new Instance(world, "canary", ctx.c, { svc: { synthetics } });
          const X = inst.exports;
          const seen = [];
          const mk = {
            type: () => X.ContentTypeChecker.checkContentType("application/json"),
            json: () => X.ResponseChecker.forJson().checkJson((j) => { seen.push(j); if (!Array.isArray(j) || !j.length) throw new Error("empty list"); if (j[0].a !== "ä€" || j[1].a !== 2) throw new Error("other content"); }),
            content: () => X.ContentChecker.checkJson((j) => { seen.push(j); if (!j) throw new Error("no"); }),
            geo: () => X.GeoJsonChecker.validFeatureCollection(),
            header: () => X.HeaderChecker.checkHeaderExists("x-thing"),
            noheader: () => X.HeaderChecker.checkHeaderMissing("x-thing"),
            asyncfail: () => async () => { await new Promise((r) => inst.setTimer(r, 10, [], false)); throw new Error("late failure"); },
            asyncok: () => async () => { await new Promise((r) => inst.setTimer(r, 10, [], false)); },
          };
          const okStatus = o.status >= 200 && o.status <= 299;
          const holds = {
            type: okStatus && o.cors && o.type === "application/json",
            json: okStatus && o.cors && o.type === "application/json" && o.body === "list",
            content: o.body !== "notjson",
            geo: okStatus && o.cors && o.type === "application/geo+json;charset=UTF-8" && o.body === "geojson",
            header: o.hdr,
            noheader: !o.hdr,
            asyncfail: false,
            asyncok: true,
          };
          let st;
          let expected;
          inst.deliverNow(() => {
            const c = new X.UrlChecker("host", "the-key");
            let p;
            if (o.method === "expect200") { p = c.expect200("/x", ...o.checks.map((n) => mk[n]())); expected = o.checks.every((n) => holds[n]); }
            else if (o.method === "expect404") { p = c.expect404("/x"); expected = o.status === 404 && o.type === "text/plain"; }
            else if (o.method === "expect400") { p = c.expect400("/x"); expected = o.status === 400 && o.type === "text/plain"; }
            else { p = c.expect403WithoutApiKey("/x"); expected = o.status === 403 && o.type === "application/json"; }
            p.then(() => { st = { ok: true }; world.record("pass", {}); }, (e) => { st = { ok: false, e }; world.record("fail", {}); });
          });
          await world.run();
          const needBody = o.method === "expect200" && o.checks.some((n) => ["json", "content", "geo"].includes(n));
          const name = o.method === "expect200" ? `expect200(${o.checks.join(",")})` : o.method;
          const what = `status ${o.status}, ${o.type}, body ${o.body}${o.gzip ? " gzipped" : ""}`;
          if (!expected || (cut && needBody)) {
            const failing = o.method === "expect200" ? o.checks.find((n) => !holds[n]) ?? "cut" : o.method;
            check(!st?.ok, `${name} passed on ${what}${cut ? ", answer cut short" : ""}`, `passed-wrong:${failing}`);
            world.probe("l05.url-fail");
          } else if (!world.firedFaults.length) {
            check(st?.ok, `${name} failed on ${what}: ${st?.e?.message}`, "url-spurious");
            world.probe("l05.url-pass");
          }
          if (sentHeaders) check(o.method === "expect403" ? !sentHeaders["x-api-key"] : sentHeaders["x-api-key"] === "the-key", `${name}: api key header ${sentHeaders["x-api-key"]}`, "api-key-header");
          inst.crash("done");
        }
      },
    },
  ],
};
