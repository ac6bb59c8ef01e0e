// J01: the published API description is the union of what its sources describe.
import vm from "node:vm";
import { isDeepStrictEqual as same } from "node:util";
import { bundle } from "../runtime.mjs";
import { WIRINGS } from "../apps.mjs";
import { deploy } from "../lambda.mjs";
import { check } from "../check.mjs";
import { Aws, Http } from "../services.mjs";

const HOUR = 3600000;
const METHODS = ["get", "get", "get", "post", "put", "delete", "patch", "head", "options", "trace"];
const HTTP = ["get", "put", "post", "delete", "patch", "trace", "connect"]; // the ones a reader can call
const DOC = "lambda-update-api-gateway-documentation", SW = "lambda-update-swagger";

/** A schema of a response, as [what the source answers, what is published]: API Gateway breaks nullable ones. */
function schema(k, apigw) {
  const leaf = [{ type: "string", description: `s${k}` }, { type: "array", items: { type: "integer", enum: [1, 2, k] } }, { $ref: "#/components/schemas/M" }][k % 3];
  if (k % 6 === 0) { const [a, b] = [schema(k + 4, apigw), schema(k + 2, apigw)]; const of = (i) => ({ type: "object", properties: { a: a[i], b: b[i] } }); return apigw ? [{ anyOf: [of(0), null] }, { ...of(1), nullable: true }] : [of(1), of(1)]; }
  if (k % 4 === 0) { const key = k % 8 ? "oneOf" : "anyOf"; return apigw ? [{ [key]: k % 3 ? [leaf, null] : [null, leaf], description: "n" }, { description: "n", ...leaf, nullable: true }] : [{ ...leaf, nullable: true }, { ...leaf, nullable: true }]; }
  if (k % 5 === 1) { const [a, b] = schema(k + 3, apigw); return [{ type: "object", required: ["a"], properties: { a, b: leaf } }, { type: "object", required: ["a"], properties: { a: b, b: leaf } }]; }
  if (k % 7 === 2) return Array(2).fill({ anyOf: [leaf, { type: "number" }] });
  return [leaf, leaf];
}
/** One operation of a source, as [what the source answers, what is published]. */
function operation(o, src, apigw, noSecurity) {
  const [s, t] = schema(o.k, apigw);
  const op = (sch) => ({
    ...(o.k % 6 ? { tags: [`${src}-tag${o.k % 2}`] } : {}), summary: o.dep === "text" ? `Old thing. Will be removed after 2026-0${1 + (o.k % 9)}-01` : `Kutsu ä ${o.id} </x> v${o.v}`, description: `d${o.k} \u2028 "q" $& $1`, operationId: `op${o.id}`,
    parameters: Array.from({ length: o.k % 4 }, (_, i) => (i === 2 ? { $ref: "#/components/parameters/P" } : { name: `p${i}`, in: ["query", "header", "path"][(o.k + i) % 3], required: i === 0, schema: { type: "array", items: { type: "string" } }, ...((o.k + i) % 5 === 0 ? { style: "form", explode: i === 1 } : {}) })),
    responses: { 200: { description: "ok", content: { "application/json": { schema: sch } }, ...(o.dep === "headers" ? { headers: { Deprecation: { schema: { type: "string" } }, Sunset: { schema: { type: "string" } } } } : o.k % 3 === 0 ? { headers: { ETag: { schema: { type: "string" } } } } : {}) }, 404: { description: "none" } },
    ...(o.k % 5 === 0 ? { requestBody: { content: { "application/json": { schema: { type: "object", nullable: true } } } } } : {}),
    ...(o.dep === "own" ? { deprecated: true } : {}),
  });
  const security = o.sec ? { security: [{ api_key: [] }] } : {};
  return [{ ...op(s), ...security }, { ...op(t), ...(o.dep !== "no" ? { deprecated: true } : {}), ...(noSecurity ? {} : security) }];
}
/** A source's whole description, as [what it answers, what of it is published]. */
function describe(src, paths, extra, apigw, noSecurity) {
  const raw = {}, out = {}, schemas = {}, outSchemas = {};
  for (const p of paths) {
    const path = `/${src}/${p.name}`;
    raw[path] = {};
    const pub = {};
    if (p.params) { raw[path].parameters = [{ name: "id", in: "path", required: true, schema: { type: "string" } }]; pub.parameters = raw[path].parameters; }
    for (const o of p.ops) {
      const [a, b] = operation(o, src, apigw, noSecurity);
      raw[path][o.method] = a;
      if (HTTP.includes(o.method)) pub[o.method] = b;
    }
    if (Object.keys(pub).some((k) => HTTP.includes(k))) out[path] = pub;
  }
  for (let i = 0; i < extra.schemas; i++) { const [a, b] = schema(extra.k + i, apigw); schemas[`${src}Model${i}`] = a; outSchemas[`${src}Model${i}`] = b; }
  const tags = Array.from({ length: extra.tags }, (_, i) => ({ name: `${src}-tag${i}`, ...((extra.k + i) % 3 ? { description: `tag of ${src} ${i}` } : {}) }));
  return {
    raw: { openapi: "3.0.1", info: { title: src, version: `v${extra.k}`, ...(extra.k % 2 && { description: `about ${src}` }) }, servers: [{ url: `https://${src}.example` }], ...(extra.tags >= 0 && tags.length ? { tags } : {}), paths: raw, components: { schemas, ...(extra.k % 3 && { securitySchemes: { api_key: { type: "apiKey", name: "x-api-key", in: "header" } } }) }, ...(extra.k % 4 === 0 ? { security: [{ api_key: [] }] } : {}) },
    paths: out, schemas: outSchemas, tags, scheme: extra.k % 3 > 0,
  };
}
/** What a browser shows that loads the published script: the specification, or nothing. */
function show(script, search) {
  let shown = null, html = null;
  const window = { location: { search } };
  const ui = (o) => { shown = JSON.parse(JSON.stringify(o.spec)); return {}; };
  ui.presets = { apis: {} }; ui.plugins = { DownloadUrl: {} };
  vm.runInNewContext(script, { window, URLSearchParams, document: { querySelector: () => ({ set innerHTML(v) { html = v; } }) }, SwaggerUIBundle: ui, SwaggerUIStandalonePreset: [{}, {}] }, { timeout: 5000 });
  window.onload?.();
  return { shown, html };
}

export default {
  id: "J01",
  quickSec: 15,
  thoroughSec: 240,
  real: ["swagger-joiner update-swagger and update-api-gateway-documentation handlers, merging, repairs, script", "lib OpenAPI schema (zod), ky, es-toolkit", "synthesised functions with schedule, environment and timeout"],
  stubs: ["API Gateway exports and documentation versions", "application and beta application behind fetch", "S3", "Lambda and schedule", "the browser's SwaggerUIBundle"],
  assumptions: ["no two sources describe the same path or schema", "descriptions use the fields of OpenAPI 3.0", "at most 500 documentation versions"],
  mustReach: ["j01.published", "j01.failed", "j01.kept", "j01.nullable", "j01.deprecated", "j01.dropped", "j01.tags", "j01.documented", "j01.mixed-versions"],
  async setup() {
    return { wirings: [await WIRINGS.swagger(false), await WIRINGS.swagger(true)], code: await bundle({ swagger: `other/swagger-joiner/src/lambda/update-swagger/${SW}.ts`, docs: `other/swagger-joiner/src/lambda/update-api-gateway-documentation/${DOC}.ts` }) };
  },
  scenarios: [
    {
      name: "publish",
      gen(rng, tier) {
        const full = rng.bool(0.6), names = full ? ["beta", "api1", "api2", "api3", "app"] : ["api1", "api2"];
        let id = 0;
        const op = () => ({ id: id++, k: rng.int(0, 40), dep: rng.pick(["no", "no", "no", "text", "headers", "own"]), sec: rng.bool(0.4), v: 0 });
        const path = (i) => { const ms = [...new Set(Array.from({ length: rng.int(0, 3) }, () => rng.pick(METHODS)))]; return { name: `p${i}`, params: rng.bool(0.2), ops: ms.map((method) => ({ method, ...op() })) }; };
        const sources = names.map(() => ({ paths: Array.from({ length: rng.int(0, 4) }, (_, i) => path(i)), extra: { schemas: rng.int(0, 3), tags: rng.int(0, 3), k: rng.int(0, 40) } }));
        const ops = [];
        for (let n = rng.int(1, tier === "thorough" ? 8 : 4); n > 0; n--) ops.push({ change: Array.from({ length: rng.int(0, 2) }, () => ({ s: rng.int(0, names.length - 1), what: rng.pick(["add", "drop", "new", "tags"]), path: path(10 + ops.length) })), docs: rng.bool(0.4) });
        return { ops, cfg: { full, names, sources, versions: names.filter((x) => x.startsWith("api")).map(() => rng.pick([[], ["1"], ["1", "2", "10", "9"], ["a3f8b2c1"], ["a3f8b2c1", "7"], ["99", "100", "12"]])) }, faults: rng.bool(0.3) ? {} : undefined };
      },
      faults: { "apigw.before": 0.06, "apigw.lost": 0.04, "http.before": 0.06, "http.lost": 0.04, "http.5xx": 0.05, "http.truncated": 0.05, "s3.before": 0.05, "s3.lost": 0.03, crash: 0.02, slow: 0.02, recycle: 0.3 },
      maxEvents: 30000,
      async run(world, plan, ctx) {
        const aws = new Aws(world), http = new Http(world), { full, names, sources, versions } = plan.cfg;
        http.slowMs = 8000; aws.slowMs = 8000;
        const state = JSON.parse(JSON.stringify(sources));
        const doc = (i) => describe(names[i], state[i].paths, state[i].extra, names[i].startsWith("api"), full);
        const stored = new Map(names.filter((n) => n.startsWith("api")).map((n, i) => [n, [...versions[i]]]));
        aws.handlers["apigw.GetExport"] = (i) => {
          const n = names.indexOf(i.restApiId);
          check(n >= 0 && i.exportType === "oas30" && i.stageName === "prod", `export of ${JSON.stringify(i)} was asked for`, "request");
          return { contentType: "application/json", body: new Uint8Array(Buffer.from(JSON.stringify(doc(n).raw))) };
        };
        aws.handlers["apigw.GetDocumentationVersions"] = (i) => ({ items: stored.get(i.restApiId).slice(0, i.limit ?? 25).map((version) => ({ version, createdDate: new Date(0) })) });
        aws.handlers["apigw.CreateDocumentationVersion"] = (i) => {
          const have = stored.get(i.restApiId);
          if (have.includes(i.documentationVersion)) throw Object.assign(new Error("Documentation version already exists"), { name: "ConflictException", $metadata: { httpStatusCode: 409 } });
          check(typeof i.documentationVersion === "string" && i.documentationVersion && i.stageName === "prod", `documentation version created as ${JSON.stringify(i)}`, "version");
          have.push(i.documentationVersion);
          return { version: i.documentationVersion };
        };
        for (const a of ["app", "beta"]) http.route(a, `https://${a}.example/v3/api-docs`, () => ({ status: 200, body: doc(names.indexOf(a)).raw }));
        const d = deploy(world, ctx.wirings[full ? 1 : 0], { aws, fns: { swagger: { re: /UpdateSwaggerDescriptions$/, code: ctx.code.swagger, svc: { aws, http, fetch: http.fetch } }, docs: { re: /UpdateApiGwDocumentation$/, code: ctx.code.docs, svc: { aws, http } } } });
        check(d.fns.swagger.schedule.length === 1, "the description is not updated regularly", "schedule");
        const prefix = full ? "swagger/" : "", JSONFILE = `${prefix}openapi.json`, JSFILE = `${prefix}dt-swagger.js`;
        const verify = (spec, what) => {
          const docs = names.map((_, i) => doc(i));
          const paths = Object.assign({}, ...docs.map((x) => x.paths));
          for (const p of Object.keys(paths)) {
            check(p in (spec.paths ?? {}), `${what} has no ${p}`, "path-missing");
            for (const [k, v] of Object.entries(paths[p])) check(same(spec.paths[p][k], v), `${what} has ${k} of ${p} as ${JSON.stringify(spec.paths[p][k])?.slice(0, 400)}, it is ${JSON.stringify(v).slice(0, 400)}`, `operation:${spec.paths[p][k] ? "differs" : "missing"}`);
            for (const k of Object.keys(spec.paths[p])) check(k in paths[p], `${what} has ${k} of ${p}, which is not described or not to be shown`, "operation-extra");
          }
          for (const p of Object.keys(spec.paths)) check(p in paths, `${what} has ${p}, which no source has with an operation to show`, "path-extra");
          const schemas = Object.assign({}, ...docs.map((x) => x.schemas));
          check(same(spec.components?.schemas ?? {}, schemas), `${what} has schemas ${JSON.stringify(spec.components?.schemas).slice(0, 300)}, they are ${JSON.stringify(schemas).slice(0, 300)}`, "schemas");
          const tags = docs.flatMap((x) => x.tags), byName = (a, b) => (a.name < b.name ? -1 : 1);
          check(same([...(spec.tags ?? [])].sort(byName), tags.sort(byName)), `${what} has tags ${JSON.stringify(spec.tags)}, they are ${JSON.stringify(tags)}`, "tags");
          check(/^3\.0/.test(spec.openapi), `${what} is of OpenAPI ${spec.openapi}`, "version");
          check(full ? same(spec.servers, [{ url: "https://tie.example" }]) : spec.servers === undefined, `${what} has servers ${JSON.stringify(spec.servers)}`, "servers");
          if (full) {
            const { title, description, termsOfService, contact, license } = spec.info;
            check(same([title, description, termsOfService, contact, license], ["Otsikko Ä", "Kuvaus", "https://tos.example", { name: "C", url: "https://c.example" }, { name: "L", url: "https://l.example" }]), `${what} introduces itself as ${JSON.stringify(spec.info)}`, "info");
            check(!Object.keys(spec.components?.securitySchemes ?? {}).length, `${what} has security schemes`, "security");
          } else check(docs.some((x) => x.scheme) === !!spec.components?.securitySchemes?.api_key, `${what} has security schemes ${JSON.stringify(spec.components?.securitySchemes)}`, "security");
          check(spec.security === undefined, `${what} asks for security`, "security");
        };
        const specOf = (rec) => {
          const text = rec.body.toString();
          if (rec.key === JSONFILE) return JSON.parse(text);
          check(rec.key === JSFILE, `${rec.key} was written`, "file");
          const bad = show(text, "?url=https://evil.example/x.json"), good = show(text, "?x=1");
          check(!bad.shown && bad.html, "the page shows a description for a link that names another one", "link");
          check(good.shown, "the page shows no description", "page");
          return good.shown;
        };
        let puts = [];
        aws.onPut = (rec) => { try { verify(specOf(rec), rec.key); puts.push(rec.key); } catch (e) { world.fail(e); } };
        let fin = false;
        (async () => {
          for (let n = 0; n <= plan.ops.length; n++) {
            const op = plan.ops[n] ?? { change: [], docs: true };
            if (n === plan.ops.length) world.faultsEnabled = false;
            for (const c of op.change) {
              const s = state[c.s], p = s.paths.length ? s.paths[c.path.ops.length % s.paths.length] : null;
              if (c.what === "add") { s.paths = s.paths.filter((x) => x.name !== c.path.name).concat([c.path]); }
              else if (c.what === "drop" && p) s.paths = s.paths.filter((x) => x !== p);
              else if (c.what === "new" && p) p.ops.forEach((o) => { o.v++; });
              else if (c.what === "tags") s.extra = { ...s.extra, tags: c.path.ops.length, k: s.extra.k + 1 };
            }
            puts = [];
            const before = new Map([...aws.buckets.values()].flatMap((b) => [...b].map(([k, v]) => [k, v.body.toString()])));
            let mark = world.firedFaults.length;
            const r = await d.fns.swagger.invoke({});
            let failed = world.firedFaults.slice(mark).some((f) => f.kind !== "recycle");
            world.record("run", { s: r.status, puts: puts.length });
            if (r.status === "ok") {
              const now = new Map([...aws.buckets.values()].flatMap((b) => [...b]));
              for (const f of [JSONFILE, JSFILE]) { check(now.has(f), `a run succeeded without ${f} being published`, "not-published"); verify(specOf(now.get(f)), f); }
              world.probe("j01.published");
              const docs = names.map((_, i) => doc(i));
              if (JSON.stringify(docs).includes('null]') || JSON.stringify(docs).includes("[null")) world.probe("j01.nullable");
              if (state.some((s) => s.paths.some((p) => p.ops.some((o) => o.dep === "headers")))) world.probe("j01.deprecated");
              if (state.some((s) => s.paths.some((p) => !p.ops.some((o) => HTTP.includes(o.method))))) world.probe("j01.dropped");
              if (docs.filter((x) => x.tags.length).length > 1) world.probe("j01.tags");
            } else {
              check(failed, `an update ended as ${r.status} (${String(r.error?.message ?? r.error).slice(0, 300)}) though nothing failed`, "refused");
              world.probe("j01.failed");
              if (before.size) world.probe("j01.kept");
            }
            const keep = new Map([...aws.buckets.values()].flatMap((b) => [...b].map(([k, v]) => [k, v.body.toString()])));
            for (const k of before.keys()) check(keep.has(k), `${k} was removed`, "removed");
            if (op.docs) {
              mark = world.firedFaults.length;
              const had = new Map([...stored].map(([k, v]) => [k, v.length]));
              const q = await d.fns.docs.invoke({});
              failed = world.firedFaults.slice(mark).some((f) => f.kind !== "recycle");
              for (const [api, list] of stored) {
                const more = list.length - had.get(api);
                check(more <= 1 || failed, `${api} got ${more} new documentation versions`, "versions");
                if (q.status === "ok") check(more >= 1, `the documentation of ${api} was not published`, "not-documented");
                if (list.some((v) => !/^\d+$/.test(v))) world.probe("j01.mixed-versions");
              }
              if (q.status === "ok") world.probe("j01.documented");
              else check(failed, `publishing the documentation ended as ${q.status} (${String(q.error?.message ?? q.error).slice(0, 300)}) though nothing failed`, "docs-refused");
            }
            await world.sleep(HOUR);
          }
          return true;
        })().then(() => { fin = true; }, (e) => world.fail(e));
        await world.run({ until: () => fin, deadline: world.now + 24 * HOUR });
        check(fin, "the updates did not finish", "stuck");
      },
    },
  ],
};
