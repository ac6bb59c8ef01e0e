// An API Gateway REST API as the application's template describes it: resource tree, request authorizers with their
// result cache, request and response mapping templates around Lambda functions.
import { createRequire } from "node:module";
import path from "node:path";
import { REPO } from "./runtime.mjs";

const velocity = createRequire(path.join(REPO, "lib/digitraffic-common/package.json"))("velocityjs");
const escapeJs = (s) => (s === undefined || s === null ? "" : String(s).replace(/[\\"'/]/g, "\\$&").replace(/[\n\r\t\b\f]/g, (c) => ({ "\n": "\\n", "\r": "\\r", "\t": "\\t", "\b": "\\b", "\f": "\\f" })[c]).replace(/[^\x20-\x7e]/g, (c) => `\\u${c.charCodeAt(0).toString(16).toUpperCase().padStart(4, "0")}`));
const b64 = (s) => Buffer.from(s ?? "", "utf8").toString("base64");
const util = { base64Encode: b64, base64Decode: (s) => Buffer.from(s ?? "", "base64").toString("utf8"), escapeJavaScript: escapeJs, parseJson: JSON.parse, urlDecode: (s) => decodeURIComponent(String(s).replace(/\+/g, " ")), urlEncode: encodeURIComponent };
const parsed = new Map();
/** Methods of Java strings that templates may call. */
const JAVA = {
  replaceAll(a, b) { return String(this).replace(new RegExp(a, "g"), b.replace(/\\(.)/g, (_, c) => (c === "$" ? "$$" : c))); },
  replaceFirst(a, b) { return String(this).replace(new RegExp(a), b); },
  matches(a) { return new RegExp(`^(?:${a})$`, "s").test(String(this)); },
  equals(a) { return String(this) === a; },
  equalsIgnoreCase(a) { return String(this).toLowerCase() === String(a).toLowerCase(); },
  contains(a) { return String(this).includes(a); },
  isEmpty() { return this.length === 0; },
};
/** Methods of Java maps that templates may call. */
const plain = (x) => x !== null && typeof x === "object" && !Array.isArray(x);
const method = (name, resolve) => ({ uid: `map: ${name}`, match: ({ property, context }) => property === name && plain(context) && !Object.hasOwn(context, name), resolve });
const MAP = [
  method("containsKey", ({ context, params }) => Object.hasOwn(context, String(params[0]))),
  method("get", ({ context, params }) => (Object.hasOwn(context, String(params[0])) ? context[params[0]] : undefined)),
  method("isEmpty", ({ context }) => Object.keys(context).length === 0),
  method("remove", ({ context, params }) => { const v = context[params[0]]; delete context[params[0]]; return v; }),
];
const render = (template, ctx) => {
  if (!parsed.has(template)) parsed.set(template, velocity.parse(template));
  const kept = Object.fromEntries(Object.keys(JAVA).map((k) => [k, Object.getOwnPropertyDescriptor(String.prototype, k)]));
  try {
    for (const [k, value] of Object.entries(JAVA)) Object.defineProperty(String.prototype, k, { value, configurable: true, writable: true, enumerable: false });
    return new velocity.Compile(parsed.get(template), { customMethodHandlers: MAP }).render(ctx);
  } finally {
    for (const [k, d] of Object.entries(kept)) if (d) Object.defineProperty(String.prototype, k, d); else delete String.prototype[k];
  }
};
const wild = (p, s) => new RegExp(`^${p.split("*").map((x) => x.split("?").map((y) => y.replace(/[.+^${}()|[\]\\]/g, "\\$&")).join(".")).join(".*")}$`).test(s);

export class RestApi {
  /** o.api: from wiring().apis; o.fns: function id -> LambdaFn; o.backend(method, params) for other integrations */
  constructor(world, o) {
    this.world = world;
    Object.assign(this, o);
    this.cache = new Map();
    this.stage = "prod";
    this.n = 0;
    this.stats = { cached: 0, denied: 0, unauthorized: 0, served: 0, failed: 0 };
  }
  match(method, p) {
    const parts = p.split("/").filter(Boolean);
    let best;
    for (const m of this.api.methods) {
      if (m.httpMethod !== method && m.httpMethod !== "ANY") continue;
      const want = m.path.split("/").filter(Boolean);
      if (want.length !== parts.length || !want.every((w, i) => /^\{.*\}$/.test(w) || w === parts[i])) continue;
      const score = want.map((w) => (/^\{/.test(w) ? "0" : "1")).join("");
      if (!best || score > best.score) best = { m, score, params: Object.fromEntries(want.flatMap((w, i) => (/^\{/.test(w) ? [[w.slice(1, -1).replace(/\+$/, ""), decodeURIComponent(parts[i])]] : []))) };
    }
    return best;
  }
  /** Resolves {status, body, headers, at}; status is what the caller sees. */
  async request({ method = "GET", path: p, headers = {}, query = {}, body, key }) {
    const hit = this.match(method, p);
    const k = key ?? `api${this.n++}`;
    if (!hit) return { status: 403, body: "Missing Authentication Token" };
    const { m, params } = hit;
    const arn = `arn:aws:execute-api:eu-west-1:123456789012:api/${this.stage}/${method}${p}`;
    const context = { path: `/${this.stage}${p}`, resourcePath: m.path, httpMethod: method, stage: this.stage, requestId: k, authorizer: {}, responseOverride: { header: {}, status: undefined } };
    if (m.authorizer) {
      const r = await this.authorize(m.authorizer, { type: "REQUEST", methodArn: arn, resource: m.path, path: p, httpMethod: method, headers: { ...headers }, queryStringParameters: { ...query }, pathParameters: { ...params }, stageVariables: {}, requestContext: { path: context.path, resourcePath: m.path, httpMethod: method, stage: this.stage } }, context, k);
      if (r.status !== 200) return r;
      context.authorizer = r.context;
    }
    if (!m.fn) { this.stats.served++; return { ...this.backend(m, params), served: true }; }
    const last = Object.fromEntries(Object.entries(query).map(([a, b]) => [a, Array.isArray(b) ? b.at(-1) : b]));
    const input = { body: body ?? "", params: (name) => (name === undefined ? { header: headers, querystring: last, path: params } : (params[name] ?? last[name] ?? headers[name])) };
    if (m.proxy) return this.proxied(m, { method, p, headers, query, last, params, body, context, k });
    let event = {};
    if (m.template) {
      const text = render(m.template, { method: { request: { multivaluequerystring: Object.fromEntries(Object.entries(query).map(([a, b]) => [a, Array.isArray(b) ? b : [b]])) } }, input, util, context });
      try { event = JSON.parse(text); } catch (e) { this.stats.failed++; return { status: 400, body: "Could not parse request body into json", detail: `${e.message}: ${text}` }; }
    } else if (body) { try { event = JSON.parse(body); } catch { return { status: 400, body: "Could not parse request body into json" }; } }
    const fn = this.fns[m.fn];
    const r = await this.within(29000, fn.invoke(event, { key: k }));
    if (!r) { this.stats.failed++; return { status: 504, body: "Endpoint request timed out" }; }
    if (r.status === "throttled") return { status: 500, body: "", detail: "throttled" };
    // A failed function gives an error document; the response whose pattern matches its message is used, otherwise the default one.
    const failure = r.status === "ok" ? undefined : { timeout: `2025-03-03T08:00:00.000Z ${k} Task timed out after ${fn.timeoutMs / 1000}.00 seconds`, crash: `RequestId: ${k} Error: Runtime exited with error: signal: killed` }[r.status] ?? String(r.error?.message ?? r.error ?? "");
    const value = failure !== undefined ? { errorMessage: failure, errorType: r.status === "timeout" ? "Sandbox.Timedout" : r.status === "crash" ? "Runtime.ExitError" : r.error?.name ?? "Error", trace: [] } : r.value === undefined ? null : JSON.parse(JSON.stringify(r.value));
    if (failure !== undefined) this.stats.failed++; else this.stats.served++;
    const out = (failure !== undefined && m.responses.find((x) => x.pattern && new RegExp(`^(?:${x.pattern})$`).test(failure))) || m.responses.find((x) => !x.pattern) || { status: "200" };
    const detail = failure === undefined ? undefined : `${r.status} ${failure}`;
    if (!out.template) return { status: Number(out.status), body: JSON.stringify(value), headers: {}, detail };
    let text;
    try {
      const get = (p = "$") => p.split(".").slice(1).reduce((o, x) => o?.[x], value);
      text = render(out.template, { input: { path: get, json: (p) => JSON.stringify(get(p)), body: JSON.stringify(value) }, util, context });
    } catch (e) { return { status: 500, body: "", detail: `response template: ${e.message}` }; }
    return { status: Number(context.responseOverride.status || out.status), body: text, headers: context.responseOverride.header, type: context.responseOverride.header["Content-Type"] ?? out.type, detail };
  }
  /** The function gets the request as it is and answers the whole response. */
  async proxied(m, { method, p, headers, query, last, params, body, context, k }) {
    const none = (o) => (Object.keys(o).length ? o : null);
    const lists = Object.fromEntries(Object.entries(query).map(([a, b]) => [a, [b].flat()]));
    const event = { resource: m.path, path: p, httpMethod: method, headers: none({ ...headers }), multiValueHeaders: none(Object.fromEntries(Object.entries(headers).map(([a, b]) => [a, [b]]))), queryStringParameters: none(last), multiValueQueryStringParameters: none(lists), pathParameters: none(params), stageVariables: null, requestContext: context, body: body ?? null, isBase64Encoded: false };
    const r = await this.within(29000, this.fns[m.fn].invoke(event, { key: k }));
    if (!r) { this.stats.failed++; return { status: 504, body: "Endpoint request timed out" }; }
    const v = r.status === "ok" ? r.value : undefined;
    const plainHeaders = v?.headers === undefined || v.headers === null || plain(v.headers);
    if (!plain(v) || !Number.isInteger(Number(v.statusCode)) || !(v.body === undefined || v.body === null || typeof v.body === "string") || !plainHeaders) {
      this.stats.failed++;
      return { status: r.status === "throttled" ? 500 : 502, body: JSON.stringify({ message: "Internal server error" }), headers: {}, detail: `${r.status} ${r.error?.message ?? JSON.stringify(v)}` };
    }
    this.stats.served++;
    const hs = v.headers ?? {};
    return { status: Number(v.statusCode), body: v.isBase64Encoded ? Buffer.from(v.body ?? "", "base64").toString() : v.body ?? "", headers: hs, type: hs["Content-Type"] ?? hs["content-type"] ?? "application/json" };
  }
  within(ms, p) {
    return new Promise((resolve, reject) => { this.world.after(ms, "gateway:timeout", () => resolve(undefined)); p.then(resolve, reject); });
  }
  async authorize(a, event, context, key) {
    const w = this.world;
    const ids = a.identitySource.map((s) => (/^method\.request\.header\./.test(s) ? event.headers[Object.keys(event.headers).find((h) => h.toLowerCase() === s.slice(22).toLowerCase())] : /^method\.request\.querystring\./.test(s) ? event.queryStringParameters[s.slice(27)] : /^context\./.test(s) ? s.slice(8).split(".").reduce((o, x) => o?.[x], context) : undefined));
    if (a.ttlSec > 0 && ids.some((x) => x === undefined || x === "")) { this.stats.unauthorized++; return { status: 401, body: "Unauthorized" }; }
    const id = JSON.stringify([a.id, ids]);
    let result = a.ttlSec > 0 ? this.cache.get(id) : undefined;
    if (result && w.now - result.t < a.ttlSec * 1000) this.stats.cached++;
    else {
      const r = await this.fns[a.fn].invoke(event, { key: `${key}:auth` });
      if (r.status === "error" && r.error?.message === "Unauthorized") { this.stats.unauthorized++; return { status: 401, body: "Unauthorized" }; }
      const v = r.status === "ok" ? JSON.parse(JSON.stringify(r.value ?? null)) : undefined;
      const odd = v && (!v.principalId || !Array.isArray(v.policyDocument?.Statement) || Object.values(v.context ?? {}).some((x) => x !== null && typeof x === "object"));
      if (!v || odd) { this.stats.failed++; return { status: 500, body: "", detail: `authorizer ${r.status} ${r.error?.message ?? "with an answer that is no policy"}` }; }
      result = { t: w.now, v };
      if (a.ttlSec > 0) this.cache.set(id, result);
    }
    const st = result.v.policyDocument.Statement.filter((s) => [].concat(s.Action).some((x) => wild(x, "execute-api:Invoke")) && [].concat(s.Resource).some((x) => wild(x, event.methodArn)));
    if (st.some((s) => s.Effect === "Deny") || !st.some((s) => s.Effect === "Allow")) { this.stats.denied++; return { status: 403, body: "User is not authorized to access this resource" }; }
    return { status: 200, context: Object.fromEntries(Object.entries(result.v.context ?? {}).filter(([, v]) => v !== null)) };
  }
}
