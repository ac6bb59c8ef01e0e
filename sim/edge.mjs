// A simulated CloudFront in front of simulated origins: behaviours, cache, edge functions and their rules, as far as the
// synthesised template tells them.
import { compileText } from "./runtime.mjs";
import { LambdaFn } from "./lambda.mjs";

const toRe = (p) => new RegExp(`^${p.replace(/[.+^${}()|[\]\\]/g, "\\$&").replace(/\*/g, ".*").replace(/\?/g, ".")}$`);
const copy = (x) => JSON.parse(JSON.stringify(x));
const READ_ONLY = { "origin-request": ["accept-encoding", "content-length", "if-modified-since", "if-none-match", "range", "transfer-encoding", "via"], "viewer-request": ["content-length", "host", "transfer-encoding", "via"], "origin-response": ["transfer-encoding", "via"], "viewer-response": ["content-encoding", "content-length", "transfer-encoding", "warning", "via"] };

export class CloudFront {
  /** @param o {templates, svc, region, origin: async (req) => ({status, headers, body}), env} */
  constructor(world, o) {
    this.world = world;
    this.o = o;
    this.cache = new Map();
    this.n = 0;
    this.res = Object.assign({}, ...o.templates.map((t) => t.Resources ?? {}));
    this.fns = new Map();
    this.dists = Object.entries(this.res).filter(([, r]) => r.Type === "AWS::CloudFront::Distribution").map(([id, r]) => {
      const c = r.Properties.DistributionConfig;
      return { id, aliases: c.Aliases ?? [], origins: Object.fromEntries(c.Origins.map((x) => [x.Id, x])), behaviors: [...(c.CacheBehaviors ?? []).map((b) => ({ ...b, re: toRe(b.PathPattern.replace(/^\/?/, "/")) })), { ...c.DefaultCacheBehavior, re: /^/ }] };
    });
  }
  fn(id) {
    if (!this.fns.has(id)) {
      const p = this.res[id].Properties;
      const key = p.Name ?? id;
      const cf = this.res[id].Type === "AWS::CloudFront::Function";
      const text = cf ? `${p.FunctionCode}\nmodule.exports.handler = handler;` : p.Code.ZipFile;
      this.fns.set(id, new LambdaFn(this.world, String(typeof key === "string" ? key : id), compileText(id, text), cf ? { timeoutSec: 1 } : { timeoutSec: p.Timeout ?? 3, svc: this.o.svc, region: this.o.region }));
    }
    return this.fns.get(id);
  }
  assoc(b, type) {
    const f = (b.FunctionAssociations ?? []).find((x) => x.EventType === type);
    if (f) return { cf: true, fn: this.fn(f.FunctionARN["Fn::GetAtt"]?.[0] ?? f.FunctionARN.Ref) };
    const l = (b.LambdaFunctionAssociations ?? []).find((x) => x.EventType === type);
    if (l) return { fn: this.fn(this.res[l.LambdaFunctionARN.Ref].Properties.FunctionName.Ref) };
    return undefined;
  }
  originOf(d, b) {
    const x = d.origins[b.TargetOriginId];
    const customHeaders = {};
    for (const h of x.OriginCustomHeaders ?? []) customHeaders[h.HeaderName.toLowerCase()] = [{ key: h.HeaderName, value: h.HeaderValue }];
    if (x.S3OriginConfig) return { s3: { domainName: x.DomainName, path: x.OriginPath ?? "", region: "eu-west-1", authMethod: "none", customHeaders } };
    return { custom: { domainName: x.DomainName, path: x.OriginPath ?? "", port: x.CustomOriginConfig?.OriginProtocolPolicy === "http-only" ? 80 : 443, protocol: x.CustomOriginConfig?.OriginProtocolPolicy === "http-only" ? "http" : "https", readTimeout: x.CustomOriginConfig?.OriginReadTimeout ?? 30, keepaliveTimeout: 5, sslProtocols: ["TLSv1.2"], customHeaders } };
  }
  cachePolicy(b) {
    const c = this.res[b.CachePolicyId?.Ref]?.Properties.CachePolicyConfig;
    const p = c.ParametersInCacheKeyAndForwardedToOrigin;
    return { ttl: c.DefaultTTL, min: c.MinTTL, max: c.MaxTTL, headers: (p.HeadersConfig.Headers ?? []).map((x) => x.toLowerCase()), query: p.QueryStringsConfig.QueryStringBehavior, keys: p.QueryStringsConfig.QueryStrings ?? [], gzip: p.EnableAcceptEncodingGzip === true };
  }
  /** @param r {host, method, path, query, headers, ip, id} → {status, headers: {name: value}, body, failed?} */
  async request(r) {
    const d = this.dists.find((x) => x.aliases.includes(r.host));
    const id = r.id ?? String(this.n++);
    const b = d.behaviors.find((x) => x.re.test(r.path));
    const out = (x) => ({ status: Number(x.status), headers: Object.fromEntries(Object.entries(x.headers ?? {}).map(([k, v]) => [k.toLowerCase(), v.map((h) => h.value).join(", ")])), body: x.bodyEncoding === "base64" ? Buffer.from(x.body, "base64") : (x.body ?? "") });
    const fail = (status, why) => ({ status, headers: {}, body: "", failed: why });
    if (!(b.AllowedMethods ?? ["GET", "HEAD"]).includes(r.method)) return fail(403, "method");
    let req = { clientIp: r.ip, method: r.method, uri: r.path, querystring: r.query ?? "", headers: { host: [{ key: "Host", value: r.host }] } };
    for (const [k, v] of Object.entries(r.headers ?? {})) req.headers[k.toLowerCase()] = [{ key: k, value: v }];
    const cfg = (eventType) => ({ distributionDomainName: "d1.cloudfront.net", distributionId: d.id, eventType, requestId: id });
    const run = async (type, ev) => {
      const a = this.assoc(b, type);
      if (!a) return undefined;
      let event;
      if (a.cf) {
        const flat = (h) => Object.fromEntries(Object.entries(h ?? {}).map(([k, v]) => [k, { value: v.map((x) => x.value).join(", ") }]));
        event = { version: "1.0", context: { eventType: type, requestId: id }, viewer: { ip: r.ip }, request: { method: ev.request.method, uri: ev.request.uri, querystring: Object.fromEntries(new URLSearchParams(ev.request.querystring).entries().map(([k, v]) => [k, { value: v }])), headers: flat(ev.request.headers), cookies: {} }, ...(ev.response && { response: { statusCode: Number(ev.response.status), statusDescription: ev.response.statusDescription, headers: flat(ev.response.headers), cookies: {} } }) };
      } else event = { Records: [{ cf: { config: cfg(type), ...ev } }] };
      const x = await a.fn.invoke(event, { key: `${id}.${type}` });
      if (x.status !== "ok") return { failed: x.status === "throttled" ? 503 : x.status === "timeout" ? 504 : 502, why: `${type} ${x.status} ${x.error?.message}` };
      const v = x.value;
      if (!v || typeof v !== "object") return { failed: 502, why: `${type} gave ${JSON.stringify(v)}` };
      if (a.cf) {
        const wide = (h) => Object.fromEntries(Object.entries(h ?? {}).map(([k, o]) => [k.toLowerCase(), [{ key: k, value: o.value }]]));
        if (v.statusCode !== undefined) return type === "viewer-response" ? { response: { ...ev.response, status: String(v.statusCode), headers: wide(v.headers), ...(v.body !== undefined && { body: v.body }) } } : { response: { status: String(v.statusCode), statusDescription: v.statusDescription, headers: wide(v.headers), body: v.body } };
        return { request: { ...ev.request, uri: v.uri, method: ev.request.method, querystring: ev.request.querystring, headers: wide(v.headers ?? flat(ev.request.headers)) } };
      }
      const isReq = type.endsWith("-request");
      if (v.status !== undefined) {
        if (!/^\d{3}$/.test(String(v.status))) return { failed: 502, why: `${type} gave status ${v.status}` };
        if (!isReq) for (const h of READ_ONLY[type]) if (JSON.stringify(ev.response.headers[h]?.map((y) => y.value)) !== JSON.stringify(v.headers?.[h]?.map((y) => y.value))) return { failed: 502, why: `${type} changed the read-only header ${h}` };
        for (const [k, hs] of Object.entries(v.headers ?? {})) if (!Array.isArray(hs) || hs.some((h) => typeof h?.value !== "string" || /[\r\n]/.test(h.value) || (h.key !== undefined && h.key.toLowerCase() !== k.toLowerCase()))) return { failed: 502, why: `${type} gave a bad header ${k}` };
        return { response: v };
      }
      if (!isReq) return { failed: 502, why: `${type} gave no response` };
      for (const h of READ_ONLY[type]) if (JSON.stringify(ev.request.headers[h]?.map((y) => y.value)) !== JSON.stringify(v.headers?.[h]?.map((y) => y.value))) return { failed: 502, why: `${type} changed the read-only header ${h}` };
      if (typeof v.uri !== "string" || !v.uri.startsWith("/") || v.uri.includes("?")) return { failed: 502, why: `${type} gave the uri ${v.uri}` };
      if (v.clientIp !== ev.request.clientIp || v.method !== ev.request.method) return { failed: 502, why: `${type} changed a read-only field` };
      return { request: v };
    };
    const vr = await run("viewer-request", { request: req });
    if (vr?.failed) return fail(vr.failed, vr.why);
    if (vr?.response) return out(vr.response);
    if (vr) req = vr.request;
    const pol = this.cachePolicy(b);
    const q = pol.query === "all" ? req.querystring : pol.query === "none" ? "" : [...new URLSearchParams(req.querystring)].filter(([k]) => pol.keys.includes(k)).map(([k, v]) => `${k}=${v}`).join("&");
    const key = JSON.stringify([d.id, b.PathPattern, r.method, req.uri, q, pol.headers.map((h) => req.headers[h]?.map((x) => x.value)), pol.gzip && /gzip/.test(req.headers["accept-encoding"]?.[0]?.value ?? "")]);
    const cacheable = ["GET", "HEAD", "OPTIONS"].includes(r.method);
    const hit = cacheable ? this.cache.get(key) : undefined;
    let res;
    if (hit && hit.until > this.world.now) { res = copy(hit.res); this.world.probe("edge.cached"); }
    else {
      req = { ...req, origin: this.originOf(d, b) };
      const isS3 = !!req.origin.s3;
      if (isS3 || b.OriginRequestPolicyId === "b689b0a8-53d0-40ab-baf2-68738e2966ac") req.headers = { ...req.headers, host: [{ key: "Host", value: (req.origin.s3 ?? req.origin.custom).domainName }] };
      const or = await run("origin-request", { request: req });
      if (or?.failed) return fail(or.failed, or.why);
      if (or?.response) res = or.response;
      else {
        if (or) req = or.request;
        const og = req.origin.s3 ?? req.origin.custom;
        const headers = {};
        for (const [k, v] of Object.entries({ ...req.headers, ...og.customHeaders })) headers[k.toLowerCase()] = v.map((x) => x.value).join(", ");
        const a = await this.o.origin({ id, domain: og.domainName, kind: req.origin.s3 ? "s3" : "custom", path: `${og.path ?? ""}${req.uri}`, query: req.querystring, method: req.method, headers, readTimeout: og.readTimeout });
        if (a.failed) return fail(a.status, "origin");
        res = { status: String(a.status), statusDescription: "x", headers: Object.fromEntries(Object.entries(a.headers ?? {}).map(([k, v]) => [k.toLowerCase(), [{ key: k, value: v }]])), body: a.body };
        const { body, ...shown } = res;
        const ox = await run("origin-response", { request: req, response: shown });
        if (ox?.failed) return fail(ox.failed, ox.why);
        if (ox) res = { ...ox.response, body: ox.response.body ?? body };
      }
      const cc = res.headers?.["cache-control"]?.[0]?.value ?? "";
      const own = cc.match(/max-age=(\d+)/);
      const ttl = /no-cache|no-store|private/.test(cc) ? pol.min : own ? Math.min(pol.max, Math.max(pol.min, Number(own[1]))) : pol.ttl;
      if (cacheable && ttl > 0 && Number(res.status) < 400) this.cache.set(key, { until: this.world.now + ttl * 1000, res: copy(res) });
    }
    if (Number(res.status) < 400) {
      const { body, bodyEncoding, ...shown } = res;
      const vx = await run("viewer-response", { request: (({ origin, ...x }) => x)(req), response: shown });
      if (vx?.failed) return fail(vx.failed, vx.why);
      if (vx) res = { ...vx.response, body: vx.response.body ?? body, ...(vx.response.body === undefined && bodyEncoding && { bodyEncoding }) };
    }
    return out(res);
  }
}

const ipNum = (s) => s.split(".").reduce((a, x) => a * 256 + Number(x), 0);
/** A web ACL as the template declares it: rules in order of priority, rate statements over sliding windows. */
export class WebAcl {
  constructor(world, res, id, unsupported) {
    this.world = world;
    this.res = res;
    const p = res[id].Properties;
    this.p = p;
    this.rules = [...p.Rules].sort((a, b) => a.Priority - b.Priority);
    this.seen = new Map();
    this.unsupported = unsupported;
  }
  field(f, r) {
    const k = Object.keys(f)[0];
    switch (k.toLowerCase()) {
      case "singleheader": return r.headers[(f[k].Name ?? f[k].name).toLowerCase()];
      case "uripath": return r.path;
      case "querystring": return r.query ?? "";
      case "method": return r.method;
      default: return this.unsupported(`field ${k}`);
    }
  }
  transform(list, s) {
    let v = s;
    for (const t of [...(list ?? [])].sort((a, b) => a.Priority - b.Priority)) {
      if (t.Type === "LOWERCASE") v = v.toLowerCase();
      else if (t.Type === "NORMALIZE_PATH") { const out = []; for (const x of v.split("/")) { if (x === "..") out.pop(); else if (x !== "." && x !== "") out.push(x); } v = `/${out.join("/")}${v.endsWith("/") && out.length ? "/" : ""}`; }
      else if (t.Type === "URL_DECODE") { try { v = decodeURIComponent(v); } catch { /* as it is */ } }
      else if (t.Type !== "NONE" && t.Type !== "MD5") this.unsupported(`transformation ${t.Type}`);
    }
    return v;
  }
  matches(st, r, rule) {
    const k = Object.keys(st)[0], x = st[k];
    switch (k) {
      case "NotStatement": return !this.matches(x.Statement, r, rule);
      case "AndStatement": return x.Statements.every((y) => this.matches(y, r, rule));
      case "OrStatement": return x.Statements.some((y) => this.matches(y, r, rule));
      case "ManagedRuleGroupStatement": return false;
      case "SizeConstraintStatement": {
        const v = this.field(x.FieldToMatch, r);
        if (v === undefined) return false;
        const n = Buffer.byteLength(this.transform(x.TextTransformations, v));
        return { GT: n > x.Size, GE: n >= x.Size, LT: n < x.Size, LE: n <= x.Size, EQ: n === x.Size, NE: n !== x.Size }[x.ComparisonOperator];
      }
      case "RegexMatchStatement": { const v = this.field(x.FieldToMatch, r); return v !== undefined && new RegExp(x.RegexString).test(this.transform(x.TextTransformations, v)); }
      case "ByteMatchStatement": { const f = this.field(x.FieldToMatch, r); if (f === undefined) return false; const v = this.transform(x.TextTransformations, f), s = x.SearchString; return { EXACTLY: v === s, STARTS_WITH: v.startsWith(s), ENDS_WITH: v.endsWith(s), CONTAINS: v.includes(s) }[x.PositionalConstraint]; }
      case "IPSetReferenceStatement": {
        const set = this.res[x.Arn["Fn::GetAtt"][0]].Properties;
        return set.Addresses.some((c) => { const [a, m] = c.split("/"); const bits = 32 - Number(m ?? 32); return r.ip.includes(".") && Math.floor(ipNum(a) / 2 ** bits) === Math.floor(ipNum(r.ip) / 2 ** bits); });
      }
      case "RateBasedStatement": {
        if (x.ScopeDownStatement && !this.matches(x.ScopeDownStatement, r, rule)) return false;
        const key = x.AggregateKeyType === "IP" ? r.ip : x.AggregateKeyType === "CONSTANT" ? "" : x.AggregateKeyType === "CUSTOM_KEYS" ? JSON.stringify(x.CustomKeys.map((c) => { const n = Object.keys(c)[0]; if (n === "IP") return r.ip; if (n === "UriPath") return this.transform(c[n].TextTransformations, r.path); if (n === "Header") return this.transform(c[n].TextTransformations, r.headers[c[n].Name.toLowerCase()] ?? ""); if (n === "HTTPMethod") return r.method; if (n === "QueryString") return this.transform(c[n].TextTransformations, r.query ?? ""); if (n === "QueryArgument") return this.transform(c[n].TextTransformations, new URLSearchParams(r.query ?? "").get(c[n].Name) ?? ""); if (n === "ForwardedIP") return r.headers["x-forwarded-for"] ?? ""; return this.unsupported(`key ${n}`); })) : this.unsupported(`aggregation ${x.AggregateKeyType}`);
        const at = `${rule.Name}|${key}`;
        const list = (this.seen.get(at) ?? []).filter((t) => t > this.world.now - (x.EvaluationWindowSec ?? 300) * 1000);
        list.push(this.world.now);
        this.seen.set(at, list);
        return list.length > x.Limit;
      }
      default: return this.unsupported(`statement ${k}`);
    }
  }
  /** r: {ip, path, query, method, headers (lower case)} → {allow} or {status, body} */
  judge(r) {
    for (const rule of this.rules) {
      if (!this.matches(rule.Statement, r, rule)) continue;
      const a = rule.Action ?? {};
      if (a.Count) continue;
      if (a.Allow) return { allow: true };
      if (a.Block) { const c = a.Block.CustomResponse; return { allow: false, rule: rule.Name, status: c?.ResponseCode ?? 403, body: c?.CustomResponseBodyKey ? (this.p.CustomResponseBodies?.[c.CustomResponseBodyKey]?.Content ?? "") : "" }; }
    }
    return { allow: !!this.p.DefaultAction.Allow, status: 403, body: "" };
  }
}
