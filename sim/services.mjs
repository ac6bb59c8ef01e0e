// Simulated AWS services and HTTP endpoints.
import { EventEmitter } from "node:events";
import { StringDecoder } from "node:string_decoder";
import { Unsupported } from "./world.mjs";

function awsErr(name, msg, status = 500) {
  const e = new Error(msg);
  e.name = name;
  e.$metadata = { httpStatusCode: status, attempts: 3 };
  e.$fault = status >= 500 ? "server" : "client";
  return e;
}

export async function bodyBytes(b) {
  if (b === undefined || b === null) return Buffer.alloc(0);
  if (typeof b === "string") return Buffer.from(b);
  if (Buffer.isBuffer(b)) return b;
  if (b instanceof Uint8Array) return Buffer.from(b);
  if (typeof b[Symbol.asyncIterator] === "function") {
    const parts = [];
    for await (const c of b) parts.push(Buffer.isBuffer(c) ? c : Buffer.from(c));
    return Buffer.concat(parts);
  }
  if (typeof b.arrayBuffer === "function") return Buffer.from(await b.arrayBuffer());
  throw new Unsupported("unknown body type");
}

class SecretMap extends Map {
  constructor(world) { super(); this.world = world; }
  set(id, text) {
    try { for (const [k, v] of Object.entries(JSON.parse(text))) this.world.secret(k, v); } catch { /* not an object */ }
    return super.set(id, text);
  }
}
export class Aws {
  constructor(world) {
    this.world = world;
    this.secrets = new SecretMap(world); // id → string
    this.secretReads = 0;
    this.buckets = new Map(); // bucket → Map(key → {body, input, t})
    this.putLog = []; // every stored object, in order
    this.queues = new Map(); // url → Queue
    this.topics = [];
    this.params = new Map();
    this.handlers = {}; // "svc.Cmd" → (input, inst) => result
    this.counts = {};
    this.latency = [1, 30];
  }
  bucket(name) {
    if (!this.buckets.has(name)) this.buckets.set(name, new Map());
    return this.buckets.get(name);
  }
  object(bucket, key) { return this.bucket(bucket).get(key); }
  call(inst, svc, cmd, input, opts = {}) {
    const name = `${svc}.${cmd}`;
    this.counts[name] = (this.counts[name] ?? 0) + 1;
    const label = `aws.${name}`;
    // the request body is captured when the request is sent
    return (async () => {
      let payload = input;
      if (svc === "s3" && cmd === "PutObject") {
        let bytes;
        try {
          bytes = await bodyBytes(input.Body);
        } catch (e) {
          if (e instanceof Unsupported) this.world.fail(e);
          throw e;
        }
        payload = { ...input, Body: bytes };
      } else payload = input === undefined ? {} : input;
      return inst.rpc({
        kind: svc,
        label: svc === "s3" && this.keyLabel ? `${label}.${this.keyLabel(payload)}` : label,
        lo: this.latency[0],
        hi: this.latency[1],
        slowMs: this.slowMs ?? 3000,
        before: () => awsErr("ServiceUnavailable", `${name} failed (injected)`, 503),
        lost: () => awsErr("TimeoutError", `${name} response lost (injected)`, 500),
        exec: () => this.exec(inst, svc, cmd, payload, opts),
      });
    })();
  }
  exec(inst, svc, cmd, i, opts = {}) {
    const w = this.world;
    const h = this.handlers[`${svc}.${cmd}`];
    if (h) return h(i, inst);
    switch (`${svc}.${cmd}`) {
      case "s3.PutObject": {
        if (!i.Bucket || !i.Key) throw awsErr("ValidationError", "No value provided for input HTTP label", 400);
        const rec = { bucket: i.Bucket, key: i.Key, body: i.Body, contentType: i.ContentType, acl: i.ACL, cache: i.CacheControl, t: w.now, by: inst.site, input: i };
        this.bucket(i.Bucket).set(i.Key, rec);
        this.putLog.push(rec);
        w.trace("s3", `put ${i.Bucket}/${i.Key} ${i.Body.length}`);
        this.onPut?.(rec);
        return { ETag: '"e"', $metadata: { httpStatusCode: 200 } };
      }
      case "s3.GetObject": {
        const o = this.bucket(i.Bucket).get(i.Key);
        if (!o) throw awsErr("NoSuchKey", "The specified key does not exist.", 404);
        return { Body: { transformToString: async (enc) => (enc === "base64" ? o.body.toString("base64") : o.body.toString("utf8")), transformToByteArray: async () => new Uint8Array(o.body), [Symbol.asyncIterator]: async function* () { yield o.body; } }, LastModified: new Date(o.t), ContentType: o.contentType, ContentLength: o.body.length };
      }
      case "s3.DeleteObject": this.bucket(i.Bucket).delete(i.Key); return {};
      case "s3.HeadObject": { const o = this.bucket(i.Bucket).get(i.Key); if (!o) throw awsErr("NotFound", "not found", 404); return { LastModified: new Date(o.t), ContentLength: o.body.length }; }
      case "s3.ListObjectsV2": case "s3.ListObjects": { const c = [...this.bucket(i.Bucket).values()].filter((o) => !i.Prefix || o.key.startsWith(i.Prefix)); return { Contents: c.map((o) => ({ Key: o.key, LastModified: new Date(o.t), Size: o.body.length })), KeyCount: c.length, IsTruncated: false }; }
      case "secrets.GetSecretValue": {
        this.secretReads++;
        const v = this.secrets.get(i.SecretId);
        w.trace("secret", `${i.SecretId}`);
        if (v === undefined || (this.secretRegion && opts.region !== this.secretRegion)) throw awsErr("ResourceNotFoundException", "Secrets Manager can't find the specified secret.", 400);
        return { SecretString: typeof v === "function" ? v() : v, ARN: "arn:secret", Name: i.SecretId };
      }
      case "sqs.SendMessage": {
        const q = this.queue(i.QueueUrl);
        if (i.MessageBody === undefined || i.MessageBody === "") throw awsErr("MissingParameter", "The request must contain the parameter MessageBody.", 400);
        if (Buffer.byteLength(i.MessageBody) > 262144) throw awsErr("InvalidParameterValue", "One or more parameters are invalid. Reason: Message must be shorter than 262144 bytes.", 400);
        const m = q.send(i.MessageBody, { delayMs: (i.DelaySeconds ?? 0) * 1000, attrs: i.MessageAttributes });
        return { MessageId: m.id };
      }
      case "sqs.SendMessageBatch": {
        const q = this.queue(i.QueueUrl);
        if (!i.Entries?.length || i.Entries.length > 10) throw awsErr(i.Entries?.length ? "TooManyEntriesInBatchRequest" : "EmptyBatchRequest", "batch size", 400);
        const Successful = [], Failed = [];
        for (const e of i.Entries) {
          if (w.fault(`${inst.site}:sqsbatch:${e.Id}`, "sqs.partial")) { Failed.push({ Id: e.Id, Code: "InternalError", SenderFault: false }); continue; }
          const m = q.send(e.MessageBody, { delayMs: (e.DelaySeconds ?? 0) * 1000, attrs: e.MessageAttributes });
          Successful.push({ Id: e.Id, MessageId: m.id });
        }
        return { Successful, Failed: Failed.length ? Failed : undefined };
      }
      case "sqs.DeleteMessage": return {};
      case "sns.Publish": this.topics.push({ t: w.now, ...i }); return { MessageId: `sns-${this.topics.length}` };
      case "sts.AssumeRole": return { Credentials: { AccessKeyId: "AK", SecretAccessKey: "SK", SessionToken: "ST", Expiration: new Date(w.now + 3600000) } };
      case "ssm.GetParameter": { if (!this.params.has(i.Name)) throw awsErr("ParameterNotFound", "not found", 400); return { Parameter: { Name: i.Name, Value: this.params.get(i.Name) } }; }
      case "ssm.PutParameter": this.params.set(i.Name, i.Value); return { Version: 1 };
      default: throw new Unsupported(`AWS call ${svc}.${cmd}`);
    }
  }
  queue(url) {
    const q = this.queues.get(url);
    if (!q) throw awsErr("QueueDoesNotExist", `The specified queue does not exist: ${url}`, 400);
    return q;
  }
  addQueue(q) { this.queues.set(q.url, q); return q; }
}

/**
 * HTTP: routes are (req) => {status, body, headers} | throws; req = {method,url,headers,body,query}.
 * Faults: http.before (connection refused), http.lost (executed, connection reset), http.5xx, http.truncated, slow.
 */
export class Http {
  constructor(world) {
    this.world = world;
    this.routes = []; // {match(req), handle(req, inst), label}
    this.requests = [];
    this.latency = [5, 120];
    this.slowMs = 15000;
  }
  route(label, match, handle, o = {}) {
    this.routes.push({ label, match: typeof match === "function" ? match : match instanceof RegExp ? (r) => match.test(r.url) : (r) => r.url.startsWith(match), handle, ...o });
    return this;
  }
  /** A generic exchange used by fetch, undici and other HTTP clients. */
  exchange(inst, req, mkErr) {
    const w = this.world;
    const route = this.routes.find((r) => r.match(req));
    if (!route) {
      const e = new Unsupported(`no simulated endpoint for ${req.method} ${req.url}`);
      if (this.onMissing) return this.onMissing(inst, req);
      w.fail(e);
      throw e;
    }
    const label = `http.${route.label}`;
    for (const [k, v] of Object.entries(req.headers ?? {})) w.secret(k, v.replace(/^(Basic|Bearer|token) /i, ""));
    this.requests.push({ t: w.now, label: route.label, method: req.method, url: req.url, by: inst.site });
    return inst.rpc({
      kind: "http",
      label,
      lo: this.latency[0],
      hi: this.latency[1],
      slowMs: this.slowMs,
      before: () => mkErr("ECONNREFUSED", "connect ECONNREFUSED"),
      lost: () => mkErr("ECONNRESET", "socket hang up"),
      exec: async () => {
        w.trace("http", `${req.method} ${req.url}`);
        if (!route.noFaults) {
          if (w.fault(`${inst.site}:${label}`, "http.5xx")) return { status: w.pick(`${inst.site}:${label}:code`, [500, 502, 503, 504]), body: "injected failure", headers: { "content-type": "text/plain" }, injected: true };
          if (w.fault(`${inst.site}:${label}`, "http.429")) return { status: 429, body: "throttled", headers: {}, injected: true };
        }
        let res;
        try { res = await route.handle(req, inst); } catch (e) { w.fail(e); throw e; }
        if (!route.noFaults && w.fault(`${inst.site}:${label}`, "http.truncated")) {
          const b = Buffer.from(typeof res.body === "string" || Buffer.isBuffer(res.body) ? res.body : JSON.stringify(res.body));
          return { ...res, body: b.subarray(0, Math.floor(b.length * w.rand(`${label}:trunc`))), truncated: true };
        }
        return res;
      },
    });
  }
  fetch = async (inst, input, init = {}) => {
    const isReq = typeof input === "object" && input !== null && "url" in input && typeof input.url === "string";
    const url = isReq ? input.url : String(input);
    const method = (init?.method ?? (isReq ? input.method : "GET")).toUpperCase();
    const headers = {};
    const hsrc = new Headers(init?.headers ?? (isReq ? input.headers : undefined));
    hsrc.forEach((v, k) => { headers[k] = v; });
    let body;
    if (init?.body !== undefined && init.body !== null) body = typeof init.body === "string" ? init.body : init.body instanceof URLSearchParams ? init.body.toString() : Buffer.isBuffer(init.body) || init.body instanceof Uint8Array ? Buffer.from(init.body).toString() : await new Response(init.body).text();
    else if (isReq && method !== "GET" && method !== "HEAD") body = await input.clone().text();
    const u = new URL(url);
    const req = { method, url, path: u.pathname, query: u.searchParams, headers, body };
    const signal = init?.signal ?? (isReq ? input.signal : undefined);
    const mkErr = (code, msg) => { const e = new TypeError("fetch failed"); e.cause = Object.assign(new Error(msg), { code }); return e; };
    const p = this.exchange(inst, req, mkErr);
    const res = await new Promise((resolve, reject) => {
      if (signal) {
        const onAbort = () => reject(signal.reason ?? new DOMException("This operation was aborted", "AbortError"));
        if (signal.aborted) { p.catch(() => {}); onAbort(); return; }
        signal.addEventListener("abort", onAbort, { once: true });
      }
      p.then(resolve, reject);
    });
    const status = res.status ?? 200;
    let bodyOut = res.body;
    const hdrs = { ...(res.headers ?? {}) };
    if (bodyOut !== undefined && bodyOut !== null && typeof bodyOut === "object" && !Buffer.isBuffer(bodyOut) && !(bodyOut instanceof Uint8Array)) { bodyOut = JSON.stringify(bodyOut); if (!hdrs["content-type"]) hdrs["content-type"] = "application/json"; }
    const noBody = [101, 204, 205, 304].includes(status);
    // a connection that breaks off: noticed by the client, or (closed in an orderly way) taken for the end of the body
    if (res.truncated && !noBody && this.world.rand(`${u.host}:cut`) < 0.5) {
      const part = Buffer.from(bodyOut ?? "");
      let sent = false;
      bodyOut = new ReadableStream({ pull(c) { if (!sent && part.length) { sent = true; c.enqueue(new Uint8Array(part)); } else c.error(new TypeError("terminated")); } });
    }
    const r = new Response(noBody ? null : bodyOut ?? "", { status, statusText: res.statusText, headers: hdrs });
    Object.defineProperty(r, "url", { value: url });
    return r;
  };
}

/** node:http(s) client on top of the simulated endpoints: streamed answers, 'error' on the request, uncaught errors kill the process. */
export function httpsModule(http, proto = "https") {
  return (inst) => {
    const w = inst.world;
    const emit = (em, ev, ...a) => {
      if (ev === "error" && em.listenerCount("error") === 0) { inst.crash(`uncaught ${a[0]?.message}`); return; }
      em.emit(ev, ...a);
    };
    const request = (a, b, c) => {
      let o = typeof a === "string" || a instanceof URL ? (() => { const u = new URL(String(a)); return { protocol: u.protocol, host: u.host, path: u.pathname + u.search }; })() : a;
      let cb = b;
      if (typeof b === "object" && b) { o = { ...o, ...b }; cb = c; }
      const req = new EventEmitter();
      if (typeof cb === "function") req.once("response", cb);
      const body = [];
      let timeout = o.timeout;
      req.setHeader = (k, v) => { (o.headers ??= {})[k] = v; };
      req.write = (d) => { body.push(Buffer.from(d)); return true; };
      req.setTimeout = (ms, f) => { timeout = ms; if (f) req.on("timeout", f); return req; };
      let destroyed = false;
      req.destroy = (e) => { if (destroyed) return req; destroyed = true; inst.deliver(0.01, "destroy", () => { emit(req, "error", e ?? Object.assign(new Error("socket hang up"), { code: "ECONNRESET" })); }); return req; };
      req.abort = req.destroy;
      req.end = (d) => {
        if (d) body.push(Buffer.from(d));
        const headers = {};
        for (const [k, v] of Object.entries(o.headers ?? {})) headers[k.toLowerCase()] = String(v);
        const url = `${o.protocol ?? `${proto}:`}//${o.hostname ?? o.host}${o.port ? `:${o.port}` : ""}${o.path ?? "/"}`;
        const u = new URL(url);
        if (timeout) inst.setTimer(() => { if (!req.answered && !destroyed) req.emit("timeout"); }, timeout, [], false);
        http.exchange(inst, { method: o.method ?? "GET", url, path: u.pathname, query: u.searchParams, headers, body: Buffer.concat(body).toString() }, (code, msg) => Object.assign(new Error(msg), { code })).then((r) => {
          if (destroyed) return;
          req.answered = true;
          const res = new EventEmitter();
          res.statusCode = r.status ?? 200;
          res.headers = { ...(r.headers ?? {}) };
          let enc;
          res.setEncoding = (e) => { enc = e; return res; };
          res.resume = () => res;
          res.pipe = () => { throw new Unsupported("response.pipe"); };
          let bytes = r.body ?? "";
          if (!Buffer.isBuffer(bytes)) bytes = Buffer.from(typeof bytes === "string" ? bytes : JSON.stringify(bytes));
          emit(req, "response", res);
          const n = w.int(`${inst.site}:chunks`, 1, 4);
          let t = 0;
          const sd = new StringDecoder("utf8");
          for (let i = 0; i < n; i++) {
            const part = bytes.subarray(Math.floor((bytes.length * i) / n), Math.floor((bytes.length * (i + 1)) / n));
            t += w.delay(`${inst.site}:chunk`, 0.2, 40);
            inst.deliver(t, "http.data", () => { if (!destroyed && part.length) res.emit("data", enc ? sd.write(part) : part); });
          }
          inst.deliver(t + 0.3, "http.end", () => {
            if (destroyed) return;
            if (r.truncated) { res.complete = false; res.emit("aborted"); emit(res, "error", Object.assign(new Error("aborted"), { code: "ECONNRESET" })); res.emit("close"); } else { res.complete = true; res.emit("end"); res.emit("close"); }
          });
        }, (e) => { if (e instanceof Unsupported) w.fail(e); else if (!destroyed) emit(req, "error", e); });
        return req;
      };
      return req;
    };
    return { request, get: (...a) => { const r = request(...a); r.end(); return r; }, Agent: class {}, globalAgent: {}, __esModule: false };
  };
}
