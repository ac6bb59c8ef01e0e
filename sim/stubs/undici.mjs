// undici: request(), Agent and the retry interceptor on top of the simulated endpoints.
const sim = __SIM__;
const fail = (code, msg) => Object.assign(new Error(msg), { code });
class Body {
  constructor(bytes, truncated) { this.bytes = bytes; this.truncated = truncated; this.bodyUsed = false; }
  async read() {
    if (this.bodyUsed) throw new TypeError("unusable");
    this.bodyUsed = true;
    await new Promise((r) => setTimeout(r, 1));
    if (this.truncated) throw fail("UND_ERR_SOCKET", "other side closed");
    return this.bytes;
  }
  async text() { return (await this.read()).toString(); }
  async json() { return JSON.parse(await this.text()); }
  async arrayBuffer() { const b = await this.read(); return b.buffer.slice(b.byteOffset, b.byteOffset + b.byteLength); }
  async bytesAsync() { return new Uint8Array(await this.read()); }
  async dump() { this.bodyUsed = true; }
  setEncoding() { return this; }
  async *[Symbol.asyncIterator]() { yield await this.read(); }
}
async function once(url, o, agent) {
  const u = new URL(String(url));
  for (const [k, v] of Object.entries(o.query ?? {})) u.searchParams.set(k, v);
  const headers = {};
  for (const [k, v] of Object.entries(o.headers ?? {})) headers[k.toLowerCase()] = String(v);
  const body = o.body === undefined || o.body === null ? undefined : Buffer.isBuffer(o.body) ? o.body : String(o.body);
  const r = await sim.svc.http.exchange(sim, { method: (o.method ?? "GET").toUpperCase(), url: u.href, path: u.pathname, query: u.searchParams, headers, body, tls: agent?.options?.connect }, fail);
  let bytes = r.body ?? "";
  if (!Buffer.isBuffer(bytes)) bytes = Buffer.from(typeof bytes === "string" ? bytes : JSON.stringify(bytes));
  return { statusCode: r.status ?? 200, headers: r.headers ?? {}, trailers: {}, opaque: null, body: new Body(bytes, r.truncated), context: {} };
}
const RETRY_CODES = ["ECONNRESET", "ECONNREFUSED", "ENOTFOUND", "ENETDOWN", "ENETUNREACH", "EHOSTDOWN", "EHOSTUNREACH", "EPIPE", "UND_ERR_SOCKET"];
export const interceptors = {
  retry: (r = {}) => (next) => async (url, o, agent) => {
    const methods = r.methods ?? ["GET", "HEAD", "OPTIONS", "PUT", "DELETE", "TRACE"];
    const codes = r.statusCodes ?? [500, 502, 503, 504, 429];
    const max = r.maxRetries ?? 5;
    for (let n = 0; ; n++) {
      let err;
      try {
        const res = await next(url, o, agent);
        if (!codes.includes(res.statusCode)) return res;
        err = Object.assign(fail("UND_ERR_REQ_RETRY", "Request failed"), { statusCode: res.statusCode });
      } catch (e) {
        if (!RETRY_CODES.includes(e.code)) throw e;
        err = e;
      }
      if (!methods.includes((o.method ?? "GET").toUpperCase()) || n >= max) throw err;
      await new Promise((f) => setTimeout(f, Math.min((r.minTimeout ?? 500) * (r.timeoutFactor ?? 2) ** n, r.maxTimeout ?? 30000)));
    }
  },
  redirect: () => (next) => next,
};
class Dispatcher {
  constructor(options) { this.options = options ?? {}; this.closed = false; this.chain = once; }
  compose(...xs) {
    const d = new Agent(this.options);
    d.chain = xs.flat().reduce((f, x) => x(f), this.chain);
    return d;
  }
  request(o) { return this.chain(new URL(o.path ?? "/", o.origin).href, o, this); }
  async close() { this.closed = true; }
  async destroy() { this.closed = true; }
}
export class Agent extends Dispatcher {}
export class Pool extends Dispatcher {}
export class Client extends Dispatcher {}
export async function request(url, o = {}) { const d = o.dispatcher ?? new Agent(); return d.chain(url, o, d); }
export const fetch = (...a) => globalThis.fetch(...a);
export const setGlobalDispatcher = () => {};
export default { request, Agent, Pool, Client, interceptors, fetch, setGlobalDispatcher };
