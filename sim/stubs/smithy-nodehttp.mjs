// NodeHttpHandler: the response body is a stream, which ends without "end" when the connection breaks.
import { EventEmitter } from "node:events";
const sim = __SIM__;
class Body extends EventEmitter {
  constructor(bytes, truncated) {
    super();
    this.started = false;
    this.bytes = bytes;
    this.truncated = truncated;
  }
  on(ev, fn) {
    super.on(ev, fn);
    if (ev === "data" && !this.started) { this.started = true; setTimeout(() => this._flow(), 1); }
    return this;
  }
  addListener(ev, fn) { return this.on(ev, fn); }
  _flow() {
    const half = Math.ceil(this.bytes.length / 2);
    for (const part of [this.bytes.subarray(0, half), this.bytes.subarray(half)]) if (part.length) this.emit("data", part);
    setTimeout(() => {
      if (this.truncated === "end") { this.emit("end"); this.emit("close"); return; }
      if (this.truncated) {
        this.emit("aborted");
        // node reports a broken response as an error only to those who listen
        if (this.listenerCount("error")) this.emit("error", Object.assign(new Error("aborted"), { code: "ECONNRESET" }));
        this.emit("close");
        return;
      }
      this.emit("end");
      this.emit("close");
    }, 1);
  }
  setEncoding() { return this; }
  async *[Symbol.asyncIterator]() { if (this.truncated && this.truncated !== "end") throw Object.assign(new Error("aborted"), { code: "ECONNRESET" }); yield this.bytes; }
}
export class NodeHttpHandler {
  constructor(o) { this.o = o; }
  async handle(request) {
    const q = Object.entries(request.query ?? {}).map(([k, v]) => `${k}=${v}`).join("&");
    const url = `${request.protocol.replace(/:?$/, ":")}//${request.hostname}${request.path}${q ? `?${q}` : ""}`;
    const u = new URL(url);
    const headers = {};
    for (const [k, v] of Object.entries(request.headers ?? {})) headers[k.toLowerCase()] = String(v);
    const r = await sim.svc.http.exchange(sim, { method: request.method, url, path: u.pathname, query: u.searchParams, headers, body: request.body === undefined ? undefined : String(request.body) }, (code, msg) => Object.assign(new Error(msg), { code }));
    let bytes = r.body ?? "";
    if (!Buffer.isBuffer(bytes)) bytes = Buffer.from(typeof bytes === "string" ? bytes : JSON.stringify(bytes));
    return { response: { statusCode: r.status ?? 200, reason: r.reason ?? "", headers: r.headers ?? {}, body: new Body(bytes, r.truncated && (bytes.length % 2 ? "end" : true)) } };
  }
  destroy() {}
}
