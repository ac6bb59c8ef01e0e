// ws: a WebSocket client of the simulated event server (EventEmitter interface, no reconnecting).
import { EventEmitter } from "node:events";
const sim = __SIM__;
export class WebSocket extends EventEmitter {
  static CONNECTING = 0; static OPEN = 1; static CLOSING = 2; static CLOSED = 3;
  CONNECTING = 0; OPEN = 1; CLOSING = 2; CLOSED = 3;
  constructor(url, protocols, opts) {
    super();
    const o = opts ?? (protocols && typeof protocols === "object" && !Array.isArray(protocols) ? protocols : {});
    this.url = String(url);
    this.readyState = 0;
    sim.svc.ws.connect(sim, this, { url: this.url, headers: Object.fromEntries(Object.entries(o.headers ?? {}).map(([k, v]) => [k.toLowerCase(), v])) });
  }
  send(data, cb) {
    if (this.readyState === 0) throw new Error("WebSocket is not open: readyState 0 (CONNECTING)");
    if (this.readyState !== 1) { cb?.(new Error(`WebSocket is not open: readyState ${this.readyState}`)); return; }
    sim.svc.ws.message(sim, this, Buffer.from(data).toString());
    cb?.();
  }
  close() { if (this.readyState >= 2) return; this.readyState = 2; sim.svc.ws.closed(sim, this); }
  terminate() { this.close(); }
  addEventListener(e, f) { this.on(e, e === "message" ? (d) => f({ data: d.toString() }) : f); }
}
export default WebSocket;
