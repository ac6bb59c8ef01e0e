// mqtt: a client of the simulated broker (QoS 0 publishing, clean end).
const sim = __SIM__;
class Client {
  constructor(session) { this.session = session; if (session) session.held = true; this.connected = true; this.handlers = {}; }
  on(e, f) { (this.handlers[e] ??= []).push(f); return this; }
  once(e, f) { return this.on(e, f); }
  off() { return this; }
  removeListener() { return this; }
  publishAsync(topic, payload, opts) {
    if (this.ending) return Promise.reject(new Error("client disconnecting"));
    return sim.svc.mqtt.publish(sim, this.session, topic, Buffer.isBuffer(payload) ? payload : Buffer.from(String(payload)), opts ?? {});
  }
  publish(topic, payload, opts, cb) { if (typeof opts === "function") { cb = opts; opts = {}; } this.publishAsync(topic, payload, opts).then(() => cb?.(), (e) => cb?.(e)); return this; }
  endAsync() { this.ending = true; if (this.session) this.session.ended = true; this.connected = false; return sim.svc.mqtt.end(sim, this.session); }
  end(force, opts, cb) { const f = [force, opts, cb].find((x) => typeof x === "function"); this.endAsync().then(() => f?.(), () => f?.()); return this; }
}
function options(url, o) {
  if (typeof url !== "string") return url;
  const u = new URL(url);
  return { protocol: u.protocol.replace(":", ""), host: u.hostname, port: u.port ? Number(u.port) : undefined, ...o };
}
export async function connectAsync(url, o) { return new Client(await sim.svc.mqtt.connect(sim, options(url, o))); }
export function connect(url, o) {
  const c = new Client(undefined);
  c.connected = false;
  sim.svc.mqtt.connect(sim, options(url, o)).then((s) => { c.session = s; s.held = true; if (c.ending) s.ended = true; c.connected = true; (c.handlers.connect ?? []).forEach((f) => f()); }, (e) => (c.handlers.error ?? []).forEach((f) => f(e)));
  return c;
}
export default { connect, connectAsync };
