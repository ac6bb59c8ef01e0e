// Functions written in Python: one host process (py/host.py) per search process runs their real source in lock-step with the
// simulator. The host blocks on every request, upload, sleep and disk write until the simulator has decided its outcome.
import { execFileSync, spawn } from "node:child_process";
import fs from "node:fs";
import os from "node:os";
import path from "node:path";
import { fileURLToPath } from "node:url";
import { Unsupported } from "./world.mjs";

const HOST = path.join(path.dirname(fileURLToPath(import.meta.url)), "py/host.py");

class Host {
  constructor() {
    const dir = fs.mkdtempSync(path.join(os.tmpdir(), "simpy-"));
    const a = path.join(dir, "in"), b = path.join(dir, "out");
    execFileSync("mkfifo", [a, b]);
    const child = spawn("python3", ["-I", "-B", HOST, a, b], { stdio: ["ignore", "ignore", "inherit"], env: { PATH: process.env.PATH, TZ: "UTC" } });
    child.unref();
    this.w = fs.openSync(a, "w");
    this.r = fs.openSync(b, "r");
    fs.rmSync(dir, { recursive: true });
    this.buf = Buffer.alloc(1 << 20);
    this.rest = "";
    process.on("exit", () => { try { child.kill("SIGKILL"); } catch { /* gone */ } });
  }
  send(m) { let b = Buffer.from(`${JSON.stringify(m)}\n`); while (b.length) b = b.subarray(fs.writeSync(this.w, b)); }
  /** Ends a run that is still waiting for an answer of an earlier simulated execution. */
  settle() { while (this.busy) { this.send({ kill: true }); if (this.read().op === "end") this.busy = false; } }
  read() {
    for (;;) {
      const i = this.rest.indexOf("\n");
      if (i >= 0) { const line = this.rest.slice(0, i); this.rest = this.rest.slice(i + 1); return JSON.parse(line); }
      const n = fs.readSync(this.r, this.buf);
      if (!n) throw new Error("the Python host ended");
      this.rest += this.buf.toString("utf8", 0, n);
    }
  }
}
let host;

/** A Lambda function in Python. `serve(req)` answers requests: {status, body}; `put(req)` stores an upload. */
export class PyFn {
  constructor(world, name, o) {
    host ??= new Host();
    if (PyFn.world !== world) { PyFn.world = world; host.settle(); host.send({ op: "reset", now: 0 }); }
    Object.assign(this, { world, name, n: 0, ...o }); // {source, handler, env, timeoutSec, serve, put}
  }
  async invoke(event) {
    const w = this.world, site = `${this.name}:${this.n++}`;
    await w.sleep(w.delay(`${site}:start`, 1, 20));
    if (this.warm && w.fault(`${this.name}:warm`, "recycle")) this.recycle();
    const started = w.now, limit = started + this.timeoutSec * 1000;
    const clock = () => ({ now: Math.floor(w.now) / 1000 });
    if (host.busy) throw new Unsupported("overlapping Python functions");
    host.busy = true;
    host.send({ op: "run", fn: this.name, source: this.source, handler: this.handler, event, env: this.env, ...clock() });
    this.warm = true;
    const die = (status) => { host.settle(); this.recycle(); w.trace("inv", `${site} ${status}`); return { status, error: new Error(status) }; };
    /** Waits; false when the function's time limit is reached. */
    const wait = async (ms) => { const left = limit - w.now; await w.sleep(Math.max(0.001, Math.min(ms, left))); return ms < left; };
    for (;;) {
      const m = host.read();
      if (m.op === "end") {
        host.busy = false;
        w.trace("inv", `${site} ${m.status} ${m.error ?? ""}`);
        if (m.status === "unsupported") { const e = new Unsupported(`${this.name}: ${m.error}`); w.fail(e); throw e; }
        return { status: m.status, value: m.value, error: m.error ? new Error(m.error) : undefined };
      }
      if (w.fault(`${site}:${m.op}`, "crash")) return die("crash");
      if (m.op === "sleep") { if (!(await wait(m.ms))) return die("timeout"); host.send(clock()); continue; }
      if (m.op === "disk") { host.send({ full: w.fault(`${site}:disk`, "disk.full") }); continue; }
      if (m.op === "get") {
        const label = `${site}:get.${new URL(m.url).pathname}`;
        let ms = w.delay(label, 20, 900), a;
        if (w.fault(label, "http.stall")) ms = 1e9; // no answer; only a timeout of the caller or of the function ends it
        else if (w.fault(label, "http.before")) a = { error: "connection refused" };
        else {
          a = this.serve(m);
          if (w.fault(label, "http.lost")) a = { error: "connection reset" };
          // requests does not notice every answer that breaks off
          else if (w.fault(label, "http.truncated")) a = w.pick(`${label}:cut`, ["told", "silent"]) === "told" ? { error: "cut" } : { ...a, body: a.body.slice(0, w.u32(`${label}:at`) % Math.max(1, a.body.length)) };
          else for (const [kind, status] of [["http.5xx", 503], ["http.429", 429], ["http.404", 404]]) if (w.fault(label, kind)) { a = { status, body: w.pick(`${label}:body`, ['{"message":"Service Unavailable"}', "<html>error</html>", "[]", "{}", ""]) }; break; }
        }
        if (m.timeout && ms > m.timeout * 1000) { ms = m.timeout * 1000; a = { error: "timeout" }; }
        if (!(await wait(ms))) return die("timeout");
        w.trace("http", `${m.url} ${a.status ?? a.error}`);
        host.send({ ...a, ...clock() });
        continue;
      }
      if (m.op === "put") {
        let a = {};
        if (!(await wait(w.delay(`${site}:put`, 5, 2000)))) return die("timeout");
        if (w.fault(`${site}:put`, "s3.before")) a = { error: "upload failed" };
        else {
          this.put(m);
          if (w.fault(`${site}:put`, "s3.lost")) a = { error: "upload failed after it was stored" };
        }
        if (w.fault(`${site}:putdone`, "crash")) return die("crash");
        host.send({ ...a, ...clock() });
        continue;
      }
      throw new Unsupported(`python op ${m.op}`);
    }
  }
  recycle() { this.warm = false; host.send({ op: "recycle", fn: this.name, now: 0 }); }
}
