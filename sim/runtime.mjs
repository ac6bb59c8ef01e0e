// Bundles the real TypeScript of /repo's working tree in memory and evaluates it per simulated process
// ("instance"), with every source of nondeterminism replaced by a seam of the World.
import { createRequire, builtinModules } from "node:module";
import path from "node:path";
import fs from "node:fs";
import vm from "node:vm";
import { format } from "node:util";
import { fileURLToPath } from "node:url";
import { hash32, Unsupported } from "./world.mjs";

const HERE = path.dirname(fileURLToPath(import.meta.url));
export const REPO = process.env.VERIF_REPO ?? "/repo";
const LIB = path.join(REPO, "lib/digitraffic-common");
const TOOLS = "/opt/veriftools/node/node_modules";
const toolRequire = createRequire(path.join(TOOLS, "x.js"));
const esbuild = toolRequire("esbuild");
const nodeRequire = createRequire(import.meta.url);

const STUBS = {
  pg: "pg.cjs",
  "@aws-sdk/client-s3": "aws-s3.cjs",
  "@aws-sdk/lib-storage": "aws-lib-storage.mjs",
  "@aws-sdk/client-secrets-manager": "aws-secrets.cjs",
  "@aws-sdk/client-sqs": "aws-sqs.cjs",
  "@aws-sdk/client-sns": "aws-sns.cjs",
  "@aws-sdk/client-sts": "aws-sts.cjs",
  "@aws-sdk/client-ssm": "aws-ssm.cjs",
  "@aws-sdk/client-api-gateway": "aws-apigw.cjs",
  "@aws-sdk/client-cloudwatch-logs": "aws-cloudwatch-logs.cjs",
  "@aws-sdk/client-cloudfront": "aws-cloudfront.cjs",
  "sqs-extended-client": "sqs-extended-client.mjs",
  "@middy/core": "middy.mjs",
  "@middy/sqs-partial-batch-failure": "middy-sqs.mjs",
  "mysql2/promise": "mysql2-promise.mjs",
  "mysql2/promise.js": "mysql2-promise.mjs",
  mysql: "mysql.mjs",
  "@smithy/fetch-http-handler": "smithy-fetch.mjs",
  xml2js: "xml2js.mjs",
  "@rgrove/parse-xml": "parse-xml.mjs",
  kysely: "kysely.mjs",
  undici: "undici.mjs",
  uuid: "uuid.mjs",
  mqtt: "mqtt.mjs",
  "amazon-cognito-identity-js": "cognito.mjs",
  ws: "ws.mjs",
  wkx: "wkx.mjs",
  Synthetics: "synthetics.mjs",
  vitest: "vitest.mjs",
  "ajv-formats": "ajv-formats.mjs",
  "@std/csv": "std-csv.mjs",
  "@smithy/signature-v4": "smithy-sigv4.mjs",
  "@smithy/node-http-handler": "smithy-nodehttp.mjs",
  "@smithy/protocol-http": "smithy-protocol-http.mjs",
  "@aws-crypto/sha256-browser": "sha256.mjs",
};

const builtins = new Set(builtinModules);

function resolverPlugin(extraStubs = {}) {
  const stubs = { ...STUBS, ...extraStubs };
  return {
    name: "sim-resolver",
    setup(build) {
      build.onResolve({ filter: /^virtual:/ }, (a) => ({ path: a.path, namespace: "virtual" }));
      build.onLoad({ filter: /.*/, namespace: "virtual" }, (a) => ({ contents: extraStubs.__virtual[a.path], loader: "ts", resolveDir: path.join(LIB, "src") }));
      build.onResolve({ filter: /^REPO\// }, (a) => {
        const p = path.join(REPO, a.path.slice(5));
        return fs.existsSync(p) ? { path: p } : { errors: [{ text: `cannot resolve ${a.path}` }] };
      });
      build.onResolve({ filter: /^@digitraffic\/common\/dist\// }, (a) => {
        const rel = a.path.replace("@digitraffic/common/dist/", "").replace(/\.js$/, "");
        for (const ext of [".ts", "/index.ts"]) {
          const p = path.join(LIB, "src", rel + ext);
          if (fs.existsSync(p)) return { path: p };
        }
        return { errors: [{ text: `cannot resolve ${a.path}` }] };
      });
      build.onResolve({ filter: /^[^./]/ }, async (a) => {
        if (a.pluginData === "inner") return;
        if (a.path.startsWith("node:") || builtins.has(a.path)) return { path: a.path, external: true };
        if (typeof stubs[a.path] === "string") return { path: stubs[a.path].startsWith("/") ? stubs[a.path] : path.join(HERE, "stubs", stubs[a.path]) };
        if (path.isAbsolute(a.path)) return;
        for (const dir of [a.resolveDir, path.join(LIB, "src"), path.join(LIB, "node_modules/.pnpm/node_modules"), path.join(TOOLS, "..")]) {
          const r = await build.resolve(a.path, { resolveDir: dir, kind: a.kind, pluginData: "inner" });
          if (!r.errors.length) return r;
        }
        return { path: a.path, namespace: "missing" };
      });
      build.onLoad({ filter: /.*/, namespace: "missing" }, (a) => ({
        contents: `module.exports = __SIM__.missing(${JSON.stringify(a.path)})`,
        loader: "js",
      }));
    },
  };
}

/** Bundle entry files of the repo; returns {name: vm function}. Throws BuildError when the tree does not compile. */
export class BuildError extends Error {}

/** Build results of one check, shared by its search processes through a directory that lives as long as the check. */
export async function shared(key, make) {
  const dir = process.env.SIM_CACHE;
  if (!dir) return make();
  const f = path.join(dir, `${nodeRequire("node:crypto").createHash("sha1").update(JSON.stringify(key)).digest("hex")}.json`);
  if (fs.existsSync(f)) return JSON.parse(fs.readFileSync(f, "utf8"));
  const v = await make();
  fs.writeFileSync(`${f}.${process.pid}`, JSON.stringify(v));
  fs.renameSync(`${f}.${process.pid}`, f);
  return v;
}

export async function bundle(entries, opts = {}) {
  const out = {};
  const entryPoints = {};
  const virtual = {};
  for (const [k, v] of Object.entries(entries)) {
    // {code} is a virtual entry: harness glue that only re-exports repository modules
    if (typeof v === "object") { virtual[`virtual:${k}`] = v.code; entryPoints[k] = `virtual:${k}`; }
    else entryPoints[k] = path.isAbsolute(v) ? v : path.join(REPO, v);
  }
  const texts = await shared(["bundle", entries, opts], async () => {
    let res;
    try {
      res = await esbuild.build({
        entryPoints,
        bundle: true,
        write: false,
        outdir: "/out",
        format: opts.esm ? "esm" : "cjs", // esm: for modules that await at top level
        platform: "node",
        target: "node22",
        logLevel: "silent",
        mainFields: ["main", "module"],
        conditions: ["node"],
        plugins: [resolverPlugin({ ...opts.stubs, __virtual: virtual })],
        tsconfigRaw: { compilerOptions: { target: "es2022", useDefineForClassFields: true } },
        define: { "import.meta.url": '"file:///var/task/index.mjs"' },
      });
    } catch (e) {
      throw new BuildError(`bundle failed: ${e.message}`);
    }
    return res.outputFiles.map((f) => [path.relative("/out", f.path).replace(/\.js$/, ""), f.text]);
  });
  for (const [name, text] of texts) out[name] = opts.esm ? compile(name, esmBody(text, "Object.assign(module.exports, ", ")"), true) : compile(name, text);
  return out;
}

/** Bundle TypeScript glue for evaluation outside the simulation (CDK synthesis): CDK stays external. */
export async function esbuildFor(code) {
  try {
    const res = await esbuild.build({
      entryPoints: { x: "virtual:x" }, bundle: true, write: false, outdir: "/out", format: "cjs", platform: "node", target: "node22", logLevel: "silent",
      mainFields: ["main", "module"],
      plugins: [{ name: "ext", setup(b) { b.onResolve({ filter: /^(aws-cdk-lib|constructs|esbuild)(\/|$)/ }, (a) => ({ path: a.path, external: true })); } }, resolverPlugin({ __virtual: { "virtual:x": code } })],
      tsconfigRaw: { compilerOptions: { target: "es2022", useDefineForClassFields: true, experimentalDecorators: true } },
      define: { "import.meta.url": '"file:///var/task/index.mjs"' },
    });
    return res.outputFiles[0].text.replaceAll("__SIM__", "globalThis.__SYNTH__");
  } catch (e) {
    throw new BuildError(`bundle failed: ${e.message}`);
  }
}

/**
 * Bundles glue as an ES module would be loaded in production (imported names stay as written, which matters for code
 * that serialises its own functions) and evaluates it outside the simulation.
 */
export async function evalEsm(code, requireFn) {
  let text;
  try {
    const res = await esbuild.build({
      entryPoints: { x: "virtual:x" }, bundle: true, write: false, outdir: "/out", format: "esm", platform: "node", target: "node22", logLevel: "silent",
      plugins: [{ name: "ext", setup(b) { b.onResolve({ filter: /^[^./]/ }, (a) => (/^(virtual:|REPO\/|@digitraffic\/)/.test(a.path) ? undefined : { path: a.path, external: true })); } }, resolverPlugin({ __virtual: { "virtual:x": code } })],
      tsconfigRaw: { compilerOptions: { target: "es2022", useDefineForClassFields: true } },
    });
    text = res.outputFiles[0].text;
  } catch (e) {
    throw new BuildError(`bundle failed: ${e.message}`);
  }
  text = esmBody(text, "return ", "");
  return new Function("require", text)(requireFn);
}

/** The text of an edge function as the repository's build prints it: CommonJS whose exports come last, on their own lines. */
export async function edgeText(entry, opts = {}) {
  return shared(["edge", entry], async () => {
    let text;
    try {
      const res = await esbuild.build({
        entryPoints: { x: path.join(REPO, entry) }, bundle: true, write: false, outdir: "/out", format: "esm", platform: "node", target: "node22", logLevel: "silent",
        mainFields: ["main", "module"], conditions: ["node"], plugins: [resolverPlugin({ ...opts.stubs, __virtual: {} })],
        tsconfigRaw: { compilerOptions: { target: "es2022", useDefineForClassFields: true } },
      });
      text = res.outputFiles[0].text;
    } catch (e) {
      throw new BuildError(`bundle failed: ${e.message}`);
    }
    text = text.replace(/^export \{([^}]*)\};$/gm, (_m, n) => n.split(",").map((x) => x.trim()).filter(Boolean).map((x) => { const [a, b] = x.split(" as "); return `exports.${b ?? a} = ${a};`; }).join("\n"));
    return esmBody(text, "", "");
  });
}
export const compileText = (name, text) => compile(name, text);

/** Turns the text of an ES module, as esbuild prints it, into a function body with require(). */
function esmBody(text, open, close) {
  // esbuild prints imports and exports in one canonical form
  const dft = (f) => `((m) => m && m.__esModule && "default" in m ? m.default : m)(require(${f}))`;
  return text
    .replace(/^import \* as (\w+) from ("[^"]+");$/gm, "const $1 = require($2);")
    .replace(/^import (\w+), \{([^}]*)\} from ("[^"]+");$/gm, (_m, d, n, f) => `const { default: ${d}, ${n.replaceAll(" as ", ": ")} } = require(${f});`)
    .replace(/^import \{([^}]*)\} from ("[^"]+");$/gm, (_m, n, f) => `const {${n.replaceAll(" as ", ": ")}} = require(${f});`)
    .replace(/^import (\w+) from ("[^"]+");$/gm, (_m, n, f) => `const ${n} = ${dft(f)};`)
    .replace(/^import ("[^"]+");$/gm, "require($1);")
    .replace(/^export \{([^}]*)\};$/gm, (_m, n) => `${open}{${n.split(",").map((x) => x.trim()).filter(Boolean).map((x) => { const [a, b] = x.split(" as "); return `${b ?? a}: ${a}`; }).join(", ")}}${close};`);
}

const PARAMS = [
  "require", "module", "exports", "__filename", "__dirname", "__SIM__",
  "globalThis", "global", "process", "Date", "Math", "console",
  "setTimeout", "clearTimeout", "setInterval", "clearInterval", "setImmediate", "clearImmediate",
  "fetch", "crypto", "performance", "AbortSignal",
];

function compile(name, text, isAsync = false) {
  const script = new vm.Script(`(${isAsync ? "async " : ""}function(${PARAMS.join(",")}){${text}\n})`, { filename: `${name}.bundle.js` });
  return script.runInThisContext();
}

const RealDate = Date;
function makeDate(nowFn) {
  return new Proxy(RealDate, {
    construct(t, args, nt) {
      const target = nt === undefined ? t : nt;
      if (args.length === 0) return Reflect.construct(t, [nowFn()], target);
      return Reflect.construct(t, args, target);
    },
    apply() {
      return new RealDate(nowFn()).toString();
    },
    get(t, k) {
      if (k === "now") return nowFn;
      return t[k];
    },
  });
}

let instanceSerial = 0;

/** One simulated OS process (a Lambda execution environment, or a plain process running library code). */
export class Instance {
  constructor(world, name, code, { env = {}, svc = {}, clockSkew = 0, region = "eu-west-1", site, invN = 0 } = {}) {
    this.world = world;
    this.name = name; // stable function name, used in site names
    this.serial = instanceSerial++;
    this.invN = invN;
    this.state = "running";
    this.pending = [];
    this.svc = svc;
    this.env = { AWS_REGION: region, AWS_DEFAULT_REGION: region, AWS_LAMBDA_FUNCTION_NAME: name, AWS_EXECUTION_ENV: "AWS_Lambda_nodejs22.x", ...env };
    this.clockSkew = clockSkew;
    for (const [k, v] of Object.entries(this.env)) world.secret(k, v);
    this.onCrash = [];
    this.timers = new Map();
    this.timerSeq = 1;
    this.handles = new Set(); // open connections, closed on crash
    this.exports = undefined;
    this.site = site ?? name;
    this._load(code);
  }
  nowMs() {
    return Math.floor(this.world.now + this.clockSkew);
  }
  missing(pkg) {
    const inst = this;
    const thrower = () => {
      const e = new Unsupported(`package ${pkg} is not available in the simulator`);
      inst.world.fail(e);
      throw e;
    };
    const self = new Proxy(function () {}, {
      getPrototypeOf: () => self,
      get: (_t, k) => (k === "__esModule" ? true : k === "prototype" ? {} : typeof k === "symbol" || k === "then" ? undefined : inst.missing(`${pkg}.${String(k)}`)),
      apply: thrower,
      construct: thrower,
      ownKeys: () => ["prototype"],
    });
    return self;
  }
  _load(code) {
    const inst = this;
    const w = this.world;
    const DateP = makeDate(() => inst.nowMs());
    this.Date = DateP;
    const g = Object.create(globalThis);
    const MathP = Object.create(Math, {});
    for (const k of Object.getOwnPropertyNames(Math)) Object.defineProperty(MathP, k, { value: Math[k], configurable: true, writable: true });
    MathP.random = () => w.rand(`${inst.site}:Math.random`);
    const setTimeoutP = (fn, ms = 0, ...args) => inst.setTimer(fn, ms, args, false);
    const setIntervalP = (fn, ms = 0, ...args) => inst.setTimer(fn, ms, args, true);
    const clearP = (h) => inst.clearTimer(h);
    const setImmediateP = (fn, ...args) => inst.setTimer(fn, 0, args, false, true);
    setTimeoutP[Symbol.for("nodejs.util.promisify.custom")] = (ms, v) => new Promise((r) => inst.setTimer(() => r(v), ms, [], false));
    const sink = { write: (_s, a, b) => { w.logged(inst.site, _s); if (globalThis.process.env.SIM_LOG) globalThis.process.stderr.write(String(_s)); const cb = typeof a === "function" ? a : b; if (cb) queueMicrotask(cb); return true; }, on() { return this; }, once() { return this; }, end() {}, isTTY: false };
    const proc = Object.create(process);
    Object.defineProperties(proc, {
      env: { value: this.env, writable: true },
      stdout: { value: sink },
      stderr: { value: sink },
      on: { value: () => proc }, once: { value: () => proc }, off: { value: () => proc }, addListener: { value: () => proc },
      removeListener: { value: () => proc }, removeAllListeners: { value: () => proc }, emit: { value: () => false },
      emitWarning: { value: () => {} },
      exit: { value: (c) => inst.crash(`process.exit(${c})`) },
      hrtime: { value: Object.assign((prev) => { const ns = w.now - w.start; const s = Math.floor(ns / 1000); const n = Math.floor((ns % 1000) * 1e6); return prev ? [s - prev[0], n - prev[1]] : [s, n]; }, { bigint: () => BigInt(Math.floor((w.now - w.start) * 1e6)) }) },
      uptime: { value: () => (w.now - w.start) / 1000 },
    });
    const perf = { now: () => w.now - w.start, timeOrigin: w.start, mark() {}, measure() {} };
    const rndBytes = (n) => {
      const b = Buffer.alloc(n);
      for (let i = 0; i < n; i++) b[i] = w.u32(`${inst.site}:rnd`) & 255;
      return b;
    };
    const uuid = () => {
      const b = rndBytes(16);
      b[6] = (b[6] & 0x0f) | 0x40;
      b[8] = (b[8] & 0x3f) | 0x80;
      const h = b.toString("hex");
      return `${h.slice(0, 8)}-${h.slice(8, 12)}-${h.slice(12, 16)}-${h.slice(16, 20)}-${h.slice(20)}`;
    };
    this.uuid = uuid;
    const nodeCrypto = nodeRequire("node:crypto");
    const cryptoMod = new Proxy(nodeCrypto, {
      get: (t, k) =>
        k === "randomUUID" ? uuid
        : k === "randomBytes" ? (n, cb) => { const b = rndBytes(n); if (cb) cb(null, b); return b; }
        : k === "randomInt" ? (a, b) => (b === undefined ? Math.floor(MathP.random() * a) : a + Math.floor(MathP.random() * (b - a)))
        : k === "webcrypto" ? cryptoWeb : t[k],
    });
    const cryptoWeb = new Proxy(globalThis.crypto, {
      get: (t, k) => (k === "randomUUID" ? uuid : k === "getRandomValues" ? (arr) => { const b = rndBytes(arr.byteLength); new Uint8Array(arr.buffer, arr.byteOffset, arr.byteLength).set(b); return arr; } : typeof t[k] === "function" ? t[k].bind(t) : t[k]),
    });
    const fetchP = (input, init) => {
      if (!inst.svc.fetch) throw new Unsupported("fetch without an HTTP service");
      return inst.svc.fetch(inst, input, init);
    };
    const AbortSignalP = new Proxy(AbortSignal, {
      get: (t, k) =>
        k === "timeout"
          ? (ms) => { const c = new AbortController(); inst.setTimer(() => c.abort(new DOMException("The operation was aborted due to timeout", "TimeoutError")), ms, [], false); return c.signal; }
          : typeof t[k] === "function" ? t[k].bind(t) : t[k],
    });
    const quiet = (...a) => { if (w.watchLogs) w.logged(inst.site, format(...a)); };
    const consoleP = { log: quiet, info: quiet, warn: quiet, error: quiet, debug: quiet, trace: quiet, table: quiet, group: quiet, groupEnd: quiet, time: quiet, timeEnd: quiet };
    const timersPromises = { setTimeout: (ms, v) => new Promise((r) => inst.setTimer(() => r(v), ms, [], false)), setImmediate: (v) => new Promise((r) => inst.setTimer(() => r(v), 0, [], false)), scheduler: { wait: (ms) => new Promise((r) => inst.setTimer(r, ms, [], false)) } };
    const overrides = { Date: DateP, Math: MathP, console: consoleP, setTimeout: setTimeoutP, clearTimeout: clearP, setInterval: setIntervalP, clearInterval: clearP, setImmediate: setImmediateP, clearImmediate: clearP, fetch: fetchP, crypto: cryptoWeb, performance: perf, AbortSignal: AbortSignalP, process: proc };
    for (const [k, v] of Object.entries(overrides)) Object.defineProperty(g, k, { value: v, writable: true, configurable: true });
    g.globalThis = g;
    g.global = g;
    const req = (id) => {
      const b = id.replace(/^node:/, "");
      if (inst.svc.modules?.[b]) return inst.svc.modules[b](inst);
      switch (b) {
        case "crypto": return cryptoMod;
        case "timers/promises": return timersPromises;
        case "timers": return { setTimeout: setTimeoutP, clearTimeout: clearP, setInterval: setIntervalP, clearInterval: clearP, setImmediate: setImmediateP, clearImmediate: clearP, promises: timersPromises };
        case "process": return proc;
        case "perf_hooks": return { performance: perf };
        case "fs": case "fs/promises": case "child_process": case "net": case "tls": case "dns": case "http": case "https": case "http2": case "cluster": case "worker_threads":
          if (inst.svc.allowModules?.includes(b)) return nodeRequire(id);
          return inertModule(b, inst);
        default: return nodeRequire(id);
      }
    };
    const module = { exports: {} };
    this.module = module;
    w.currentInst = this;
    const loading = code(req, module, module.exports, "/var/task/index.js", "/var/task", this, g, g, proc, DateP, MathP, consoleP, setTimeoutP, clearP, setIntervalP, clearP, setImmediateP, clearP, fetchP, cryptoWeb, perf, AbortSignalP);
    this.exports = module.exports;
    // a module that awaits at top level is initialised before its handler is called
    if (loading) { this.ready = loading.then(() => { this.ready = undefined; }); this.ready.catch(() => {}); }
  }
  setTimer(fn, ms, args, repeat, immediate = false) {
    const id = this.timerSeq++;
    let d = Number(ms);
    if (!(d >= 1)) d = immediate ? 0 : 1;
    if (d > 2147483647) d = 1; // as Node does
    d = Math.trunc(d);
    const inst = this;
    const handle = { id, ref: () => handle, unref: () => handle, hasRef: () => true, refresh: () => handle, [Symbol.toPrimitive]: () => id, close: () => inst.clearTimer(handle) };
    const rec = { handle, cancelled: false };
    this.timers.set(id, rec);
    const arm = () => {
      rec.ev = this.world.after(d, `timer:${this.name}`, () => {
        if (rec.cancelled || this.state === "dead") return;
        this.deliverNow(() => {
          if (rec.cancelled) return;
          if (repeat) arm();
          else this.timers.delete(id);
          fn(...args);
        });
      });
    };
    arm();
    return handle;
  }
  clearTimer(h) {
    if (h === undefined || h === null) return;
    const id = typeof h === "object" ? h.id : Number(h);
    const rec = this.timers.get(id);
    if (rec) {
      rec.cancelled = true;
      if (rec.ev) rec.ev.cancelled = true;
      this.timers.delete(id);
    }
  }
  /** Run fn inside this process now, or when it is thawed; dropped when it is dead. */
  deliverNow(fn) {
    if (this.state === "dead") return;
    if (this.state === "frozen") {
      this.pending.push(fn);
      return;
    }
    this.world.currentInst = this;
    this.world.actorStep(this.name);
    fn();
  }
  deliver(delay, label, fn) {
    this.world.after(delay, label, () => this.deliverNow(fn));
  }
  freeze() {
    if (this.state === "running") this.state = "frozen";
  }
  thaw() {
    if (this.state !== "frozen") return;
    this.state = "running";
    const p = this.pending;
    this.pending = [];
    for (const fn of p) this.deliver(0.0005, `thaw:${this.name}`, fn);
  }
  crash(reason) {
    if (this.state === "dead") return;
    this.state = "dead";
    this.world.trace("crash", `${this.name} ${reason}`);
    for (const rec of this.timers.values()) {
      rec.cancelled = true;
      if (rec.ev) rec.ev.cancelled = true;
    }
    this.timers.clear();
    this.pending = [];
    for (const h of [...this.handles]) h();
    this.handles.clear();
    const cbs = this.onCrash;
    this.onCrash = [];
    for (const cb of cbs) cb(reason);
  }
  /**
   * One request to an outside service. `exec` runs at the service; faults:
   *  <k>.before   error, request never executed
   *  <k>.lost     executed, but the caller sees an error (unknown outcome)
   *  slow         long response
   *  crash        this process dies before sending / after execution
   */
  rpc({ kind, label, exec, lo = 1, hi = 30, before, lost, noCrash = false, slowMs = 0 }) {
    const w = this.world;
    const site = `${this.site}:${label}`;
    const inst = this;
    return new Promise((resolve, reject) => {
      if (this.state === "dead") return; // a dead process never observes anything
      if (!noCrash && w.fault(site, "crash")) {
        // die before or after the request has left
        if (w.rand(`${site}:crashside`) < 0.5) {
          inst.crash("fault");
          return;
        }
        w.after(w.delay(site, lo, hi), `${label}:exec`, () => { try { Promise.resolve(exec()).catch(() => {}); } catch { /* executed and failed at the service */ } inst.crash("fault"); });
        return;
      }
      const fin = (fn) => inst.deliver(w.delay(`${site}:r`, lo, hi) + (slowMs && w.fault(site, "slow") ? slowMs : 0), `${label}:reply`, fn);
      if (before && w.fault(site, `${kind}.before`)) {
        fin(() => reject(before()));
        return;
      }
      w.after(w.delay(site, lo, hi), `${label}:exec`, () => {
        if (w.fatal) return;
        let p;
        try {
          p = Promise.resolve(exec());
        } catch (e) {
          p = Promise.reject(e);
        }
        p.then(
          (v) => {
            if (lost && w.fault(site, `${kind}.lost`)) fin(() => reject(lost()));
            else fin(() => resolve(v));
          },
          (e) => {
            if (e instanceof Unsupported) { w.fail(e); return; }
            fin(() => reject(e));
          },
        );
      });
    });
  }
}

function inertModule(name, inst) {
  if (name === "http" || name === "https") {
    const real = nodeRequire(`node:${name}`);
    return new Proxy(real, { get: (t, k) => (k === "request" || k === "get" ? () => { const e = new Unsupported(`${name}.${String(k)}`); inst.world.fail(e); throw e; } : t[k]) });
  }
  if (name === "fs" || name === "fs/promises") {
    return new Proxy({}, { get: (_t, k) => (k === "__esModule" ? false : k === "promises" ? inertModule("fs/promises", inst) : k === "existsSync" ? () => false : () => { const e = new Unsupported(`${name}.${String(k)}`); inst.world.fail(e); throw e; }), ownKeys: () => [] });
  }
  return nodeRequire(`node:${name}`);
}

export { hash32 };
