// Helper of a demonstration: bundles TypeScript of the repository (cwd) with stand-ins for packages that are not installed, and loads it.
import fs from "node:fs";
import os from "node:os";
import path from "node:path";
import { builtinModules, createRequire } from "node:module";
import { pathToFileURL } from "node:url";
const req = createRequire("/opt/veriftools/node/node_modules/");
const esbuild = req("esbuild");
const REPO = process.cwd();
globalThis.__stubs = {};
const auto = (name) => {
  const f = function () {};
  return new Proxy(f, {
    get: (t, k) => (k === "__esModule" ? undefined : k === Symbol.toPrimitive ? () => name : k === "then" ? undefined : (t[k] ??= auto(`${name}.${String(k)}`))),
    apply: () => auto(`${name}()`),
    construct: () => auto(`new ${name}`),
  });
};
globalThis.__stub = (n) => globalThis.__stubs[n] ?? auto(n);
class PreparedStatement { constructor(o) { Object.assign(this, o); } }
const pgPromise = Object.assign(() => { throw new Error("no database in this demonstration"); }, { PreparedStatement, ParameterizedQuery: PreparedStatement, helpers: {}, as: {} });
pgPromise.default = pgPromise;
let n = 0;
/** load("repo/relative.ts" or {code}, {stubs: {package or "repo:path": object}}) */
export async function load(entry, { stubs = {} } = {}) {
  stubs = { "pg-promise": pgPromise, ...stubs };
  Object.assign(globalThis.__stubs, stubs);
  const dir = fs.mkdtempSync(path.join(os.tmpdir(), "demo-"));
  try {
    const plugin = {
      name: "r",
      setup(b) {
        b.onResolve({ filter: /.*/ }, (a) => {
          if (a.kind === "entry-point") return undefined;
          let f;
          const p = a.path;
          if (p.startsWith("node:") || builtinModules.includes(p)) {
            const bare = p.replace(/^node:/, "");
            for (const s of [p, bare, `node:${bare}`]) if (stubs[s]) return { path: s, namespace: "stub" };
            return { path: `node:${bare}`, external: true };
          }
          if (stubs[p]) return { path: p, namespace: "stub" };
          if (p.startsWith("REPO/")) f = path.join(REPO, p.slice(5));
          else if (p.startsWith("@digitraffic/common/dist/")) f = path.join(REPO, "lib/digitraffic-common/src", p.slice(25));
          else if (p.startsWith(".")) f = path.resolve(a.resolveDir, p);
          if (f) {
            f = f.replace(/\.m?js$/, "");
            for (const c of [f, `${f}.ts`, `${f}.tsx`, `${f}/index.ts`, `${f}.js`, `${f}.json`]) {
              if (fs.existsSync(c) && fs.statSync(c).isFile()) {
                const rel = `repo:${path.relative(REPO, c)}`;
                if (stubs[rel]) return { path: rel, namespace: "stub" };
                return { path: c };
              }
            }
          }
          for (const base of [path.join(REPO, "lib/digitraffic-common/"), "/opt/veriftools/node/"]) {
            try { return { path: createRequire(base + "x.js").resolve(p) }; } catch { /* next */ }
          }
          return { path: p, namespace: "stub" };
        });
        b.onLoad({ filter: /.*/, namespace: "stub" }, (a) => ({ contents: `module.exports = globalThis.__stub(${JSON.stringify(a.path)});`, loader: "js" }));
      },
    };
    const out = path.join(dir, `m${n++}.mjs`);
    const opt = typeof entry === "string" ? { entryPoints: [path.join(REPO, entry)] } : { stdin: { contents: entry.code, resolveDir: REPO, loader: "ts" } };
    await esbuild.build({ ...opt, bundle: true, platform: "node", format: "esm", target: "node20", outfile: out, logLevel: "error", plugins: [plugin], banner: { js: "import { createRequire as __cr } from 'node:module'; const require = __cr('/opt/veriftools/node/x.js'); const __filename='/x', __dirname='/';" } });
    return await import(pathToFileURL(out).href);
  } finally {
    fs.rmSync(dir, { recursive: true, force: true });
  }
}
export function expect(cond, msg) {
  if (!cond) { console.log(`DEMO FAILS: ${msg}`); process.exit(1); }
}
export const done = () => { console.log("demo ok"); process.exit(0); };
/** Minimal pg-promise-like database: handler(sql, values) → rows; tx rolls the state back when it fails. */
export function fakeDb(handler, state = {}) {
  const text = (q) => (typeof q === "string" ? q : q?.text ?? String(q));
  const run = async (q, v) => (await handler(text(q).replace(/\s+/g, " "), v ?? q?.values, state)) ?? [];
  const db = {
    none: async (q, v) => { await run(q, v); return null; },
    any: run, manyOrNone: run, query: run, many: run,
    one: async (q, v, f) => { const r = await run(q, v); if (r.length !== 1) throw new Error(`one: ${r.length} rows`); return f ? f(r[0]) : r[0]; },
    oneOrNone: async (q, v) => { const r = await run(q, v); if (r.length > 1) throw new Error("oneOrNone: many"); return r[0] ?? null; },
    result: async (q, v, f) => { const r = await run(q, v); const x = { rows: r, rowCount: r.length }; return f ? f(x) : x; },
    batch: (l) => Promise.all(l),
    task: (a, b) => (b ?? a)(db),
    tx: async (a, b) => { const save = structuredClone(state.data); try { return await (b ?? a)(db); } catch (e) { state.data = save; throw e; } },
    $pool: { end: async () => {} },
  };
  return db;
}
