// Seeded search driver: runs many simulated executions of a property's scenarios, checks them, minimises failures,
// writes replay files and evidence.
import fs from "node:fs";
import os from "node:os";
import { spawn } from "node:child_process";
import path from "node:path";
import { fileURLToPath } from "node:url";
import { Unsupported, World, hash32, Rng } from "./world.mjs";
import { BuildError } from "./runtime.mjs";

process.env.TZ = "UTC";
const HERE = path.dirname(fileURLToPath(import.meta.url));
const ROOT = path.resolve(HERE, "..");
const realNow = Date.now.bind(Date);

let activeWorld;
process.on("unhandledRejection", (reason) => {
  const w = activeWorld;
  if (reason instanceof Unsupported) { w?.fail(reason); return; }
  const inst = w?.currentInst;
  if (inst && inst.state !== "dead") {
    w.probe("unhandledRejection");
    inst.unhandled = reason;
    inst.crash(`unhandledRejection: ${reason?.message ?? reason}`);
    return;
  }
  if (w && inst) return; // dead process
  if (w) w.fail(reason instanceof Error ? reason : new Error(`harness rejection: ${reason}`));
  else { console.error("unhandled rejection outside a run", reason); process.exit(2); }
});

function args() {
  const a = process.argv.slice(2);
  const o = { tier: process.env.VERIF_TIER === "thorough" ? "thorough" : "quick", seed: Number(process.env.VERIF_SEED ?? 1) || 1 };
  o.id = a.shift();
  while (a.length) {
    const k = a.shift();
    if (k === "--tier") o.tier = a.shift();
    else if (k === "--replay") o.replay = a.shift();
    else if (k === "--seed") o.seed = Number(a.shift());
    else if (k === "--budget") o.budget = Number(a.shift());
    else if (k === "--runs") o.runs = Number(a.shift());
    else if (k === "--one") o.one = a.shift();
    else if (k === "--verbose") o.verbose = true;
  }
  return o;
}

export function loadKnown() {
  const f = path.join(ROOT, "known-findings.txt");
  const out = [];
  if (!fs.existsSync(f)) return out;
  for (const line of fs.readFileSync(f, "utf8").split("\n")) {
    const m = /^KNOWN-FINDING: property=(\S+) fingerprint=(\S+) (.*)$/.exec(line);
    if (m) out.push({ property: m[1], fingerprint: m[2], text: m[3] });
  }
  return out;
}

/**
 * A scenario: {name, weight, gen(rng, tier) → {ops, cfg}, run(world, plan, ctx) → async; throws Violation or returns}
 * plan = {scenario, ops, cfg, faults}. ctx = shared bundles.
 */
async function execute(prop, ctx, plan, o = {}) {
  const sc = prop.scenarios.find((s) => s.name === plan.scenario);
  const world = new World({ seed: plan.seed, faults: plan.faults, replay: o.replay, flatDelays: plan.flatDelays, keepLog: o.keepLog, start: plan.cfg?.start, maxEvents: sc.maxEvents, watchLogs: prop.watchLogs });
  activeWorld = world;
  let violation;
  const found = [];
  world.softViolation = (v) => found.push(v);
  try {
    await sc.run(world, structuredClone(plan), ctx);
    if (world.fatal) throw world.fatal;
  } catch (e) {
    const err = world.fatal ?? e;
    if (err?.violation) violation = err;
    else if (err?.eventLimit) {
      // inconclusive: the run was cut off before its end, nothing is judged
      if (plan.stallViolation) violation = Object.assign(new Error(`the run never came to rest: ${err.message}`), { violation: true, fingerprint: "no-rest" });
    } else { activeWorld = undefined; throw err; }
  }
  activeWorld = undefined;
  if (violation) found.push(violation);
  return { world, violations: found, digest: world.digest };
}

function genPlan(prop, seed, tier) {
  const rng = new Rng(seed);
  const total = prop.scenarios.reduce((a, s) => a + (s.weight ?? 1), 0);
  let x = rng.float() * total;
  let sc = prop.scenarios[0];
  for (const s of prop.scenarios) { x -= s.weight ?? 1; if (x <= 0) { sc = s; break; } }
  const g = sc.gen(rng, tier);
  // swarm: each run enables a random subset of the fault kinds, with random intensities
  const faults = {};
  const kinds = sc.faults ?? {};
  const mode = rng.float();
  if (mode > 0.12) {
    for (const [k, p] of Object.entries(kinds)) {
      const on = rng.bool(mode > 0.75 ? 0.9 : 0.45);
      const intensity = rng.pick([0.3, 1, 1, 2.5]);
      if (on) faults[k] = Math.min(0.6, p * intensity);
    }
  }
  return { property: prop.id, scenario: sc.name, seed, ops: g.ops ?? [], cfg: g.cfg ?? {}, faults: g.faults ?? faults };
}

async function minimise(prop, ctx, plan, fired, fp, budgetMs) {
  const t0 = realNow();
  let best = { plan: structuredClone(plan), faults: fired };
  const tries = { n: 0 };
  if (process.env.SIM_NOMIN) return { ...best, tries: 0 };
  const fails = async (p, f) => {
    if (realNow() - t0 > budgetMs) return false;
    tries.n++;
    try {
      const r = await execute(prop, ctx, p, { replay: f });
      return r.violations.some((v) => v.fingerprint === fp) ? r : false;
    } catch {
      return false;
    }
  };
  // flat delays first
  {
    const p = { ...structuredClone(best.plan), flatDelays: true };
    const r = await fails(p, best.faults);
    if (r) best = { plan: p, faults: r.world.firedFaults };
  }
  const ddmin = async (list, make) => {
    let cur = list;
    let n = 2;
    while (cur.length >= 1) {
      const size = Math.max(1, Math.ceil(cur.length / n));
      let reduced = false;
      for (let i = 0; i < cur.length; i += size) {
        const cand = [...cur.slice(0, i), ...cur.slice(i + size)];
        const r = await make(cand);
        if (r) { cur = cand; reduced = true; n = Math.max(2, n - 1); break; }
      }
      if (!reduced) { if (size === 1) break; n = Math.min(cur.length, n * 2); }
      if (realNow() - t0 > budgetMs) break;
    }
    return cur;
  };
  for (let round = 0; round < 2; round++) {
    const f = await ddmin(best.faults, (cand) => fails(best.plan, cand));
    best.faults = f;
    const ops = await ddmin(best.plan.ops, (cand) => fails({ ...structuredClone(best.plan), ops: cand }, best.faults));
    best.plan = { ...best.plan, ops };
  }
  return { ...best, tries: tries.n };
}

function replayFile(id, fp) {
  const dir = path.join(ROOT, "replays");
  fs.mkdirSync(dir, { recursive: true });
  return path.join(dir, `${id}-${hash32(fp).toString(16)}.json`);
}

async function main() {
  const o = args();
  const mod = await import(`./props/${o.id}.mjs`);
  const prop = mod.default;
  const t0 = realNow();
  let ctx;
  try {
    ctx = await prop.setup({ tier: o.tier });
  } catch (e) {
    if (e instanceof BuildError) { console.error(`BUILD-ERROR ${e.message}`); process.exit(2); }
    throw e;
  }
  const known = loadKnown().filter((k) => k.property === o.id);

  if (o.replay) {
    const rf = JSON.parse(fs.readFileSync(o.replay, "utf8"));
    const r = await execute(prop, ctx, rf.plan, { replay: rf.faults ?? undefined, keepLog: o.verbose });
    if (o.verbose) console.log(r.world.log.join("\n"));
    const r2 = await execute(prop, ctx, rf.plan, { replay: rf.faults ?? undefined });
    console.log(`digest ${r.digest.toString(16)} recorded ${rf.digest} again ${r2.digest.toString(16)}`);
    if (r.violations.length) {
      for (const v of r.violations) console.log(`REPLAYED: ${v.message}`);
      console.log(`VIOLATION property=${o.id} replay=${o.replay}`);
      process.exit(1);
    }
    console.log("replay: no violation");
    process.exit(0);
  }
  if (o.one) {
    const plan = genPlan(prop, o.one, o.tier);
    console.log(JSON.stringify(plan, null, 1).slice(0, 4000));
    const r = await execute(prop, ctx, plan, { keepLog: true });
    console.log(r.world.log.join("\n"));
    for (const v of r.violations) console.log(`VIOLATION? ${v.message} [${v.fingerprint}]`);
    process.exit(0);
  }

  const budgetMs = (o.budget ?? (o.tier === "thorough" ? (prop.thoroughSec ?? 600) : (prop.quickSec ?? 25))) * 1000;
  const maxRuns = o.runs ?? (o.tier === "thorough" ? (prop.thoroughRuns ?? 1e9) : (prop.quickRuns ?? 1e9));
  const beat = process.env.SIM_BEAT;
  const stats = { runs: 0, digests: new Set(), orders: new Set(), events: 0, simMs: 0, faults: {}, offered: {}, probes: {}, scenarios: {}, faultFree: 0, nontrivial: 0, stalled: 0, samples: [] };
  const knownHit = new Map();
  const pending = [];
  let deterministic = 0;
  let firstStalled;
  // the seeds are dealt out to parallel search processes: process k of n takes every n-th
  const [shard, shards] = (process.env.SIM_SHARD ?? "0/1").split("/").map(Number);
  for (let i = shard; stats.runs < maxRuns / shards && realNow() - t0 < budgetMs; i += shards) {
    const seed = `${o.id}:${o.seed}:${i}`;
    const plan = genPlan(prop, seed, o.tier);
    if (beat) fs.writeFileSync(beat, JSON.stringify({ plan, runs: stats.runs, t0 }));
    const r = await execute(prop, ctx, plan);
    stats.runs++;
    const w = r.world;
    stats.digests.add(r.digest);
    stats.orders.add(hash32(plan.scenario, w.orderHash, w.firedFaults.map((f) => `${f.kind}@${f.site}`).join()));
    stats.events += w.events;
    stats.simMs += w.now - w.start;
    if (w.stalled) { stats.stalled++; firstStalled ??= plan; }
    stats.scenarios[plan.scenario] = (stats.scenarios[plan.scenario] ?? 0) + 1;
    for (const [k, v] of Object.entries(w.faultCounts)) stats.faults[k] = (stats.faults[k] ?? 0) + v;
    for (const [k, v] of Object.entries(w.faultOffered)) stats.offered[k] = (stats.offered[k] ?? 0) + v;
    for (const [k, v] of Object.entries(w.probes)) stats.probes[k] = (stats.probes[k] ?? 0) + v;
    if (!w.firedFaults.length) stats.faultFree++;
    if (w.events > 5) stats.nontrivial++;
    if (stats.samples.length < 5) stats.samples.push({ seed, scenario: plan.scenario, ops: plan.ops.length, events: w.events, faults: w.firedFaults.length, simulated_s: Math.round((w.now - w.start) / 1000) });
    if (stats.runs <= 3 || (i - shard) / shards % 10 === 0 || r.violations.length) {
      const again = await execute(prop, ctx, plan);
      if (again.digest !== r.digest) { console.error(`NON-DETERMINISTIC seed ${seed}: ${r.digest} vs ${again.digest}`); if (o.verbose) await diffRuns(prop, ctx, plan); process.exit(2); }
      deterministic++;
    }
    let stop = false;
    for (const v of r.violations) {
      const k = known.find((x) => v.fingerprint === x.fingerprint || v.fingerprint.startsWith(`${x.fingerprint}:`));
      if (k) { if (!knownHit.has(k)) knownHit.set(k, seed); continue; }
      if (prop.ignore?.(v)) continue;
      pending.push({ plan, v, fired: w.firedFaults });
      stop = true;
      break;
    }
    if (stop) break;
  }
  if (!pending.length && stats.stalled > 8 && stats.stalled > 0.4 * stats.runs) {
    const plan = { ...firstStalled, stallViolation: true };
    const r = await execute(prop, ctx, plan);
    if (r.violations.length) pending.push({ plan, v: r.violations[0], fired: r.world.firedFaults });
  }
  const wall = (realNow() - t0) / 1000;
  // directed replays of listed findings, so that their line appears on every run where they still fail
  for (const k of known) {
    const f = path.join(ROOT, "known", `${o.id}-${k.fingerprint.replace(/[^A-Za-z0-9_-]/g, "_")}.json`);
    if (!knownHit.has(k) && fs.existsSync(f)) {
      const rf = JSON.parse(fs.readFileSync(f, "utf8"));
      try {
        const r = await execute(prop, ctx, rf.plan, { replay: rf.faults });
        for (const v of r.violations) if (v.fingerprint === k.fingerprint || v.fingerprint.startsWith(`${k.fingerprint}:`)) knownHit.set(k, "replay");
      } catch { /* the finding's history no longer applies */ }
    }
  }
  for (const [k] of knownHit) console.log(`KNOWN-FINDING: property=${o.id} ${k.text}`);

  let exit = 0;
  let violations = 0;
  for (const p of pending) {
    violations++;
    let min;
    if (beat) fs.writeFileSync(beat, JSON.stringify({ plan: p.plan, runs: stats.runs, t0, minimising: true, message: p.v.message, fingerprint: p.v.fingerprint }));
    try { min = await minimise(prop, ctx, p.plan, p.fired, p.v.fingerprint, o.tier === "thorough" ? 120000 : 25000); } catch { min = { plan: p.plan, faults: p.fired }; }
    let fin;
    try { fin = await execute(prop, ctx, min.plan, { replay: min.faults, keepLog: true }); } catch { fin = undefined; }
    if (!fin || !fin.violations.length) { min = { plan: p.plan, faults: p.fired }; fin = await execute(prop, ctx, p.plan, { replay: p.fired, keepLog: true }); }
    const file = replayFile(o.id, p.v.fingerprint);
    fs.writeFileSync(file, JSON.stringify({ property: o.id, message: (fin.violations[0] ?? p.v).message, fingerprint: p.v.fingerprint, digest: fin.digest.toString(16), minimise_tries: min.tries, plan: min.plan, faults: min.faults, trace: fin.world.log.slice(-400) }, null, 1));
    console.log(`violation: ${(fin.violations[0] ?? p.v).message}`);
    console.log(`fingerprint: ${p.v.fingerprint}; minimised to ${min.plan.ops.length} ops, ${min.faults.length} faults`);
    console.log(`VIOLATION property=${o.id} replay=${file}`);
    exit = 1;
  }
  const part = { ...stats, digests: [...stats.digests], orders: [...stats.orders], deterministic, violations, wall, total: (realNow() - t0) / 1000 };
  if (process.env.SIM_STATS) fs.writeFileSync(process.env.SIM_STATS, JSON.stringify(part));
  else report(o, prop, [part], exit);
  process.exit(exit);
}

/** Evidence and summary of one check from the statistics of its search processes. */
function report(o, prop, parts, exit) {
  const sum = (k) => parts.reduce((a, p) => a + p[k], 0);
  const merge = (k) => { const r = {}; for (const p of parts) for (const [x, v] of Object.entries(p[k])) r[x] = (r[x] ?? 0) + v; return r; };
  const union = (k) => { const r = new Set(); for (const p of parts) for (const x of p[k]) r.add(x); return r.size; };
  const runs = sum("runs"), wall = Math.max(...parts.map((p) => p.wall)), simMs = sum("simMs"), faults = merge("faults"), probes = merge("probes"), orders = union("orders");
  const cov = {
    evaluations: runs,
    distinct_nontrivial: orders,
    rule: "one evaluation is one seeded simulated run of the real code; distinct = different hash of (scenario, order in which simulated processes were scheduled, set of faults fired)",
    samples: parts.flatMap((p) => p.samples).slice(0, 5),
    seeds: runs,
    search_processes: parts.length,
    runs_per_hour: Math.round((runs / wall) * 3600),
    distinct_event_logs: union("digests"),
    simulated_hours: Number((simMs / 3600000).toFixed(3)),
    events: sum("events"),
    faults_fired: faults,
    fault_opportunities: merge("offered"),
    fault_free_runs: sum("faultFree"),
    runs_replayed_for_determinism: sum("deterministic"),
    probes,
    scenarios: merge("scenarios"),
    stalled_runs: sum("stalled"),
    real_components: prop.real,
    stub_components: prop.stubs,
  };
  const ev = { property: o.id, tier: o.tier, seed: o.seed, level: "exploration", coverage: cov, assumptions: prop.assumptions ?? [], wall_s: Number(Math.max(...parts.map((p) => p.total)).toFixed(1)), violations: sum("violations") };
  fs.mkdirSync(path.join(ROOT, "evidence"), { recursive: true });
  fs.writeFileSync(path.join(ROOT, "evidence", `${o.id}.json`), JSON.stringify(ev, null, 1));
  console.log(`${o.id} ${o.tier}: ${runs} runs, ${orders} distinct, ${Object.values(faults).reduce((a, b) => a + b, 0)} faults, ${(simMs / 3600000).toFixed(1)} simulated h, ${wall.toFixed(1)} s`);
  // a probe that must be reached
  for (const pr of prop.mustReach ?? []) if (!probes[pr] && exit === 0) console.log(`WARNING probe never reached: ${pr}`);
}

async function diffRuns(prop, ctx, plan) {
  const a = await execute(prop, ctx, plan, { keepLog: true });
  const b = await execute(prop, ctx, plan, { keepLog: true });
  for (let i = 0; i < Math.max(a.world.log.length, b.world.log.length); i++) {
    if (a.world.log[i] !== b.world.log[i]) { console.error(`first difference at ${i}:\n A ${a.world.log[i]}\n B ${b.world.log[i]}`); for (let j = Math.max(0, i - 5); j < i; j++) console.error(`   ${a.world.log[j]}`); return; }
  }
}

/**
 * The search runs in child processes; the parent watches their progress, so that code which spins or eats all memory in a
 * run is itself reported, with the seed and operations of that run as the replay. The first process to finish with
 * anything but success decides the outcome.
 */
async function supervise() {
  const o = args();
  const jobs = o.replay ? 1 : Number(process.env.SIM_JOBS ?? Math.max(1, Math.min(6, os.availableParallelism() - 2)));
  const tmp = fs.mkdtempSync(path.join(os.tmpdir(), "sim-"));
  const LIMIT = Number(process.env.SIM_HANG_S ?? 60) * 1000;
  const readJson = (f) => { try { return JSON.parse(fs.readFileSync(f, "utf8")); } catch { return undefined; } };
  const kids = [];
  let decided = false;
  // build everything once; the search processes read the result
  process.env.SIM_CACHE = path.join(tmp, "cache");
  fs.mkdirSync(process.env.SIM_CACHE);
  try {
    await (await import(`./props/${o.id}.mjs`)).default.setup({ tier: o.tier });
  } catch (e) {
    fs.rmSync(tmp, { recursive: true, force: true });
    console.error(e instanceof BuildError ? `BUILD-ERROR ${e.message}` : e?.stack ?? e);
    process.exit(2);
  }
  const end = (code) => {
    for (const k of kids) if (!k.done) k.child.kill("SIGKILL");
    fs.rmSync(tmp, { recursive: true, force: true });
    process.exitCode = code;
  };
  for (const sig of ["SIGTERM", "SIGINT"]) process.on(sig, () => { end(2); process.exit(2); });
  const stuck = (b, hung) => {
    const msg = b.message ?? (hung ? `the code under test did not return control for ${LIMIT / 1000} s in run ${b.plan.seed}` : `the code under test exhausted memory in run ${b.plan.seed}`);
    const file = replayFile(o.id, b.fingerprint ?? "no-progress");
    fs.writeFileSync(file, JSON.stringify({ property: o.id, message: msg, fingerprint: b.fingerprint ?? "no-progress", plan: b.plan, faults: null }, null, 1));
    fs.mkdirSync(path.join(ROOT, "evidence"), { recursive: true });
    fs.writeFileSync(path.join(ROOT, "evidence", `${o.id}.json`), JSON.stringify({ property: o.id, tier: o.tier, seed: o.seed, level: "exploration", coverage: { evaluations: b.runs + 1, distinct_nontrivial: b.runs + 1, rule: "runs until the code stopped making progress", samples: [b.plan.seed] }, assumptions: [], wall_s: (realNow() - b.t0) / 1000, violations: 1 }, null, 1));
    console.log(`violation: ${msg}`);
    console.log(`VIOLATION property=${o.id} replay=${file}`);
  };
  await new Promise((resolve) => {
    for (let i = 0; i < jobs; i++) {
      const beat = path.join(tmp, `beat-${i}`), stats = path.join(tmp, `stats-${i}`);
      const child = spawn(process.execPath, [`--max-old-space-size=${jobs > 1 ? 3000 : 6000}`, ...process.argv.slice(1)], { stdio: ["ignore", "pipe", "pipe"], env: { ...process.env, SIM_CHILD: "1", SIM_BEAT: beat, ...(o.replay ? {} : { SIM_STATS: stats, SIM_SHARD: `${i}/${jobs}` }) } });
      const k = { child, out: "", err: "", last: "", lastChange: realNow(), stats };
      kids.push(k);
      child.stdout.on("data", (d) => { k.out += d; });
      child.stderr.on("data", (d) => { k.err += d; });
      const iv = setInterval(() => {
        let cur = "";
        try { cur = String(fs.statSync(beat).mtimeMs); } catch { /* not started */ }
        if (cur !== k.last) { k.last = cur; k.lastChange = realNow(); }
        if (cur && realNow() - k.lastChange > LIMIT + (readJson(beat)?.minimising ? 130000 : 0)) { k.hung = true; child.kill("SIGKILL"); }
      }, 1000);
      child.on("close", (code, sig) => {
        clearInterval(iv);
        k.done = true;
        if (decided) return;
        if (code === 0) {
          if (kids.length === jobs && kids.every((x) => x.done)) { decided = true; resolve(); }
          return;
        }
        decided = true;
        const b = readJson(beat);
        process.stdout.write(k.out);
        process.stderr.write(k.err);
        if ((k.hung || sig === "SIGABRT" || code === 134) && b) { stuck(b, k.hung); end(1); resolve(); return; }
        const st = readJson(stats);
        if (st && code === 1) import(`./props/${o.id}.mjs`).then((mod) => { report(o, mod.default, [st], 1); end(1); resolve(); });
        else { end(code ?? 2); resolve(); }
      });
    }
  });
  if (process.exitCode !== undefined) return;
  const parts = kids.map((k) => readJson(k.stats)).filter(Boolean);
  // a search process that ends without its report has decided nothing
  if (!o.replay && !o.one && parts.length < kids.length) { console.error(`${kids.length - parts.length} search processes ended without a report`); end(2); return; }
  for (const line of new Set(kids.flatMap((k) => k.out.split("\n")).filter(Boolean))) console.log(line);
  for (const k of kids) if (k.err) process.stderr.write(k.err);
  if (parts.length) report(o, (await import(`./props/${o.id}.mjs`)).default, parts, 0);
  end(0);
}

if (process.argv[1] && path.resolve(process.argv[1]) === fileURLToPath(import.meta.url)) {
  if (!process.env.SIM_CHILD && !process.argv.includes("--one")) supervise().catch((e) => { console.error(e?.stack ?? e); process.exit(2); });
  else main().catch((e) => {
    console.error(e?.stack ?? e);
    process.exit(2);
  });
}
