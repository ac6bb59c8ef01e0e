// L03: secrets — bounded staleness, fetches at most once per TTL per holder, failing fetches, missing keys, credentials.
import { bundle, Instance } from "../runtime.mjs";
import { Aws } from "../services.mjs";
import { check } from "../check.mjs";

const TTL = 300_000;

export default {
  id: "L03",
  quickSec: 15,
  thoroughSec: 300,
  real: ["lib/digitraffic-common/src/aws/runtime/secrets/*"],
  stubs: ["AWS Secrets Manager", "clock and timers", "Lambda freeze/thaw and process restart"],
  assumptions: ["a process's clock does not run backwards", "one call to the secret store takes at most 10 s"],
  mustReach: ["l03.rotated", "l03.fetch-failed", "l03.missing-key", "l03.cached"],
  async setup() {
    return bundle({ s: { code: `
      export { SecretHolder } from "@digitraffic/common/dist/aws/runtime/secrets/secret-holder.js";
      export { ProxyHolder } from "@digitraffic/common/dist/aws/runtime/secrets/proxy-holder.js";
      export { RdsHolder } from "@digitraffic/common/dist/aws/runtime/secrets/rds-holder.js";` } });
  },
  scenarios: [
    {
      name: "rotation",
      gen(rng) {
        const ops = [];
        let t = rng.int(0, 2000);
        const n = rng.int(4, 30);
        for (let i = 0; i < n; i++) {
          t += rng.pick([0, 0, 1, 20, 200, 5000, 60000, 150000, 299000, 299999, 300001, 301000, rng.int(0, 400000)]);
          const k = rng.float();
          if (k < 0.2) ops.push({ t, op: "rotate", drop: rng.bool(0.2) ? rng.pick(["username", "proxy_host", "host", "ro_host", "app.key", "app.url"]) : undefined, bad: rng.bool(0.08) ? rng.pick(["not json", "", "missing"]) : undefined });
          else if (k < 0.27) ops.push({ t, op: "freeze", proc: rng.int(0, 1), ms: rng.int(1000, 900000) });
          else if (k < 0.31) ops.push({ t, op: "restart", proc: rng.int(0, 1) });
          else ops.push({ t, op: "get", proc: rng.int(0, 1), holder: rng.pick(["plain", "app", "app", "proxy", "rds", "appnokeys"]) });
        }
        return { ops, cfg: { skew: [rng.pick([0, 0, -4000, 7000]), rng.pick([0, 0, 90000])] } };
      },
      faults: { "secrets.before": 0.08, "secrets.lost": 0.04, slow: 0.08 },
      maxEvents: 20000,
      async run(world, plan, ctx) {
        const aws = new Aws(world);
        const versions = []; // {from, obj|undefined}
        const put = (obj, raw) => { versions.push({ from: world.now, obj, v: versions.length }); aws.secrets.set("sec", raw); };
        const mk = (v) => ({ username: `u${v}`, password: `pass-word-${v}`, proxy_host: `ph${v}`, proxy_ro_host: `pro${v}`, host: `h${v}`, ro_host: `ro${v}`, "app.key": `k${v}`, "app.url": `url${v}`, "appx": "x", "other.key": `o${v}` });
        const first = mk(0);
        put(first, JSON.stringify(first));
        const fetches = []; // {t, inst, holder, ok}
        const origExec = aws.exec.bind(aws);
        aws.exec = (inst, svc, cmd, i) => { fetches.push({ t: world.now, inst, v: versions.length - 1 }); return origExec(inst, svc, cmd, i); };
        const mkProc = (k) => {
          const inst = new Instance(world, `proc${k}`, ctx.s, { env: { SECRET_ID: "sec" }, svc: { aws }, clockSkew: plan.cfg.skew[k] });
          const S = inst.exports;
          const h = {};
          h.plain = new S.SecretHolder("sec");
          h.app = new S.SecretHolder("sec", "app", ["key", "url"]);
          h.appnokeys = new S.SecretHolder("sec", "app");
          h.proxy = S.ProxyHolder.create();
          h.rds = S.RdsHolder.create();
          return { inst, h, gets: [] };
        };
        const procs = [mkProc(0), mkProc(1)];
        const gets = [];
        for (const op of plan.ops) {
          world.at(world.start + op.t, op.op, () => {
            if (op.op === "rotate") {
              const v = versions.length;
              if (op.bad === "missing") { versions.push({ from: world.now, v }); aws.secrets.delete("sec"); return; }
              if (op.bad !== undefined) { put(undefined, op.bad); return; }
              const o = mk(v);
              if (op.drop) delete o[op.drop];
              put(o, JSON.stringify(o));
              world.probe("l03.rotated");
              return;
            }
            const p = procs[op.proc];
            if (op.op === "freeze" && gets.some((g) => g.inst === p.inst && g.ok === undefined)) return; // the platform freezes idle processes only
            if (op.op === "freeze") { p.inst.freeze(); world.after(op.ms, "thaw", () => p.inst.thaw()); world.scripted("freeze"); return; }
            if (op.op === "restart") { p.inst.crash("restart"); procs[op.proc] = mkProc(op.proc); world.scripted("restart"); return; }
            const g = { op, inst: p.inst, at: world.now, fetchBase: fetches.length };
            gets.push(g);
            p.inst.deliverNow(() => {
              g.start = world.now;
              g.faultsAt = world.firedFaults.length;
              const H = p.h[op.holder];
              const prom = op.holder === "proxy" || op.holder === "rds" ? H.setCredentials().then(() => ({ u: p.inst.env.DB_USER, p: p.inst.env.DB_PASS, w: p.inst.env.DB_URI, r: p.inst.env.DB_RO_URI })) : H.get();
              prom.then((v) => { g.ok = true; g.v = JSON.parse(JSON.stringify(v)); g.end = world.now; world.record(`got-${op.holder}`, { v }); }, (e) => { g.ok = false; g.e = e; g.end = world.now; world.record(`fail-${op.holder}`, { e: String(e?.message) }); });
            });
          });
        }
        await world.run();
        const view = (holder, o) => {
          if (!o) return { err: true };
          const pick = (keys) => (keys.every((k) => k in o) ? undefined : { err: true });
          if (holder === "plain") return { val: o };
          if (holder === "app") return pick(["app.key", "app.url"]) ?? { val: { key: o["app.key"], url: o["app.url"] } };
          if (holder === "appnokeys") return { val: Object.fromEntries(["key", "url"].filter((k) => `app.${k}` in o).map((k) => [k, o[`app.${k}`]])) };
          if (holder === "proxy") return pick(["username", "password", "proxy_host", "proxy_ro_host"]) ?? { val: { u: o.username, p: o.password, w: o.proxy_host, r: o.proxy_ro_host } };
          return pick(["username", "password", "host", "ro_host"]) ?? { val: { u: o.username, p: o.password, w: o.host, r: o.ro_host } };
        };
        const current = (from, to) => versions.filter((v, i) => v.from <= to && (versions[i + 1]?.from ?? Infinity) >= from);
        for (const g of gets) {
          if (g.inst.state === "dead" && g.ok === undefined) continue;
          const who = `${g.op.holder} in process ${g.op.proc} at +${Math.round(g.at - world.start)} ms`;
          check(g.ok !== undefined, `secret request ${who} never settled`, "never-settled");
          if (g.ok) {
            // the value handed out was the stored one at some instant no older than the TTL (plus one round trip before the call)
            const win = current(g.start - TTL - 10_000, g.end);
            const good = win.some((v) => { const e = view(g.op.holder, v.obj); return !e.err && JSON.stringify(e.val) === JSON.stringify(g.v); });
            const sameAsSet = g.op.holder === "proxy" || g.op.holder === "rds" ? { u: g.v.u } : undefined;
            void sameAsSet;
            check(good, `${who}: returned ${JSON.stringify(g.v)}, which was not stored at any moment of the last ${TTL / 1000} s (window versions ${win.map((v) => v.v).join()})`, "stale-or-wrong-secret");
            const asked = fetches.filter((f) => f.inst === g.inst && f.t >= g.start && f.t <= g.end).length;
            if (!asked) world.probe("l03.cached");
          } else {
            // an error needs a reason: a failed fetch now, or stored content that is unusable
            const win = current(g.start - TTL - 10_000, g.end);
            const unusable = win.some((v) => view(g.op.holder, v.obj).err);
            const injected = world.firedFaults.some((f) => f.kind.startsWith("secrets.") && f.site.startsWith(g.inst.name));
            check(unusable || injected, `${who}: failed (${g.e?.message}) though the secret store answered and its content is complete`, "spurious-failure");
            if (unusable) world.probe("l03.missing-key"); else world.probe("l03.fetch-failed");
          }
        }
        // no excess traffic: a holder that fetched successfully does not fetch again within the TTL
        for (const p of new Set(gets.map((g) => g.inst))) {
          for (const holder of ["plain", "app", "proxy", "rds", "appnokeys"]) {
            const mine = gets.filter((g) => g.inst === p && g.op.holder === holder && g.ok).sort((a, b) => a.start - b.start);
            for (let i = 1; i < mine.length; i++) {
              const a = mine[i - 1], b = mine[i];
              // b started strictly after a ended and within the TTL of a's own fetch: no new fetch may be sent on b's behalf alone
              const aFetched = fetches.some((f) => f.inst === p && f.t >= a.start && f.t <= a.end);
              if (!aFetched || b.start <= a.end || b.start - a.start > TTL - 1000) continue;
              const others = gets.some((g) => g !== b && g.inst === p && g.start <= b.end && (g.end ?? Infinity) >= b.start);
              if (others) continue;
              const n = fetches.filter((f) => f.inst === p && f.t > b.start && f.t <= b.end).length;
              check(n === 0, `holder ${holder}: fetched the secret again ${Math.round(b.start - a.end)} ms after a successful fetch`, "needless-fetch");
            }
          }
        }
      },
    },
  ],
};
