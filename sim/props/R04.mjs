// R04: archives of train data are complete when they are published, and come out of the schedule.
import fs from "node:fs";
import path from "node:path";
import { BuildError, REPO } from "../runtime.mjs";
import { WIRINGS } from "../apps.mjs";
import { PyFn } from "../pyfn.mjs";
import { check } from "../check.mjs";

const MIN = 60000, HOUR = 3600000, DAY = 24 * HOUR;
const iso = (t) => new Date(t).toISOString().slice(0, 10);
const KINDS = {
  trains: { re: /trains$/i, bucket: "train-bucket", monthly: true, file: "trains" },
  comp: { re: /compositions$/i, bucket: "comp-bucket", monthly: true, file: "compositions" },
  loc: { re: /train-?locations$/i, bucket: "loc-bucket", monthly: false },
};
const parse = (t) => { try { return JSON.parse(t); } catch { return undefined; } };
const month = (t, n) => { const d = new Date(Math.floor(t)); return Date.UTC(d.getUTCFullYear(), d.getUTCMonth() + n, 1); };

export default {
  id: "R04",
  quickSec: 15,
  thoroughSec: 180,
  real: ["dump-trains, dump-compositions and dump-train-locations functions (the repository's Python source, run by CPython)", "synthesised schedules, buckets, timeouts"],
  stubs: ["requests and the train API", "boto3 and S3", "file system with /tmp (in memory)", "clock of the Python code", "aws_lambda_powertools", "Lambda with its retries of asynchronous invocations, schedule"],
  assumptions: ["the train data of a day do not change while a run is in progress", "runs of one function do not overlap (reserved concurrency 1)"],
  mustReach: ["r04.stored", "r04.february", "r04.december", "r04.manual", "r04.failed", "r04.crash", "r04.timeout", "r04.empty-day", "r04.list-failed"],
  async setup() {
    const wiring = await WIRINGS.dataDump();
    const fns = {};
    for (const [k, v] of Object.entries(KINDS)) {
      const fn = wiring.fns.find((f) => v.re.test(f.name));
      if (!fn) throw new BuildError(`no function for ${k}`);
      const dir = /rail\/data-dump\/src\/lambda\/[^/]+$|src\/lambda\/[^/]+$/.exec(fn.key)?.[0].replace(/^.*src\//, "rail/data-dump/src/");
      const [file, handler] = fn.handler.split(".");
      fns[k] = { handler, env: fn.env, timeoutSec: fn.timeoutSec, schedule: wiring.scheduleOf(fn.id), source: fs.readFileSync(path.join(REPO, dir, `${file}.py`), "utf8"), name: k };
    }
    return { fns };
  },
  scenarios: [
    {
      name: "dump",
      gen(rng, tier) {
        const start = Date.UTC(rng.pick([2023, 2024, 2025, 2026]), rng.int(0, 11), rng.int(1, 28), rng.int(0, 23), rng.int(0, 59));
        const ops = [];
        for (let i = rng.int(1, tier === "thorough" ? 8 : 3); i > 0; i--) ops.push({ fn: rng.pick(Object.keys(KINDS)), manual: rng.bool(0.3) ? { back: rng.int(0, 14), day: rng.int(1, 28) } : undefined, trains: rng.pick([0, 1, 3, 6]), salt: rng.int(0, 1e6), retry: rng.bool(0.8) });
        return { ops, cfg: { start }, faults: rng.bool(0.3) ? {} : undefined };
      },
      faults: { "http.stall": 0.004, "http.before": 0.008, "http.lost": 0.006, "http.truncated": 0.006, "http.5xx": 0.01, "http.429": 0.008, "http.404": 0.008, "s3.before": 0.1, "s3.lost": 0.1, "disk.full": 0.06, crash: 0.006, recycle: 0.3 },
      maxEvents: 40000,
      async run(world, plan, ctx) {
        let o, answers = new Map(), stored = new Map(), run, fin = false;
        const rnd = (...k) => { let h = 7; for (const c of k.join("|")) h = (h * 31 + c.charCodeAt(0)) % 1000003; return h; };
        const trainsOf = (date) => Array.from({ length: rnd("n", o.salt, date) % 7 === 0 ? 0 : o.trains }, (_, i) => 1 + i * 7 + (rnd(o.salt, date, i) % 7));
        const serve = (m) => {
          try {
            const u = new URL(m.url);
            const x = /^\/api\/v1\/(trains|compositions|train-locations)\/(\d{4}-\d\d-\d\d)(?:\/(\d+))?$/.exec(u.pathname);
            check(u.origin === "https://rata.digitraffic.fi" && x && !u.search && Boolean(x[3]) === (x[1] === "train-locations"), `unexpected request ${m.url}`, "request");
            const [, what, date, n] = x;
            let v;
            if (what === "train-locations") v = Array.from({ length: rnd(o.salt, date, n) % 4 }, (_, i) => ({ trainNumber: Number(n), departureDate: date, timestamp: `${date}T10:00:0${i}.000Z`, location: { type: "Point", coordinates: [24.5 + i / 7, 60.25] }, speed: i * 10, salt: o.salt }));
            else v = trainsOf(date).map((t) => ({ trainNumber: t, departureDate: date, operatorShortCode: "vr", name: "Jyväskylä \"ÄÖ\" €", salt: o.salt, cancelled: false, delay: null }));
            if (!v.length) world.probe("r04.empty-day");
            return { status: 200, body: JSON.stringify(v) };
          } catch (e) { world.fail(e); return { status: 500, body: "" }; }
        };
        /** What a complete archive of the period is. */
        const whole = (k, from) => {
          if (KINDS[k].monthly) {
            const out = [];
            for (let t = from; t < month(from, 1); t += DAY) out.push([`${iso(t)}_${KINDS[k].file}.json`, serve({ url: `https://rata.digitraffic.fi/api/v1/${KINDS[k].file}/${iso(t)}` }).body]);
            return out;
          }
          return [[`train-locations-${iso(from)}.json`, JSON.stringify(trainsOf(iso(from)).flatMap((n) => JSON.parse(serve({ url: `https://rata.digitraffic.fi/api/v1/train-locations/${iso(from)}/${n}` }).body)))]];
        };
        const canon = (text) => { const v = parse(text); return v === undefined ? undefined : JSON.stringify((Array.isArray(v) ? v.map((x) => JSON.stringify(x)).sort() : v)); };
        const put = (m) => {
          try {
            const K = KINDS[run.k];
            check(m.bucket === K.bucket, `the archive was stored in ${m.bucket}`, "bucket");
            const name = `digitraffic-rata-${run.k === "loc" ? "train-locations" : K.file}-${iso(run.from)}.zip`;
            check(m.key === name, `the archive of ${iso(run.from)} was stored as ${m.key}`, "name");
            check(m.entries, `${m.key} is not a usable zip archive`, "zip");
            const want = whole(run.k, run.from);
            const got = new Map(m.entries);
            check(m.entries.length === got.size, `${m.key} holds a file twice`, "duplicate");
            for (const [f, body] of want) {
              check(got.has(f), `${m.key} was published without ${f}`, "missing");
              check(canon(got.get(f)) === canon(body), `${f} in ${m.key} is not what the train API says: ${String(got.get(f)).slice(0, 60)}`, "content");
            }
            check(got.size === want.length, `${m.key} holds other files: ${[...got.keys()].filter((f) => !want.some((x) => x[0] === f))[0]}`, "extra");
            stored.set(m.key, world.now);
            run.stored = true;
            world.probe("r04.stored");
          } catch (e) { world.fail(e); }
        };
        const fns = Object.fromEntries(Object.entries(ctx.fns).map(([k, f]) => [k, new PyFn(world, k, { ...f, serve, put })]));
        for (const [k, f] of Object.entries(ctx.fns)) {
          f.at ??= f.schedule.map((s) => /^cron\((\d+) (\d+) (\d+|\*) \* \? \*\)$/.exec(s))[0];
          check(f.schedule.length === 1 && f.at && KINDS[k].monthly === (f.at[3] !== "*"), `the schedule of ${k} is ${f.schedule}`, "schedule");
        }
        const next = (f) => {
          for (let t = Math.floor(world.now / DAY) * DAY; ; t += DAY) {
            const at = t + f.at[2] * HOUR + f.at[1] * MIN;
            if (at > world.now && (f.at[3] === "*" || new Date(t).getUTCDate() === Number(f.at[3]))) return at;
          }
        };
        const once = async (event) => {
          const mark = world.firedFaults.length;
          run.stored = false;
          const r = await fns[run.k].invoke(event);
          const fired = world.firedFaults.slice(mark).filter((x) => x.kind !== "recycle");
          world.record("run", { k: run.k, from: iso(run.from), s: r.status, stored: run.stored });
          if (r.status === "crash" || r.status === "timeout") world.probe(`r04.${r.status}`);
          if (r.status === "error") world.probe("r04.failed");
          if (run.k === "loc" && fired.some((x) => /api\/v1\/trains/.test(x.site) && /5xx|429|404/.test(x.kind))) world.probe("r04.list-failed");
          if (r.status === "ok") check(run.stored, "the run reported success but stored no archive", "false-success");
          if (!fired.length) check(r.status === "ok", `the run failed although nothing failed: ${r.error?.message ?? r.status}`, "failed");
          return r;
        };
        (async () => {
          for (o of [...plan.ops, ...Object.keys(KINDS).map((fn) => ({ fn, trains: 2, salt: 1, last: true }))]) {
            if (o.last) world.faultsEnabled = false;
            const K = KINDS[o.fn];
            let event = {};
            if (o.manual) {
              await world.sleep(HOUR);
              world.probe("r04.manual");
              const base = month(world.now, -o.manual.back);
              run = { k: o.fn, from: K.monthly ? base : base + (o.manual.day - 1) * DAY };
              event = K.monthly ? { month: iso(base).slice(0, 7) } : { date: iso(run.from) };
            } else {
              await world.sleep(next(ctx.fns[o.fn]) - world.now);
              run = { k: o.fn, from: K.monthly ? month(world.now, -1) : Math.floor(world.now / DAY) * DAY - 2 * DAY };
              event = {};
            }
            if (K.monthly && new Date(run.from).getUTCMonth() === 1) world.probe("r04.february");
            if (K.monthly && new Date(run.from).getUTCMonth() === 11) world.probe("r04.december");
            for (let a = 0; a < (o.retry === false ? 1 : 3); a++) {
              if (a) await world.sleep(a * MIN);
              if ((await once(event)).status === "ok") break;
            }
          }
          fin = true;
        })().catch((e) => world.fail(e));
        await world.run({ until: () => fin, deadline: world.now + 800 * DAY });
        check(fin, "runs did not finish", "stuck");
        void answers; void stored;
      },
    },
  ],
};
