// R02: passenger information queries answer with exactly the latest, undeleted, matching messages.
import { bundle } from "../runtime.mjs";
import { WIRINGS } from "../apps.mjs";
import { deploy } from "../lambda.mjs";
import { check } from "../check.mjs";
import { MysqlServer } from "../mysqlserver.mjs";
import { Aws } from "../services.mjs";
import { SECRET, SEC, MIN, HOUR, STATIONS, apiMessage, canon, dbMessages, genRosm, normalApi, rosmMessage, tables } from "../harness/rami.mjs";

const body = (r) => JSON.parse(Buffer.from(r.body, "base64").toString("utf8"));
const BAD = [{ train_number: "0" }, { train_number: "abc" }, { train_departure_date: "3.3.2025" }, { station: "H" }, { only_general: "yes" }, { date: "eilen" }, { only_active: "kyllä" }];

function query(rng) {
  return {
    after: rng.bool(0.5), train: rng.bool(0.25) ? rng.pick([9, 274, 8122, 5]) : null, day: rng.bool(0.25) ? rng.pick(["2025-03-03", "2025-03-04", "2025-03-09"]) : null,
    st: rng.bool(0.35) ? rng.int(0, 5) : null, general: rng.pick([null, null, true, false]), active: rng.pick([null, null, true, false]),
    // an age in minutes, or the creation time of a stored message give or take a little
    date: rng.bool(0.5) ? { ago: rng.pick([0, 5, 60, 300, 100000]) * MIN + rng.int(0, 999) } : { of: rng.int(0, 9), d: rng.pick([0, 0, 1, -1, 500, -500, 1000, -1000, 1500, -1500, 59000, -59000]) },
    bad: rng.bool(0.06) ? rng.int(0, BAD.length - 1) : null,
  };
}

export default {
  id: "R02",
  quickSec: 16,
  thoroughSec: 240,
  real: ["rail/rami get-active-messages and get-messages-updated-after handlers with their services, schemas and queries", "process-rosm-queue storing and deleting meanwhile", "util/database.ts pool use, secret.ts", "synthesised queue, timeouts and memory of the functions"],
  stubs: ["MySQL and the mysql2 pool", "middy", "SQS, Lambda, API, Secrets Manager"],
  assumptions: ["creation times are compared at the second", "station lists stay under GROUP_CONCAT's limit"],
  mustReach: ["r02.some", "r02.none", "r02.several", "r02.expired", "r02.future", "r02.old-version", "r02.deleted", "r02.bad", "r02.during", "r02.refused", "r02.crash", "r02.burst", "r02.edge"],
  async setup() {
    const d = "rail/rami/src/lambda";
    return { wiring: await WIRINGS.rami(), code: await bundle({ rosm: `${d}/process-rosm-queue/process-rosm-queue.ts`, active: `${d}/get-active-messages/get-active-messages.ts`, after: `${d}/get-messages-updated-after/get-messages-updated-after.ts` }, { esm: true }) };
  },
  scenarios: [
    {
      name: "queries",
      gen(rng, tier) {
        const ops = [];
        const n = rng.int(2, tier === "thorough" ? 40 : 18);
        for (let i = 0; i < n; i++) {
          const k = rng.int(0, 99);
          if (k < 30) ops.push({ kind: "save", p: genRosm(rng, { ids: 5, versions: 3 }), wait: rng.bool(0.8) });
          else if (k < 38) ops.push({ kind: "delete", p: genRosm(rng, { ids: 5, versions: 1 }), wait: rng.bool(0.8) });
          else if (k < 85) ops.push({ kind: "query", q: query(rng) });
          else if (k < 92) ops.push({ kind: "wait", ms: rng.pick([1, 30, 37, 72, 1000, 1800]) * SEC });
          else ops.push({ kind: "burst", n: rng.pick([2, 12, 13]), bad: rng.bool(0.5), q: query(rng) });
        }
        return { ops, cfg: {}, faults: rng.bool(0.4) ? {} : undefined };
      },
      faults: { "db.connect.before": 0.03, "db.before": 0.04, "db.lost": 0.04, "db.error": 0.06, "secrets.before": 0.03, "secrets.lost": 0.02, "sqs.reorder": 0.2, crash: 0.01, slow: 0.02, recycle: 0.05 },
      maxEvents: 60000,
      async run(world, plan, ctx) {
        const my = new MysqlServer(world);
        my.slowMs = 12000;
        const aws = new Aws(world);
        aws.secrets.set("sec", JSON.stringify(SECRET));
        tables(my);
        const svc = { mysql: my, aws };
        const d = deploy(world, ctx.wiring, { aws, fns: {
          rosm: { re: /ProcessRosmQueue$/, code: ctx.code.rosm, svc },
          active: { re: /GetActiveMessages$/, code: ctx.code.active, svc },
          after: { re: /GetMessagesUpdatedAfter$/, code: ctx.code.after, svc },
        } });
        const q = d.queue(/RosmSqs/);
        const clean = plan.faults && !Object.keys(plan.faults).length;
        const states = [{ t: 0, list: [] }];
        my.db.commitHooks.push(() => { try { states.push({ t: world.now, list: dbMessages(my) }); } catch (e) { world.fail(e); } });
        const sleep = (ms) => new Promise((r) => world.after(ms, "user", r));
        let uid = 0, broken = false;
        const expected = (list, now, o, from) => {
          const latest = new Map();
          for (const x of list) if (!(latest.get(x.m.id)?.m.version >= x.m.version)) latest.set(x.m.id, x);
          const all = [...latest.values()].filter((x) => x.deleted === null
            && (o.train === null || x.m.train === o.train) && (o.day === null || x.m.date === o.day)
            && (o.st === null || x.m.stations.includes(STATIONS[o.st])) && (o.general !== true || x.m.type === "SCHEDULED_MESSAGE")
            && (from === null || x.m.created >= from)
            && ((from !== null && o.active === false) || (x.m.start <= now && now < x.m.end)));
          return all.map((x) => canon(apiMessage(x.m))).sort();
        };
        const ask = async (o, key, faulty) => {
          const t0 = world.now;
          let from = null;
          const event = { train_number: o.train === null ? "" : String(o.train), train_departure_date: o.day ?? "", station: o.st === null ? "" : STATIONS[o.st], only_general: o.general === null ? "" : String(o.general) };
          if (o.after) {
            const s = states.at(-1).list;
            from = o.date.ago !== undefined ? t0 - o.date.ago : (s.length ? s[o.date.of % s.length].m.created : t0) + o.date.d;
            if (o.date.of !== undefined && s.length) world.probe("r02.edge");
            event.date = new Date(from).toISOString();
            event.only_active = o.active === null ? "" : String(o.active);
          }
          let bad = o.bad !== null && BAD[o.bad];
          if (bad && !o.after && ("date" in bad || "only_active" in bad)) bad = BAD[0];
          if (bad) Object.assign(event, bad);
          const r = await d.fns[o.after ? "after" : "active"].invoke(event, { key });
          const t1 = world.now;
          if (r.status === "crash") world.probe("r02.crash");
          if (r.status === "timeout") check(!(clean || faulty === false), `query ${canon(event)} was never answered although nothing failed`, "hung");
          if (r.status !== "ok") {
            world.probe("r02.refused");
            check(!clean && faulty !== false, `query ${canon(event)} failed although nothing did: ${r.status} ${r.error?.message}`, "refused");
            return false;
          }
          if (bad) { check(r.value.status === 400, `query ${canon(event)} got ${r.value.status}`, "bad"); world.probe("r02.bad"); return true; }
          check(r.value.status === 200, `query ${canon(event)} got ${r.value.status}`, "status");
          const got = body(r.value).map((x) => canon(normalApi(x))).sort();
          const i0 = states.findLastIndex((s) => s.t < t0), cands = states.filter((s, i) => i >= i0 && s.t <= t1);
          if (cands.length > 1) world.probe("r02.during");
          const froms = from === null ? [null] : [from];
          let ok = false, best;
          for (const s of cands) {
            // the server compares with its second
            const nows = [t0, t1, ...s.list.flatMap((x) => [x.m.start, x.m.end]).filter((e) => e > t0 - SEC && e <= t1).flatMap((e) => [e, e - 1])].flatMap((x) => [x, Math.floor(x / SEC) * SEC]);
            for (const now of nows) for (const f of froms) {
              const e = expected(s.list, now, o, f);
              best ??= e;
              if (canon(e) === canon(got)) { ok = true; best = e; }
            }
          }
          check(ok, `query ${canon(event)} at ${new Date(t0).toISOString()} answered [${got.join(", ")}], stored state gives [${best.join(", ")}]`, "answer");
          world.probe(got.length ? (got.length > 1 ? "r02.several" : "r02.some") : "r02.none");
          const l = cands.at(-1).list;
          if (l.some((x) => x.m.end <= t0)) world.probe("r02.expired");
          if (l.some((x) => x.m.start > t0)) world.probe("r02.future");
          if (l.some((x) => x.deleted !== null)) world.probe("r02.deleted");
          if (new Set(l.map((x) => x.m.id)).size < l.length) world.probe("r02.old-version");
          return true;
        };
        let ended = false;
        (async () => {
          for (const [i, o] of plan.ops.entries()) {
            if (o.kind === "wait") await sleep(o.ms);
            else if (o.kind === "query") await ask(o.q, `q${i}`);
            else if (o.kind === "burst") {
              // many queries one after another against a failing database, which then recovers: the function must too
              if (clean) { for (let k = 0; k < o.n; k++) await ask(o.q, `b${i}.${k}`); continue; }
              world.probe("r02.burst");
              if (o.bad) my.failing = true;
              for (let k = 0; k < o.n; k++) await ask(o.q, `b${i}.${k}`, true);
              my.failing = false;
              const was = world.faultsEnabled;
              world.faultsEnabled = false;
              await ask(o.q, `r${i}`, undefined); // may meet a connection that is gone
              let good = false;
              for (let k = 0; k < 12 && !good; k++) good = await ask(o.q, `s${i}.${k}`);
              check(good, "queries keep failing after the database recovered", "not-recovered");
              world.faultsEnabled = was;
            } else {
              q.send(JSON.stringify(rosmMessage(o.p, o.kind === "delete" ? "DELETE" : "INSERT", world.now, `00000000-0000-4000-8000-${String(uid++).padStart(12, "0")}`)));
              await sleep(o.wait ? 3000 : 20);
            }
          }
          ended = true;
        })().catch((e) => world.fail(e));
        await world.run({ deadline: world.now + 40 * HOUR, until: () => ended });
        check(ended, "the queries were never answered", "no-answer");
      },
    },
  ],
};
