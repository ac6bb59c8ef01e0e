// G01: fairway lights are brightened for every area with moving traffic, once per period, and only then.
import { bundle } from "../runtime.mjs";
import { WIRINGS } from "../apps.mjs";
import { deploy } from "../lambda.mjs";
import { check } from "../check.mjs";
import { PgServer } from "../pgserver.mjs";
import { Aws, Http } from "../services.mjs";

const MIN = 60000;
const DB = { username: "u", password: "db-pass-of-x", host: "db-rw:1/x", ro_host: "db-ro:1/x", proxy_host: "db-rw:1/x", proxy_ro_host: "db-ro:1/x" };
const X = (area) => 20 + area; // area n is the square [X, X+0.5] × [60, 60.5]
const square = (n) => `POLYGON((${X(n)} 60,${X(n) + 0.5} 60,${X(n) + 0.5} 60.5,${X(n)} 60.5,${X(n)} 60))`;
const SOG = [0, 1.9, 2, 2.1, 12, 102.2, 102.3];

export default {
  id: "G01",
  quickSec: 15,
  thoroughSec: 240,
  real: ["shiplight update-lights handler, services, visibility and light clients (with ky), traffic DAO", "pg-promise, pg-pool, lib database, secrets, retry", "synthesised timeout and concurrency"],
  stubs: ["light control and visibility services behind fetch", "PostgreSQL with PostGIS point-in-polygon", "Lambda and schedule", "Secrets Manager"],
  assumptions: ["traffic does not change while a run is in progress; positions within 20 s of the two-minute limit and brightening ends within 31 s of the one-minute limit may go either way", "the services accept a replaced key for six minutes", "runs do not overlap (one every minute, 30 s limit)"],
  mustReach: ["g01.sent", "g01.none", "g01.extended", "g01.still-lit", "g01.no-visibility", "g01.area-failed", "g01.rotated", "g01.old-position", "g01.retried", "g01.crash", "g01.sendtime-failed"],
  async setup() {
    return { wiring: await WIRINGS.shiplight(), code: await bundle({ update: "marine/shiplight/src/lambda/update-lights/update-lights.ts" }) };
  },
  scenarios: [
    {
      name: "lights",
      gen(rng, tier) {
        const rounds = rng.int(1, tier === "thorough" ? 16 : 7);
        const areas = rng.int(1, 4);
        const ops = [];
        for (let r = 0; r < rounds; r++) ops.push({
          gap: rng.pick([1, 1, 1, 1, 2, 7, 30]),
          ships: Array.from({ length: rng.pick([0, 1, 2, 4]) }, () => ({ n: rng.int(1, 5), area: rng.int(0, areas + 1), inside: rng.bool(0.8), age: rng.pick([0, 5, 40, 95, 110, 125, 150, 300, 4000]), sog: rng.pick(SOG) })),
          down: rng.bool(0.2) ? rng.int(1, areas) : 0,
          dark: rng.bool(0.2),
          rotate: rng.bool(0.15),
        });
        return { ops, cfg: { areas, duration: Array.from({ length: areas }, () => rng.pick([1, 2, 3, 5, 10])) }, faults: rng.bool(0.3) ? {} : undefined };
      },
      faults: { "db.connect.before": 0.03, "db.before": 0.03, "db.lost": 0.02, "db.error": 0.04, "secrets.before": 0.04, "http.before": 0.05, "http.lost": 0.03, "http.5xx": 0.08, "http.truncated": 0.04, crash: 0.008, slow: 0.02, recycle: 0.1 },
      maxEvents: 40000,
      async run(world, plan, ctx) {
        const pg = new PgServer(world);
        const aws = new Aws(world);
        const http = new Http(world);
        pg.slowMs = 20000;
        http.slowMs = 12000;
        const { areas, duration } = plan.cfg;
        let keyN = 0;
        const replacedAt = []; // when key n was replaced
        const setKey = () => aws.secrets.set("sec", JSON.stringify({ ...DB, "shiplight.lightsControlApiKey": `lights-key-${keyN}`, "shiplight.lightsControlEndpointUrl": `https://lights.example/${keyN}/send`, "shiplight.visibilityApiKey": `visib-key-${keyN}`, "shiplight.visibilityEndpointUrl": `https://vis.example/${keyN}/area` }));
        setKey();
        pg.db.table("areatraffic", "id bigint primary key, name text not null, brighten_duration_min int not null, brighten_sent timestamptz, brighten_end timestamptz, geometry geometry not null");
        pg.db.table("vessel", "mmsi bigint primary key, name text");
        pg.db.table("vessel_location", "mmsi bigint primary key, x double precision not null, y double precision not null, sog double precision, timestamp_ext bigint not null");
        pg.db.seed("areatraffic", Array.from({ length: areas }, (_, i) => ({ id: i + 1, name: `Alue ${i + 1}`, brighten_duration_min: duration[i], brighten_sent: null, brighten_end: null, geometry: square(i + 1) })));
        pg.db.seed("vessel", [1, 2, 3, 4, 5].map((n) => ({ mmsi: 230000000 + n, name: `Alus ${"ECADB"[n - 1]}` })));
        const ships = new Map(); // n → {x, y, sog, t}
        let served = [], requests = [], run = 0, downArea = 0, dark = false, inRun = false;
        const keyOk = (given, prefix, url) => { const ok = (n) => given === `${prefix}${n}` && url.includes(`.example/${n}/`); return ok(keyN) || replacedAt.some((t, n) => world.now - t < 6 * MIN && ok(n)); };
        http.route("visibility", (r) => r.url.startsWith("https://vis.example/"), (r) => {
          if (!keyOk(r.headers.token, "visib-key-", r.url)) return { status: 401, body: "no" };
          check(r.url.endsWith("/area/vaylavisi139"), `visibility asked from ${r.url}`, "visibility-url");
          if (dark) return { status: 500, body: "dark" };
          served.push(1000 + served.length + run * 10);
          return { status: 200, body: { lastUpdated: new Date(world.now).toISOString(), visibilityInMeters: served[served.length - 1] } };
        });
        http.route("lights", (r) => r.url.startsWith("https://lights.example/"), (r) => {
          check(r.method === "POST", "not a POST", "method");
          if (!keyOk(r.headers["x-api-key"], "lights-key-", r.url)) { requests.push({ t: world.now, refused: true }); return { status: 403, body: "no" }; }
          const b = JSON.parse(r.body);
          const q = { t: world.now, area: b.routeId, b, accepted: b.routeId !== downArea };
          requests.push(q);
          check(inRun, "a request outside a run", "outside");
          const mine = traffic(b.routeId);
          check(mine.may.size, `area ${b.routeId} was brightened without moving traffic`, "no-traffic");
          check(mine.lit !== "lit", `area ${b.routeId} was brightened although it is lit until ${mine.end}`, "still-lit");
          check(mine.may.has(Number(b.MMSI)) && typeof b.MMSI === "string", `area ${b.routeId} was brightened for ship ${b.MMSI}, which does not move there`, "ship");
          check(b.shipName === `Alus ${"ECADB"[Number(b.MMSI) - 230000001]}`, `ship ${b.MMSI} is called ${b.shipName}`, "ship-name");
          check(b.time === duration[b.routeId - 1], `area ${b.routeId} was brightened for ${b.time} minutes`, "duration");
          check(b.visibility === null || served.includes(b.visibility), `visibility ${b.visibility} was not measured in this run`, "visibility");
          if (b.visibility === null) { world.probe("g01.no-visibility"); check(dark || world.firedFaults.slice(mark).some((f) => /visibility/.test(f.site)), "the visibility was answered but not passed on", "visibility-null"); }
          check(requests.filter((x) => x.area === b.routeId).length <= 3, `area ${b.routeId} was requested more than three times`, "retries");
          if (requests.filter((x) => x.area === b.routeId).length > 1) world.probe("g01.retried");
          if (!q.accepted) return { status: 500, body: "down" };
          return { status: 200, body: { LightsSetSentSuccessfully: [1], LightsSetSentFailed: [2] } };
        });
        const d = deploy(world, ctx.wiring, { aws, fns: { update: { re: /update-?lights/i, code: ctx.code.update, svc: { pg, aws, http, fetch: http.fetch } } } });
        let start = world.now, mark = 0;
        let lit = new Map(); // area → end of the brightening as known when the run started
        /** Which ships move in the area for certain / possibly, and whether it is lit, as seen by the run that started at `start`. */
        const traffic = (area) => {
          const must = new Set(), may = new Set();
          for (const [n, s] of ships) {
            if (!(s.x >= X(area) && s.x <= X(area) + 0.5 && s.y >= 60 && s.y <= 60.5)) continue;
            if (!(s.sog > 2 && s.sog !== 102.3)) continue;
            const age = start - s.t;
            if (age <= 100000) must.add(230000000 + n);
            if (age <= 121000) may.add(230000000 + n);
          }
          const end = lit.get(area);
          return { must, may, end, lit: end === undefined || end < start + MIN ? "dark" : end > start + MIN + 31000 ? "lit" : "edge" };
        };
        pg.db.commitHooks.push((tx, changes) => {
          try {
            for (const c of changes) {
              check(c.table.name === "areatraffic", `table ${c.table.name} was changed`, "other-table");
              check(c.kind !== "delete", "an area was deleted", "deleted");
              if (c.op !== "ins") continue;
              const r = c.row.vals;
              const id = Number(r.id);
              check(requests.some((q) => q.area === id && q.accepted), `the lights of area ${id} are recorded as brightened, but the light service has not accepted that in this run`, "recorded-before-accepted");
              check(Math.abs(+r.brighten_sent - world.now) < 25000 && +r.brighten_end - +r.brighten_sent === duration[id - 1] * MIN && r.brighten_duration_min === duration[id - 1], `area ${id} is recorded as lit from ${r.brighten_sent?.toISOString()} to ${r.brighten_end?.toISOString()}`, "period");
              if (lit.has(id)) world.probe("g01.extended");
            }
          } catch (e) { world.fail(e); }
        });
        const once = async (o) => {
          if (o.rotate) { replacedAt[keyN++] = world.now; setKey(); world.probe("g01.rotated"); }
          for (const s of o.ships) {
            const v = { x: X(s.area) + (s.inside ? 0.25 : 0.75), y: 60.25, sog: s.sog, t: Math.floor(world.now - s.age * 1000) };
            if (s.age > 120 && s.inside && s.area >= 1 && s.area <= areas) world.probe("g01.old-position");
            ships.set(s.n, v);
            const tx = pg.db.begin();
            const hooks = pg.db.commitHooks; pg.db.commitHooks = [];
            pg.db.execStmt(pg.db.parse(`INSERT INTO vessel_location(mmsi, x, y, sog, timestamp_ext) VALUES (${230000000 + s.n}, ${v.x}, ${v.y}, ${v.sog}, ${v.t}) ON CONFLICT (mmsi) DO UPDATE SET x = EXCLUDED.x, y = EXCLUDED.y, sog = EXCLUDED.sog, timestamp_ext = EXCLUDED.timestamp_ext`)[0], tx, { params: [] });
            pg.db.commit(tx);
            pg.db.commitHooks = hooks;
          }
          run++;
          served = []; requests = []; downArea = o.down; dark = o.dark; start = world.now; mark = world.firedFaults.length; inRun = true;
          lit = new Map(pg.db.rows("areatraffic").filter((r) => r.brighten_end).map((r) => [Number(r.id), +r.brighten_end]));
          const r = await d.fns.update.invoke({});
          inRun = false;
          const fired = world.firedFaults.slice(mark).filter((f) => f.kind !== "recycle");
          if (r.status === "crash") world.probe("g01.crash");
          world.record("run", { s: r.status, n: requests.length });
          const after = new Map(pg.db.rows("areatraffic").filter((x) => x.brighten_end).map((x) => [Number(x.id), +x.brighten_end]));
          check(!requests.some((q) => q.refused), "the light service was called with a key or address that was replaced more than six minutes ago", "old-key");
          for (let a = 1; a <= areas; a++) {
            const t = traffic(a);
            const mine = requests.filter((q) => q.area === a);
            if (t.lit === "lit" && t.must.size) world.probe("g01.still-lit");
            if (!t.may.size) world.probe("g01.none");
            const acc = mine.filter((q) => q.accepted).length;
            if (acc) world.probe("g01.sent");
            if (!fired.some((f) => /lights/.test(f.site))) check(acc <= 1, `area ${a} was brightened ${acc} times in one run`, "twice");
            if (acc && after.get(a) === lit.get(a)) world.probe("g01.sendtime-failed");
            if (r.status !== "ok" || !t.must.size || t.lit !== "dark") continue;
            // the run came to its end: nothing that happened to other areas may have kept this one from being tried
            if (!fired.some((f) => /lights/.test(f.site) && f.kind !== "slow")) check(mine.length, `nothing was requested for area ${a}, in which ships ${[...t.must]} move`, "not-requested");
            if (a === downArea) { world.probe("g01.area-failed"); check(after.get(a) === lit.get(a), "a refused brightening was recorded", "recorded-refused"); }
            else if (!fired.length) check(acc === 1 && after.get(a) > start, `without failures area ${a} was requested ${mine.length} times and ${after.get(a) > start ? "" : "not "}recorded as lit`, "not-lit");
          }
          if (!fired.length) check(r.status === "ok", `run failed although nothing failed: ${r.error?.message}`, "failed");
        };
        let fin = false;
        (async () => {
          for (const o of plan.ops) { await once(o); await world.sleep(Math.max(1000, o.gap * MIN - 5000)); }
          world.faultsEnabled = false;
          await once({ ships: [{ n: 1, area: 1, inside: true, age: 0, sog: 5 }], down: 0, dark: false });
          fin = true;
        })().catch((e) => world.fail(e));
        await world.run({ until: () => fin, deadline: world.now + 24 * 60 * MIN });
        check(fin, "runs did not finish", "stuck");
      },
    },
  ],
};
