// K01: camera images are the frames the cameras gave, and only updated cameras are marked as updated.
import { bundle } from "../runtime.mjs";
import { WIRINGS } from "../apps.mjs";
import { deploy, LambdaFn } from "../lambda.mjs";
import { check } from "../check.mjs";
import { PgServer } from "../pgserver.mjs";
import { Aws, Http } from "../services.mjs";
import { CameraServer } from "../harness/marinecam.mjs";

const DB = { username: "u", password: "db-pass-of-x", host: "db-rw:1/x", ro_host: "db-ro:1/x", proxy_host: "db-rw:1/x", proxy_ro_host: "db-ro:1/x" };
const MIN = 60000;
const MODES = ["ok", "ok", "ok", "ok", "ok", "ok", "ext", "empty", "error", "noseek", "short", "notfound"];
const PASSWORDS = ["s3cr-et-cam", "a&b", 'x"y<z', "ä'ö %"];
const b64 = (s) => Buffer.from(s).toString("base64");

export default {
  id: "K01",
  quickSec: 15,
  thoroughSec: 240,
  real: ["marinecam update-images and get-metadata handlers, image fetcher, session and command classes, image store, metadata service and DAO", "p-limit, pg-promise, pg-pool, lib database and secrets", "synthesised timeout, schedule and bucket"],
  stubs: ["camera server behind undici (with its retry interceptor)", "xml2js", "PostgreSQL", "S3, Secrets Manager, Lambda"],
  assumptions: ["runs of the function do not overlap (reserved concurrency or the update interval)", "a camera's frame carries its own time"],
  mustReach: ["k01.stored", "k01.bad-camera", "k01.empty", "k01.refused", "k01.many", "k01.crash", "k01.disconnect-failed", "k01.not-logged-in", "k01.listed", "k01.odd-password"],
  async setup() {
    const d = "marine/marinecam/src/lambda";
    return { wiring: await WIRINGS.marinecam(), code: await bundle({ update: `${d}/update-images/update-images.ts`, get: `${d}/get-metadata/get-metadata.ts` }) };
  },
  scenarios: [
    {
      name: "cameras",
      gen(rng, tier) {
        const cams = rng.int(1, rng.bool(0.3) ? 14 : 6);
        const ops = [];
        for (let i = 0, n = rng.int(1, tier === "thorough" ? 10 : 5); i < n; i++) ops.push({ modes: Array.from({ length: cams }, () => rng.pick(MODES)), gap: rng.pick([30, 60, 600]), login: rng.bool(0.06), disconnect: rng.bool(0.1), list: rng.bool(0.5), add: rng.bool(0.1) });
        return { ops, cfg: { cams, pw: rng.bool(0.6) ? 0 : rng.int(1, 3) }, faults: rng.bool(0.4) ? {} : undefined };
      },
      faults: { "db.connect.before": 0.03, "db.before": 0.02, "db.lost": 0.03, "db.error": 0.04, "secrets.before": 0.03, "http.before": 0.02, "http.lost": 0.02, "http.5xx": 0.03, "http.truncated": 0.02, "s3.before": 0.3, "s3.lost": 0.15, crash: 0.003, slow: 0.01, recycle: 0.1 },
      maxEvents: 60000,
      async run(world, plan, ctx) {
        const pg = new PgServer(world);
        const aws = new Aws(world);
        const http = new Http(world);
        pg.slowMs = 15000;
        http.slowMs = 15000;
        const clean = plan.faults && !Object.keys(plan.faults).length;
        const password = PASSWORDS[plan.cfg.pw];
        aws.secrets.set("sec", JSON.stringify({ ...DB, "mobile_server.url": "https://cams.example", "mobile_server.username": "user&1", "mobile_server.password": password, "mobile_server.certificate": b64("CERT"), "mobile_server.ca": b64("CA"), "mobile_server.hostname": "cams.internal" }));
        pg.db.table("camera", "id text primary key, name text not null, camera_group_id text not null, last_updated timestamptz, location geometry");
        const T0 = new Date(world.now - 86400000);
        const row = (i, group) => ({ id: `${group === "Saimaa" ? "cam" : "muu"}${i}`, name: `Kanava ${i}`, camera_group_id: group, last_updated: T0, location: null });
        pg.db.seed("camera", [...Array.from({ length: plan.cfg.cams }, (_, i) => row(i, "Saimaa")), row(1, "Muut")]);
        let op = { modes: [] };
        const server = new CameraServer(world, http, {
          url: "https://cams.example", hostname: "cams.internal", username: "user&1", password,
          mode: (cam) => (/^cam\d+$/.test(cam) ? op.modes[Number(cam.slice(3)) % op.modes.length] : undefined),
          loginFails: () => op.login, disconnectFails: () => op.disconnect,
        });
        const svc = { pg, aws, http };
        const d = deploy(world, ctx.wiring, { aws, fns: { update: { re: /UpdateImages$/, code: ctx.code.update, svc } } });
        const env = { SECRET_ID: "sec", DB_APPLICATION: "marinecam" };
        const get = new LambdaFn(world, "get-metadata", ctx.code.get, { env, svc, timeoutSec: 30 });
        const bucket = aws.bucket("cam-bucket");
        const updated = () => new Map(pg.db.rows("camera").map((r) => [r.id, +r.last_updated]));
        let run = null; // the current run
        const seen = new Map(); // camera -> content it had
        const frameOf = (cam, body) => server.frames.find((f) => f.cam === cam && f.bytes === body);
        const look = () => {
          for (const [key, o] of bucket) {
            const m = /^images\/Saimaa\/(.*)\.jpg$/.exec(key);
            check(m, `object ${key} was stored`, "key");
            const body = o.body.toString("latin1");
            if (seen.get(m[1]) === body) continue;
            const f = frameOf(m[1], body);
            check(f, `image ${key} is not a frame of its camera: ${JSON.stringify(body.slice(0, 80))}`, "content");
            check(f.seen !== undefined && Math.abs(f.seen - f.t) < MIN, `image ${key} is a frame of ${f.seen === undefined ? "no set time" : new Date(f.seen).toISOString()} taken at ${new Date(f.t).toISOString()}`, "old-frame");
            seen.set(m[1], body);
            if (run) run.stored.add(m[1]);
          }
        };
        pg.db.commitHooks.push((tx, changes) => {
          try {
            look();
            for (const c of changes) {
              if (c.op !== "ins" || c.table.name !== "camera" || +c.row.vals.last_updated === +T0) continue;
              const id = c.row.vals.id, t = +c.row.vals.last_updated;
              if (!run) { check(!clean, `camera ${id} was changed outside a run`, "stray"); continue; }
              check(run.stored.has(id), `camera ${id} was marked as updated although no image of it was stored in the run`, "marked");
              check(t >= run.t0 && t <= world.now, `camera ${id} was marked as updated at ${new Date(t).toISOString()}`, "mark-time");
            }
          } catch (e) { world.fail(e); }
        });
        const sleep = (ms) => new Promise((r) => world.after(ms, "user", r));
        let ended = false;
        (async () => {
          for (const [i, o] of plan.ops.entries()) {
            op = o;
            if (o.add) pg.db.seed("camera", [row(100 + i, "Saimaa")]);
            const before = updated();
            server.maxOpen = 0;
            const nStreams = server.streams.size, nConns = server.conns.size;
            run = { t0: world.now, stored: new Set() };
            const r = await d.fns.update.invoke({}, { key: `u${i}` });
            look();
            if (r.status === "crash") world.probe("k01.crash");
            const after = updated();
            for (const [id, t] of after) if (t === before.get(id) || !before.has(id)) continue; else check(id.startsWith("cam"), `camera ${id} of another group was marked`, "other-group");
            if (r.status === "ok" && !clean) world.probe("k01.refused");
            check(server.maxOpen <= 5 || !clean, `${server.maxOpen} streams were open at a time`, "streams");
            if (clean) {
              check(r.status === "ok", `run ended with ${r.status} although nothing failed: ${r.error?.message}`, "failed");
              check(!server.refused, "the user name or password was not passed on as it is", "password");
              if (plan.cfg.pw) world.probe("k01.odd-password");
              const conns = [...server.conns.values()].slice(nConns);
              check(conns.length && conns.every((c) => c.closed), "the session was not disconnected", "connected");
              check(![...server.streams.values()].slice(nStreams).some((s) => s.open), "a stream was left open", "open");
              if (o.login) world.probe("k01.not-logged-in");
              else {
                if (o.disconnect) world.probe("k01.disconnect-failed");
                const ids = [...after.keys()].filter((id) => id.startsWith("cam"));
                if (ids.length > 5) world.probe("k01.many");
                for (const id of ids) {
                  const mode = o.modes[Number(id.slice(3)) % o.modes.length];
                  if (["ok", "ext"].includes(mode)) {
                    check(run.stored.has(id), `no image of ${id} was stored although its camera worked`, "not-stored");
                    check(after.get(id) >= run.t0, `camera ${id} was not marked as updated although its image was stored`, "not-marked");
                    world.probe("k01.stored");
                  } else {
                    check(!run.stored.has(id) && after.get(id) === before.get(id), `camera ${id} (${mode}) was stored or marked`, "bad-marked");
                    world.probe(mode === "empty" ? "k01.empty" : "k01.bad-camera");
                  }
                }
              }
            }
            await sleep(500);
            look(); // what was on its way when the function ended
            run = null;
            if (o.list) {
              const now = updated();
              const q = await get.invoke({}, { key: `g${i}` });
              const good = q.status === "ok" && q.value.status === 200;
              if (clean) check(good, `list of cameras failed although nothing did: ${q.status} ${q.error?.message}`, "list-failed");
              if (good) {
                const got = JSON.parse(Buffer.from(q.value.body, "base64").toString("utf8"));
                const show = (x) => JSON.stringify(x.map((c) => [c.id, c.name, c.cameraGroupId, c.lastUpdated]).sort((a, b) => (a[0] < b[0] ? -1 : 1)));
                const exp = pg.db.rows("camera").filter((c) => c.camera_group_id === "Saimaa").map((c) => ({ id: c.id, name: c.name, cameraGroupId: c.camera_group_id, lastUpdated: new Date(now.get(c.id)).toISOString() }));
                check(show(got) === show(exp), `list of cameras answered ${show(got)}, stored is ${show(exp)}`, "list");
                world.probe("k01.listed");
              }
            }
            await sleep(o.gap * 1000);
          }
          ended = true;
        })().catch((e) => world.fail(e));
        await world.run({ deadline: world.now + 24 * 60 * MIN, until: () => ended });
        check(ended, "a run or a query never ended", "no-answer");
      },
    },
  ],
};
