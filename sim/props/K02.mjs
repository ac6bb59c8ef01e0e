// K02: a restricted camera image or list is given to those and only those whose password and groups allow it.
import { bundle } from "../runtime.mjs";
import { WIRINGS } from "../apps.mjs";
import { LambdaFn } from "../lambda.mjs";
import { RestApi } from "../gateway.mjs";
import { check } from "../check.mjs";
import { PgServer } from "../pgserver.mjs";
import { Aws } from "../services.mjs";
import { UserPool } from "../harness/marinecam.mjs";

const DB = { username: "u", password: "db-pass-of-x", host: "db-rw:1/x", ro_host: "db-ro:1/x", proxy_host: "db-rw:1/x", proxy_ro_host: "db-ro:1/x" };
const CODE = { Authorizer$: "authorizer", "-ListCameras$": "list", "-GetMetadata$": "get" };
const GROUPS = ["Saimaa", "Saimaa2", "maa", "saimaa", "Kanava1"];
const PW = ["Salasana1", "Salasana2", "a:b:c:d:e", "pässi sana", "x\"y\\z'aaa"];
const NAMES = ["matti", "maija", "matti@example.com"];
const MIN = 60000;
const FRESH = 5 * MIN; // an answer may rest on what was so at most this long ago

export default {
  id: "K02",
  quickSec: 15,
  thoroughSec: 180,
  real: ["marinecam authorizer, its Cognito backend, list-cameras and get-metadata handlers, metadata service and DAO", "pg-promise, pg-pool, lib database and secrets, lambda response", "synthesised REST API: resources, authorizer with its result cache, request and response mapping templates (velocityjs)", "synthesised timeouts and concurrency"],
  stubs: ["user pool behind amazon-cognito-identity-js", "API Gateway (routing, authorizer cache, policy evaluation)", "S3 integration of the gateway", "PostgreSQL", "Secrets Manager, Lambda"],
  assumptions: ["header names arrive in lower case", "the user pool allows the user to keep the given password as the new one"],
  mustReach: ["k02.served", "k02.forbidden", "k02.wrong-password", "k02.no-credentials", "k02.first-login", "k02.list", "k02.list-empty", "k02.cached", "k02.changed", "k02.colon", "k02.two-cameras", "k02.outage"],
  async setup() {
    const d = "marine/marinecam/src/lambda";
    return { wiring: await WIRINGS.marinecamApi(), code: await bundle({ authorizer: `${d}/authorizer/authorizer.ts`, list: `${d}/list-cameras/list-cameras.ts`, get: `${d}/get-metadata/get-metadata.ts` }) };
  },
  scenarios: [
    {
      name: "restricted",
      gen(rng, tier) {
        const ops = [];
        const users = NAMES.slice(0, rng.int(1, 3)).map((name) => ({ name, pw: rng.int(0, PW.length - 1), groups: rng.sample(GROUPS, rng.int(0, 3)), change: rng.bool(0.2) }));
        for (let i = 0, n = rng.int(2, tier === "thorough" ? 30 : 14); i < n; i++) {
          const kind = rng.pick(["image", "image", "image", "list", "list", "admin", "key"]);
          const gap = rng.pick([0, 0, 1, 30, 200, 290, 310, 700]);
          if (kind === "admin") ops.push({ kind, gap, user: rng.int(0, users.length - 1), act: rng.pick(["groups", "groups", "password", "reset", "disable", "enable"]), groups: rng.sample(GROUPS, rng.int(0, 3)), pw: rng.int(0, PW.length - 1) });
          else if (kind === "key") ops.push({ kind, gap });
          else ops.push({ kind, gap, user: rng.int(0, users.length - 1), cred: rng.pick(["right", "right", "right", "right", "right", "wrong", "none", "broken", "other", "nobody"]), folder: rng.pick([...GROUPS, "Saimaa", "Saimaa", "Outo"]), image: rng.int(1, 3) });
        }
        return { ops, cfg: { users }, faults: rng.bool(0.5) ? {} : undefined };
      },
      faults: { "db.connect.before": 0.03, "db.before": 0.03, "db.lost": 0.03, "db.error": 0.03, "secrets.before": 0.03, "secrets.lost": 0.03, "cognito.before": 0.08, "cognito.lost": 0.08, crash: 0.005, slow: 0.02, recycle: 0.1 },
      maxEvents: 60000,
      async run(world, plan, ctx) {
        const pg = new PgServer(world);
        const aws = new Aws(world);
        pg.slowMs = 15000;
        const clean = plan.faults && !Object.keys(plan.faults).length;
        const authFn = ctx.wiring.fn(/Authorizer$/);
        check(authFn, "no authorizer function", "no-authorizer");
        const cognito = new UserPool(world, { pool: authFn.env.USERPOOL_ID, client: authFn.env.POOLCLIENT_ID });
        aws.secrets.set("sec", JSON.stringify(DB));
        pg.db.table("camera", "id text primary key, name text not null, camera_group_id text not null, last_updated timestamptz, location geometry");
        const rows = GROUPS.slice(0, 3).flatMap((g) => [1, 2].map((n) => ({ id: `${g}-${n}`, name: `Kamera ${n}`, camera_group_id: g, last_updated: new Date(world.now - n * 1000), location: null })));
        pg.db.seed("camera", rows);
        const svc = { pg, aws, cognito };
        for (const v of PW) world.secret("password", v);
        const fns = {};
        for (const f of ctx.wiring.fns) {
          const key = Object.entries(CODE).find(([re]) => new RegExp(re).test(f.name))?.[1];
          if (key) fns[f.id] = new LambdaFn(world, f.name, ctx.code[key], { env: f.env, svc, timeoutSec: f.timeoutSec, reserved: f.reserved });
        }
        const api = ctx.wiring.apis.find((a) => a.methods.some((m) => m.authorizer));
        check(api && api.methods.every((m) => m.authorizer || m.apiKey), "a method is open to everyone", "open");
        const gw = new RestApi(world, { api, fns, backend: (m, p) => ({ status: 200, body: `${m.uri.replace(/^.*:path\//, "").replace("{folderName}", p.folderName).replace("{objectName}", p.imageName)}` }) });
        // what was so and when: [{t, pw, groups, enabled}] per user
        const log = new Map(plan.cfg.users.map((u) => [u.name, []]));
        const state = (name) => cognito.users.get(name);
        const note = (name) => { const u = state(name); log.get(name).push({ t: world.now, pw: u.password, groups: [...u.groups], enabled: u.enabled }); };
        for (const u of plan.cfg.users) { cognito.users.set(u.name, { password: PW[u.pw], groups: u.groups, enabled: true, change: u.change }); note(u.name); }
        // states that may have been in force at some time within [from, to]
        const during = (name, from, to) => (log.get(name) ?? []).filter((s, i, a) => s.t <= to && (i === a.length - 1 || a[i + 1].t >= from));
        const sleep = (ms) => new Promise((r) => world.after(ms, "user", r));
        const known = new Map(plan.cfg.users.map((u) => [u.name, u.pw]));
        const cams = (gs) => rows.filter((r) => gs.includes(r.camera_group_id)).map((r) => r.id).sort();
        const served = new Map();
        let ended = false, open = 0;
        const ask = async (o, i) => {
          const u = plan.cfg.users[o.user], t0 = world.now;
          let name = u.name, pw = PW[known.get(name)];
          if (o.cred === "wrong") pw = "Väärä123";
          if (o.cred === "other") pw = PW[(known.get(name) + 1) % PW.length];
          if (o.cred === "nobody") name = "eikukaan";
          const headers = {};
          if (o.cred === "broken") headers.authorization = ["Basic", "Basic " + Buffer.from("pelkkä").toString("base64"), "Basic " + Buffer.from(`${name}:`).toString("base64"), "Basic " + Buffer.from(":x").toString("base64")][i % 4];
          else if (o.cred !== "none") headers.authorization = `Basic ${Buffer.from(`${name}:${pw}`).toString("base64")}`;
          const bare = ["none", "broken"].includes(o.cred);
          const first = !bare && state(name)?.change && state(name).password === pw;
          const path = o.kind === "list" ? "/cameras/metadata" : `/cameras/${encodeURIComponent(o.folder)}/${o.image}.jpg`;
          const cached = gw.stats.cached;
          const r = await gw.request({ path, headers, key: `r${i}` });
          const now = world.now, took = now - t0;
          if (r.detail) world.trace("detail", r.detail);
          check(!clean || took <= 12000, `the answer took ${took} ms`, "slow-answer");
          const states = bare ? [] : during(name, t0 - FRESH, now).filter((s) => s.enabled && s.pw === pw);
          const steady = clean && (bare || during(name, t0 - FRESH - took, now).length === 1 || !log.has(name));
          if (gw.stats.cached > cached) world.probe("k02.cached");
          if (r.status === 200) {
            check(states.length, `${path} was given to ${name} with ${o.cred} credentials`, "let-in");
            if (o.kind === "image") {
              check(states.some((s) => s.groups.includes(o.folder)), `${path} was given to ${name}, whose groups are ${JSON.stringify(states.map((s) => s.groups))}`, "not-in-group");
              check(r.body.endsWith(`/images/${o.folder}/${o.image}.jpg`), `${path} gave the object ${r.body}`, "object");
              world.probe("k02.served");
              if (states[0].pw.includes(":")) world.probe("k02.colon");
              const k = `${headers.authorization}`, was = served.get(k);
              if (was && was.path !== path && now - was.t < FRESH) world.probe("k02.two-cameras");
              served.set(k, { path, t: now });
            } else {
              let list;
              try { list = JSON.parse(r.body); } catch { check(false, `the list is not JSON: ${r.body.slice(0, 80)}`, "list-form"); }
              const got = list.map((c) => c.id).sort();
              check(states.some((s) => JSON.stringify(cams(s.groups)) === JSON.stringify(got)), `${name} of ${JSON.stringify(states.map((s) => s.groups))} got the list ${JSON.stringify(got)}`, "list");
              for (const c of list) check(c.cameraGroupId === rows.find((x) => x.id === c.id).camera_group_id && +new Date(c.lastUpdated) === +rows.find((x) => x.id === c.id).last_updated, `list has ${JSON.stringify(c)}`, "list-content");
              world.probe(got.length ? "k02.list" : "k02.list-empty");
            }
            if (first) world.probe("k02.first-login");
            if ((log.get(name) ?? []).length > 1) world.probe("k02.changed");
          } else if (steady) {
            const s = states[0];
            if (bare) { check(r.status === 401, `${path} without credentials answered ${r.status} ${r.detail ?? ""}`, "not-401"); world.probe("k02.no-credentials"); }
            else if (!s) { check(r.status === 403, `${path} with a wrong password answered ${r.status} ${r.detail ?? ""}`, "not-403"); world.probe("k02.wrong-password"); }
            else {
              check(o.kind === "image", `the list was refused of ${name} with ${r.status} ${r.detail ?? ""}`, "list-refused");
              check(!s.groups.includes(o.folder), `${path} was refused of ${name} in ${JSON.stringify(s.groups)} with ${r.status} ${r.detail ?? ""}`, "refused");
              check(r.status === 403, `${path} answered ${r.status} ${r.detail ?? ""}`, "not-403");
              world.probe("k02.forbidden");
            }
          } else if (!clean) world.probe("k02.outage");
        };
        (async () => {
          for (const [i, o] of plan.ops.entries()) {
            await sleep(o.gap * 1000 + 1);
            if (o.kind === "admin") {
              const u = plan.cfg.users[o.user], s = state(u.name);
              if (o.act === "groups") s.groups = o.groups;
              else if (o.act === "disable" || o.act === "enable") s.enabled = o.act === "enable";
              else { s.password = PW[o.pw]; s.change = o.act === "reset"; known.set(u.name, o.pw); }
              note(u.name);
            } else if (o.kind === "key") {
              const r = await gw.request({ path: "/api/marinecam/ibnet/metadata", key: `r${i}` });
              if (clean) check(r.status === 200 && JSON.stringify(JSON.parse(r.body).map((c) => c.id).sort()) === JSON.stringify(cams(["Saimaa"])), `list with an API key answered ${r.status} ${r.body?.slice(0, 80)} ${r.detail ?? ""}`, "key-list");
            } else if (o.gap === 0 && open < 1) {
              open++;
              ask(o, i).catch((e) => world.fail(e)).finally(() => open--);
            } else { while (open) await sleep(50); await ask(o, i); }
          }
          while (open) await sleep(50);
          ended = true;
        })().catch((e) => world.fail(e));
        await world.run({ deadline: world.now + 24 * 60 * MIN, until: () => ended });
        check(ended, "a request was never answered", "no-answer");
      },
    },
  ],
};
