// S01: uploads of variable sign data are stored whole or not at all, and answered truthfully.
import { bundle } from "../runtime.mjs";
import { WIRINGS } from "../apps.mjs";
import { deploy } from "../lambda.mjs";
import { check } from "../check.mjs";
import { PgServer } from "../pgserver.mjs";
import { Aws } from "../services.mjs";
import { DB, DEVICES, TEXTS, TIMES, tables, situation, message } from "../harness/signs.mjs";

const H = "road/variable-signs/src/lambda";
const HOUR = 3600000;

export default {
  id: "S01",
  quickSec: 15,
  thoroughSec: 240,
  real: ["variable-signs update-datex2, update-json-data and update-json-metadata handlers, services and database code", "pg-promise, pg-pool, lib database, secrets, last-updated", "synthesised concurrency and timeout of the functions"],
  stubs: ["PostgreSQL", "Lambda and API gateway", "Secrets Manager"],
  assumptions: ["metadata uploads do not overlap each other", "situations carry their id and version attributes first, as the sender writes them", "an upload may fail without a fault when it overlaps another upload of the same signs (deadlock or throttling)"],
  mustReach: ["s01.datex", "s01.data", "s01.meta", "s01.refused", "s01.cut", "s01.unknown-device", "s01.failed", "s01.removed", "s01.returned", "s01.crash", "s01.overlap", "s01.rows"],
  async setup() {
    return { wiring: await WIRINGS.variableSigns(), code: { datex: await bundle({ h: `${H}/update-datex2/update-datex2.ts` }), data: await bundle({ h: `${H}/update-json-data/update-json-data.ts` }), meta: await bundle({ h: `${H}/update-json-metadata/update-json-metadata.ts` }) } };
  },
  scenarios: [
    {
      name: "uploads",
      gen(rng, tier) {
        const k = rng.int(2, tier === "thorough" ? 18 : 8);
        const ops = [];
        let n = 0;
        const known = rng.int(2, DEVICES.length);
        const dev = () => DEVICES[rng.int(0, known - 1 + (rng.bool(0.08) ? 1 : 0)) % DEVICES.length];
        for (let i = 0; i < k; i++) {
          const kind = rng.pick(["datex", "datex", "data", "meta"]);
          const at = i * rng.pick([5, 400, 400, 3000]);
          if (kind === "datex") ops.push({ kind, at, n: n++, bad: rng.bool(0.3) ? rng.pick(["noXml", "none", "two", "cut", "cut", "cutLast", "noTime", "empty"]) : "", sits: Array.from({ length: rng.pick([0, 1, 2, 2, 4]) }, () => ({ dev: dev(), n: n++, t: rng.pick(TIMES), text: rng.pick(TEXTS) })) });
          else if (kind === "data") ops.push({ kind, at, n: n++, bad: rng.bool(0.15) ? rng.pick(["json", "empty"]) : "", signs: Array.from({ length: rng.int(1, 4) }, () => ({ dev: dev(), n: n++, opt: rng.int(0, 7), rows: rng.int(0, 3), t: rng.pick(TIMES) })) });
          else ops.push({ kind, at, n: n++, bad: rng.bool(0.15) ? rng.pick(["json", "empty"]) : "", devs: Array.from({ length: rng.int(0, known) }, () => ({ dev: dev(), n: n++ })) });
        }
        return { ops, cfg: { known, deleted: rng.int(0, 2) }, faults: rng.bool(0.25) ? {} : undefined };
      },
      faults: { "db.connect.before": 0.03, "db.before": 0.02, "db.lost": 0.02, "db.error": 0.03, "secrets.before": 0.05, crash: 0.008, slow: 0.01, recycle: 0.2 },
      maxEvents: 40000,
      async run(world, plan, ctx) {
        const pg = new PgServer(world);
        const aws = new Aws(world);
        pg.slowMs = 80000;
        aws.secrets.set("sec", JSON.stringify(DB));
        tables(pg);
        const base = world.now;
        pg.db.seed("device", DEVICES.slice(0, plan.cfg.known).map((id, i) => ({ id, deleted_date: i < plan.cfg.deleted ? new Date(base - HOUR) : null, type: "NOPEUSRAJOITUS", road_address: `r${id}`, direction: "", carriageway: "", etrs_tm35fin_x: 1, etrs_tm35fin_y: 2 })));
        const fns = {};
        for (const [k, re] of [["datex", /update-?datex2/i], ["data", /update-?json-?data/i], ["meta", /update-?json-?metadata/i]]) fns[k] = { re, code: ctx.code[k].h ?? ctx.code[k], svc: { pg, aws } };
        const d = deploy(world, ctx.wiring, { aws, fns });
        const ops = plan.ops.map((o) => ({ ...o, stored: 0, state: "waiting" }));
        const flying = (kind) => ["running", "done"].flatMap((st) => ops.filter((o) => o.kind === kind && o.state === st));
        // two uploads without situations cannot be told apart by what they store
        const like = (a, b) => a === b || (a.kind === b.kind && !a.sits?.length && !b.sits?.length);
        const refused = (o) => !!o.bad && !(/^(cut|cutLast|noTime)$/.test(o.bad) && !o.sits.length);
        const body = (o) => {
          if (o.bad === "empty") return "";
          if (o.kind === "datex") {
            let m = message(o.sits, { noXml: o.bad === "noXml", payloads: o.bad === "none" ? 0 : o.bad === "two" ? 2 : undefined });
            if (o.bad === "cut" && o.sits.length) m = m.slice(0, m.indexOf("</situation>") + 5) + (o.sits.length > 1 ? "" : "\n</payloadPublication></d2LogicalModel>");
            if (o.bad === "cutLast" && o.sits.length) m = m.slice(0, m.lastIndexOf("</situation>"));
            if (o.bad === "noTime") m = m.replace(/<overallStartTime>[^<]*<\/overallStartTime>/, "");
            return m;
          }
          const j = o.kind === "data" ? { liikennemerkit: o.signs.map(sign) } : { laitteet: o.devs.map(device) };
          return o.bad === "json" ? JSON.stringify(j).slice(0, -2) : JSON.stringify(j);
        };
        const sign = (s) => ({ tunnus: s.dev, ...(s.opt & 1 ? { nayttama: "80" } : {}), lisatieto: `d${s.n}`, voimaan: new Date(s.t).toISOString(), ...(s.opt & 2 ? { syy: "Automaatti" } : {}), luotettavuus: "NORMAALI", ...(s.rows || s.opt & 4 ? { rivit: Array.from({ length: s.rows }, (_, i) => ({ naytto: 1, rivi: i + 1, ...(i === 1 ? {} : { teksti: `rivi ä ${s.n}.${i}` }) })) } : {}) });
        const device = (v) => ({ tunnus: v.dev, tyyppi: `T${v.n}`, sijainti: { tieosoite: `r${v.n}`, ajosuunta: "KASVAVA", ajorata: "OIKEANPUOLEINEN", n: 6000000 + v.n, e: 300000 + v.n } });
        const lastOf = (list) => [...new Map(list.map((x) => [x.dev, x])).values()];
        pg.db.commitHooks.push((tx, changes) => {
          try {
            const by = (t) => changes.filter((c) => c.table.name === t);
            for (const c of changes) check(c.kind !== "delete", `a row of ${c.table.name} was deleted`, "deleted");
            if (by("device_data_datex2").length || by("data_updated").length) {
              const rows = pg.db.rows("device_data_datex2");
              const upd = pg.db.rows("data_updated").find((r) => r.data_type === "VS_DATEX2" && r.subtype === "-");
              const devs = new Set(by("device_data_datex2").filter((c) => c.op === "ins").map((c) => c.row.vals.device_id));
              const u = flying("datex").sort((x, y) => refused(x) - refused(y)).find((o) => !o.stored && (o.bad !== "noTime" || !o.sits.length) && [...devs].every((x) => o.sits.some((s) => s.dev === x)) && lastOf(o.sits).every((s) => { const r = rows.find((x) => x.device_id === s.dev && x.type === "SITUATION" && x.version === "DATEXII_2_2_3"); return r && r.datex2 === situation(s) && +r.effect_date === s.t; }) && upd && ops.some((x) => x.t0 && like(x, o) && +upd.updated >= x.t0 - 5) && +upd.updated <= world.now);
              check(u, `a commit of situations of ${[...devs]} does not hold all of one upload with its update time`, "datex-partial");
              u.stored++;
            }
            if (by("device_data").length || by("device_data_row").length) {
              const add = by("device_data").map((c) => c.row.vals), rows = by("device_data_row").map((c) => c.row.vals);
              const u = flying("data").find((o) => !o.stored && o.signs.some((s) => add.some((r) => r.additional_information === `d${s.n}`)));
              check(u, "device data nobody is sending was stored", "data-foreign");
              check(add.length === u.signs.length, `${add.length} of ${u.signs.length} signs were stored in one commit`, "data-partial");
              let left = rows.length;
              for (const s of u.signs) {
                const r = add.find((x) => x.additional_information === `d${s.n}`);
                const j = sign(s);
                check(r && r.device_id === s.dev && (r.display_value ?? undefined) === j.nayttama && (r.cause ?? undefined) === j.syy && r.reliability === "NORMAALI" && +r.effect_date === s.t, `sign ${s.dev} is not stored as sent`, "data-content");
                const mine = rows.filter((x) => x.device_data_id === r.id);
                check(mine.length === s.rows && (j.rivit ?? []).every((q) => mine.some((x) => x.screen === q.naytto && x.row_number === q.rivi && (x.text ?? undefined) === q.teksti)), `the rows of sign ${s.dev} are not stored as sent`, "data-rows");
                left -= mine.length;
                if (s.rows) world.probe("s01.rows");
              }
              check(!left, "rows of another sign were stored", "data-rows");
              u.stored++;
            }
            if (by("device").length) {
              const u = ops.find((o) => o.kind === "meta" && o.state === "running");
              check(u && !u.stored, "devices changed without an upload", "meta-foreign");
              const want = new Map(u.devs.map((v) => [v.dev, v]));
              for (const r of pg.db.rows("device")) {
                const v = want.get(r.id);
                const old = by("device").find((c) => c.op === "del" && c.row.vals.id === r.id)?.row.vals;
                if (!v) { check(r.deleted_date, `device ${r.id}, which is not in the upload, is not marked as deleted`, "meta-not-removed"); if (old && !old.deleted_date) world.probe("s01.removed"); continue; }
                want.delete(r.id);
                const j = device(v);
                check(!r.deleted_date && r.type === j.tyyppi && r.road_address === j.sijainti.tieosoite && r.direction === "KASVAVA" && r.carriageway === "OIKEANPUOLEINEN" && +r.etrs_tm35fin_x === j.sijainti.e && +r.etrs_tm35fin_y === j.sijainti.n, `device ${r.id} is not stored as sent`, "meta-content");
                if (old?.deleted_date) world.probe("s01.returned");
              }
              check(!want.size, `devices ${[...want.keys()]} of the upload are missing`, "meta-partial");
              u.stored++;
            }
          } catch (e) { world.fail(e); }
        });
        let open = ops.length;
        const send = async (o) => {
          if (o.kind === "meta") while (ops.some((x) => x.kind === "meta" && x.state === "running")) await world.sleep(500);
          o.state = "running"; o.t0 = world.now;
          const mark = world.firedFaults.length;
          const others = ops.filter((x) => x !== o && x.state === "running");
          for (const x of others) x.met = o.met = true;
          if (others.length) world.probe("s01.overlap");
          const devices = new Set(pg.db.rows("device").map((r) => r.id));
          const r = await d.fns[o.kind].invoke({ body: body(o) });
          o.state = "done";
          const hurt = world.firedFaults.slice(mark).some((f) => f.kind !== "recycle") || o.met || ops.some((x) => x.state === "running");
          const ok = r.status === "ok" && r.value?.statusCode === 200;
          const known = o.kind === "meta" || (o.sits ?? o.signs).every((s) => devices.has(s.dev));
          const bad = o.bad && !((o.bad === "cut" || o.bad === "cutLast" || o.bad === "noTime") && !o.sits.length);
          world.record("upload", { k: o.kind, s: r.status, c: r.value?.statusCode, n: o.stored });
          if (bad) {
            world.probe(o.bad.startsWith("cut") ? "s01.cut" : "s01.refused");
            check(!ok && !o.stored, `a malformed upload (${o.bad}) was ${ok ? "accepted" : "stored"}`, `accepted-${o.bad}`);
          } else if (!known && !ops.some((x) => x.kind === "meta" && x.state === "running")) {
            world.probe("s01.unknown-device");
            if (!o.met) check(!ok && !o.stored, "an upload for an unknown device was accepted", "unknown-device");
          } else if (!hurt) check(ok, `a valid upload was answered ${r.value?.statusCode ?? r.error?.message} although nothing failed`, "not-accepted");
          const nothing = (o.kind === "meta" ? !o.devs.length : o.kind === "datex" && !o.sits.length) && o.stored <= 1; // may change nothing, or cannot be told from another empty one
          if (ok && !nothing) check(o.stored === 1, `an accepted upload was ${o.stored ? "stored more than once" : "not stored"}`, "not-stored");
          if (ok) world.probe(`s01.${o.kind}`);
          if (!ok && hurt) world.probe("s01.failed");
          if (r.status === "crash") world.probe("s01.crash");
          open--;
        };
        for (const o of ops) world.after(o.at, "sender", () => { send(o).catch((e) => world.fail(e)); });
        await world.run({ until: () => !open, deadline: world.now + HOUR });
        check(!open, "uploads did not finish", "stuck");
      },
    },
  ],
};
