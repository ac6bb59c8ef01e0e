// V02: port call visit answers are the visits of one stored state that match the request, in the requested order.
import { bundle } from "../runtime.mjs";
import { WIRINGS } from "../apps.mjs";
import { LambdaFn } from "../lambda.mjs";
import { RestApi } from "../gateway.mjs";
import { check } from "../check.mjs";
import { PgServer } from "../pgserver.mjs";
import { Aws } from "../services.mjs";
import { DAY, HOUR, SECRET, STATUS, visitSchema } from "./V01.mjs";

const NAMES = ["Alma", "BORE", "Cécile Ähtäri", "L'Austral", "MS \"Ritva\"", "Nordic Ace"];
const PORTS = ["FIHKO", "FIRAU", "FIKTK"];
const QUERY = { "Expected to Arrive": "expected-to-arrive", Arrived: "arrived", Departed: "departed", Cancelled: "cancelled" };
const SORTS = ["eta", "etd", "ata", "atd", "vesselName", "portOfCall", "status"];
const TIMES = ["eta", "etd", "ata", "atd"];
const swap = (s) => [...s].map((c) => (c === c.toLowerCase() ? c.toUpperCase() : c.toLowerCase())).join("");
const BAD = [{ fromDateTime: "eilen" }, { toDateTime: "2025-13-40T00:00:00Z" }, { imo: "90x" }, { status: "lost" }, { sort: "eta" }, { sort: "eta:up" }, { sort: "imo:asc" }, { sort: "eta:asc:desc" }, { sort: ":asc" }, { portOfCall: "" }, { vesselName: "" }, { other: "1" }, { sort: "eta:asc'" }, { status: "\"" }];
const shown = (r) => JSON.stringify([r.visit_id, r.vessel_id, r.vessel_name, r.port_locode, ...TIMES.map((c) => r[c] ?? null), r.status, r.update_time]);
const shownApi = (v) => JSON.stringify([v.visitId, v.vesselId, v.vesselName, v.portOfCall, ...TIMES.map((c) => (v[c] ? Date.parse(v[c]) : null)), v.status, Date.parse(v.updateTime)]);
const iso = (t, off) => (off === undefined ? new Date(t).toISOString() : `${new Date(t + off * HOUR).toISOString().slice(0, 19)}${off < 0 ? "-" : "+"}${String(Math.abs(off)).padStart(2, "0")}:00`);

export default {
  id: "V02",
  quickSec: 15,
  thoroughSec: 240,
  real: ["port-call get-visits and get-visit handlers, parameter schema, visit service and DAO", "pg-promise, pg-pool, lib database, secrets and lambda response", "synthesised public REST API with its mapping templates, timeout"],
  stubs: ["API Gateway (routing, velocityjs for the templates)", "PostgreSQL", "Secrets Manager, Lambda"],
  assumptions: ["visits arriving more than about three months from now may be left out", "a visit of which different timestamps satisfy the two limits may be given or left out", "wildcard characters in a vessel name are left open", "times are at whole seconds"],
  mustReach: ["v02.all", "v02.filtered", "v02.empty", "v02.sorted", "v02.default-order", "v02.bad", "v02.quote", "v02.concurrent", "v02.outage", "v02.one", "v02.missing", "v02.edge", "v02.far", "v02.null"],
  async setup() {
    const d = "marine/port-call/src/lambda";
    return { wiring: await WIRINGS.portCallPublic(), code: await bundle({ list: `${d}/get-visits/get-visits.ts`, one: `${d}/get-visit/get-visit.ts` }) };
  },
  scenarios: [
    {
      name: "answers",
      gen(rng, tier) {
        const row = () => ({ id: rng.int(1, 9), eta: rng.pick([-120, -80, -30, -2, 0, 0, 1, 1, 2, 30, 80, 120]), h: rng.int(0, 5), etd: rng.pick([null, 1, 2, 30]), ata: rng.pick([null, null, 0, 1, 2]), atd: rng.pick([null, null, 3, 40]), port: rng.int(0, 2), st: rng.int(0, 3) });
        const ops = [];
        for (let i = rng.int(3, tier === "thorough" ? 40 : 16); i > 0; i--) {
          const k = rng.int(0, 9);
          if (k < 3) ops.push({ kind: "write", rows: Array.from({ length: rng.pick([1, 3, 6]) }, row) });
          else if (k < 4) ops.push({ kind: "one", id: rng.int(0, 9) });
          else if (k < 5) ops.push({ kind: "bad", with: rng.int(0, BAD.length - 1) });
          else {
            const q = {};
            if (rng.bool(0.35)) q.from = [rng.int(1, 9), rng.int(0, 3), rng.pick([0, 0, 1, -1, -40 * 86400])];
            if (rng.bool(0.35)) q.to = [rng.int(1, 9), rng.int(0, 3), rng.pick([0, 0, 1, -1, 40 * 86400])];
            if (rng.bool(0.2)) q.port = rng.int(0, 2);
            if (rng.bool(0.25)) q.name = [rng.int(0, NAMES.length - 1), rng.int(0, 3), rng.int(1, 5), rng.bool()];
            if (rng.bool(0.15)) q.imo = rng.int(1, 9);
            if (rng.bool(0.25)) q.status = rng.int(0, 3);
            if (rng.bool(0.5)) q.sort = [rng.int(0, 6), rng.bool()];
            ops.push({ kind: "list", q, off: rng.pick([undefined, undefined, 0, 2, -3]), low: rng.bool(0.3), head: rng.bool(0.05) });
          }
          if (rng.bool(0.5)) ops.push({ kind: "wait", s: rng.pick([0, 1, 100, 86400]) });
        }
        return { ops, cfg: {}, faults: rng.bool(0.5) ? {} : undefined };
      },
      faults: { "db.connect.before": 0.03, "db.before": 0.02, "db.lost": 0.02, "db.error": 0.03, "secrets.before": 0.03, "secrets.lost": 0.02, crash: 0.005, slow: 0.01, recycle: 0.1 },
      maxEvents: 60000,
      async run(world, plan, ctx) {
        const pg = new PgServer(world), aws = new Aws(world);
        pg.slowMs = 20000;
        aws.secrets.set("sec", JSON.stringify(SECRET));
        visitSchema(pg.db);
        const clean = plan.faults && !Object.keys(plan.faults).length;
        const svc = { pg, aws };
        const fn = ctx.wiring.fns.find((f) => /GetVisits$/.test(f.name));
        check(fn, "no function for the visits", "no-function");
        const list = new LambdaFn(world, fn.name, ctx.code.list, { env: fn.env, svc, timeoutSec: fn.timeoutSec, reserved: fn.reserved });
        const one = new LambdaFn(world, "one", ctx.code.one, { env: fn.env, svc, timeoutSec: 60 });
        const gw = new RestApi(world, { api: ctx.wiring.apis[0], fns: { [fn.id]: list } });
        check(ctx.wiring.apis[0].methods.every((m) => m.apiKey), "a method is open without an API key", "open");
        const ms = (v) => (v === null || v === undefined ? null : +new Date(v));
        const rows = () => pg.db.rows("pc2_visit").map((r) => ({ ...r, ...Object.fromEntries([...TIMES, "update_time"].map((c) => [c, ms(r[c])])) }));
        const states = [{ t: world.now, rows: [] }];
        pg.db.commitHooks.push(() => states.push({ t: world.now, rows: rows() }));
        const base = Math.floor(world.now / DAY) * DAY;
        let n = 0;
        const write = (o) => {
          const tx = pg.db.begin();
          for (const x of o.rows) {
            const eta = base + x.eta * DAY + x.h * HOUR;
            const after = (h) => (h === null ? null : new Date(eta + h * HOUR));
            const vals = [`V${x.id}`, `900000${x.id}`, NAMES[x.id % NAMES.length], PORTS[x.port], new Date(eta), after(x.etd), after(x.ata), after(x.atd), STATUS[x.st], new Date(Math.floor(world.now / 1000) * 1000 + n++)];
            pg.db.execStmt(pg.db.parse("insert into pc2_visit(visit_id, vessel_id, vessel_name, port_locode, eta, etd, ata, atd, status, update_time) values ($1,$2,$3,$4,$5,$6,$7,$8,$9,$10) on conflict(visit_id) do update set port_locode = excluded.port_locode, eta = excluded.eta, etd = excluded.etd, ata = excluded.ata, atd = excluded.atd, status = excluded.status, update_time = excluded.update_time")[0], tx, { params: vals });
          }
          pg.db.commit(tx);
        };
        const during = (from, to) => { const d = states.filter((s, i) => s.t <= to && (i === states.length - 1 || states[i + 1].t >= from)); if (d.length > 1) world.probe("v02.concurrent"); return d; };
        const limit = ([id, c, off], state) => { const r = state.find((x) => x.visit_id === `V${id}`); const t = r?.[TIMES[c]] ?? r?.eta; if (t !== undefined && off === 0) world.probe("v02.edge"); return (t ?? base) + off * 1000; };
        /** Why the answer is not that of the state, or undefined. */
        const wrong = (state, f, answer, now) => {
          const hit = (r) => {
            const ts = TIMES.map((c) => r[c]).filter((t) => t !== null);
            const ok = (t) => (f.from === undefined || t >= f.from) && (f.to === undefined || t < f.to);
            if (f.port && r.port_locode !== f.port) return "no";
            if (f.name && !r.vessel_name.toLowerCase().includes(f.name.toLowerCase())) return "no";
            if (f.imo && r.vessel_id !== f.imo) return "no";
            if (f.status && r.status !== f.status) return "no";
            if (!ts.some(ok)) return ts.some((t) => f.from === undefined || t >= f.from) && ts.some((t) => f.to === undefined || t < f.to) ? "open" : "no";
            if (Math.abs(r.eta - now) > 88 * DAY) { world.probe("v02.far"); return "open"; }
            return "yes";
          };
          const got = new Map();
          for (const v of answer) { if (got.has(v.visitId)) return `visit ${v.visitId} is given twice`; got.set(v.visitId, shownApi(v)); }
          for (const r of state) {
            const h = hit(r), g = got.get(r.visit_id);
            if (h === "yes" && !g) return `visit ${shown(r)} is missing`;
            if (g && h === "no") return `visit ${shown(r)} does not match the request`;
            if (g && g !== shown(r)) return `visit ${r.visit_id} is given as ${g}, stored is ${shown(r)}`;
            got.delete(r.visit_id);
          }
          if (got.size) return `visit ${[...got.keys()][0]} does not exist`;
          const val = (v) => (f.sort ? (TIMES.includes(f.sort) ? (v[f.sort] ? Date.parse(v[f.sort]) : null) : v[f.sort]) : Date.parse(v.ata ?? v.eta));
          for (let i = 1; i < answer.length; i++) {
            const a = val(answer[i - 1]), b = val(answer[i]);
            if (a === null && b !== null) return "visits without the time come before those with it";
            if (a === null || b === null) { world.probe("v02.null"); continue; }
            if (f.desc ? a < b : a > b) return `wrong order: ${a} before ${b}`;
          }
        };
        let open = 0, k = 0;
        const outcome = (r, mark, what) => {
          const hurt = world.firedFaults.slice(mark).some((x) => x.kind !== "recycle");
          check(clean || hurt || r.status < 500, `${what} answered ${r.status} although nothing failed: ${r.detail ?? r.body?.slice(0, 200)}`, "failed");
          if (r.status >= 500) world.probe("v02.outage");
        };
        const ask = async (o) => {
          const start = world.now, mark = world.firedFaults.length, key = `r${k++}`;
          const cur = rows();
          if (o.kind === "bad") {
            const r = await gw.request({ path: "/api/port-call/v2/visits", query: BAD[o.with], key });
            check(r.status === 400 || (r.status >= 500 && !clean && world.firedFaults.length > mark), `${JSON.stringify(BAD[o.with])} was answered ${r.status} ${r.detail ?? ""}`, "not-400");
            world.probe("v02.bad");
            return;
          }
          if (o.kind === "one") {
            const id = `V${o.id}`;
            const x = await one.invoke({ visitId: id }, { key });
            const r = x.status === "ok" ? { status: x.value.status, body: Buffer.from(x.value.body, "base64").toString() } : { status: 502, body: "", detail: `${x.status} ${x.error?.message}` };
            outcome(r, mark, "one visit");
            if (r.status >= 500) return;
            const states2 = during(start, world.now);
            const ok = states2.some((s) => { const row = s.rows.find((v) => v.visit_id === id); return row ? r.status === 200 && shownApi(JSON.parse(r.body)) === shown(row) && (!x.value.timestamp || Date.parse(x.value.timestamp) === Math.floor(row.update_time / 1000) * 1000) : r.status === 404; });
            check(ok, `visit ${id} was answered ${r.status} ${r.body} ${x.value.timestamp ?? ""}; stored ${JSON.stringify(states2.map((s) => s.rows.filter((v) => v.visit_id === id).map(shown)))}`, "one");
            world.probe(r.status === 404 ? "v02.missing" : "v02.one");
            return;
          }
          const q = o.q, f = {}, query = {};
          for (const [a, b] of [["from", "fromDateTime"], ["to", "toDateTime"]]) if (q[a]) { f[a] = limit(q[a], cur); query[b] = iso(f[a], o.off); if (o.off !== undefined) f[a] = Math.floor(f[a] / 1000) * 1000; }
          if (q.port !== undefined) { f.port = PORTS[q.port]; query.portOfCall = o.low ? f.port.toLowerCase() : f.port; }
          if (q.name) { const s = NAMES[q.name[0]].slice(q.name[1], q.name[1] + q.name[2]); f.name = s; query.vesselName = q.name[3] ? swap(s) : s; if (/['"]/.test(s)) world.probe("v02.quote"); }
          if (q.imo) { f.imo = `900000${q.imo}`; query.imo = f.imo; }
          if (q.status !== undefined) { f.status = STATUS[q.status]; query.status = o.low ? QUERY[f.status].toUpperCase() : QUERY[f.status]; }
          if (q.sort) { f.sort = SORTS[q.sort[0]]; f.desc = q.sort[1]; query.sort = `${f.sort}:${f.desc ? "desc" : "asc"}`; }
          const r = await gw.request({ method: o.head ? "HEAD" : "GET", path: "/api/port-call/v2/visits", query, key });
          outcome(r, mark, JSON.stringify(query));
          if (r.status >= 500) return;
          check(r.status === 200, `${JSON.stringify(query)} was answered ${r.status} ${r.detail ?? r.body}`, "refused");
          let answer;
          try { answer = JSON.parse(r.body); } catch { /* below */ }
          check(Array.isArray(answer), `no list of visits: ${r.body.slice(0, 100)}`, "no-list");
          const why = [];
          for (const s of during(start, world.now)) { const w = wrong(s.rows, f, answer, start); if (!w) { why.length = 0; break; } why.push(w); }
          check(!why.length, `${JSON.stringify(query)}: ${why[0]}`, "answer");
          world.probe(answer.length ? (Object.keys(f).some((x) => !/sort|desc/.test(x)) ? "v02.filtered" : "v02.all") : "v02.empty");
          if (answer.length > 1) world.probe(f.sort ? "v02.sorted" : "v02.default-order");
          world.record("answer", { n: answer.length });
        };
        let fin = false;
        (async () => {
          for (const o of plan.ops) {
            if (o.kind === "wait") { await world.sleep(o.s * 1000 + 1); continue; }
            if (o.kind === "write") { if (open) await world.sleep(world.rand("w") * 40); write(o); continue; }
            while (open > 1) await world.sleep(20);
            open++;
            ask(o).catch((e) => world.fail(e)).finally(() => open--);
            await world.sleep(1);
          }
          while (open) await world.sleep(50);
          fin = true;
        })().catch((e) => world.fail(e));
        await world.run({ deadline: world.now + 400 * DAY, until: () => fin });
        check(fin, "a request was never answered", "no-answer");
      },
    },
  ],
};
