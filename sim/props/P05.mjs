// P05: every estimate a source gives reaches the timestamp queue once and unchanged, and nothing else does.
import { bundle, evalEsm } from "../runtime.mjs";
import { createRequire } from "node:module";
import { WIRINGS } from "../apps.mjs";
import { deploy } from "../lambda.mjs";
import { check } from "../check.mjs";
import { portSchema, SECRET, SHIPS, HOUR, DAY, PgServer, Aws, Http } from "../harness/portactivity.mjs";

const L = (n) => `marine/portactivity/src/lambda/${n}/`;
const MIN = 60000;
const iso = (ms) => new Date(Math.floor(ms)).toISOString();
/** The same moment, told with an offset to UTC. */
const isoAt = (ms, off) => (off ? `${iso(ms + off * MIN).slice(0, -1)}${off < 0 ? "-" : "+"}${String(Math.floor(Math.abs(off) / 60)).padStart(2, "0")}:${String(Math.abs(off) % 60).padStart(2, "0")}` : iso(ms));
const ETP = ["FIRAU", "FIKOK", "FIKAS", "FIPOR", "FIUKI", "FIHKO", "FIRAA", "FIKEM", "FIPRS"];
const OVERRIDE = ["FIHEL", "FIPOR", "FIHKO"];
const MORE = Array.from({ length: 26 }, (_, i) => ({ imo: 9000001 + i, mmsi: 230000001 + i }));

/** What a message says, whatever its key order or absent fields. */
const say = (m) => [m.eventType, m.eventTime, m.recordTime, m.source, m.ship?.imo, m.ship?.mmsi, m.location?.port, m.location?.portArea ?? "-", m.portcallId ?? "-", m.eventTimeConfidenceLowerDiff ?? "-", m.eventTimeConfidenceUpperDiff ?? "-"].join("|");
/** Like say, for estimates whose record time is the time of the run. */
const blur = (s) => { const p = s.split("|"); p[2] = "*"; return p.join("|"); };

const xmlEsc = (v) => String(v).replace(/&/g, "&amp;").replace(/"/g, "&quot;").replace(/</g, "&lt;");
const el = (n, at, kids = "") => `<${n}${Object.entries(at).map(([k, v]) => ` ${k}="${xmlEsc(v)}"`).join("")}${kids ? `>${kids}</${n}>` : "/>"}`;

/** One Awake.AI prediction from its plan. */
function prediction(p, t) {
  if (p.kind === "call") return { predictionType: "arrival-port-call", portCallId: "8e6e3c1c", portCallLocode: "FIRAU", ...(p.urn === "bad" ? { portCallUrn: "urn:awake:none" } : p.urn === "none" ? {} : { portCallUrn: `urn:awake:digitraffic-portcall:${p.call}` }) };
  if (p.kind === "travel") return { predictionType: "travel-time", zoneType: p.zone, locode: p.locode, remainingTravelTime: 3600 };
  return { predictionType: p.kind, zoneType: p.zone, locode: p.locode, ...(p.rec ? { recordTime: iso(t - p.rec * MIN) } : {}), ...(p.noTime ? {} : { [p.kind === "eta" ? "arrivalTime" : "departureTime"]: isoAt(t + p.in * MIN, p.off) }), ...(p.meta ? { metadata: { source: p.own ? "urn:awake:digitraffic-portcall:55" : "urn:awake:traffic", ...(p.q ? { errorQuantiles: { q10: p.q[0], q25: 0, q75: 1, q90: p.q[1] } } : {}) } } : {}) };
}
const voyage = (v, t) => ({ ship: { mmsi: MORE[v.ship].mmsi, imo: MORE[v.ship].imo, shipName: "Alus" }, voyage: { voyageStatus: v.status, sequenceNo: 0, ...(v.noPredictions ? {} : { predictions: v.predictions.map((p) => prediction(p, t)) }) } });
const finnish = (l) => l.toLowerCase().startsWith("fi");
const conf = (p) => ({ eventTimeConfidenceLowerDiff: p.metadata?.errorQuantiles?.q10, eventTimeConfidenceUpperDiff: p.metadata?.errorQuantiles?.q90 });
const own = (p) => p.metadata?.source?.includes("digitraffic-portcall");

/** Estimates of a port answer: [{text, must}]. */
function ofPort(kind, locode, schedule, now) {
  const out = [];
  for (const s of schedule) {
    if (!["underway", "not-started"].includes(s.voyage.voyageStatus) || !s.voyage.predictions) continue;
    const urn = kind === "eta" ? s.voyage.predictions.find((p) => p.predictionType === "arrival-port-call")?.portCallUrn : undefined;
    for (const p of s.voyage.predictions) {
      const time = kind === "eta" ? p.arrivalTime : p.departureTime;
      if (p.predictionType !== kind || own(p) || p.zoneType !== "berth" || !time || !finnish(p.locode)) continue;
      if (Date.parse(time) < now + (kind === "eta" ? 24 * HOUR : 0)) continue;
      const bad = urn !== undefined && urn.split(":").length < 4;
      const m = { eventType: kind === "eta" ? "ETA" : "ETD", eventTime: time, recordTime: p.recordTime ?? "*", source: "Awake.AI Pred", ship: { imo: s.ship.imo, mmsi: s.ship.mmsi }, location: { port: locode }, portcallId: urn && !bad ? Number(urn.split(":")[3]) : undefined, ...conf(p) };
      out.push({ text: say(m), must: !bad, near: p.recordTime === undefined });
    }
  }
  return out;
}
/** Estimates of a ship answer. */
function ofShip(ship, given, j, allEtb) {
  const out = [];
  if (j.predictability !== "predictable" || !j.predictedVoyages?.length) return out;
  const v = j.predictedVoyages[0];
  if (v.voyageStatus !== "underway" || !v.predictions) return out;
  for (const p of v.predictions) {
    if (p.predictionType !== "eta" || own(p) || !p.arrivalTime || !finnish(p.locode)) continue;
    let port = p.locode;
    if (p.locode !== ship.locode) {
      if (!given) continue;
      if (OVERRIDE.includes(ship.locode)) port = ship.locode;
    }
    if (p.zoneType === "pbp" && !ETP.includes(port)) continue;
    const m = { eventType: p.zoneType === "pbp" ? "ETP" : "ETA", eventTime: p.arrivalTime, recordTime: p.recordTime ?? "*", source: "Awake.AI", ship: { imo: ship.imo, mmsi: j.ship.mmsi }, location: { port: ship.locode, portArea: ship.port_area_code ?? undefined }, portcallId: ship.portcall_id, ...conf(p) };
    const near = p.recordTime === undefined;
    out.push({ text: say(m), must: true, near });
    if (m.eventType === "ETA" && (allEtb || ship.locode === "FIRAU")) out.push({ text: say({ ...m, eventType: "ETB" }), must: true, near });
  }
  return out;
}

/** Compares what a run queued with what it had to queue. */
function judge(world, rec, want, probe) {
  const faults = world.firedFaults.slice(rec.mark).filter((f) => f.site.startsWith(`${rec.site}:`) || f.site === rec.site);
  const kinds = faults.map((f) => f.kind);
  const left = [...want];
  for (const b of rec.sent) {
    const s = say(b);
    const fresh = Math.abs(Date.parse(b.recordTime) - rec.from) < 5 * MIN;
    const fits = (x) => x.text === s || (x.near && fresh && x.text === blur(s));
    let i = left.findIndex((x) => !x.used && x.must && x.text === s);
    if (i < 0) i = left.findIndex((x) => !x.used && x.must && fits(x));
    if (i < 0) i = left.findIndex((x) => !x.used && fits(x));
    if (i < 0 && kinds.includes("sqs.lost")) i = left.findIndex(fits);
    check(i >= 0, `${rec.site} queued ${s}, which ${want.some((x) => x.text === s || x.text === blur(s)) ? "it had queued before" : `its source did not say; the source said ${want.map((x) => x.text).slice(0, 4).join("  ") || "nothing"}`}`, `queued:${rec.fn}`);
    left[i].used = true;
  }
  const missing = left.filter((x) => x.must && !x.used);
  if (missing.length && rec.status === "ok" && !kinds.some((k) => k.startsWith("sqs"))) check(false, `${rec.site} succeeded without queueing ${missing[0].text}`, `missing:${rec.fn}`);
  if (rec.status !== "ok") check(kinds.length || rec.excuse, `${rec.site} failed although nothing was wrong: ${rec.status} ${rec.error?.message ?? ""}`, `failed:${rec.fn}`);
  if (rec.sent.length) world.probe(`${probe}.sent`);
  if (kinds.length && rec.sent.length) world.probe(`${probe}.sent-despite`);
}

/** World, services and records of invocations. */
function start(world, ctx, names, env = {}) {
  const pg = new PgServer(world), aws = new Aws(world), http = new Http(world);
  pg.slowMs = 6000; http.slowMs = 12000;
  portSchema(pg.db);
  const secret = () => aws.secrets.set("sec", JSON.stringify({ ...SECRET, "schedules.url": "https://sched.example/api", "awake.voyagesurl": "https://awake.example/v", "awake.oAuthTokenEndpoint": "https://auth.example/token", "awake.oAuthClientId": "cid &", "awake.oAuthClientSecret": "s=3cr+t", "awake.atxurl": "wss://atx.example/x" }));
  secret();
  const recs = new Map();
  const S = { pg, aws, http, recs, cfg: {}, secretsWrong: false };
  S.rec = (inst, fn) => { let r = recs.get(inst.site); if (!r) recs.set(inst.site, r = { site: inst.site, fn, from: world.now, mark: 0, sent: [], answers: new Map(), status: "running" }); return r; };
  const send = aws.exec.bind(aws);
  aws.exec = (inst, svc, cmd, i, o) => { const r = send(inst, svc, cmd, i, o); if (svc === "sqs" && cmd === "SendMessage") S.rec(inst).sent.push(JSON.parse(i.MessageBody)); return r; };
  // access tokens
  const tokens = [];
  let tokenMode = "ok";
  S.tokenMode = (m) => { tokenMode = m; };
  http.route("token", (r) => r.url === "https://auth.example/token", (r, inst) => {
    check(r.method === "POST" && new URLSearchParams(r.body).get("client_id") === "cid &" && new URLSearchParams(r.body).get("client_secret") === "s=3cr+t" && new URLSearchParams(r.body).get("grant_type") === "client_credentials", `token requested with ${r.body}`, "credentials");
    if (tokenMode !== "ok") { S.rec(inst).excuse = true; return tokenMode === "empty" ? { status: 200, body: {} } : { status: 403, body: "no" }; }
    const ttl = world.pick(`ttl:${tokens.length}`, [70, 200, 600, 3600, 86400]);
    tokens.push({ name: `T${tokens.length}-${world.u32(`tok:${tokens.length}`)}`, end: world.now + ttl * 1000 });
    return { status: 200, body: { token_type: "Bearer", expires_in: ttl, access_token: tokens.at(-1).name } };
  });
  S.authorised = (header, inst) => {
    const t = tokens.find((x) => header === `Bearer ${x.name}`);
    if (inst.state === "dead") return true;
    check(t, `request with the token ${header}`, "token");
    check(t.end >= world.now, `request with a token that expired ${Math.floor((world.now - t.end) / 1000)} s before`, "expired-token");
    if (t !== tokens.at(-1) || world.now - (t.end) > -60000) world.probe("p05.old-token");
    return true;
  };
  const svc = { pg, aws, http, fetch: http.fetch, ...S.svc };
  S.d = deploy(world, ctx.wiring, { aws, fns: Object.fromEntries(Object.entries(names).map(([k, re]) => [k, { re, code: ctx.code[k], svc: { ...svc, get ws() { return S.ws; } }, env }])) });
  /** Runs a function once; the record of the invocation is judged by the caller. */
  S.runs = 0;
  S.invoke = async (key, event) => {
    const fn = S.d.fns[key];
    const k = S.runs++;
    const site = `${fn.name}:${k}`;
    const rec = { site, fn: key, from: world.now, mark: world.firedFaults.length, sent: [], answers: new Map(), status: "running", event };
    recs.set(site, rec);
    const r = await fn.invoke(event, { key: k });
    rec.status = r.status; rec.error = r.error;
    return rec;
  };
  return S;
}

const FAULTS = { "secrets.before": 0.04, "sqs.before": 0.1, "sqs.lost": 0.06, "http.before": 0.06, "http.lost": 0.04, "http.5xx": 0.07, "http.truncated": 0.04, "sns.before": 0.1, "sns.lost": 0.05, "ssm.before": 0.1, "ssm.lost": 0.05, "db.connect.before": 0.03, "db.before": 0.03, "db.lost": 0.02, "db.error": 0.03, crash: 0.006, slow: 0.02, recycle: 0.1 };
const LOCODES = ["FIRAU", "FIHEL", "FIHKO", "FIKTK", "FITOR", "fiRAU", "SESTO", "EETLL"];
function genPrediction(rng, kinds) {
  const kind = rng.pick(kinds);
  if (kind === "call") return { kind, urn: rng.bool(0.12) ? "bad" : rng.bool(0.15) ? "none" : "ok", call: rng.int(1000000, 1000004) };
  return { kind, zone: rng.bool(0.6) ? "berth" : rng.pick(["pbp", "vts", "portarea", "anchorage"]), locode: rng.pick(LOCODES), in: rng.pick(kind === "eta" ? [60, 720, 1430, 1470, 1800, 5400] : [-600, -30, 15, 300, 5000]), rec: rng.bool(0.85) ? rng.int(1, 500) : 0, noTime: rng.bool(0.07), off: rng.bool(0.25) ? rng.pick([120, 180, -300, 330]) : 0, meta: rng.bool(0.7), own: rng.bool(0.15), q: rng.bool(0.5) ? [-rng.int(1, 5000), rng.int(1, 5000)] : undefined };
}
const genVoyage = (rng, kinds) => ({ ship: rng.int(0, 25), status: rng.bool(0.8) ? rng.pick(["underway", "not-started"]) : rng.pick(["stopped", "unknown"]), noPredictions: rng.bool(0.05), predictions: Array.from({ length: rng.int(0, 4) }, () => genPrediction(rng, kinds)) });
const someFaults = (rng) => (rng.bool(0.4) ? {} : undefined);

export default {
  id: "P05",
  quickSec: 16,
  thoroughSec: 300,
  real: ["portactivity update-timestamps-from-schedules, update-awake-ai-eta-ship/-eta-port/-etd-port/-atx-timestamps and trigger-awake-ai-* handlers with their services, API clients, token client and DAOs", "queue-service", "lib database, secrets, retry", "ky", "synthesised functions, topics and subscriptions"],
  stubs: ["schedule service (XML), Awake.AI voyages API, token endpoint", "Awake.AI event server over a WebSocket with subscriptions that can be resumed", "xml2js, ws", "SNS, SQS, SSM, Secrets Manager, Lambda", "PostgreSQL"],
  assumptions: ["what is queued is not followed further here (P01)", "messages that SQS refuses three times are lost until the next run", "the event server delivers events of the time between two runs when the subscription is resumed", "a port call past its estimated arrival competes with no later one of the same ship"],
  mustReach: ["p05.schedules.sent", "p05.eta-port.sent", "p05.etd-port.sent", "p05.ship.sent", "p05.atx.sent", "p05.atx.resumed", "p05.atx.resume-failed", "p05.atx.renewed", "p05.trigger.ships", "p05.trigger.chunks", "p05.old-token", "p05.empty-schedule", "p05.unusable", "p05.ship-failed", "p05.atx.broken-off", "p05.atx.garbage"],
  async setup() {
    const code = await bundle({
      schedules: `${L("update-timestamps-from-schedules")}lambda-update-timestamps-from-schedules.ts`,
      etaShip: `${L("update-awake-ai-eta-ship-timestamps")}update-awake-ai-eta-ship-timestamps.ts`,
      etaPort: `${L("update-awake-ai-eta-port-timestamps")}update-awake-ai-eta-port-timestamps.ts`,
      etdPort: `${L("update-awake-ai-etd-port-timestamps")}update-awake-ai-etd-port-timestamps.ts`,
      atx: `${L("update-awake-ai-atx-timestamps")}update-awake-ai-atx-timestamps.ts`,
      trigShip: `${L("trigger-awake-ai-eta-ship-timestamps-update")}trigger-awake-ai-eta-ship-timestamps-update.ts`,
      trigEta: `${L("trigger-awake-ai-eta-port-timestamps-update")}trigger-awake-ai-eta-port-timestamps-update.ts`,
      trigEtd: `${L("trigger-awake-ai-etd-port-timestamps-update")}trigger-awake-ai-etd-port-timestamps-update.ts`,
    });
    const m = await evalEsm(`export * from "REPO/marine/portactivity/src/model/awake-ai-etx-ports.ts"; export { ports } from "REPO/marine/portactivity/src/service/portareas.ts";`, createRequire(import.meta.url));
    return { wiring: await WIRINGS.portactivity(), code, ETA_PORTS: m.ETA_PORTS, ETD_PORTS: m.ETD_PORTS, PORTS: m.ports };
  },
  scenarios: [
    {
      name: "schedules",
      gen(rng) {
        const entry = () => ({ ship: rng.int(0, 25), imo0: rng.bool(0.1), dest: rng.bool(0.9) ? rng.pick(["FIRAU", "FIHEL", "FIKTK", "SESTO", "FIXXX"]) : undefined, eta: rng.bool(0.7) ? rng.pick([-900, -30, 10, 500, 4000]) : undefined, etd: rng.bool(0.6) ? rng.pick([-900, -30, -9, -1, 10, 500, 4000]) : undefined, rec: rng.int(1, 300), off: rng.bool(0.25) ? rng.pick([120, 180, -300]) : 0, second: rng.bool(0.2), broken: rng.bool(0.06) ? rng.pick(["no-timetable", "empty-timetable", "empty-eta", "no-vessel"]) : undefined });
        return { ops: Array.from({ length: rng.int(1, 3) }, () => ({ parts: Array.from({ length: 4 }, () => (rng.bool(0.15) ? [] : Array.from({ length: rng.int(1, 4) }, entry))), down: rng.bool(0.08) ? rng.int(0, 3) : undefined, gap: rng.pick([600, 3600]) })), cfg: { etb: rng.bool() }, faults: someFaults(rng) };
      },
      faults: FAULTS,
      maxEvents: 20000,
      async run(world, plan, ctx) {
        const S = start(world, ctx, { schedules: /UpdateTimestampsFromSchedules$/ }, { ENABLE_ETB: String(plan.cfg.etb) });
        let op, now;
        const part = (n) => op.parts[n];
        const toXml = (list) => (list.length ? el("schedules", {}, list.map((e) => {
          const s = MORE[e.ship];
          const row = el("timetable", {}, [e.dest ? el("destination", { destination: "x", locode: e.dest }) : "", e.eta !== undefined ? el("eta", e.broken === "empty-eta" ? {} : { time: isoAt(now + e.eta * MIN, e.off), uts: iso(now - e.rec * MIN) }) : "", e.etd !== undefined ? el("etd", { time: isoAt(now + e.etd * MIN, e.off), uts: iso(now - e.rec * MIN) }) : ""].join(""));
          const other = el("timetable", {}, el("destination", { locode: "FIHKO" }) + el("eta", { time: iso(now + 9000 * MIN), uts: iso(now) }));
          return el("schedule", { UUID: `u${e.ship}` }, (e.broken === "no-vessel" ? "" : el("vessel", { vesselName: `Ä & <${e.ship}>`, callsign: "OJ", mmsi: s.mmsi, imo: e.imo0 ? 0 : s.imo })) + (e.broken === "no-timetable" ? "" : e.broken === "empty-timetable" ? "<timetable/>" : row + (e.second ? other : "")));
        }).join("")) : "<schedules/>");
        const expected = () => op.parts.flatMap((list, n) => list.flatMap((e) => {
          const calc = n % 2 === 1, s = MORE[e.ship], out = [];
          if (!e.dest || !ctx.PORTS.includes(e.dest) || ["no-timetable", "empty-timetable", "no-vessel"].includes(e.broken)) return out;
          const m = (eventType, t, must) => out.push({ text: say({ eventType, eventTime: isoAt(now + t * MIN, e.off), recordTime: iso(now - e.rec * MIN), source: calc ? "SCHEDULES_CALCULATED" : "SCHEDULES_VTS_CONTROLLED", ship: { imo: e.imo0 ? 0 : s.imo, mmsi: s.mmsi }, location: { port: e.dest } }), must });
          const whole = !e.broken;
          if (e.eta !== undefined && e.broken !== "empty-eta") { m("ETA", e.eta, whole); if (calc && (plan.cfg.etb || e.dest === "FIRAU")) m("ETB", e.eta, whole); }
          if (e.etd !== undefined && e.etd >= -5) m("ETD", e.etd, whole);
          return out;
        }));
        ["east", "east/calculated", "west", "west/calculated"].forEach((p, n) => S.http.route(`sched${n}`, (r) => r.url === `https://sched.example/api/${p}`, (r, inst) => {
          if (op.down === n) { S.rec(inst).excuse = true; return { status: 503, body: "down" }; }
          return { status: 200, body: `<?xml version="1.0" encoding="UTF-8"?>\n${toXml(part(n))}`, headers: { "content-type": "text/xml" } };
        }));
        await ops(world, plan, async (o) => {
          op = o;
          now = Math.floor(world.now / 1000) * 1000;
          if (op.parts.some((p) => !p.length)) world.probe("p05.empty-schedule");
          if (op.parts.some((p) => p.some((e) => e.broken))) world.probe("p05.unusable");
          judge(world, await S.invoke("schedules", {}), expected(), "p05.schedules");
          await world.sleep(op.gap * 1000);
        });
      },
    },
    {
      name: "ports",
      gen(rng) {
        return { ops: Array.from({ length: rng.int(2, 5) }, () => { const kind = rng.pick(["eta", "etd"]); return { kind, port: rng.int(0, 30), voyages: Array.from({ length: rng.int(0, 4) }, () => genVoyage(rng, [kind, kind, kind, "call", "travel"])), mode: rng.bool(0.15) ? rng.pick([404, 422, 500, 401]) : 200, token: rng.bool(0.06) ? rng.pick(["empty", "down"]) : "ok", gap: rng.pick([1, 10, 30, 200]) }; }), cfg: {}, faults: someFaults(rng) };
      },
      faults: FAULTS,
      maxEvents: 20000,
      async run(world, plan, ctx) {
        const S = start(world, ctx, { etaPort: /UpdateAwakeAiETAPortTimestamps$/, etdPort: /UpdateAwakeAiETDPortTimestamps$/ });
        let op, now, locode;
        S.http.route("awake", (r) => r.url.startsWith("https://awake.example/v/port/"), (r, inst) => {
          S.authorised(r.headers.authorization, inst);
          const [, l, what] = r.path.match(/\/port\/([^/]+)\/(\w+)$/) ?? [];
          check(inst.state === "dead" || (l === locode && what === (op.kind === "eta" ? "arrivals" : "departures")), `asked for ${what} of ${l}`, "asked");
          check(inst.state === "dead" || r.query.getAll("predictionType").includes(op.kind), "the predictions wanted were not asked for", "asked-type");
          if (op.mode !== 200) return { status: op.mode, body: { message: "no" } };
          return { status: 200, body: op.voyages.map((v) => voyage(v, now)) };
        });
        await ops(world, plan, async (o) => {
          op = o;
          now = Math.floor(world.now / 1000) * 1000;
          const list = op.kind === "eta" ? ctx.ETA_PORTS : ctx.ETD_PORTS;
          locode = list[op.port % list.length];
          S.tokenMode(op.token);
          if (op.voyages.some((v) => v.noPredictions || v.predictions.some((p) => p.noTime || p.urn === "bad"))) world.probe("p05.unusable");
          const rec = await S.invoke(op.kind === "eta" ? "etaPort" : "etdPort", { Records: [{ Sns: { Message: locode } }] });
          const http = world.firedFaults.slice(rec.mark).some((f) => f.kind.startsWith("http") && /awake/.test(f.site));
          let want = op.mode === 200 ? ofPort(op.kind, locode, op.voyages.map((v) => voyage(v, now)), now) : [];
          if (http) want = want.map((x) => ({ ...x, must: false }));
          judge(world, rec, want, op.kind === "eta" ? "p05.eta-port" : "p05.etd-port");
          await world.sleep(op.gap * MIN);
        });
      },
    },
    {
      name: "ships",
      gen(rng) {
        const ship = () => ({ ship: rng.int(0, 25), locode: rng.pick(["FIRAU", "FIHEL", "FIHKO", "FIKTK", "FITOR"]), area: rng.bool(0.5), call: rng.int(100, 400), in: rng.pick([60, 600, 1400, 1480, 3000]), mode: rng.bool(0.2) ? rng.pick([404, 422, 500, 401, "cut"]) : 200, predictability: rng.bool(0.9) ? "predictable" : "not-predictable", voyages: Array.from({ length: rng.bool(0.95) ? rng.int(1, 2) : 0 }, () => ({ ...genVoyage(rng, ["eta", "eta", "eta", "call", "travel"]), status: rng.bool(0.85) ? "underway" : rng.pick(["stopped", "not-started"]) })), same: rng.bool(0.6) });
        return { ops: Array.from({ length: rng.int(1, 4) }, () => { const seen = new Set(); return { ships: Array.from({ length: rng.int(1, 10) }, ship).filter((s) => !seen.has(s.ship) && seen.add(s.ship)), token: rng.bool(0.05) ? "down" : "ok", gap: rng.pick([10, 60, 300]) }; }), cfg: { etb: rng.bool() }, faults: someFaults(rng) };
      },
      faults: FAULTS,
      maxEvents: 30000,
      async run(world, plan, ctx) {
        const S = start(world, ctx, { etaShip: /UpdateAwakeAiETAShipTimestamps$/ }, { ENABLE_ETB: String(plan.cfg.etb) });
        let op, now, given;
        const answer = (s) => ({ ship: { mmsi: MORE[s.ship].mmsi, imo: MORE[s.ship].imo }, predictability: s.predictability, predictedVoyages: s.voyages.map((v) => { const x = voyage(v, now).voyage; if (s.same) for (const p of x.predictions ?? []) if (p.locode) p.locode = s.locode; return x; }) });
        S.http.route("ship", (r) => r.url.startsWith("https://awake.example/v/ship/"), (r, inst) => {
          S.authorised(r.headers.authorization, inst);
          const imo = Number(r.path.match(/\/ship\/(\d+)$/)?.[1]);
          const s = op.ships.find((x) => MORE[x.ship].imo === imo);
          if (inst.state === "dead") return { status: 500, body: "late" };
          check(s, `asked for ship ${imo}`, "asked");
          const dest = r.query.get("destination");
          const hours = (now + s.in * MIN - world.now) / HOUR;
          check(hours < 24 ? dest === s.locode : dest === null, `with ${hours.toFixed(1)} h to its arrival at ${s.locode} ship ${imo} was asked for with destination ${dest}`, "destination");
          given.set(imo, dest !== null);
          if (s.mode === "cut") { world.probe("p05.ship-failed"); return { status: 200, body: JSON.stringify(answer(s)).slice(0, 20), truncated: true }; }
          if (s.mode !== 200) { world.probe("p05.ship-failed"); return { status: s.mode, body: { message: "no" } }; }
          return { status: 200, body: answer(s) };
        });
        await ops(world, plan, async (o) => {
          op = o; given = new Map();
          now = Math.floor(world.now / 1000) * 1000;
          S.tokenMode(op.token);
          const ships = op.ships.map((s) => ({ imo: MORE[s.ship].imo, locode: s.locode, port_area_code: s.area ? "A1" : null, location_from_locode: null, portcall_id: s.call, eta: iso(now + s.in * MIN) }));
          if (op.ships.some((s) => s.voyages.some((v) => v.noPredictions || v.predictions.some((p) => p.noTime)))) world.probe("p05.unusable");
          const rec = await S.invoke("etaShip", { Records: [{ Sns: { Message: JSON.stringify(ships) } }] });
          const http = world.firedFaults.slice(rec.mark).some((f) => f.kind.startsWith("http") || (f.kind === "slow" && /http/.test(f.site)));
          judge(world, rec, op.ships.flatMap((s, i) => (s.mode === 200 ? ofShip(ships[i], s.in < 24 * 60, answer(s), plan.cfg.etb) : [])).map((x) => (http || op.token !== "ok" ? { ...x, must: false } : x)), "p05.ship");
          if (rec.status === "ok" && op.token === "ok" && !http) for (const s of ships) check(given.has(s.imo), `ship ${s.imo} was not asked for`, "not-asked");
          await world.sleep(op.gap * MIN);
        });
      },
    },
    {
      name: "triggers",
      gen(rng) {
        const call = () => ({ ship: rng.int(0, 25), port: rng.pick(["FIRAU", "FIHEL", "FIHKO", "FIKTK", "SESTO"]), in: rng.pick([30, 300, 1500, 3000, 5000, 5080, 9000]), older: rng.bool(0.3) ? rng.pick([10, 1500, 9000]) : undefined, ata: rng.bool(0.12), days: rng.bool(0.85) ? rng.int(0, 2) : rng.int(4, 9), awake: rng.bool(0.35) ? rng.pick([-60, 5, 30, 600]) : undefined, awakeOld: rng.bool(0.2) ? rng.pick([5, 600]) : undefined, area: rng.bool(0.3), source: rng.bool(0.9) ? "Portnet" : "Pilotweb", type: rng.bool(0.9) ? "ETA" : "ETD" });
        return { ops: Array.from({ length: rng.int(1, 3) }, () => ({ what: rng.bool(0.7) ? "ships" : rng.pick(["eta", "etd"]), calls: Array.from({ length: rng.bool(0.3) ? rng.int(15, 30) : rng.int(0, 8) }, call), gap: 11 })), cfg: {}, faults: someFaults(rng) };
      },
      faults: FAULTS,
      maxEvents: 20000,
      async run(world, plan, ctx) {
        const S = start(world, ctx, { trigShip: /TriggerAwakeAiEtaShip/, trigEta: /TriggerAwakeAiEtaPort/, trigEtd: /TriggerAwakeAiEtdPort/, etaShip: /UpdateAwakeAiETAShipTimestamps$/, etaPort: /UpdateAwakeAiETAPortTimestamps$/, etdPort: /UpdateAwakeAiETDPortTimestamps$/ });
        const db = S.pg.db;
        const calls = []; // every port call so far
        await ops(world, plan, async (op) => {
          const now = Math.floor(world.now / 1000) * 1000;
          const at = (m) => new Date(now + m * MIN);
          const rows = [], add = (c, type, source, ev, rec) => rows.push({ event_type: type, event_time: at(ev), event_source: source, record_time: at(-rec), ship_imo: MORE[c.ship].imo, ship_mmsi: MORE[c.ship].mmsi, location_locode: c.port, portcall_id: c.id, location_portarea: c.area ? "A1" : null, location_from_locode: null });
          for (const c of op.what === "ships" ? op.calls : []) {
            const id = 1000 + calls.length;
            const x = { ...c, id, eta: now + c.in * MIN, awakeAt: c.awake === undefined ? undefined : now + c.awake * MIN, updated: now - c.days * DAY - 60000 };
            if (calls.some((y) => y.ship === x.ship && Math.abs(y.eta - x.eta) < HOUR)) continue;
            calls.push(x);
            db.seed("port_call", [{ port_call_id: id, mmsi: MORE[c.ship].mmsi, imo_lloyds: MORE[c.ship].imo, port_to_visit: c.port, port_call_timestamp: new Date(x.updated) }]);
            db.seed("port_area_details", [{ port_call_id: id, eta: at(c.in), etd: at(c.in + 600), ata: c.ata ? at(-10) : null, atd: null }]);
            add(x, c.type, c.source, c.in, 5);
            if (c.older !== undefined) add(x, c.type, c.source, c.older, 50);
            if (c.awake !== undefined) add(x, "ETA", "Awake.AI", c.awake, 3);
            if (c.awakeOld !== undefined && c.awake !== undefined) add(x, "ETA", "Awake.AI", c.awakeOld, 30);
          }
          if (rows.length) db.seed("port_call_timestamp", rows);
          S.aws.topics.length = 0;
          const key = { ships: "trigShip", eta: "trigEta", etd: "trigEtd" }[op.what];
          const rec = await S.invoke(key, {});
          const kinds = world.firedFaults.slice(rec.mark).map((f) => f.kind);
          const target = { ships: "etaShip", eta: "etaPort", etd: "etdPort" }[op.what];
          for (const m of S.aws.topics) check(S.d.subscribers(m.TopicArn).some((f) => f === S.d.fns[target]), `${op.what}: published to a topic that does not reach ${target}`, "topic");
          if (rec.status !== "ok") check(kinds.length, `${key} failed although nothing was wrong: ${rec.error?.message}`, "failed");
          let got, want, may = new Set();
          if (op.what === "ships") {
            const mine = [];
            for (const m of S.aws.topics) { const list = JSON.parse(m.Message); check(Array.isArray(list) && list.length > 0, "empty chunk", "chunk"); mine.push(...list); }
            got = mine.map((s) => [s.imo, s.locode, s.port_area_code ?? "-", Number(s.portcall_id), Date.parse(s.eta)].join("|"));
            const edge = (t, limit) => Math.abs(t - world.now - limit) < 2 * MIN;
            const open = calls.filter((c) => c.type === "ETA" && c.source === "Portnet" && ctx.PORTS.includes(c.port) && !c.ata && c.updated > world.now - 3 * DAY);
            const near = open.filter((c) => c.eta < world.now + 84 * HOUR);
            const byShip = new Map();
            for (const c of near.toSorted((a, b) => a.eta - b.eta)) if (!byShip.has(c.ship)) byShip.set(c.ship, c);
            const unclear = new Set([...open.filter((c) => edge(c.eta, 84 * HOUR) || Math.abs(c.updated - world.now + 3 * DAY) < 5 * MIN || edge(c.awakeAt ?? 0, 15 * MIN)), ...near.filter((c) => c.eta < world.now + 5 * MIN)].map((c) => c.ship));
            const text = (c) => [MORE[c.ship].imo, c.port, c.area ? "A1" : "-", c.id, c.eta].join("|");
            want = [...byShip.values()].filter((c) => !(c.awakeAt !== undefined && c.awakeAt < world.now + 15 * MIN) && !unclear.has(c.ship)).map(text);
            may = new Set(calls.filter((c) => unclear.has(c.ship)).map(text));
            if (got.length) world.probe("p05.trigger.ships");
            if (S.aws.topics.length > 1) world.probe("p05.trigger.chunks");
          } else {
            got = S.aws.topics.map((m) => m.Message);
            want = [...(op.what === "eta" ? ctx.ETA_PORTS : ctx.ETD_PORTS)];
          }
          for (const g of got) check(want.includes(g) || may.has(g), `${key} asked for an update of ${g}; those to update are ${want.join("  ") || "none"}`, `trigger-extra:${op.what}`);
          if (!kinds.includes("sns.lost") && !kinds.includes("crash")) check(new Set(got).size === got.length, `${key} asked twice for the same update: ${got.join(" ")}`, "trigger-twice");
          if (rec.status === "ok") for (const x of want) check(got.includes(x), `${key} succeeded without asking for an update of ${x}`, `trigger-missing:${op.what}`);
          await world.sleep(op.gap * MIN);
        });
      },
    },
    {
      name: "atx",
      gen(rng) {
        const ev = () => ({ ship: rng.int(0, 4), port: rng.pick(["FIRAU", "FIRAU", "FIHEL", "FIHKO", "SESTO"]), two: rng.bool(0.15), none: rng.bool(0.05), zone: rng.bool(0.75) ? "berth" : rng.pick(["vts", "pbp", "portarea"]), arrival: rng.bool(), ago: rng.int(0, 600), at: rng.int(-500, 45) * 1000 + rng.int(0, 999) });
        const run = () => ({ events: Array.from({ length: rng.int(0, 5) }, ev), refuse: rng.bool(0.05), failResume: rng.bool(0.1), breakAt: rng.bool(0.12) ? rng.int(1, 28) * 1000 : undefined, closeAt: rng.bool(0.08) ? rng.int(1, 28) * 1000 : undefined, garbage: rng.bool(0.1) ? rng.int(1, 25) * 1000 : undefined, odd: rng.bool(0.1), renew: rng.bool(0.15) });
        return { ops: Array.from({ length: rng.int(1, 4) }, run), cfg: { calls: Array.from({ length: rng.int(2, 10) }, () => ({ ship: rng.int(0, 4), port: rng.pick(["FIRAU", "FIHEL", "FIHKO"]), ata: rng.bool(0.75) ? rng.int(1, 3000) : undefined, atd: rng.bool(0.5) ? rng.int(1, 3000) : undefined, by: rng.pick(["both", "both", "mmsi", "imo"]) })) }, faults: someFaults(rng) };
      },
      faults: { ...FAULTS, crash: 0.01 },
      maxEvents: 20000,
      async run(world, plan, ctx) {
        const S = start(world, ctx, { atx: /UpdateAwakeAiATXTimestamps$/ });
        const NAME = "AWAKE_ATX_SUBSCRIPTION_ID";
        const t0 = Math.floor(world.now / 1000) * 1000;
        const calls = plan.cfg.calls.map((c, i) => ({ ...c, id: 100 + i, ata: c.ata === undefined ? undefined : t0 - c.ata * MIN - i * 1000, atd: c.atd === undefined ? undefined : t0 - c.atd * MIN - i * 1000 }));
        S.pg.db.seed("vessel", MORE.slice(0, 5).map((s, i) => ({ mmsi: s.mmsi, imo: s.imo, timestamp: t0 - i })));
        S.pg.db.seed("port_call", calls.map((c) => ({ port_call_id: c.id, mmsi: c.by === "imo" ? null : MORE[c.ship].mmsi, imo_lloyds: c.by === "mmsi" ? null : MORE[c.ship].imo, port_to_visit: c.port, port_call_timestamp: new Date(t0) })));
        S.pg.db.seed("port_area_details", calls.map((c) => ({ port_call_id: c.id, eta: new Date(t0), etd: new Date(t0), ata: c.ata === undefined ? null : new Date(c.ata), atd: c.atd === undefined ? null : new Date(c.atd) })));
        let op, rec, n = 0, sessionN = 0;
        const sessions = new Map(); // id → events that wait
        let conn;
        /** The process gets an event; what its listeners do not catch ends it. */
        const give = (inst, client, ...ev) => { try { client.emit(...ev); } catch (e) { rec.uncaught = String(e?.message ?? e); inst.crash(`uncaught exception: ${e?.message}`); } };
        const emit = (e) => {
          for (const [id, wait] of sessions) {
            if (conn && conn.session === id && !conn.over) push(conn, e);
            else wait.push(e);
          }
        };
        const push = (c, e) => c.inst.deliver(world.delay(`ws:${n}:${e.id}`, 1, 200), "ws:event", () => {
          if (c.client.readyState !== 1) return;
          c.received.push(e);
          give(c.inst, c.client, "message", Buffer.from(JSON.stringify(e.msg)), false);
        });
        const tell = (c, text) => c.inst.deliver(world.delay(`ws:${n}:tell`, 1, 200), "ws:message", () => { if (c.client.readyState === 1) give(c.inst, c.client, "message", Buffer.from(text), false); });
        S.ws = {
          connect(inst, client, o) {
            check(o.url === "wss://atx.example/x", `connected to ${o.url}`, "ws-url");
            S.authorised(o.headers.authorization, inst);
            const c = conn = { inst, client, received: [], session: undefined, over: false };
            rec.conn = c;
            inst.deliver(world.delay("ws:open", 5, 300), "ws:open", () => {
              if (client.readyState !== 0) return;
              if (op.refuse) { rec.excuse = true; c.over = true; client.readyState = 3; give(inst, client, "error", new Error("connect ECONNREFUSED")); give(inst, client, "close", 1006, Buffer.from("")); return; }
              client.readyState = 1;
              give(inst, client, "open");
            });
            if (op.breakAt) world.after(op.breakAt, "ws:break", () => { if (!c.over) { c.over = true; inst.deliver(1, "ws:error", () => { if (client.readyState > 1) return; client.readyState = 3; if (c.received.length) world.probe("p05.atx.broken-off"); give(inst, client, "error", new Error("read ECONNRESET")); give(inst, client, "close", 1006, Buffer.from("")); }); } });
            if (op.closeAt) world.after(op.closeAt, "ws:close", () => { if (!c.over) { c.over = true; inst.deliver(1, "ws:closed", () => { if (client.readyState > 1) return; client.readyState = 3; give(inst, client, "close", 1001, Buffer.from("going away")); }); } });
            if (op.garbage) world.after(op.garbage, "ws:garbage", () => { if (!c.over) { world.probe("p05.atx.garbage"); tell(c, "<html>Bad gateway</html>"); } });
            inst.onCrash?.push?.(() => { c.over = true; });
          },
          message(inst, client, text) {
            const c = conn;
            if (c.client !== client || inst.state === "dead") return;
            world.after(world.delay("ws:up", 1, 100), "ws:subscribe", () => { try {
              if (c.over || inst.state === "dead") return;
              const m = JSON.parse(text);
              check(m.msgType === "subscribe", `sent ${text}`, "subscribe");
              const faulty = world.firedFaults.slice(rec.mark).some((f) => /ssm/.test(f.site) || /ssm/.test(f.kind));
              const stored = rec.stored;
              if (!faulty) check(stored && stored !== "NONE" ? m.resume === stored : m.resume === undefined, `subscription ${stored ?? "none"} is stored, but the function sent ${text}`, "resume");
              if (m.resume !== undefined) {
                if (op.failResume || !sessions.has(m.resume)) { world.probe("p05.atx.resume-failed"); rec.failedResume = true; tell(c, JSON.stringify({ msgType: "subscription-status", status: "failed", message: "unknown subscription" })); sessions.delete(m.resume); return; }
                c.session = m.resume;
                if (op.renew) { c.session = `sub-${sessionN++}`; sessions.set(c.session, sessions.get(m.resume)); sessions.delete(m.resume); world.probe("p05.atx.renewed"); }
                world.probe("p05.atx.resumed");
              } else {
                check(m.parameters?.some((p) => p.eventType === "zone-event" && p.countries?.includes("FI")), `subscribed with ${text}`, "parameters");
                c.session = `sub-${sessionN++}`;
                sessions.set(c.session, []);
              }
              rec.session = c.session;
              tell(c, JSON.stringify({ msgType: "subscription-status", subscriptionId: c.session, status: "active" }));
              if (op.odd) tell(c, JSON.stringify({ msgType: "keep-alive" }));
              for (const e of sessions.get(c.session).splice(0)) push(c, e);
            } catch (e) { world.fail(e); } });
          },
          closed(inst, client) { const c = conn; if (c?.client === client) { c.closedAt = world.now; inst.deliver(world.delay("ws:bye", 1, 100), "ws:closed", () => { client.readyState = 3; give(inst, client, "close", 1000, Buffer.from("")); }); world.after(world.delay("ws:byeup", 1, 100), "ws:server-closed", () => { c.over = true; }); } },
        };
        const matching = (e) => {
          const port = e.msg.locodes[0];
          const key = e.msg.zoneEventType === "arrival" ? "ata" : "atd";
          const s = { imo: e.msg.imo, mmsi: e.msg.mmsi };
          const c = calls.filter((x) => (x.by !== "imo" && MORE[x.ship].mmsi === s.mmsi) || (x.by !== "mmsi" && MORE[x.ship].imo === s.imo)).filter((x) => x.port === port && x[key] !== undefined);
          const t = Date.parse(e.msg.eventTimestamp);
          return c.toSorted((a, b) => Math.abs(a[key] - t) - Math.abs(b[key] - t))[0];
        };
        await ops(world, plan, async (o) => {
          op = o;
          const runStart = world.now + 120000; // the run starts in two minutes
          const base = Math.floor(runStart);
          for (const e of op.events) {
            const when = Math.max(world.now + 1, base + (e.at < 0 ? e.at / 5 : e.at));
            const s = MORE[e.ship];
            const id = n++;
            world.after(when - world.now, "atx-event", () => emit({ id, msg: { msgType: "event", eventType: "zone-event", eventTimestamp: iso(t0 - e.ago * MIN - id), eventId: `e${id}`, mmsi: s.mmsi, imo: s.imo, shipName: "A", location: [1, 2], zoneId: "z", zoneType: e.zone, zoneEventType: e.arrival ? "arrival" : "departure", zoneName: "Zn", locodes: e.none ? [] : e.two ? [e.port, "FIKTK"] : [e.port] } }));
          }
          await world.sleep(runStart - world.now);
          const k = S.runs;
          rec = { mark: world.firedFaults.length, stored: S.aws.params.get(NAME) };
          const mine = rec;
          const r = await S.invoke("atx", {});
          Object.assign(r, { mark: mine.mark, excuse: mine.excuse });
          check(!mine.uncaught, `the process ended with an uncaught exception: ${mine.uncaught}`, "uncaught");
          const got = mine.conn?.received ?? [];
          const want = got.flatMap((e) => {
            if (e.msg.zoneType !== "berth" || !e.msg.locodes.length) return [];
            const c = matching(e);
            return c ? [{ text: say({ eventType: e.msg.zoneEventType === "arrival" ? "ATA" : "ATD", eventTime: e.msg.eventTimestamp, recordTime: e.msg.eventTimestamp, source: "Awake.AI", ship: { imo: e.msg.imo, mmsi: e.msg.mmsi }, location: { port: e.msg.locodes[0] }, portcallId: c.id }), must: true }] : [];
          });
          const kinds = world.firedFaults.slice(mine.mark).filter((f) => f.site.startsWith(`${r.site}:`)).map((f) => f.kind).filter((x) => !x.startsWith("ssm"));
          judge(world, r, kinds.length ? want.map((x) => ({ ...x, must: false })) : want, "p05.atx");
          if (r.status === "ok" && !kinds.length) {
            const ssm = world.firedFaults.slice(mine.mark).some((f) => f.kind.startsWith("ssm"));
            if (!ssm && mine.session && !op.breakAt && !op.closeAt) check(S.aws.params.get(NAME) === mine.session, `the function subscribed as ${mine.session}, but ${S.aws.params.get(NAME)} is stored`, "stored");
            if (!ssm && mine.failedResume && !op.breakAt && !op.closeAt) check(S.aws.params.get(NAME) === "NONE" || S.aws.params.get(NAME) !== mine.stored, `subscription ${mine.stored} could not be resumed but stays stored`, "stale");
            if (!op.refuse && !op.breakAt && mine.conn) check(mine.conn.closedAt - r.from > 20000 || op.closeAt, "the connection was closed early", "early");
          }
          if (mine.conn) mine.conn.over = true;
          conn = undefined;
          await world.sleep(13 * MIN);
        });
      },
    },
  ],
};

/** Runs the operations of a plan one after another. */
async function ops(world, plan, one) {
  let fin = false;
  (async () => { for (const o of plan.ops) await one(o); fin = true; })().catch((e) => world.fail(e));
  await world.run({ until: () => fin, deadline: world.now + 40 * DAY });
  check(fin, "runs did not finish", "stuck");
}
