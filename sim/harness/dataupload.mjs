// Shared by U01-U03: uploads of traffic data, documents of the DATEX II versions, an MQTT broker, and the tables.
import { check } from "../check.mjs";
import { parseDoc } from "../stubs/xml.mjs";
import { deploy } from "../lambda.mjs";
import { PgServer } from "../pgserver.mjs";
import { Aws } from "../services.mjs";

export const DB = { username: "u", password: "db-pass-of-x", host: "db-rw:1/x", ro_host: "db-ro:1/x", proxy_host: "db-rw:1/x", proxy_ro_host: "db-ro:1/x", "mqtt.server.username": "mq", "mqtt.server.password": "mq&pass-1", "mqtt.server.url": "ssl://broker.example:8883" };
export const V = { 223: "DATEXII_2_2_3", 35: "DATEXII_3_5", 37: "DATEXII_3_7" };
const VMS = "VARIABLE_MESSAGE_SIGN_DATEX_XML", META = "VARIABLE_MESSAGE_SIGN_METADATA_XML", RTTI = "RTTI_DATEX_XML";
const esc = (t) => t.replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;").replace(/"/g, "&quot;");
// texts that are easily spoilt on the way
const TEXTS = ["", "", "Tietyö", "a & b", "<x>", "5 > 3", 'sanoi "ei"', "hinta $1 tai $& tai $$", "it's", "a\\b", "PUBLICATION_TIME", "SITUATION", "%s {0}"];
const NS = 'xmlns:com="http://datex2.eu/schema/3/common" xmlns:vms="http://datex2.eu/schema/3/vms" xmlns:sit="http://datex2.eu/schema/3/situation" xmlns:d2="http://datex2.eu/schema/3/d2Payload" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance"';
const iso = (ms) => new Date(ms).toISOString();

/** A random document: {kind, devs, mark, text, t, end, srti}; the mark makes its content unique. */
export function genDoc(rng, o = {}) {
  return { kind: o.kind ?? rng.pick(["223", "35s", "35c", "35t", "37s", "37c", "37t"]), devs: rng.sample([0, 1, 2, 3], rng.int(1, 3)), text: rng.int(0, TEXTS.length - 1), t: rng.int(0, 86400) * 1000, end: rng.bool(0.5), srti: rng.bool(0.5) };
}
const SORT = { s: "SITUATION", c: "CONTROLLER_STATUS", t: "CONTROLLER" };
/** What a document says: [{id, version, type, mark, t}] of devices */
export function devices(p, mark, t0) {
  const v = V[p.kind.slice(0, p.kind === "223" ? 3 : 2)], type = p.kind === "223" ? "SITUATION" : SORT[p.kind[2]];
  return p.devs.map((d) => ({ key: `${type[0]}D${d}|${v}|${type}`, id: `${type[0]}D${d}`, version: v, type, mark: `${mark}/${d}`, text: TEXTS[p.text], t: type === "CONTROLLER" ? undefined : t0 + p.t }));
}
export function xmlOf(p, mark, t0) {
  const text = esc(TEXTS[p.text]), t = iso(t0 + p.t), head = '<?xml version="1.0" encoding="UTF-8"?>\n';
  const note = (d) => `<mark>${mark}/${d}</mark><comment>${text}</comment>`;
  if (p.kind === "223") return `${head}<d2LogicalModel modelBaseVersion="2"><payloadPublication>${p.devs.map((d) => `<situation id="SD${d}" version="1"><situationRecord><validity><overallStartTime>${t}</overallStartTime></validity>${note(d)}</situationRecord></situation>`).join("\n")}</payloadPublication></d2LogicalModel>`;
  const sit = (d) => `<sit:situation id="SD${d}"><sit:situationRecord id="SD${d}"><sit:validity><com:validityStatus>active</com:validityStatus><com:validityTimeSpecification><com:overallStartTime>${t}</com:overallStartTime></com:validityTimeSpecification></sit:validity>${note(d)}</sit:situationRecord></sit:situation>`;
  if (p.kind[2] === "s") return `${head}<sit:situationPublication lang="fi" ${NS}><com:publicationTime>${t}</com:publicationTime>${p.devs.map(sit).join("")}</sit:situationPublication>`;
  if (p.kind[2] === "c") return `${head}<d2:payload xsi:type="vms:VmsPublication" ${NS}>${p.devs.map((d) => `<vms:vmsControllerStatus><vms:vmsControllerReference id="CD${d}" version="1"/><vms:statusUpdateTime>${t}</vms:statusUpdateTime>${note(d)}</vms:vmsControllerStatus>`).join("")}</d2:payload>`;
  return `${head}<d2:payload xsi:type="vms:VmsTablePublication" ${NS}><vms:vmsControllerTable id="T" version="1">${p.devs.map((d) => `<vms:vmsController id="CD${d}" version="2">${note(d)}</vms:vmsController>`).join("")}</vms:vmsControllerTable></d2:payload>`;
}
/** A traffic message of one situation. */
export function rttiXml(p, mark, pub) {
  return `<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n<d2:payload xsi:type="sit:SituationPublication" ${NS}><com:publicationTime>${iso(pub)}</com:publicationTime><sit:situation id="GUID${p.devs[0]}"><sit:situationRecord id="R1"><sit:validity><com:validityTimeSpecification><com:overallStartTime>${iso(pub - 1000)}</com:overallStartTime>${p.end ? `<com:overallEndTime>${iso(pub + 3600000)}</com:overallEndTime>` : ""}</com:validityTimeSpecification></sit:validity><com:safetyRelatedMessage>${p.srti}</com:safetyRelatedMessage><mark>${mark}</mark><comment>${esc(TEXTS[p.text])}</comment></sit:situationRecord></sit:situation></d2:payload>`;
}
/** Broken documents and what is wrong with them. */
export const BROKEN = {
  notXml: () => "ei xmlää",
  empty: () => "<x/>",
  cut: (xml) => xml.slice(0, Math.floor(xml.length * 0.7)),
  otherRoot: (xml) => xml.replace(/publication|payload/gi, "toinen"),
  noDate: (xml) => xml.replace(/20\d\d-\d\d-\d\dT[\d:.]+Z/g, "eilen"),
};

export function meaning(xml) {
  const root = parseDoc(xml.trim());
  const all = (n, name) => (n.children ?? []).flatMap((c) => (c.name === name ? [c] : []).concat(c.name ? all(c, name) : []));
  const text = (n) => (n?.children ?? []).map((c) => c.text ?? "").join("").trim();
  return { root: root.name, id: root.attrs.id, mark: text(all(root, "mark")[0]), marks: all(root, "mark").length, text: text(all(root, "comment")[0]) };
}

/** An MQTT broker that checks logins; publishing may fail before or after the message got through. */
export class Broker {
  constructor(world) {
    this.world = world;
    this.sessions = [];
    this.published = []; // {t, topic, payload}
  }
  rpc(inst, label, fn) {
    const err = () => Object.assign(new Error("connection closed"), { code: "ECONNRESET" });
    return inst.rpc({ kind: "mqtt", label: `mqtt.${label}`, lo: 5, hi: 120, slowMs: 12000, before: err, lost: err, exec: async () => { try { return fn(); } catch (e) { if (!e.plain) this.world.fail(e); throw e; } } });
  }
  connect(inst, o) {
    return this.rpc(inst, "connect", () => {
      check(o.host === "broker.example" && o.port === 8883 && o.protocol === "ssl", `connection to ${o.protocol}://${o.host}:${o.port}`, "broker");
      check(o.username === "mq" && o.password === "mq&pass-1", "wrong login to the broker", "broker-login");
      const s = { open: true, inst, n: this.sessions.length };
      this.sessions.push(s);
      return s;
    });
  }
  publish(inst, s, topic, payload) {
    return this.rpc(inst, "publish", () => {
      if (!s.open) throw Object.assign(new Error("not connected"), { plain: true });
      this.published.push({ t: this.world.now, topic, payload: payload.toString("utf8") });
      this.world.trace("mqtt", topic);
      this.onPublish?.(this.published.at(-1));
    });
  }
  end(inst, s) { return this.rpc(inst, "end", () => { s.open = false; }).catch(() => { s.open = false; }); }
}

export function start(world, ctx) {
  const pg = new PgServer(world);
  const aws = new Aws(world);
  const mqtt = new Broker(world);
  pg.slowMs = 9000;
  aws.secrets.set("sec", JSON.stringify(DB));
  pg.db.table("data_incoming", "data_id bigserial primary key, created_at timestamptz default now(), message_id text not null, source text not null, version text not null, type text not null, data text not null, status text not null");
  pg.db.table("device_data_datex2", "device_id text, version text, type text, datex2 text not null, effect_date timestamptz not null, primary key(device_id, version, type)");
  pg.db.table("datex2_rtti", "id bigserial primary key, situation_id text not null, type text not null, publication_time timestamptz not null, geometry text not null, start_time timestamptz not null, end_time timestamptz, is_srti boolean not null, message text not null");
  const svc = { pg, aws, mqtt };
  const d = deploy(world, ctx.wiring, { aws, fns: {
    upload: { re: /UploadDatex2$/, code: ctx.code.upload, svc }, rtti: { re: /HandleRtti$/, code: ctx.code.rtti, svc },
    handle: { re: /HandleNewMessages$/, code: ctx.code.handle, svc }, mqtt: { re: /SendMqtt$/, code: ctx.code.mqtt, svc }, clean: { re: /DeleteOldMessages$/, code: ctx.code.clean, svc },
  } });
  return { pg, aws, mqtt, d, rttiQueue: d.queue(/Rtti/), dataQueue: d.queue(/DataQueue|^T-Data$|Data-?Queue/i), mqttQueue: d.queue(/Mqtt(?!.*DLQ)/i) };
}
export const uploadEvent = (parts, id) => ({ httpMethod: "PUT", path: "/upload/v1/datex2", headers: id ? { "X-Request-ID": id } : {}, body: parts === undefined ? null : typeof parts === "string" ? parts : JSON.stringify({ datexIIVersions: parts }) });
export const rttiBody = (id, versions) => JSON.stringify({ Type: "Notification", MessageId: `sns-${id}`, TopicArn: "arn:aws:sns:eu-west-1:123456789012:rtti.fifo", Message: JSON.stringify({ messageId: id, date: "2025-03-03T08:00:00Z", messageVersions: versions }), Timestamp: "2025-03-03T08:00:00.000Z" });
export const TYPES = { VMS, META, RTTI };
export const typeOf = (p) => (p.kind[2] === "t" ? META : VMS);

const HOUR = 3600000, DAY = 24 * HOUR;
/** Random history. w: weights of the kinds of operations. */
export function genOps(rng, tier, w) {
  const kinds = Object.entries(w).flatMap(([k, n]) => Array(n).fill(k));
  const ops = [];
  let at = 0;
  for (let i = 0, n = rng.int(1, tier === "thorough" ? 36 : 14); i < n; i++) {
    at += rng.pick([0, 5, 40, 300, 1500, 5000, 20000, 200000]);
    const kind = rng.pick(kinds);
    const doc = (o) => ({ p: genDoc(rng, o), bad: rng.bool(0.12) ? rng.pick(Object.keys(BROKEN)) : undefined, ver: rng.bool(0.04) });
    if (kind === "upload") {
      // one upload does not say two things of one device
      const parts = [];
      for (let j = 0, m = rng.int(1, 3); j < m; j++) { const d = doc(); if (!parts.some((x) => x.p.kind === d.p.kind)) parts.push(d); }
      ops.push({ kind, at, parts, id: rng.bool(0.7) });
    } else if (kind === "badUpload") ops.push({ kind, at, body: rng.pick([null, "", "{}", "ei json", "[]", "null", '{"datexIIVersions":[]}', '{"datexIIVersions":[{"type":"x","version":"y"}]}', '{"datexIIVersions":[{"type":"x","version":"y","message":5}]}', '{"datexIIVersions":[{"type":"x","version":"y","message":"z","extra":1}]}']) });
    else if (kind === "rtti") ops.push({ kind, at, versions: Array.from({ length: rng.int(1, 2) }, (_, j) => ({ ...doc({ kind: "rtti" }), ver: j > 0 })) });
    else if (kind === "badRtti") ops.push({ kind, at, body: rng.pick(["ei json", "{}", '{"Message":"{"}', '{"Message":"{}"}', '{"Message":"null"}', "null"]) });
    else ops.push({ kind, at });
  }
  return ops;
}
export const FAULTS = { "db.connect.before": 0.03, "db.before": 0.02, "db.lost": 0.03, "db.error": 0.03, "secrets.before": 0.03, "secrets.lost": 0.02, "sqs.before": 0.04, "sqs.lost": 0.03, "sqs.reorder": 0.1, "sqs.duplicate": 0.04, "sqs.delete-lost": 0.03, "mqtt.before": 0.05, "mqtt.lost": 0.05, crash: 0.006, slow: 0.03, recycle: 0.08 };
export async function bundleUploads(bundle) {
  const l = "road/data-upload/src/lambda";
  return bundle({ upload: `${l}/upload-datex2/upload-datex2.ts`, rtti: `${l}/handle-rtti/handle-rtti.ts`, handle: `${l}/handle-new-messages/handle-new-messages.ts`, mqtt: `${l}/send-mqtt/send-mqtt.ts`, clean: `${l}/delete-old-messages/delete-old-messages.ts` });
}

/** Runs a history; judge: which guarantees are checked ("store", "handle", "publish"). */
export async function runUploads(world, plan, ctx, judge) {
  const S = start(world, ctx);
  const { pg, mqtt, d } = S;
  const clean = plan.faults && !Object.keys(plan.faults).length;
  const id = judge === "store" ? "u01" : judge === "handle" ? "u02" : "u03";
  const probe = (x) => world.probe(`${id}.${x}`);
  if (plan.cfg.lag) pg.latency = [1, plan.cfg.lag];
  const T0 = world.now;
  const parts = new Map(); // text -> part
  const sources = { API: "API", TOPIC: "TOPIC" };
  // rows that are already there, of many ages
  const old = plan.cfg.old.map((days, i) => ({ message_id: `old${i}`, source: "API", version: "test", type: VMS, data: `old${i}`, status: "PROCESSED", created_at: new Date(T0 - days * DAY) }));
  pg.db.seed("data_incoming", old);
  const incoming = () => pg.db.rows("data_incoming");
  const device = new Map(); // key -> {order, part, dev}
  const order = (r) => [+r.created_at, Number(r.data_id)];
  const later = (a, b) => a[0] - b[0] || a[1] - b[1];
  const cleaning = new Set();
  let rttiSeen = 0;
  pg.db.commitHooks.push((tx, changes) => {
    try {
      const ins = new Set(changes.filter((c) => c.op === "ins" && c.table.name === "data_incoming").map((c) => Number(c.row.vals.data_id)));
      for (const c of changes) {
        const v = c.row.vals;
        if (c.table.name === "data_incoming") {
          if (c.op === "ins") {
            const part = parts.get(v.data);
            if (String(v.message_id).startsWith("old")) continue;
            if (judge === "store") {
              check(part, `stored data is not a part of any upload: ${String(v.data).slice(0, 100)}`, "foreign");
              check(v.source === part.source && v.version === part.version && v.type === part.type && (part.messageId === undefined || v.message_id === part.messageId), `part ${part.mark} is stored as ${JSON.stringify([v.source, v.version, v.type, v.message_id])}`, "fields");
            }
          } else if (!ins.has(Number(v.data_id)) && judge === "store") {
            const today = Math.floor(world.now / DAY) * DAY;
            check(cleaning.size, `data ${v.data_id} vanished without cleaning`, "vanished");
            check(+v.created_at < today - 7 * DAY, `data of ${new Date(v.created_at).toISOString()} was deleted at ${new Date(world.now).toISOString()}`, "young-deleted");
            probe("deleted");
          }
        } else if (c.table.name === "device_data_datex2" && c.op === "ins" && judge === "handle") {
          const key = `${v.device_id}|${v.version}|${v.type}`;
          const m = v.version === V[223] ? /<mark>([^<]*)<\/mark>/.exec(v.datex2)?.[1] : meaning(v.datex2).mark;
          const part = [...parts.values()].find((p) => m?.startsWith(`${p.mark}/`));
          const dev = part?.devices.find((x) => x.mark === m);
          check(dev && dev.key === key, `device ${key} was given the content ${m}`, "foreign-content");
          if (v.version === V[223]) check(part.xml.includes(v.datex2) && /^<situation [^]*<\/situation>$/.test(v.datex2), `content of ${key} is not an element of the upload`, "content");
          else {
            const x = meaning(v.datex2);
            check(x.marks === 1 && x.text === dev.text.trim(), `content of ${key} is ${JSON.stringify(x)}`, "content");
            if (dev.type !== "CONTROLLER_STATUS") check(x.id === dev.id, `content of ${key} is of ${x.id}`, "content");
          }
          if (dev.t !== undefined) check(+v.effect_date === dev.t, `effect date of ${key} is ${new Date(v.effect_date).toISOString()}, the upload says ${new Date(dev.t).toISOString()}`, "effect-date");
          else check(+v.effect_date >= T0 && +v.effect_date <= world.now, `effect date of ${key} is ${new Date(v.effect_date).toISOString()}`, "effect-date");
          const rows = incoming().filter((r) => r.data === part.xml);
          if (!rows.length) continue;
          // a repeated upload is stored again: either of its rows may be the one handled
          const os = rows.map(order).sort(later), o = os.at(-1), was = device.get(key);
          check(!was || was.part === part || later(o, was.first) > 0 || o[0] === was.first[0], `device ${key} fell back from ${was?.part.mark} to the older ${part.mark}`, "stale");
          if (was && was.part !== part) probe("overwritten");
          device.set(key, { order: o, first: os[0], part });
        }
      }
    } catch (e) { world.fail(e); }
  });
  const valid = [];
  const part = (o, i, j, source, messageId) => {
    const mark = `m${i}.${j}`, pub = Math.floor(world.now);
    let xml = source === "API" ? xmlOf(o.p, mark, T0) : rttiXml(o.p, mark, pub);
    if (o.bad) xml = BROKEN[o.bad](xml);
    if (["notXml", "empty"].includes(o.bad)) xml += `<!-- ${mark} -->`;
    const known = !o.ver;
    const x = { mark, p: o.p, xml, source: sources[source], bad: o.bad, known, messageId, pub, type: source === "API" ? typeOf(o.p) : RTTI, version: source === "API" ? (known ? V[o.p.kind === "223" ? 223 : o.p.kind.slice(0, 2)] : "DATEXII_9") : known ? "3.5" : "4.0", devices: source === "API" && known ? devices(o.p, mark, T0) : [] };
    parts.set(xml, x);
    return x;
  };
  const invoke = async (fn, ev, key) => {
    const n = mqtt.sessions.length;
    const r = await d.fns[fn].invoke(ev, { key });
    if (r.status === "crash") probe("crash");
    void n;
    return r;
  };
  let pending = plan.ops.length;
  const sleep = (ms) => new Promise((r) => world.after(ms, "user", r));
  plan.ops.forEach((o, i) => world.after(o.at + 0.001 * i, "user", async () => {
    try {
      if (o.kind === "upload") {
        const reqId = o.id ? `req${i}` : undefined;
        const xs = o.parts.map((x, j) => part(x, i, j, "API", reqId));
        let ok = false;
        for (let n = 0; n < 3 && !ok; n++) {
          const before = incoming().length;
          const r = await invoke("upload", uploadEvent(xs.map((x) => ({ type: x.type, version: x.version, message: x.xml })), reqId), `up${i}.${n}`);
          ok = r.status === "ok" && r.value?.statusCode === 200;
          if (ok) {
            if (judge === "store") for (const x of xs) check(incoming().some((y) => y.data === x.xml), `upload was accepted but its part ${x.mark} is not stored (${incoming().length - before} new rows)`, "accepted-lost");
            probe("accepted");
            valid.push(...xs);
          } else {
            if (clean && judge === "store" && r.status !== "throttled") check(false, `upload failed although nothing did: ${r.status} ${r.error?.message ?? JSON.stringify(r.value)}`, "refused");
            if (r.status === "ok" && judge === "store") check(r.value?.statusCode >= 500, `valid upload was answered ${r.value?.statusCode}`, "wrong-status");
            probe("refused");
            await sleep(2000);
          }
        }
      } else if (o.kind === "badUpload") {
        const n = incoming().length, busy = pending;
        const r = await invoke("upload", uploadEvent(o.body ?? undefined), `up${i}`);
        if (judge === "store" && r.status !== "throttled") {
          if (clean || r.status === "ok") check(r.status === "ok" && r.value?.statusCode === 400, `bad upload ${o.body} was answered ${r.status} ${r.value?.statusCode}`, "bad-status");
          void n; void busy;
          probe("bad");
        }
      } else if (o.kind === "rtti") {
        const xs = o.versions.map((x, j) => part(x, i, j, "TOPIC", `rtti${i}`));
        valid.push(...xs);
        S.rttiQueue.send(rttiBody(`rtti${i}`, xs.map((x) => ({ messageContent: x.xml, messageType: "DATEX2", typeVersion: x.version }))));
      } else if (o.kind === "badRtti") { S.rttiQueue.send(o.body); probe("bad-rtti"); }
      else if (o.kind === "clean") {
        cleaning.add(i);
        const r = await invoke("clean", {}, `c${i}`);
        if (r.status !== "crash" && r.status !== "timeout") cleaning.delete(i); // else its statement may still arrive
        const limit = Math.floor(world.now / DAY) * DAY - 7 * DAY;
        if (clean && judge === "store") check(!incoming().some((x) => +x.created_at < limit), "old data is left after cleaning", "not-deleted");
      } else if (o.kind === "poke") S.dataQueue.send("{}");
      pending--;
    } catch (e) { world.fail(e); }
  }));
  if (judge === "publish") mqtt.onPublish = (m) => {
    const row = pg.db.rows("datex2_rtti").find((r) => m.payload.includes(r.message));
    check(row, `published what no stored message contains: ${m.payload.slice(-500)}`, "foreign-payload");
    check(m.topic === `traffic-message-v3/traffic-data/datex2-3.5/${row.is_srti ? "SRTI" : "RTTI"}`, `published on ${m.topic}`, "topic");
    const [head, tail, ...rest] = m.payload.split(row.message);
    check(!rest.length && /<d2:payload[^]*<com:publicationTime>(\S+)<\/com:publicationTime>[^]*$/.test(head) && /^\s*<\/d2:payload>\s*$/.test(tail), "the message is not published once within a payload", "payload");
    const t = +new Date(/<com:publicationTime>(\S+)<\/com:publicationTime>/.exec(head)[1]);
    check(t >= world.now - 15000 && t <= world.now + 1, `published at ${world.now} with time ${t}`, "publication-time");
  };
  await world.run({ deadline: world.now + 2 * HOUR });
  world.faultsEnabled = false;
  await world.run({ deadline: world.now + HOUR });
  check(pending === 0, "a request was never answered", "no-answer");
  if (clean && judge === "handle") for (const r of incoming()) if (!String(r.message_id).startsWith("old")) check(["PROCESSED", "FAILED"].includes(r.status), `data ${r.data_id} (${parts.get(r.data)?.mark}) is still ${r.status} hours after it was received although nothing failed`, "untriggered");
  // once more everything is triggered, as the next upload would
  S.dataQueue.send("{}");
  await world.run({ deadline: world.now + 2 * HOUR });
  void rttiSeen;
  if (S.rttiQueue.redelivered) probe("redelivered");
  for (const [name, q] of Object.entries(d.queues)) if (!/DLQ/.test(name)) check(q.remaining().length === 0, `${name} still holds ${q.remaining().length} messages hours after faults stopped`, "stuck");
  const rows = incoming().filter((r) => !String(r.message_id).startsWith("old"));
  if (judge === "store") {
    for (const x of valid) {
      const n = rows.filter((r) => r.data === x.xml).length;
      check(n, `${x.source === "API" ? "accepted upload" : "queued message"} ${x.mark} is not stored`, "lost");
      if (clean) check(n === 1, `part ${x.mark} is stored ${n} times although nothing failed`, "twice");
      if (x.source === "TOPIC") probe("rtti");
    }
    return;
  }
  const state = (x) => rows.filter((r) => r.data === x.xml);
  for (const r of rows) check(["PROCESSED", "FAILED"].includes(r.status), `data ${r.data_id} (${parts.get(r.data)?.mark}) is still ${r.status} hours after faults stopped`, "unhandled");
  const rtti = pg.db.rows("datex2_rtti");
  if (judge === "handle") {
    for (const x of valid) {
      if (x.bad && !["noDate"].includes(x.bad)) { for (const r of state(x)) if (r.status === "FAILED") probe("failed"); continue; }
      if (x.bad) continue;
      for (const r of state(x)) {
        if (clean && x.known) check(r.status === "PROCESSED", `good data ${x.mark} is ${r.status} although nothing failed`, "good-failed");
        if (r.status !== "PROCESSED" || !x.known) continue;
        probe("processed");
        if (x.source === "TOPIC") {
          const t = rtti.filter((y) => y.message === x.xml);
          check(t.length, `traffic message ${x.mark} is marked as processed but not stored`, "rtti-lost");
          for (const y of t) check(y.situation_id === `GUID${x.p.devs[0]}` && +y.publication_time === x.pub && y.is_srti === x.p.srti && +y.start_time === x.pub - 1000 && (x.p.end ? +y.end_time === x.pub + HOUR : y.end_time === null), `traffic message ${x.mark} (published ${x.pub}, end ${x.p.end}) is stored with ${JSON.stringify({ ...y, message: undefined })}`, "rtti-fields");
          probe("rtti");
        } else for (const dv of x.devices) {
          const now = device.get(dv.key);
          check(now && (now.part === x || later(now.order, order(r)) >= 0 || now.order[0] === +r.created_at), `data ${x.mark} is marked as processed but ${dv.key} is ${now ? `of the older ${now.part.mark}` : "not stored"}`, "processed-lost");
        }
      }
    }
    return;
  }
  // publishing: the latest stored message of each situation was published
  const dlq = S.mqttQueue.dlq.remaining().map((m) => JSON.parse(m.body).id);
  if (clean) check(!dlq.length, "publishing failed although nothing did", "dlq");
  for (const s of new Set(rtti.map((r) => r.situation_id))) {
    const mine = rtti.filter((r) => r.situation_id === s && rows.some((y) => y.data === r.message && y.status === "PROCESSED"));
    if (!mine.length) continue;
    const all = rtti.filter((r) => r.situation_id === s), top = Math.max(...all.map((r) => +r.publication_time));
    if (!mine.some((r) => +r.publication_time === top)) continue;
    const done = mqtt.published.some((m) => all.some((r) => +r.publication_time === top && m.payload.includes(r.message)));
    check(done || dlq.includes(s), `the latest message of ${s} was never published`, "not-published");
    if (done) { probe("published"); if (all.length > 1) probe("latest"); } else probe("dlq");
  }
  for (const s of mqtt.sessions) if (s.open && s.held && !s.ended && s.inst.state !== "dead") { check(false, "a connection to the broker was left open", "left-open"); }
}
