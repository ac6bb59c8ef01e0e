// S02: the sign feeds contain every active sign's stored XML, unchanged, from one committed state.
import { bundle } from "../runtime.mjs";
import { WIRINGS } from "../apps.mjs";
import { deploy, LambdaFn } from "../lambda.mjs";
import { check } from "../check.mjs";
import { PgServer } from "../pgserver.mjs";
import { Aws } from "../services.mjs";
import { DB, DEVICES, TEST, TEXTS, TIMES, inTestTime, tables, situation, message } from "../harness/signs.mjs";

const H = "road/variable-signs/src/lambda";
const HOUR = 3600000;
const FEEDS = {
  "get-datex2": ["DATEXII_2_2_3", "SITUATION"],
  "get-situations-datex2-35": ["DATEXII_3_5", "SITUATION"],
  "get-situations-datex2-37": ["DATEXII_3_7", "SITUATION"],
  "get-statuses-datex2-35": ["DATEXII_3_5", "CONTROLLER_STATUS"],
  "get-statuses-datex2-37": ["DATEXII_3_7", "CONTROLLER_STATUS"],
  "get-controllers-datex2-35": ["DATEXII_3_5", "CONTROLLER"],
  "get-controllers-datex2-37": ["DATEXII_3_7", "CONTROLLER"],
};
const NAMES = Object.keys(FEEDS);
const ENDS = { "get-datex2": ["d2LogicalModel", "publicationTime"], SITUATION: ["sit:situationPublication", "com:publicationTime"], CONTROLLER_STATUS: ["d2:payload", "com:publicationTime"], CONTROLLER: ["d2:payload", "com:publicationTime"] };
/** The stored element and how the feed has to show it. */
const stored = (s, version, type, pre) => {
  if (type === "SITUATION") return situation(s, pre && version !== "DATEXII_2_2_3" ? "sit" : "");
  const tag = (pre ? "vms:" : "") + (type === "CONTROLLER" ? "vmsController" : "vmsControllerStatus");
  return `<${tag} id="${s.dev}" version="1"><vms:text xsi:type="x">n${s.n} ${s.text}</vms:text><vms:vmsControllerFault/></${tag}>`;
};

export default {
  id: "S02",
  quickSec: 15,
  thoroughSec: 240,
  real: ["the seven variable-signs datex2 query handlers, update-datex2 and update-json-metadata, services and database code", "pg-promise, pg-pool, lib database, secrets, lambda response"],
  stubs: ["PostgreSQL with a modification trigger", "@rgrove/parse-xml", "Lambda and API gateway", "Secrets Manager"],
  assumptions: ["the sign elements of datex2 3.5 and 3.7 are stored by another system, with or without namespace prefix", "the stored elements are well-formed"],
  mustReach: ["s02.answer", "s02.many", "s02.concurrent", "s02.test-filtered", "s02.deleted-hidden", "s02.dollar", "s02.empty", "s02.failed", "s02.prefixed"],
  async setup() {
    const code = {};
    for (const n of NAMES) code[n] = await bundle({ h: `${H}/${n}/${n}.ts` });
    return { code, wiring: await WIRINGS.variableSigns(), datex: await bundle({ h: `${H}/update-datex2/update-datex2.ts` }), meta: await bundle({ h: `${H}/update-json-metadata/update-json-metadata.ts` }) };
  },
  scenarios: [
    {
      name: "feeds",
      gen(rng, tier) {
        const known = rng.int(2, DEVICES.length);
        let n = 0;
        const elem = () => ({ dev: DEVICES[rng.int(0, known - 1)], n: n++, t: rng.pick(TIMES), text: rng.pick(TEXTS), pre: rng.bool(), feed: rng.int(0, NAMES.length - 1) });
        const ops = [];
        for (let i = 0, k = rng.int(1, tier === "thorough" ? 20 : 9); i < k; i++) {
          const at = i * rng.pick([3, 10, 30, 1500]);
          const kind = rng.pick(["get", "get", "get", "datex", "direct", "meta"]);
          if (kind === "get") ops.push({ kind, at, feed: rng.int(0, NAMES.length - 1) });
          else if (kind === "meta") ops.push({ kind, at, devs: Array.from({ length: rng.int(1, known) }, () => DEVICES[rng.int(0, known - 1)]) });
          else ops.push({ kind, at, elems: Array.from({ length: rng.int(1, 4) }, elem) });
        }
        return { ops, cfg: { known, first: Array.from({ length: rng.pick([0, 3, 12]) }, elem) }, faults: rng.bool(0.35) ? {} : undefined };
      },
      faults: { "db.connect.before": 0.03, "db.before": 0.02, "db.error": 0.02, "secrets.before": 0.04, slow: 0.01, recycle: 0.2 },
      maxEvents: 40000,
      async run(world, plan, ctx) {
        const pg = new PgServer(world);
        const aws = new Aws(world);
        pg.slowMs = 20000;
        aws.secrets.set("sec", JSON.stringify(DB));
        tables(pg);
        const svc = { pg, aws };
        pg.db.seed("device", DEVICES.slice(0, plan.cfg.known).map((id) => ({ id, deleted_date: null, type: "X", road_address: "r" })));
        // what each committed state makes each feed say
        const meta = new Map(); // stored text → element
        const states = [];
        const snap = () => {
          const live = new Set(pg.db.rows("device").filter((r) => !r.deleted_date).map((r) => r.id));
          const s = { t: world.now };
          const rows = pg.db.rows("device_data_datex2");
          for (const [name, [version, type]] of Object.entries(FEEDS)) {
            const all = rows.filter((r) => r.version === version && r.type === type);
            const mine = all.filter((r) => live.has(r.device_id)).sort((a, b) => (a.device_id < b.device_id ? -1 : 1));
            if (all.length > mine.length) s.hidden = true;
            const shown = mine.filter((r) => { const e = meta.get(r.datex2); return !(type === "SITUATION" && TEST.has(e.dev) && inTestTime(e.t)); });
            s[name] = { list: shown.map((r) => meta.get(r.datex2).shown), modified: Math.max(0, ...mine.map((r) => +r.modified)), filtered: mine.length - shown.length, dollar: shown.some((r) => r.datex2.includes("$")), pre: shown.some((r) => !/^<\w+:/.test(r.datex2)) };
          }
          states.push(s);
        };
        pg.db.commitHooks.push(() => { try { snap(); } catch (e) { world.fail(e); } });
        const remember = (e, version, type) => {
          const text = stored(e, version, type, e.pre);
          meta.set(text, { ...e, shown: version === "DATEXII_2_2_3" || e.pre ? text : type === "SITUATION" ? text.split("<situation ").join("<sit:situation ").split("</situation>").join("</sit:situation>") : stored(e, version, type, true) });
          return text;
        };
        const direct = async (elems) => {
          const tx = pg.db.begin();
          try {
            for (const e of elems) {
              const [version, type] = FEEDS[NAMES[e.feed]];
              pg.db.execStmt(pg.db.parse("insert into device_data_datex2(device_id,datex2,effect_date,type,version) values($1,$2,$3,$4,$5) on conflict(device_id,type,version) do update set datex2=$2, effect_date=$3")[0], tx, { params: [e.dev, remember(e, version, type), new Date(e.t), type, version] });
            }
          } catch (e) { if (e?.constructor?.name !== "LockWait") throw e; pg.db.rollback(tx); await world.sleep(100); return direct(elems); }
          pg.db.commit(tx);
        };
        if (plan.cfg.first.length) await direct(plan.cfg.first); else snap();
        const fns = {};
        const d = deploy(world, ctx.wiring, { aws, fns: { datex: { re: /update-?datex2/i, code: ctx.datex.h , svc }, meta: { re: /update-?json-?metadata/i, code: ctx.meta.h , svc } } });
        for (const n of NAMES) fns[n] = new LambdaFn(world, n, ctx.code[n].h, { env: d.fns.datex.env, svc, timeoutSec: 60 });
        let open = plan.ops.length;
        const judge = (name, v, from) => {
          check(v?.status === 200 && typeof v.body === "string", `${name} answered ${v?.status}`, "status");
          const text = Buffer.from(v.body, "base64").toString("utf8");
          const [version, type] = FEEDS[name];
          const [root, time] = ENDS[name] ?? ENDS[type];
          check(text.startsWith(`<${root}`) && text.trimEnd().endsWith(`</${root}>`), `the answer of ${name} is not one ${root} element`, "frame");
          const pub = new RegExp(`<${time}>([^<]*)</${time}>`).exec(text)?.[1];
          const cand = states.slice(from);
          const same = (s) => {
            let rest = text, at = 0;
            for (const x of s[name].list) { const i = rest.indexOf(x, at); if (i < 0) return false; at = i; rest = rest.slice(0, i) + rest.slice(i + x.length); }
            return !/<(\w+:)?(situation|vmsController|vmsControllerStatus) id=/.test(rest);
          };
          const ok = cand.some((s, j) => same(s) && cand.slice(0, j + 1).some((q) => new Date(q[name].modified).toUTCString() === v.timestamp && new Date(q[name].modified).toISOString() === pub));
          if (!ok) {
            check(cand.some(same), `the answer of ${name} is no committed state of the signs (${text.length} characters, ${cand[0][name].list.length} signs stored)`, "content");
            check(false, `${name} is dated ${pub} (Last-Modified ${v.timestamp}), newer or older than what it contains`, "timestamp");
          }
          const s = cand.find(same);
          if (s[name].list.length > 1) world.probe("s02.many");
          if (!s[name].list.length) world.probe("s02.empty");
          if (cand.length > 1) world.probe("s02.concurrent");
          if (s[name].filtered) world.probe("s02.test-filtered");
          if (s.hidden) world.probe("s02.deleted-hidden");
          if (s[name].dollar) world.probe("s02.dollar");
          if (s[name].pre) world.probe("s02.prefixed");
          world.probe("s02.answer");
        };
        const act = async (o) => {
          if (o.kind === "direct") await direct(o.elems);
          else if (o.kind === "datex") { for (const e of o.elems) remember({ ...e, pre: false }, "DATEXII_2_2_3", "SITUATION"); await d.fns.datex.invoke({ body: message(o.elems) }); }
          else if (o.kind === "meta") await d.fns.meta.invoke({ body: JSON.stringify({ laitteet: o.devs.map((x) => ({ tunnus: x, tyyppi: "X", sijainti: { tieosoite: "r", ajosuunta: "", ajorata: "", n: 1, e: 2 } })) }) });
          else {
            const from = states.length - 1, mark = world.firedFaults.length;
            const r = await fns[NAMES[o.feed]].invoke({});
            world.record("get", { f: o.feed, s: r.status });
            if (r.status === "ok") judge(NAMES[o.feed], r.value, from);
            else { world.probe("s02.failed"); check(world.firedFaults.slice(mark).some((f) => f.kind !== "recycle"), `${NAMES[o.feed]} failed although nothing failed: ${r.error?.message}`, "failed"); }
          }
          open--;
        };
        for (const o of plan.ops) world.after(o.at, "client", () => { act(o).catch((e) => world.fail(e)); });
        await world.run({ until: () => !open, deadline: world.now + HOUR });
        check(!open, "queries did not finish", "stuck");
      },
    },
  ],
};
