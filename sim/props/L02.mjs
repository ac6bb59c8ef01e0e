// L02: database helpers — atomic transactions, faithful errors, no leaked connections, right endpoint, clean sessions.
import { bundle, Instance } from "../runtime.mjs";
import { PgServer } from "../pgserver.mjs";
import { check } from "../check.mjs";

export default {
  id: "L02",
  quickSec: 16,
  thoroughSec: 400,
  real: ["lib/digitraffic-common/src/database/database.ts", "pg-promise", "pg-pool", "pg-types"],
  stubs: ["PostgreSQL server and wire client (in-memory SQL engine with READ COMMITTED, row locks, deadlock detection)", "clock and timers"],
  assumptions: ["a lost COMMIT reply leaves the outcome unknown: all or nothing is still required", "a server-side session ends with its connection and rolls back"],
  mustReach: ["l02.rollback", "l02.commit", "l02.crash", "l02.ro-write-refused"],
  async setup() {
    return bundle({ db: { code: `export * from "@digitraffic/common/dist/database/database.js";` } });
  },
  scenarios: [
    {
      name: "clients",
      gen(rng) {
        const ops = [];
        const n = rng.int(2, 9);
        const procs = rng.int(1, 3);
        for (let i = 0; i < n; i++) {
          ops.push({
            id: i,
            proc: rng.int(0, procs - 1),
            at: rng.pick([0, 0, 1, 5, rng.int(0, 60)]),
            kind: rng.pick(["tx", "tx", "tx", "db", "ro", "ro-write", "types", "parallel"]),
            rows: rng.int(1, 5),
            account: rng.int(1, 3),
            fail: rng.pick(["no", "no", "no", "error", "string", "object", "db-error", "undefined"]),
            failAt: rng.int(0, 5),
            nulls: rng.bool(),
          });
        }
        return { ops, cfg: { procs } };
      },
      faults: { "db.connect.before": 0.05, "db.before": 0.02, "db.lost": 0.03, "db.error": 0.02, crash: 0.01, slow: 0.02 },
      maxEvents: 30000,
      async run(world, plan, ctx) {
        const pg = new PgServer(world);
        const { db } = pg;
        db.table("entry", "id serial primary key, token int, n int");
        db.table("account", "id int primary key, total bigint, cnt int");
        db.table("uniq", "k text primary key");
        db.seed("account", [1, 2, 3].map((id) => ({ id, total: 0, cnt: 0 })));
        db.seed("uniq", [{ k: "taken" }]);
        // statements in the order they reached the server, per call (one pool per call)
        const svc = { pg };
        const poolSql = new Map();
        const env = { DB_USER: "writer", DB_PASS: "db-pass-of-y", DB_URI: "db-rw:5432/x", DB_RO_URI: "db-ro:5432/x", DB_APPLICATION: "app" };
        const procs = [];
        for (let i = 0; i < plan.cfg.procs; i++) {
          const inst = new Instance(world, `proc${i}`, ctx.db, { env, svc });
          inst.onCrash.push(() => world.probe("l02.crash"));
          procs.push(inst);
        }
        const calls = [];
        // connections held once every call of a process has settled (idle connections would close on their own later)
        const settled = (inst) => world.after(5, "held-connections", () => {
          if (inst.state === "dead" || calls.some((c) => c.inst === inst && (c.state === "pending" || c.doneAt > world.now - 4.9))) return;
          const held = [...pg.sessions].filter((s) => s.inst === inst).length;
          try { check(held === 0, `${held} database connections are still held after every call of the process has settled`, "connection-held"); } catch (e) { world.fail(e); }
        });
        for (const op of plan.ops) {
          const inst = procs[op.proc];
          const D = inst.exports;
          const c = { op, inst, state: "pending", reachedCommit: false, sessions: new Set() };
          calls.push(c);
          const boom = () => {
            const e = op.fail === "string" ? "thrown string" : op.fail === "object" ? { code: 17, why: "object" } : op.fail === "undefined" ? undefined : new Error(`fail-${op.id}`);
            c.thrown = { e };
            world.scripted(`op.throws-${op.fail}`);
            throw e;
          };
          const body = async (t) => {
            for (let i = 0; i < op.rows; i++) {
              if (op.fail !== "no" && i === Math.min(op.failAt, op.rows - 1)) {
                if (op.fail === "db-error") { c.dbErr = true; try { await t.none("INSERT INTO uniq(k) VALUES('taken')"); } catch (e) { c.thrown = { e }; throw e; } } else boom();
              }
              await t.none("INSERT INTO entry(token, n) VALUES($1, $2)", [op.id, i]);
              await t.none("UPDATE account SET total = total + 1, cnt = cnt + 1 WHERE id = $1", [((op.account + i) % 3) + 1]);
            }
            c.reachedCommit = true;
            return `value-${op.id}`;
          };
          const fn = async (d) => {
            c.pool = d.$pool;
            c.entered = true;
            switch (op.kind) {
              case "db": {
                const r = await d.many("SELECT id, total, cnt FROM account ORDER BY id");
                if (op.fail !== "no") boom();
                return r.length;
              }
              case "ro": {
                const r = await d.oneOrNone("SELECT count(*) AS c FROM entry");
                check(typeof r.c === "number", `count came back as ${typeof r.c}`, "int8-not-number");
                if (op.fail !== "no") boom();
                return "ro";
              }
              case "ro-write": return d.none("INSERT INTO entry(token, n) VALUES($1, 0)", [op.id]);
              case "types": {
                const r = await d.one("SELECT 9007199254740::bigint AS b, 12.50::numeric AS n, 0.25::float8 AS f, NULL::text AS z, 7::int AS i");
                check(r.b === 9007199254740 && r.n === 12.5 && r.f === 0.25 && r.i === 7, `numeric columns came back as ${JSON.stringify(r)}`, "numeric-conversion");
                check(op.nulls ? r.z === undefined : r.z === null, `NULL came back as ${String(r.z)} with convertNullsToUndefined=${op.nulls}`, "null-conversion");
                return "types";
              }
              case "parallel": {
                await Promise.all([1, 2, 3].map((i) => d.any("SELECT id FROM account WHERE id = $1", [i])));
                if (op.fail !== "no") boom();
                return "parallel";
              }
            }
          };
          world.after(op.at, "call", () => inst.deliverNow(() => {
            const p = op.kind === "tx" ? D.inTransaction((t) => { c.entered = true; return body(t); }, op.nulls) : op.kind === "ro" || op.kind === "ro-write" ? D.inDatabaseReadonly(fn, op.nulls) : D.inDatabase(fn, op.nulls);
            p.then(
              (v) => { c.state = "ok"; c.v = v; c.doneAt = world.now; world.record("ok", { id: op.id }); settled(inst); },
              (e) => { c.state = "err"; c.e = e; c.doneAt = world.now; if (e?.violation) world.fail(e); world.record("err", { id: op.id, m: String(e?.message ?? e) }); settled(inst); },
            );
          }));
        }
        pg.onQuery = (client, text) => {


          const k = client.__pool ?? client;
          if (!poolSql.has(k)) poolSql.set(k, []);
          poolSql.get(k).push(text);
        };
        await world.run();

        for (const c of calls) {
          const { op } = c;
          if (c.inst.state === "dead") continue;
          check(c.state !== "pending", `call ${op.id} (${op.kind}) never settled`, `never-settled`);
          if (c.thrown && c.state === "ok") check(false, `call ${op.id}: callback threw but the helper resolved`, "error-swallowed");
          const injected = world.firedFaults.some((f) => !["slow"].includes(f.kind) && f.site.startsWith(c.inst.name));
          if (c.state === "err" && c.thrown && !injected) check(Object.is(c.e, c.thrown.e), `call ${op.id}: rejected with ${String(c.e)} instead of the error the callback threw (${String(c.thrown.e)})`, "error-identity");
          if (c.state === "err" && !c.thrown && !injected && op.kind !== "ro-write") check(/deadlock/.test(String(c.e?.message)), `call ${op.id} (${op.kind}) rejected without any fault: ${String(c.e?.message ?? c.e)}`, "spurious-error");
          if (op.kind === "tx" && c.state === "ok") check(c.v === `value-${op.id}`, `transaction ${op.id} returned ${String(c.v)}`, "tx-value");
          if (op.kind === "ro-write") { check(c.state === "err", `a write through the read-only helper succeeded`, "ro-write"); world.probe("l02.ro-write-refused"); }
        }
        // atomicity
        for (const c of calls.filter((x) => x.op.kind === "tx")) {
          const rows = db.rows("entry").filter((r) => r.token === c.op.id).length;
          check(rows === 0 || rows === c.op.rows, `transaction ${c.op.id} left ${rows} of its ${c.op.rows} rows`, "tx-torn");
          if (c.state === "ok") { check(rows === c.op.rows, `transaction ${c.op.id} reported success but left ${rows} of ${c.op.rows} rows`, "tx-lost"); world.probe("l02.commit"); }
          if (c.thrown) { check(rows === 0, `transaction ${c.op.id} threw but its rows are there`, "tx-not-rolled-back"); world.probe("l02.rollback"); }
        }
        const total = db.rows("account").reduce((a, r) => a + Number(r.total), 0);
        const txRows = db.rows("entry").filter((r) => calls[plan.ops.findIndex((o) => o.id === r.token)]?.op.kind === "tx").length;
        check(total === txRows, `accounts add up to ${total} but ${txRows} entries were committed`, "tx-conservation");
        // connections
        const openLive = [...pg.sessions].filter((s) => s.inst.state !== "dead").length;
        check(openLive === 0, `${openLive} database connections are still open after every call has settled`, "connection-leak");
        // endpoint and session hygiene
        for (const c of calls) if (c.entered && c.pool) {
          const host = c.pool.options.connectionString ?? "";
          check(c.op.kind.startsWith("ro") ? host.includes("db-ro:") : host.includes("db-rw:"), `call ${c.op.id} (${c.op.kind}) used ${host}`, "endpoint");
          check(host.includes("application_name=app"), `connection does not name the application: ${host}`, "app-name");
        }
        for (const q of poolSql.values()) check(/^\s*discard\s+all/i.test(q[0]), `first statement of a call was: ${q[0]}`, "no-discard");
      },
    },
  ],
};
