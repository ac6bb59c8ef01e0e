// Framework self-test: the simulator, the SQL engine and the bundler work in this sandbox, and a run repeats exactly.
import { World } from "./world.mjs";
import { bundle, Instance } from "./runtime.mjs";
import { PgServer } from "./pgserver.mjs";

process.on("unhandledRejection", (e) => { console.error(e); process.exit(2); });
const code = await bundle({ db: { code: `export * from "@digitraffic/common/dist/database/database.js";` } });
async function once(seed) {
  const w = new World({ seed, faults: { "db.lost": 0.1 } });
  const pg = new PgServer(w);
  pg.db.table("t", "id serial primary key, v int");
  const i = new Instance(w, "p", code.db, { env: { DB_USER: "u", DB_PASS: "p", DB_URI: "db-rw:1/x", DB_RO_URI: "db-ro:1/x" }, svc: { pg } });
  let out = 0;
  i.deliverNow(() => { for (let k = 0; k < 5; k++) i.exports.inTransaction((t) => t.one("INSERT INTO t(v) VALUES($1) RETURNING id", [k])).then(() => out++, () => {}); });
  await w.run();
  return `${w.digest} ${out} ${pg.db.rows("t").length}`;
}
for (let s = 0; s < 20; s++) {
  const a = await once(`self${s}`);
  const b = await once(`self${s}`);
  if (a !== b) { console.error(`not deterministic: ${a} / ${b}`); process.exit(2); }
}
console.log("self-test ok");
