// U01: an accepted upload of traffic data is stored, and kept for a week.
import { bundle } from "../runtime.mjs";
import { WIRINGS } from "../apps.mjs";
import { FAULTS, bundleUploads, genOps, runUploads } from "../harness/dataupload.mjs";

export const base = {
  real: ["data-upload upload-datex2, handle-rtti, handle-new-messages, send-mqtt and delete-old-messages handlers, services, DAOs, DATEX II parsers, zod schemas", "pg-promise, pg-pool, lib database and secrets", "synthesised queues, triggers, redrive, timeouts and concurrency"],
  stubs: ["PostgreSQL", "xml2js parser and builder", "MQTT broker behind mqtt", "SQS, Lambda, Secrets Manager", "uuid"],
  async setup() { return { wiring: await WIRINGS.dataUpload(), code: await bundleUploads(bundle) }; },
};
export default {
  ...base,
  id: "U01",
  quickSec: 15,
  thoroughSec: 200,
  assumptions: ["a client repeats an upload that was not accepted", "an upload is judged when it was answered"],
  mustReach: ["u01.accepted", "u01.refused", "u01.bad", "u01.rtti", "u01.bad-rtti", "u01.deleted", "u01.crash", "u01.redelivered"],
  scenarios: [{
    name: "uploads",
    gen(rng, tier) {
      return { ops: genOps(rng, tier, { upload: 5, badUpload: 2, rtti: 5, badRtti: 1, clean: 2, poke: 0 }), cfg: { old: Array.from({ length: rng.int(0, 4) }, () => rng.pick([1, 6, 6.9, 7, 7.2, 7.4, 7.9, 8, 9, 30])), lag: rng.bool(0.2) ? 400 : 0 }, faults: rng.bool(0.3) ? {} : undefined };
    },
    faults: FAULTS,
    maxEvents: 120000,
    run: (world, plan, ctx) => runUploads(world, plan, ctx, "store"),
  }],
};
