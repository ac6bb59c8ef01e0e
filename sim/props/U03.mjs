// U03: the latest message of each traffic situation is published unchanged.
import { base } from "./U01.mjs";
import { FAULTS, genOps, runUploads } from "../harness/dataupload.mjs";

export default {
  ...base,
  id: "U03",
  quickSec: 15,
  thoroughSec: 200,
  assumptions: ["a message published with QoS 0 on an open connection arrives", "publication times of one situation increase"],
  mustReach: ["u03.published", "u03.latest", "u03.dlq", "u03.crash"],
  scenarios: [{
    name: "publishing",
    gen(rng, tier) {
      return { ops: genOps(rng, tier, { upload: 1, badUpload: 0, rtti: 8, badRtti: 0, clean: 0, poke: 3 }), cfg: { old: [], lag: rng.pick([0, 0, 300]) }, faults: rng.bool(0.35) ? {} : undefined };
    },
    faults: FAULTS,
    maxEvents: 120000,
    run: (world, plan, ctx) => runUploads(world, plan, ctx, "publish"),
  }],
};
