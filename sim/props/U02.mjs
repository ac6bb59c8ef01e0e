// U02: stored traffic data is handled in order: devices have the latest content, and data marked as processed took effect.
import { base } from "./U01.mjs";
import { FAULTS, genOps, runUploads } from "../harness/dataupload.mjs";

export default {
  ...base,
  id: "U02",
  quickSec: 16,
  thoroughSec: 240,
  assumptions: ["data is ordered by when it was stored", "another upload or trigger follows after faults stop"],
  mustReach: ["u02.accepted", "u02.processed", "u02.failed", "u02.rtti", "u02.overwritten", "u02.crash"],
  scenarios: [{
    name: "handling",
    gen(rng, tier) {
      return { ops: genOps(rng, tier, { upload: 8, badUpload: 0, rtti: 2, badRtti: 0, clean: 0, poke: 2 }), cfg: { old: [], lag: rng.pick([0, 0, 400, 2000]) }, faults: rng.bool(0.35) ? {} : undefined };
    },
    faults: FAULTS,
    maxEvents: 120000,
    run: (world, plan, ctx) => runUploads(world, plan, ctx, "handle"),
  }],
};
