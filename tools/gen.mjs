import fs from "node:fs";
import path from "node:path";
import { fileURLToPath } from "node:url";
import { P, NA } from "./properties.mjs";
const ROOT = path.resolve(path.dirname(fileURLToPath(import.meta.url)), "..");
fs.writeFileSync(path.join(ROOT, "properties.jsonl"), P.map((x) => JSON.stringify(x)).join("\n") + "\n");
const checks = [];
const na = [...NA];
for (const x of P) {
  if (NA.some((n) => n.property === x.id)) continue;
  const f = path.join(ROOT, "sim/props", `${x.id}.mjs`);
  if (!fs.existsSync(f)) { na.push({ property: x.id, reason: "no check built yet" }); continue; }
  const mod = (await import(f)).default;
  checks.push({
    property: x.id,
    quick_cmd: `node sim/runner.mjs ${x.id} --tier quick`,
    thorough_cmd: `node sim/runner.mjs ${x.id} --tier thorough`,
    evidence_file: `evidence/${x.id}.json`,
    technique: "deterministic simulation with fault injection (seeded schedule and fault search, reference-model oracle)",
    level: "exploration",
    level_note: `Samples seeded schedules and fault sequences over the real code (${(mod.real ?? []).slice(0, 3).join("; ")}); a clean batch is evidence, not proof. Trusts the stand-ins: ${(mod.stubs ?? []).join("; ")}.`,
  });
}
const manifest = { version: 1, setup_cmd: "node sim/selftest.mjs", checks, not_applicable: na, notes: "All checks bundle the TypeScript of /repo's working tree in memory and run it under a seeded simulator. No hooks in /repo: every seam is an import boundary or a global, substituted at bundle time." };
fs.writeFileSync(path.join(ROOT, "MANIFEST.json"), JSON.stringify(manifest, null, 1) + "\n");
console.log(`${P.length} properties, ${checks.length} checks, ${na.length} not applicable`);
