// Writes DESIGN.md: a handwritten head plus sections generated from the properties, the prop modules, known-findings.txt and seeded/.
import fs from "node:fs";
import path from "node:path";
import { fileURLToPath } from "node:url";
import { P, NA } from "./properties.mjs";
const ROOT = path.resolve(path.dirname(fileURLToPath(import.meta.url)), "..");
const head = fs.readFileSync(path.join(ROOT, "tools/design-head.md"), "utf8");
const notes = JSON.parse(fs.readFileSync(path.join(ROOT, "tools/design-notes.json"), "utf8"));
const out = [head.trim(), "", "## Properties and how each is decided", ""];
for (const x of P) {
  if (NA.some((n) => n.property === x.id)) continue;
  const f = path.join(ROOT, "sim/props", `${x.id}.mjs`);
  if (!fs.existsSync(f)) continue;
  const m = (await import(f)).default;
  const kinds = [...new Set(m.scenarios.flatMap((s) => Object.keys(s.faults ?? {})))];
  const n = notes[x.id] ?? {};
  out.push(`### ${x.id} ${x.title}`, "", x.statement, "",
    `- Specified by: ${n.oracle ?? "an executable check in `sim/props/" + x.id + ".mjs` over the recorded history and the committed rows"}.`,
    `- Generated: ${x.quantifier.text} (scenarios: ${m.scenarios.map((s) => `${s.name}${s.weight ? ` ×${s.weight}` : ""}`).join(", ")}).`,
    `- Faults: ${kinds.length ? kinds.join(", ") : "none"}.`,
    `- Why tests cannot settle it: ${x.why_tests_cant}`,
    `- Real code: ${m.real.join("; ")}.`,
    `- Stand-ins: ${m.stubs.join("; ")}.`,
    `- Assumptions and bounds: ${m.assumptions?.join("; ") || "none beyond the stand-ins"}; ${m.quickSec ?? 15} s of search per worker in the quick tier, ${m.thoroughSec ?? 240} s in the thorough tier; ${[...new Set(m.scenarios.map((s) => s.maxEvents))].join("/")} events per run.`,
    `- A run batch is reported as weak (WARNING) unless these situations were reached: ${m.mustReach.join(", ")}.`);
  if (n.excluded) out.push(`- Left out on purpose: ${n.excluded}.`);
  out.push("");
}
out.push("## Properties this family cannot decide here", "");
for (const n of NA) out.push(`- **${n.property}** ${P.find((p) => p.id === n.property)?.title ?? ""}: ${n.reason}`);
out.push("", "## Defects found and repaired in the code", "", "Every one was found by a check (the check reports it again on the tree before its commit).", "", "| property | commit | what failed |", "|---|---|---|");
for (const l of fs.readFileSync(path.join(ROOT, "known-findings.txt"), "utf8").split("\n")) {
  const m = /^fixed: property=(\S+) (\S+) (.*)$/.exec(l);
  if (m) out.push(`| ${m[1]} | ${m[2]} | ${m[3]} |`);
}
const known = fs.readFileSync(path.join(ROOT, "known-findings.txt"), "utf8").split("\n").filter((l) => l.startsWith("KNOWN-FINDING"));
out.push("", known.length ? "Recorded but not repaired:" : "No defect is recorded without a repair.", ...known.map((l) => `- ${l}`));
out.push("", "## Planted bugs", "", "Each is caught by the check of its property in the quick tier (`tools/catch.sh <id>`), unless noted.", "", "| id | property | needs | what it breaks | first miss and what was strengthened |", "|---|---|---|---|---|");
for (const d of fs.readdirSync(path.join(ROOT, "seeded")).sort()) {
  const f = path.join(ROOT, "seeded", d, "meta.json");
  if (!fs.existsSync(f)) continue;
  const m = JSON.parse(fs.readFileSync(f, "utf8"));
  out.push(`| ${d} | ${m.property} | ${m.needs} | ${m.what_it_breaks} | ${notes.missed?.[d] ?? ""} |`);
}
fs.writeFileSync(path.join(ROOT, "DESIGN.md"), out.join("\n") + "\n");
