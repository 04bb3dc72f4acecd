"""Writes /verif/DESIGN.md from properties.jsonl, the checks, the notes, the
known findings and the planted bugs' table."""
import importlib
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path[:0] = [ROOT, HERE]
from design_notes import HEAD, NOTES, SEEDS, TAIL  # noqa: E402


def tidy(s):
    return re.sub(r"\s+", " ", s).strip()


out = [HEAD.strip(), "", "## Properties", ""]
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    m = importlib.import_module(f"pv.checks.{i.lower()}")
    oracle, work, why = NOTES[i]
    sc = ", ".join(f"`{n}` {q}/{t}" for n, _, q, t in m.SCENARIOS)
    out += [f"### {i} {p['title']}", "", tidy(p["statement"]), "",
            f"* **Oracle.** {tidy(oracle)}",
            f"* **Workload.** {tidy(work)} (Cases: {tidy(m.RULE)}.)",
            f"* **Cases quick/thorough** (before the common scale factor): {sc}."]
    if why:
        out.append(f"* **Reach and limits.** {tidy(why)}")
    out.append("* **Assumes.** " + "; ".join(tidy(a) for a in m.ASSUMPTIONS)
               + ".")
    out.append("")
out += [TAIL.strip(), "", "## Planted bugs and the checks that catch them", "",
        "Every one keeps the test suite green, and was confirmed to fail its "
        "demonstration only with the patch applied.", "",
        "| seed | property | needs | caught by | not caught by (tried) |",
        "|---|---|---|---|---|"]
for s in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    f = os.path.join(ROOT, "seeded", s, "meta.json")
    if not os.path.exists(f):
        continue
    d = json.load(open(f))
    c = SEEDS.get(s, (d["property"], ""))
    out.append(f"| {s} | {d['property']} | {tidy(d['needs'])} | {c[0]} | "
               f"{c[1] or '-'} |")
out += ["", "## Defects found and repaired", "",
        "Each is a `fix:` commit in /repo; none is left open.", ""]
for line in open(os.path.join(ROOT, "known_findings.txt")):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", line)
    if m:
        out.append(f"* {m.group(1)} `{m.group(2)}` {m.group(3)}")
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out) + "\n")
