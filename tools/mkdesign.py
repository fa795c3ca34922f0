#!/opt/venv/bin/python
"""Writes DESIGN.md from tools/design_text.py, the checks and the planted bugs."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, HERE + "/tools")
import vp.boot  # noqa
import design_text as T
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
o = [T.HEAD, "## The properties\n"]
for p in props:
    pid = p["id"]
    c = importlib.import_module(f"vp.checks.{pid.lower()}").CHECK
    how, oracle, why = T.P[pid]
    n = ", ".join(f"{s.name} {s.quick}/{s.thorough}" for s in c.props)
    o.append(f"### {pid}: {p['title']}\n\n* Generated: {how}\n* Oracle: {oracle}\n* Beyond tests: {why}\n"
             f"* Non-trivial: {c.rule}.\n* Cases (quick/thorough): {n}.\n"
             + (f"* Within: {'; '.join(c.assumptions)}.\n" if c.assumptions else ""))
o.append("Quick checks take between 5 and 75 seconds each on 8 cores, thorough ones up to a few hours.\n")
o.append(T.FALSE_ALARMS)
o.append("## Genuine defects\n\nSee `KNOWN_FINDINGS.txt`: those repaired (one `fix:` commit each) and those left as known findings.\n")
o.append("## Planted bugs and the checks that catch them\n")
cat = json.load(open(HERE + "/tools/catches.json"))
o.append("| change | property | needs | caught by |\n|---|---|---|---|")
for d in sorted(os.listdir(HERE + "/seeded")):
    m = json.load(open(f"{HERE}/seeded/{d}/meta.json"))
    o.append(f"| {d} | {m['property']} | {m['needs']} | {' '.join(cat.get(d, ['?']))} |")
o.append("")
if hasattr(T, "MUTATION"):
    o.append(T.MUTATION)
o.append(T.LIMITS)
open(HERE + "/DESIGN.md", "w").write("\n".join(o))
