"""Writes DESIGN.md. Usage: python3 tools/design.py (after gen.py and a run of the checks)"""
import json
import os
import runpy

H = os.path.dirname(os.path.abspath(__file__))
R = os.path.dirname(H)
D = os.path.join(H, "design")
HOW = runpy.run_path(os.path.join(D, "how.py"))["HOW"]
props = {json.loads(l)["id"]: json.loads(l)
         for l in open(os.path.join(R, "properties.jsonl"))}
man = json.load(open(os.path.join(R, "MANIFEST.json")))
out = [open(os.path.join(D, "head.md")).read(), "\n## 2. The properties\n"]
for c in man["checks"]:
    i = c["property"]
    out.append(f"\n### {i} {props[i]['title']}\n\n{HOW[i].strip()}\n\n")
    try:
        e = json.load(open(os.path.join(R, "evidence", i + ".json")))["coverage"]
    except OSError:
        e = None
    if e:
        for k, v in e["rules"].items():
            out.append(f"- rule *{k}*: {v}\n")
        out.append(f"\nCovered by the quick tier: {e['obligations_decided']} obligations, "
                   f"{e['functions_analysed']} functions, {e['call_sites_analysed']} "
                   f"call sites. ")
    out.append(f"Bounds and limits: {c['level_note']}\n")
if man["not_applicable"]:
    out.append("\n### Not applicable\n\n")
    for c in man["not_applicable"]:
        i = c["property"]
        out.append(f"- **{i} {props[i]['title']}**: {c['reason']}\n")
out.append("\n## 3. Planted bugs\n\n")
out.append(open(os.path.join(D, "planted.md")).read())
out.append("\n| seed | caught by | what it breaks | needs |\n|---|---|---|---|\n")
s = os.path.join(R, "seeded")
for i in sorted(os.listdir(s)):
    m = json.load(open(os.path.join(s, i, "meta.json")))
    out.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |\n")
out.append("\n" + open(os.path.join(D, "tail.md")).read())
open(os.path.join(R, "DESIGN.md"), "w").write("".join(out))
