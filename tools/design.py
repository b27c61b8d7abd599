#!/usr/bin/env python3
"""Generates DESIGN.md from design_head.md, properties.jsonl, notes.json, the checks and seeded/*/meta.json."""
import json, re, os, glob
V = "/verif/"
notes = json.load(open(V + "tools/notes.json"))
out = [open(V + "tools/design_head.md").read()]
for l in open(V + "properties.jsonl"):
    p = json.loads(l); id = p["id"]; f = V + f"checks/{id}.ts"
    out.append(f"### {id} {p['title']}\n")
    if not os.path.exists(f):
        out.append("Not claimed: " + notes.get(id, {}).get("reason", "") + "\n"); continue
    s = open(f).read()
    g = lambda k: (re.search(k + r':\s*"((?:[^"\\]|\\.)*)"', s) or [None, ""])[1]
    a = re.search(r"assumptions:\s*\[(.*?)\],\n", s, re.S)
    ass = re.findall(r'"((?:[^"\\]|\\.)*)"', a[1]) if a else []
    num = lambda k: (re.search(k + r":\s*(\d+)", s) or [0, "60"])[1]
    parts = re.findall(r"ck\.part\(\s*([`\"][^`\"]*[`\"]|\w+)\s*,", s)
    out.append(f"- **Decided by**: {notes[id]['technique']}.\n- **Monitored and generated**: {g('rule')}\n"
      f"- **Quantified over**: {p['quantifier']['text']}\n"
      f"- **Bounds**: parts {', '.join(x.strip(chr(34)+chr(96)) for x in parts)}; quick at most {num('quickSeconds')} s, thorough at most {num('thoroughSeconds') if 'thoroughSeconds' in s else '600'} s of generated cases."
      + (" Assumes: " + "; ".join(ass) + "." if ass else "") + f"\n- **Why tests cannot**: {p['why_tests_cant']}\n- **Anchored in**: {', '.join(dict.fromkeys(p['anchors']['files']))}\n- **Strength**: {notes[id]['note']}\n")
out.append(open(V + "tools/design_tail.md").read())
out.append("| Planted bug | Property | What it needs | Caught by its check (quick) |\n|---|---|---|---|")
for m in sorted(glob.glob(V + "seeded/*/meta.json")):
    d = json.load(open(m)); out.append(f"| {m.split('/')[-2]} | {d['property']} | {d['needs']} | {d.get('caught','yes')} |")
out.append("")
open(V + "DESIGN.md", "w").write("\n".join(out))
