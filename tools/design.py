#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.in, tools/design_props.txt, lib/registry.py, known_findings.txt and seeded/."""
import json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + "/lib"); import registry
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
txt = {}
for l in open(H + "/tools/design_props.txt"):
    m = re.match(r"(C\d\d)( .*)?$", l.rstrip())
    if m: cur = m.group(1); txt[cur] = (m.group(2) or "").strip(); continue
    if l.strip(): txt[cur] += "\n" + l.rstrip()
out = []
for p in props:
    i = p["id"]; c = registry.CHECKS.get(i)
    st = "%s; harness %s" % (c["level"], ", ".join(sorted({"`%s %s`" % ("+".join(r["src"]), r["arg"]) for r in c["runs"]}))) if c else "not claimed: " + registry.NOT_APPLICABLE.get(i, "no check built yet")
    out.append("### %s %s\n*%s*\n\n%s\n" % (i, p["title"], st, txt.get(i, "")))
find = [l.strip() for l in open(H + "/known_findings.txt") if re.match("(known|fixed):", l)]
seeds = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
caught = json.load(open(H + "/tools/caught.json")) if os.path.exists(H + "/tools/caught.json") else {}
for d in sorted(os.listdir(H + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (H, d)))
    seeds.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), caught.get(d, "?")))
t = open(H + "/tools/design.in").read()
t = t.replace("@@TABLE@@", "\n".join(out)).replace("@@FINDINGS@@", "\n".join("* " + f for f in find)).replace("@@SEEDS@@", "\n".join(seeds)).replace("@@MORE@@\n", "")
open(H + "/DESIGN.md", "w").write(t)
