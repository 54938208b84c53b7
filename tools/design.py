#!/usr/bin/env python3
"""Rewrites DESIGN.md from tools/design_head.md, the harness, properties.jsonl, seeded/ and known_findings.jsonl."""
import json, os, re, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda p: open(os.path.join(R, p)).read()
props = [json.loads(l) for l in rd("properties.jsonl").splitlines()]
checks = {c["property"]: c for c in json.load(open(os.path.join(R, "MANIFEST.json")))["checks"]}
src = {}
for f in glob.glob(os.path.join(R, "harness/src/props/*.rs")):
    t = open(f).read()
    for m in re.finditer(r'id: "(P\d+)",(.*?)generate[:,]', t, re.S):
        b = m.group(2)
        num = lambda k: int(re.search(k + r": ([\d_]+)", b).group(1))
        unq = lambda s: re.sub(r"\\\n\s*", "", s).replace('\\"', '"').replace("\\\\", "\\")
        rule = unq(re.search(r'rule: "((?:[^"\\]|\\.)*)"', b, re.S).group(1))
        a = re.search(r"assumptions: &\[(.*?)\],\s*must_observe", b, re.S).group(1)
        ass = [unq(x) for x in re.findall(r'"((?:[^"\\]|\\.)*)"', a, re.S)]
        must = re.findall(r'"([a-z_0-9]+)"', re.search(r"must_observe: &\[(.*?)\]", b, re.S).group(1))
        src[m.group(1)] = dict(quick=num("quick"), thorough=num("thorough"), rule=rule, ass=ass, must=must, file=os.path.basename(f))
cost = json.load(open(os.path.join(R, "tools/cost.json")))
out = [rd("tools/design_head.md"), "## 3. The properties\n"]
for p in props:
    i = p["id"]; s = src[i]
    out.append(f"### {i} {p['title']}\n")
    out.append(p["statement"] + "\n")
    out.append(f"- *Holds for*: {p['quantifier']['text']}.")
    out.append(f"- *Why tests cannot settle it*: {p['why_tests_cant']}")
    out.append(f"- *Decided by*: {checks[i]['technique']} (`harness/src/props/{s['file']}`).")
    out.append(f"- *Workload and oracle*: {s['rule']}")
    if s["ass"]: out.append("- *Not judged / assumed*: " + "; ".join(s["ass"]) + ".")
    out.append("- *Must observe*: " + ", ".join(s["must"]) + ".")
    out.append(f"- *Bounds and cost*: quick {s['quick']:,} cases, about {cost.get(i, '30')} s; thorough up to {s['thorough']:,} cases. Level: {checks[i]['level']}.\n")
tail = rd("tools/design_tail.md")
fixed, known = [], []
for l in rd("known_findings.jsonl").splitlines():
    d = json.loads(l)
    if d["status"] == "fixed": fixed.append((d["property"], d["commit"], d["what"].split(" ", 3)[-1]))
    else: known.append(f"- KNOWN {d['property']}: {d['what']}")
by = {}
for p, c, w in fixed: by.setdefault(p, []).append(f"{w} ({c})")
tail = tail.replace("@FIXED@", "\n".join(f"- {p}: " + "; ".join(by[p]) + "." for p in sorted(by)))
tail = tail.replace("@KNOWN@", "\n".join(known) if known else "(none is run as a directed case at present)")
rows = ["| bug | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
caught = json.load(open(os.path.join(R, "tools/caught.json")))
for d in sorted(glob.glob(os.path.join(R, "seeded/*/meta.json"))):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    rows.append(f"| {n} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {caught.get(n, '?')} |")
tail = tail.replace("@SEEDS@", "\n".join(rows))
out.append(tail)
open(os.path.join(R, "DESIGN.md"), "w").write("\n".join(out))
