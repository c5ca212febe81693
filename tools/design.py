#!/usr/bin/env python3
"""Write DESIGN.md: tools/design.md with the tables of properties and planted bugs filled in."""
import glob, json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + "/tools")
from props import PROPS, NA
na = dict(NA)


def notes(pid):
    n = {}
    for f in sorted(glob.glob(f"{H}/harness/{pid}_*.cpp")):
        t = open(f).read()
        for m in re.finditer(r"^//@ (bound|stub|assume|outside): (.*)$", t, re.M):
            n.setdefault(m.group(1), []).append(m.group(2).strip())
        n.setdefault("units", []).extend(re.findall(r"^HARNESS\((\w+)\)", t, re.M))
    return n


oracle = dict(re.findall(r"^(C\d+): (.*)$", open(H + "/tools/oracles.txt").read(), re.M))
out = []
for p in PROPS:
    n = notes(p["id"])
    out.append(f"### {p['id']} {p['title']}\n")
    out.append(p["statement"] + "\n")
    if p["id"] in na:
        out.append(f"*Not applicable:* {na[p['id']]}\n")
        continue
    out.append("- Code: " + ", ".join(f"`{a}`" for a, _ in p["mech"]) + " in " + ", ".join(f"`{f}`" for f in p["files"]))
    out.append("- Oracle: " + oracle[p["id"]])
    for k, t in (("bound", "Bounds"), ("assume", "Assumed"), ("stub", "Stand-ins"), ("outside", "Outside")):
        if n.get(k):
            out.append(f"- {t}: " + "; ".join(n[k]))
    out.append("- Units: " + ", ".join(n["units"]))
    out.append("- Beyond tests: " + p["why"] + "\n")
seeds = []
for f in sorted(glob.glob(H + "/seeded/*/meta.json"), key=lambda f: (json.load(open(f))["property"], f)):
    m = json.load(open(f))
    seeds.append(f"| {m['property']} | {os.path.basename(os.path.dirname(f))} | {m['what_it_breaks']} | {m['needs']} |")
fixed = [l.strip() for l in open(H + "/known_findings.txt") if l.startswith("fixed:")]
fx = "\n".join("| {} | {} | {} |".format(*re.match(r"fixed: property=(\S+) (\S+) (.*)", l).groups()) for l in fixed)
kn = [l.strip() for l in open(H + "/known_findings.txt") if l.startswith("known:")]
t = open(H + "/tools/design.md").read()
t = t.replace("@PROPERTIES@", "\n".join(out)).replace("@SEEDS@", "\n".join(seeds)).replace("@FIXED@", fx).replace("@KNOWN@", "\n".join("- " + k for k in kn) or "None.")
t = t.replace("@NA@", "\n".join(f"- {i}: {r}" for i, r in NA) or "None of the listed properties.")
open(H + "/DESIGN.md", "w").write(t)
