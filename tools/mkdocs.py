#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py; a property is claimed when contracts/<id>*.cpp has proofs."""
import json, os, re, glob, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS, PROOF_NOTE, TRUST
with open(root + "/properties.jsonl", "w") as f:
    for p in PROPS:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=m, where=p["files"][0]) for m in p["mech"]], observe_at=p.get("observe", ["return values and observable state of the named functions"]), hook_needed=None))
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for p in PROPS:
    src = ""
    for c in sorted(glob.glob(f"{root}/contracts/{p['id']}.cpp") + glob.glob(f"{root}/contracts/{p['id']}_*.cpp")):
        src += open(c).read()
    proofs = re.findall(r"FV_PROOF\((\w+)\)", src)
    if p.get("na") or not proofs:
        na.append(dict(property=p["id"], reason=p.get("na") or p.get("pending", "Not yet under contract: the header does not build offline without stand-ins for mockturtle/phmap/kitty.")))
        continue
    bounded = re.findall(r"//FV:\s*bounded(?:@(\w+))?\s*=\s*(.*)", src)
    assume = re.findall(r"//FV:\s*assume\s*=\s*(.*)", src)
    unb = [q for q in proofs if q not in [b[0] for b in bounded] and not any(b[0] == "" for b in bounded)]
    level = "proof" if unb else "model_checking" if False else "other"
    note = (f"{len(unb)} contract proof(s) discharged for all inputs on the LLVM IR of the current sources. " if unb else "")
    if bounded:
        note += "Bounded stand-ins (not counted as proved): " + "; ".join((b[0] + ": " if b[0] else "") + b[1] for b in bounded) + ". "
    if assume:
        note += "Assumes: " + "; ".join(assume) + ". "
    note += TRUST
    checks.append(dict(property=p["id"], quick_cmd=f"./check {p['id']} --tier quick", thorough_cmd=f"./check {p['id']} --tier thorough", evidence_file=f"evidence/{p['id']}.json",
                       technique="contract-based deductive verification: VCs from clang LLVM IR of the real headers, SMT discharge" + ("" if unb else " (bounded)"), level=level, level_note=note))
json.dump(dict(version=1, setup_cmd="python3 -m compileall -q fv", checks=checks, not_applicable=na,
               notes="See DESIGN.md. Every check compiles contracts/<id>*.cpp against /repo's headers to LLVM IR on each run; no hooks in /repo."), open(root + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", len(na), "not applicable:", " ".join(x["property"] for x in na))
# DESIGN.md tables
claimed = {c["property"]: c for c in checks}
tab = []
for p in PROPS:
    if p["id"] in claimed:
        c = claimed[p["id"]]
        src = "".join(open(x).read() for x in sorted(glob.glob(f"{root}/contracts/{p['id']}.cpp") + glob.glob(f"{root}/contracts/{p['id']}_*.cpp")))
        proofs = re.findall(r"FV_PROOF\((\w+)\)", src)
        bnd = dict(re.findall(r"//FV:\s*bounded@(\w+)\s*=\s*(.*)", src))
        ub = [q for q in proofs if q not in bnd]
        loops = re.findall(r"//FV:\s*loop(?:@\w+)?\s*=\s*(.*)", src)
        repl = len(re.findall(r"//FV:\s*replace", src))
        s = f"* **{p['id']} {p['title']}.** Under contract: {'; '.join(p['mech'])}. "
        if ub: s += f"Unbounded proofs: {', '.join(f'`{q}`' for q in ub)}. "
        if bnd: s += "Bounded: " + "; ".join(f"`{k}` ({v})" for k, v in bnd.items()) + ". "
        if loops: s += f"Loop contracts: {len(loops)}. "
        if repl: s += f"Assumed callee contracts: {repl}. "
        s += p.get("design", "")
        tab.append(s.rstrip())
    else:
        tab.append(f"* **{p['id']} {p['title']}.** Not applicable: " + next(x["reason"] for x in na if x["property"] == p["id"]))
seeded = []
for d in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(d))
    seeded.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['what_it_breaks']} | {m.get('caught', '')} |")
t = open(root + "/DESIGN.md").read()
def section(t, tag, body):
    b, e = f"<!-- {tag} -->", f"<!-- /{tag} -->"
    blk = b + "\n" + body + "\n" + e
    if "@@" + tag + "@@" in t: return t.replace("@@" + tag + "@@", blk)
    return re.sub(re.escape(b) + ".*?" + re.escape(e), lambda _: blk, t, flags=re.S)
t = section(t, "TABLE", "\n".join(tab))
t = section(t, "SEEDED", "| id | property | change | caught by |\n|---|---|---|---|\n" + "\n".join(seeded))
open(root + "/DESIGN.md", "w").write(t)
