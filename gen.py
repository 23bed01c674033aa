#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md from spec/*.py."""
import json, os, re
V = os.path.dirname(os.path.abspath(__file__))
PROPS, NA = [], []


def P(id, title, statement, over, text, why, files, mechanism, design, state=(), observe=(), note="", technique="property-based testing (choice-sequence generation with shrinking) against a reference model"):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism, design=design, state=state, observe=observe, note=note, technique=technique))


def N(id, reason):
    NA.append(dict(property=id, reason=reason))


for f in sorted(os.listdir(os.path.join(V, "spec"))):
    if f.endswith(".py"):
        exec(compile(open(os.path.join(V, "spec", f)).read(), f, "exec"))
PROPS.sort(key=lambda p: p["id"])
assert len({p["id"] for p in PROPS}) == len(PROPS)
repo = os.environ.get("REPO_DIR", "/repo")
with open(os.path.join(V, "properties.jsonl"), "w") as out:
    for p in PROPS:
        for x in list(p["files"]) + [w for _, w in p["mechanism"]]:
            if not os.path.exists(os.path.join(repo, x)):
                print("no such file", p["id"], x)
        a = dict(files=list(p["files"]), mechanism=[dict(name=n, where=w) for n, w in p["mechanism"]])
        if p["state"]:
            a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
        if p["observe"]:
            a["observe_at"] = list(p["observe"])
        out.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a)) + "\n")
have = {re.match(r"(P\d+)", f).group(1) for f in os.listdir(os.path.join(V, "props")) if re.match(r"P\d+", f)}
na = {n["property"] for n in NA}
checks = []
for p in PROPS:
    if p["id"] in have and p["id"] not in na:
        checks.append(dict(property=p["id"], quick_cmd="./check.py %s quick" % p["id"], thorough_cmd="./check.py %s thorough" % p["id"], technique=p["technique"], level="exploration",
                           level_note=p["note"] or "Random search over the generator's input space; a pass means no counterexample in the cases counted in the evidence, not a proof."))
    elif p["id"] not in na:
        NA.append(dict(property=p["id"], reason="no check has been built yet"))
man = dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=sorted(NA, key=lambda n: n["property"]),
           notes="check.py builds each harness of props/ from /repo's working tree (out of tree, in build/) and runs it; see DESIGN.md. Known findings and fixed defects: known_findings.txt.")
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
d = os.path.join(V, "DESIGN.md")
if os.path.exists(d):
    t = open(d).read()
    body = ""
    for p in PROPS:
        body += "### %s %s\n\n%s\n\n" % (p["id"], p["title"], p["design"].strip())
    for n in man["not_applicable"]:
        body += "### %s: not applicable\n\n%s\n\n" % (n["property"], n["reason"])
    t = re.sub(r"(<!-- generated:begin -->\n).*?(<!-- generated:end -->)", lambda m: m.group(1) + "\n" + body + m.group(2), t, flags=re.S)
    open(d, "w").write(t)
print(len(PROPS), "properties,", len(checks), "checks")
