"""Fills the tables of DESIGN.md from DESIGN.in.md, the check modules, known_findings.json and seeded/."""

import ast
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    with open(os.path.join(V, "DESIGN.in.md"), encoding="utf-8") as f:
        text = f.read()
    props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"), encoding="utf-8")]
    costs = json.load(open(os.path.join(V, "tools", "costs.json"), encoding="utf-8"))
    out = []
    for p in props:
        pid = p["id"]
        tree = ast.parse(open(os.path.join(V, "checks", pid.lower() + ".py"), encoding="utf-8").read())
        d = {
            n.targets[0].id: ast.literal_eval(n.value)
            for n in tree.body
            if isinstance(n, ast.Assign)
            and isinstance(n.targets[0], ast.Name)
            and n.targets[0].id in ("LEVEL", "RULE", "ASSUMPTIONS")
        }
        doc = " ".join(ast.get_docstring(tree).split("\n\n", 1)[1].split())
        out.append(f"### {pid} {p['title']}\n")
        out.append(f"* Method ({d['LEVEL']}): {doc}")
        out.append(f"* Bounds: {d['RULE']}.")
        out.append(f"* Assumes: {'; '.join(d['ASSUMPTIONS'])}.")
        out.append(f"* Beyond the tests: {p['why_tests_cant']}")
        out.append(f"* Cost: {costs.get(pid, '?')}\n")
    text = text.replace("@@TABLE@@", "\n".join(out))
    fixed = json.load(open(os.path.join(V, "known_findings.json"), encoding="utf-8"))["fixed"]
    text = text.replace("@@FIXED@@", "\n".join("* " + x[len("fixed: property=") :] for x in fixed))
    rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
    caught = {}
    cf = os.path.join(V, "tools", "caught.json")
    if os.path.exists(cf):
        caught = json.load(open(cf, encoding="utf-8"))
    for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
        bid = os.path.basename(os.path.dirname(m))
        meta = json.load(open(m, encoding="utf-8"))
        rows.append(f"| {bid} | {meta['property']} | {meta['needs']} | {caught.get(bid, '?')} |")
    text = text.replace("@@SEEDED@@", "\n".join(rows))
    with open(os.path.join(V, "DESIGN.md"), "w", encoding="utf-8") as f:
        f.write(text)


main()
