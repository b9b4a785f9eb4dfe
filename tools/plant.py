"""
plant.py [ids...]: makes and verifies the planted bugs of tools/bugs.py.

For each: scratch copy of /repo, apply the edits, write patch.diff, run the test suite and the
demonstration with and without the change, then the quick checks. Results: tools/caught.json.
Options: --nocheck (do not run checks), --all (run every check, not only that of the property).
"""

import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent", TZ="UTC", LANG="C.UTF-8")
DEMO_SH = """#!/bin/bash
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -B "$(dirname "$0")/demo.py"
"""
HEAD = """import os
import sys

sys.path.insert(0, os.path.join(os.getcwd(), "src"))
"""


def sh(cmd, cwd, timeout=900, **kw):
    return subprocess.run(cmd, cwd=cwd, env=dict(ENV, **kw), capture_output=True, text=True, timeout=timeout)


def tests(repo):
    r = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--no-cov", "tests"], repo, PYTHONPATH=repo + "/src")
    return r.returncode == 0, r.stdout[-600:]


def main():
    from bugs import BUGS

    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    cfile = os.path.join(V, "tools", "caught.json")
    caught = json.load(open(cfile)) if os.path.exists(cfile) else {}
    orig = tempfile.mkdtemp(prefix="plant-orig-")
    subprocess.run(f"git -C /repo archive cd4dc13 | tar x -C {orig}", shell=True, check=True)
    for b in BUGS:
        if args and b["id"] not in args:
            continue
        tmp = tempfile.mkdtemp(prefix="plant-")
        repo = os.path.join(tmp, "r")
        try:
            subprocess.run(["cp", "-a", "/repo", repo], check=True)
            note = ""
            for fname, old, new in b["edits"]:
                path = os.path.join(repo, "src/pynmeagps", fname)
                s = open(path, encoding="utf-8", newline="").read()
                if "\r\n" in s:
                    old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
                if s.count(old) != 1:
                    note = f"edit of {fname} matches {s.count(old)} times: {old[:60]!r}"
                    break
                open(path, "w", encoding="utf-8", newline="").write(s.replace(old, new))
            if note:
                print(b["id"], "BAD", note)
                continue
            patch = sh(["git", "diff"], repo).stdout
            for line in patch.splitlines():
                if line.startswith("-") and not line.startswith("---") and line[1:].strip():
                    fname = [e[0] for e in b["edits"]]
                    if not any(line[1:].rstrip("\r") in open(os.path.join(orig, "src/pynmeagps", f), encoding="utf-8").read() for f in fname):
                        note += f" removes a line which is not original: {line.strip()[:60]};"
            out = os.path.join(V, "seeded", b["id"])
            os.makedirs(out, exist_ok=True)
            with open(os.path.join(out, "patch.diff"), "wb") as f:
                f.write(subprocess.run(["git", "diff"], cwd=repo, capture_output=True).stdout)
            with open(os.path.join(out, "demo.sh"), "w") as f:
                f.write(DEMO_SH)
            os.chmod(os.path.join(out, "demo.sh"), 0o755)
            with open(os.path.join(out, "demo.py"), "w", encoding="utf-8") as f:
                f.write(HEAD + b["demo"].strip("\n") + "\n")
            with open(os.path.join(out, "meta.json"), "w", encoding="utf-8") as f:
                json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, f, indent=1)
                f.write("\n")
            ok, tail = tests(repo)
            if not ok:
                note += " TESTS FAIL " + tail[-300:]
            d0 = sh(["bash", os.path.join(out, "demo.sh")], "/repo", 300)
            d1 = sh(["bash", os.path.join(out, "demo.sh")], repo, 300)
            if d0.returncode != 0:
                note += " demo fails on the clean tree: " + (d0.stdout + d0.stderr)[-300:]
            if d1.returncode == 0:
                note += " demo passes with the change"
            if note:
                print(b["id"], "BAD", note)
                shutil.rmtree(out)
                continue
            if "--nocheck" in sys.argv:
                print(b["id"], "ok")
                continue
            props = [b["property"]]
            if "--all" in sys.argv:
                props += [f"C{i:02d}" for i in range(1, 31) if f"C{i:02d}" != b["property"]]
            hits = []
            for p in props:
                r = sh(["./check", p, "quick"], V, 1200, VERIF_REPO=repo, VERIF_SEED="1")
                if r.returncode == 1 and f"VIOLATION property={p}" in r.stdout:
                    hits.append(p)
                elif r.returncode not in (0, 1):
                    print("   ", p, "rc", r.returncode, r.stdout[-200:])
            caught[b["id"]] = ", ".join(hits) if hits else "missed"
            print(b["id"], "->", caught[b["id"]], "" if b["property"] in hits else "   <<<<<< MISSED")
            json.dump(caught, open(cfile, "w"), indent=1, sort_keys=True)
        finally:
            shutil.rmtree(tmp)
            sys.stdout.flush()
    shutil.rmtree(orig)


main()
