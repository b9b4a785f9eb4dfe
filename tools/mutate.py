"""
mutate.py list|tests|checks: systematic mutants of the package as a test of the checks.

list    writes all mutants to WORK/mutants.json
tests   keeps those which pass the test suite (8 processes)
checks  runs the quick checks which concern the mutated function until one reports it
"""

import ast
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.environ.get("MUTANTS", "/tmp/mutants")
BASE = os.environ.get("MUTANTS_BASE", "/repo")
PY = "/opt/venv/bin/python"
FILES = ["nmeahelpers.py", "nmeamessage.py", "nmeareader.py", "socketwrapper.py", "exceptions.py"]
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
CMP2 = {ast.Lt: ">", ast.LtE: "==", ast.Gt: "<", ast.GtE: "==", ast.Eq: ">="}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*", "//"], ast.Mod: ["//"], ast.FloorDiv: ["/"], ast.BitAnd: ["|"], ast.BitXor: ["|"], ast.Pow: ["*"]}
CHECKS = {
    "nmeahelpers.py": {
        "area": "25", "bearing": "25", "haversine": "25", "planar": "25", "knots2spd": "25", "hex2str": "25",
        "calc_checksum": "04 12 13 01", "generate_checksum": "04 12 13", "get_parts": "01 04 03 12 08 11 17",
        "date2str": "22 13", "date2utc": "22 11", "time2str": "22 13", "time2utc": "22 11",
        "ddd2dmm": "20 13 14", "dmm2ddd": "20 11 14", "deg2dmm": "21", "deg2dms": "21", "dms2deg": "21", "latlon2dmm": "21", "latlon2dms": "21",
        "llh2iso6709": "21", "ecef2llh": "24", "llh2ecef": "24", "leapsecond": "23 29", "utc2wnotow": "23 29", "wnotow2utc": "23 29",
        "groupsize": "13 19", "msgdesc": "16 30",
    },
    "nmeamessage.py": {"": "12 13 11 18 19 17 31 14 15 28 30 29 03 02 04"},
    "nmeareader.py": {"": "01 02 08 03 07 17 04 05 27 10 19"},
    "socketwrapper.py": {"": "05 06 27 07 03 09 10 26"},
    "exceptions.py": {"": "02 03 28"},
}


def mutants(fname):
    raw = open(os.path.join(BASE, "src/pynmeagps", fname), "rb").read()
    lines = raw.split(b"\n")
    off = [0]
    for ln in lines:
        off.append(off[-1] + len(ln) + 1)
    tree = ast.parse(raw)

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    out = []

    def put(fun, a, b, new, what):
        out.append({"file": fname, "fun": fun, "a": a, "b": b, "old": raw[a:b].decode(), "new": new, "what": what, "line": raw[:a].count(b"\n") + 1})

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()

    def between(l, r, new, fun, what):
        a, b = span(l)[1], span(r)[0]
        # keep parentheses around the operator
        mid = raw[a:b].decode()
        core_ = mid.strip(" ()\r\n")
        i = mid.find(core_)
        put(fun, a + len(mid[:i].encode()), a + len(mid[: i + len(core_)].encode()), new, what)

    def visit(node, fun):
        for ch in ast.iter_child_nodes(node):
            f = fun
            if isinstance(ch, (ast.FunctionDef,)):
                f = ch.name if not fun else fun
            elif isinstance(ch, ast.ClassDef):
                f = ""
            if isinstance(ch, ast.Expr) and isinstance(ch.value, ast.Constant):
                continue  # docstring
            if isinstance(ch, (ast.arguments, ast.arg)) or isinstance(node, ast.FunctionDef) and ch is node.returns:
                if isinstance(ch, ast.arguments):
                    for dft in ch.defaults:
                        if isinstance(dft, ast.Constant):
                            const(dft, f)
                continue
            if isinstance(ch, (ast.Import, ast.ImportFrom)):
                continue
            one(ch, f)
            visit(ch, f)

    def const(n, f):
        v = n.value
        a, b = span(n)
        if v is True or v is False:
            put(f, a, b, str(not v), "const")
        elif isinstance(v, int):
            put(f, a, b, str(v + 1), "const")
            put(f, a, b, f"({v - 1})", "const")
        elif isinstance(v, float):
            put(f, a, b, repr(v * 1.001 + 1e-9), "const")
        elif isinstance(v, bytes):
            put(f, a, b, 'b"X"' if not v else 'b""', "const")
            if len(v) > 1:
                put(f, a, b, repr(v[:-1]), "const")
                put(f, a, b, repr(v[1:]), "const")
        elif isinstance(v, str):
            put(f, a, b, '"X"' if not v else '""', "const")

    def one(n, f):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            t = type(n.ops[0])
            if t in CMP:
                between(n.left, n.comparators[0], CMP[t], f, "cmp")
            if t in CMP2:
                between(n.left, n.comparators[0], CMP2[t], f, "cmp")
        elif isinstance(n, ast.BoolOp):
            for l, r in zip(n.values, n.values[1:]):
                between(l, r, "or" if isinstance(n.op, ast.And) else "and", f, "bool")
            for i, v in enumerate(n.values):
                a, b = span(v)
                put(f, a, b, "True" if isinstance(n.op, ast.And) else "False", "operand")
        elif isinstance(n, ast.BinOp):
            for new in BIN.get(type(n.op), []):
                between(n.left, n.right, new, f, "bin")
            a, b = span(n)
            put(f, a, b, f"({text(n.left)})", "left only")
            put(f, a, b, f"({text(n.right)})", "right only")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            a, b = span(n)
            put(f, a, b, f"({text(n.operand)})", "unary")
        elif isinstance(n, (ast.If, ast.While)):
            a, b = span(n.test)
            if not isinstance(n.test, ast.Constant):
                put(f, a, b, "True", "cond")
                put(f, a, b, "False", "cond")
        elif isinstance(n, ast.IfExp):
            a, b = span(n)
            put(f, a, b, f"({text(n.body)})", "cond")
            put(f, a, b, f"({text(n.orelse)})", "cond")
        elif isinstance(n, ast.Constant):
            if not isinstance(parent.get(n), ast.JoinedStr):
                const(n, f)
        elif isinstance(n, ast.Call):
            a, b = span(n)
            if len(n.args) == 1 and not n.keywords:
                put(f, a, b, f"({text(n.args[0])})", "call")
            if isinstance(n.func, ast.Attribute) and not n.args and not n.keywords:
                put(f, a, b, f"({text(n.func.value)})", "method")
            for k in n.keywords:
                if k.arg:
                    ka, kb = span(k)
                    while kb < len(raw) and raw[kb : kb + 1] in b" ,\r\n" and raw[kb : kb + 1]:
                        kb += 1
                    put(f, ka, kb, "", "keyword")
        elif isinstance(n, ast.Slice):
            for part in (n.lower, n.upper):
                if part is not None:
                    a, b = span(part)
                    put(f, a, b, "", "slice")
        elif isinstance(n, ast.Break):
            put(f, *span(n), "continue", "break")
            put(f, *span(n), "pass", "break")
        elif isinstance(n, ast.Continue):
            put(f, *span(n), "break", "continue")
            put(f, *span(n), "pass", "continue")
        elif isinstance(n, ast.ExceptHandler) and isinstance(n.type, ast.Tuple):
            for i, e in enumerate(n.type.elts):
                a, b = span(e)
                put(f, a, b, "KeyboardInterrupt", "except")
        elif isinstance(n, ast.With):
            a, _ = span(n.items[0].context_expr)
            _, b = span(n.items[0].context_expr)
            put(f, a, b, "__import__('contextlib').nullcontext()", "with")
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Return)):
            put(f, *span(n), "pass", "delete")

    parent = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            parent[c] = n
    visit(tree, "")
    seen, uniq = set(), []
    for m in out:
        k = (m["a"], m["b"], m["new"])
        if k in seen or m["old"] == m["new"] or (m["fun"] == "" and m["what"] != "x"):
            continue
        seen.add(k)
        try:
            compile(raw[: m["a"]] + m["new"].encode() + raw[m["b"] :], fname, "exec")
        except (SyntaxError, ValueError):
            continue
        uniq.append(m)
    return uniq


def scratch(i):
    d = os.path.join(WORK, f"r{i}")
    if not os.path.isdir(d):
        subprocess.run(["cp", "-a", BASE, d], check=True)
    return d


def put_in(d, m):
    raw = open(os.path.join(BASE, "src/pynmeagps", m["file"]), "rb").read()
    with open(os.path.join(d, "src/pynmeagps", m["file"]), "wb") as f:
        f.write(raw[: m["a"]] + m["new"].encode() + raw[m["b"] :])


def restore(d, m):
    shutil.copy(os.path.join(BASE, "src/pynmeagps", m["file"]), os.path.join(d, "src/pynmeagps", m["file"]))


ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent")


def run_tests(d):
    cmd = ["timeout", "60", PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--no-cov", "tests"]
    r = subprocess.run(cmd, cwd=d, env=dict(ENV, PYTHONPATH=d + "/src"), capture_output=True)
    return r.returncode == 0


def main():
    os.makedirs(WORK, exist_ok=True)
    mode = sys.argv[1]
    path = os.path.join(WORK, "mutants.json")
    if mode == "list":
        ms = [m for f in FILES for m in mutants(f)]
        for i, m in enumerate(ms):
            m["id"] = i
        json.dump(ms, open(path, "w"), indent=0)
        print(len(ms))
        return
    ms = json.load(open(path))
    if mode == "tests":
        free = list(range(8))

        def job(m):
            i = free.pop()
            try:
                d = scratch(i)
                put_in(d, m)
                m["passes"] = run_tests(d)
                restore(d, m)
            finally:
                free.append(i)

        with ThreadPoolExecutor(8) as ex:
            list(ex.map(job, ms))
        json.dump(ms, open(path, "w"), indent=0)
        print(sum(m["passes"] for m in ms), "of", len(ms), "pass the tests")
        return
    only = sys.argv[2:]
    part, n = 0, 1
    if only and "/" in only[0]:
        part, n = map(int, only.pop(0).split("/"))
        path = f"{path}.{part}"
    d = scratch(9 + part)
    for m in ms[part::n]:
        if not m["passes"] or m.get("caught") or (only and m["fun"] not in only and str(m["id"]) not in only):
            continue
        put_in(d, m)
        by = CHECKS[m["file"]]
        todo = by.get(m["fun"], by.get("", "16")).split()
        env = dict(ENV, VERIF_REPO=d, VERIF_FIRST="1", VERIF_NOEVIDENCE="1")
        m["caught"] = None
        for c in todo:
            if not os.path.exists(f"{V}/checks/c{c}.py"):
                continue
            try:
                r = subprocess.run(["./check", "C" + c, "quick"], cwd=V, env=env, capture_output=True, text=True, timeout=400)
                code = r.returncode
            except subprocess.TimeoutExpired:
                code = "timeout"
            if code == 1:
                m["caught"] = "C" + c
                break
            if code != 0:
                m["caught"] = f"C{c} exit {code}"
                print("HARNESS", c, code, m["id"], r.stdout[-300:])
                break
        restore(d, m)
        if m["caught"] is None or "exit" in m["caught"]:
            print("SURVIVES", m["id"], m["file"], m["fun"], m["line"], m["what"], repr(m["old"][:70]), "->", repr(m["new"][:50]), flush=True)
        json.dump(ms, open(path, "w"), indent=0)


main()
