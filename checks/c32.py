"""
C32: results depend on the arguments only, not on interpreter settings; the process is left as it was.

Enumerated on the real code: every operation of the C16 alphabet (operations, families of close
variants, parsing and generating every definition, real sockets and files) under every configuration
of the interpreter (quick: each option alone and the product of the main ones; thorough: the product
of all dimensions), under every setting a program can make in the process, and after importing each
module of the package first. Oracle: the result of the same operation in a plain interpreter. And:
the state of the process (a snapshot of everything other code depends on, the files and the standard
streams) is compared before and after importing the package and each operation.
"""

import itertools
import json
import os
import shutil
import subprocess
import sys
import tempfile
import zipfile

from mc import core

ID = "C32"
LEVEL = "exploration"
RULE = (
    "operation x configuration of the interpreter, operation x setting of the process, operation x first module "
    "imported: the result is that in a plain interpreter; operation: the state of the process is the same afterwards; "
    "state = operation under a configuration; transition = operation; non-trivial = the configuration differs from the plain one"
)
ASSUMPTIONS = [
    "CPython of the sandbox; locales which localedef can build here; the state of the process is the snapshot "
    "defined in mc/envworker.py",
]
IMPORT_REPO_IN_PARENT = False
ALL = ["ops", "variants", "defs"]
LOCALES = ("de_DE", "tr_TR", "fa_IR", "th_TH", "hi_IN", "ja_JP")

# dimensions of the interpreter's configuration: label -> (options, environment)
OPT = {"": [], "-O": ["-O"], "-OO": ["-OO"]}
UTF = {"": ({}, []), "utf8": ({}, ["-X", "utf8=1"]), "ascii": ({"LC_ALL": "C", "PYTHONIOENCODING": "ascii", "PYTHONCOERCECLOCALE": "0"}, ["-X", "utf8=0"]),
       "posix": ({"LC_ALL": "POSIX", "PYTHONCOERCECLOCALE": "0"}, ["-X", "utf8=0"])}
HASH = ("0", "1", "2", "3", "4294967295")
MISC = {
    "": ([], {}),
    "isolated": (["-I"], {}),
    "no site": (["-S", "-E", "-s"], {}),
    "safe path": (["-P"], {}),
    "dev": (["-X", "dev"], {}),
    "frozen off": (["-X", "frozen_modules=off"], {}),
    "no debug ranges": (["-X", "no_debug_ranges"], {}),
    "warnings": (["-W", "always"], {}),
    "unbuffered": (["-u"], {}),
    "digits": (["-X", "int_max_str_digits=640"], {}),
    "malloc": ([], {"PYTHONMALLOC": "debug"}),
    "faulthandler": (["-X", "faulthandler"], {}),
    "zone": ([], {"TZ": "America/St_Johns"}),
    "home": ([], {"HOME": "/nonexistent", "USER": "", "LANG": "xx_XX"}),
}
PLACES = ("repo", "copy", "zip", "bytecode", "link", "read-only")
SETTINGS = (
    ["thread"]
    + [f"decimal rounding={r}" for r in ("ROUND_UP", "ROUND_DOWN", "ROUND_CEILING", "ROUND_FLOOR", "ROUND_HALF_UP", "ROUND_HALF_DOWN", "ROUND_05UP")]
    + ["decimal prec=1", "decimal prec=3,capitals=0", "decimal traps=none", "decimal traps=all", "decimal prec=2,Emax=2,Emin=-2,clamp=1"]
    + ["gc often", "gc off", "digits 640", "digits 0", "timeout 0.5", "timeout 60"]
    + ["zone UTC", "zone Asia/Kathmandu", "zone NST3:30NDT", "zone ", "zone XXX-14", "zone YYY12"]
    + ["logging off", "logging debug", "streams none", "random 0", "environment none", "directory none"]
)


def modules():
    """The modules of the package as it is now."""
    top = os.path.join(core.SRC, "pynmeagps")
    return [""] + sorted("." + f[:-3] for f in os.listdir(top) if f.endswith(".py") and f != "__init__.py")


def configs(tier):
    """label -> (options, environment); the plain one is first."""
    out = {}

    def add(o, u, h, m):
        opts = OPT[o] + UTF[u][1] + MISC[m][0]
        env = {"PYTHONHASHSEED": h, **UTF[u][0], **MISC[m][1]}
        out[f"{o}|{u}|{h}|{m}"] = (opts, env)

    add("", "", "0", "")
    for o in OPT:
        add(o, "", "0", "")
    for u in UTF:
        add("", u, "0", "")
    for h in HASH:
        add("", "", h, "")
    for m in MISC:
        add("", "", "0", m)
    if tier == "quick":
        for o, u, h in itertools.product(("", "-OO"), ("", "ascii"), HASH[1:3]):
            add(o, u, h, "")
    else:
        for o, u, h, m in itertools.product(OPT, UTF, HASH, MISC):
            add(o, u, h, m)
    return out


def shards(tier):
    names = list(configs(tier))
    step = 3 if tier == "quick" else 12
    out = [["config", names[i : i + step]] for i in range(0, len(names), step)]
    sets = SETTINGS + ([] if tier == "quick" else ["trace on"])
    step = 6 if tier == "quick" else 3
    out += [["settings", sets[i : i + step]] for i in range(0, len(sets), step)]
    out += [["locales", [n]] for n in LOCALES]
    out += [["places", [p]] for p in PLACES]
    out += [["first", [n]] for n in modules()]
    if tier != "quick":
        out += [["first", [a, b]] for a in modules()[1:] for b in modules()[1:] if a != b]
    out += [["import", [n]] for n in modules()]
    n = 8
    out += [["left", [i, n]] for i in range(n)]
    return out


class Failed(Exception):
    pass


def worker(spec, opts=(), env=None, repo=None, timeout=600):
    """What envworker writes for the specification."""
    tmp = tempfile.mkdtemp(prefix="verif-c32-")
    try:
        scratch = os.path.join(tmp, "scratch")
        os.mkdir(scratch)
        specfile, outfile = os.path.join(tmp, "spec.json"), os.path.join(tmp, "out.json")
        with open(specfile, "w", encoding="ascii") as f:
            json.dump(spec, f)
        e = {"PATH": os.environ.get("PATH", ""), "HOME": scratch, "TMPDIR": scratch, "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1",
             "VERIF_REPO": repo or core.REPO, **(env or {})}
        log = os.path.join(tmp, "log")
        with open(log, "wb") as lf:
            try:
                code = subprocess.run(
                    [sys.executable, "-B", *opts, os.path.join(core.VERIF, "mc", "envworker.py"), specfile, outfile],
                    cwd=scratch, env=e, stdin=subprocess.DEVNULL, stdout=lf, stderr=lf, timeout=timeout, check=False,
                ).returncode
            except subprocess.TimeoutExpired:
                raise Failed(f"no answer within {timeout} s") from None
        with open(log, "rb") as lf:
            said = lf.read()
        if code or not os.path.exists(outfile):
            raise Failed(f"exit status {code}: {said[-1500:].decode('utf-8', 'replace')}")
        with open(outfile, encoding="ascii") as f:
            out = json.load(f)
        out["said"] = said.decode("utf-8", "replace")
        return out
    finally:
        subprocess.run(["chmod", "-R", "u+w", tmp], check=False)
        shutil.rmtree(tmp, ignore_errors=True)


def plain(ctx):
    """The results in a plain interpreter."""
    ctx.case(["plain interpreter"])
    return worker({"mode": "results", "first": ["pynmeagps"], "settings": [""], "ops": ALL, "part": [0, 1]})["results"][""]


def compare(ctx, base, got, where):
    n = len(base)
    ctx.add(states=n, transitions=n, evaluations=n, distinct_nontrivial=n)
    ctx.outcome(f"{where}: {n} operations")
    if list(got) != list(base):
        ctx.violation(f"{where}: the definitions differ: {sorted(set(got) ^ set(base))[:3]}")
        return
    # what is logged is not there when logging is off
    off = "errors policy 1 handler False" if where == "setting logging off" else "-"
    bad = [k for k in base if got[k] != base[k] and not k.startswith(off)]
    if bad:
        k = bad[0]
        ctx.violation(f"{where}: {len(bad)} results differ from those in a plain interpreter; {k[:300]}: {got[k][:600]}, plain: {base[k][:600]}")


def place(kind, tmp):
    """A repository with the package in another form; interpreter options."""
    repo = os.path.join(tmp, "repo")
    src = os.path.join(repo, "src")
    pkg = os.path.join(core.SRC, "pynmeagps")
    os.mkdir(repo)
    skip = shutil.ignore_patterns("__pycache__")
    if kind == "repo":
        return core.REPO
    if kind == "link":
        os.mkdir(src)
        os.symlink(pkg, os.path.join(src, "pynmeagps"))
    elif kind == "zip":
        with zipfile.ZipFile(src, "w") as z:
            for d, _, fs in os.walk(pkg):
                for f in fs:
                    if "__pycache__" not in d:
                        full = os.path.join(d, f)
                        z.write(full, os.path.join("pynmeagps", os.path.relpath(full, pkg)))
    else:
        shutil.copytree(pkg, os.path.join(src, "pynmeagps"), ignore=skip)
        if kind == "bytecode":
            import compileall

            compileall.compile_dir(src, quiet=2, legacy=True)
            for d, _, fs in os.walk(src):
                for f in fs:
                    if f.endswith(".py"):
                        os.unlink(os.path.join(d, f))
        elif kind == "read-only":
            for d, _, fs in os.walk(src):
                for f in fs:
                    os.chmod(os.path.join(d, f), 0o444)
                os.chmod(d, 0o555)
    return repo


def run_shard(shard, ctx):
    kind, args = shard
    spec = {"mode": "results", "first": ["pynmeagps"], "settings": [""], "ops": ALL, "part": [0, 1]}
    try:
        if kind == "left":
            ctx.case(["state of the process", args])
            out = worker({**spec, "mode": "left", "part": args})
            ctx.add(states=out["n"], transitions=out["n"], evaluations=out["n"], distinct_nontrivial=out["n"])
            ctx.outcome(f"left {args} {out['n']}")
            for b in out["bad"]:
                ctx.violation(b)
            if out["said"]:
                ctx.violation(f"the operations write {out['said'][:600]!r} to the standard streams")
            return
        if kind == "import":
            ctx.case(["state of the process", "import", args])
            out = worker({**spec, "mode": "import", "first": ["pynmeagps" + n for n in args]})
            ctx.add(states=1, transitions=1, evaluations=1, distinct_nontrivial=1)
            ctx.outcome(f"import {args}")
            for b in out["bad"]:
                ctx.violation(f"import of pynmeagps{args}: {b}")
            if out["said"]:
                ctx.violation(f"importing writes {out['said'][:600]!r} to the standard streams")
            return
        base = plain(ctx)
        if kind == "config":
            table = configs(ctx.tier)
            for name in args:
                ctx.case(["interpreter", name])
                opts, env = table[name]
                compare(ctx, base, worker(spec, opts, env)["results"][""], f"interpreter {opts} {env}")
        elif kind == "settings":
            for s in args:
                ctx.case(["setting", s])
                compare(ctx, base, worker({**spec, "settings": [s]})["results"][s], f"setting {s}")
        elif kind == "locales":
            tmp = tempfile.mkdtemp(prefix="verif-c32-")
            try:
                for n in args:
                    done = shutil.which("localedef") and subprocess.run(
                        ["localedef", "-c", "-i", n, "-f", "UTF-8", os.path.join(tmp, n + ".UTF-8")], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, check=False
                    )
                    if not os.path.isdir(os.path.join(tmp, n + ".UTF-8")):
                        ctx.notes["locales not built"] = str(done)
                        continue
                    ctx.case(["locale", n])
                    s = f"locale {n}.UTF-8"
                    compare(ctx, base, worker({**spec, "settings": [s]}, env={"LOCPATH": tmp})["results"][s], s)
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
        elif kind == "places":
            tmp = tempfile.mkdtemp(prefix="verif-c32-")
            try:
                for n in args:
                    ctx.case(["package imported from", n])
                    # the copies are not under /repo: bytecode may be written there
                    compare(ctx, base, worker(spec, repo=place(n, tmp))["results"][""], f"package imported from {n}")
            finally:
                subprocess.run(["chmod", "-R", "u+w", tmp], check=False)
                shutil.rmtree(tmp, ignore_errors=True)
        elif kind == "first":
            names = ["pynmeagps" + n for n in args]
            ctx.case(["imported first", names])
            compare(ctx, base, worker({**spec, "first": names})["results"][""], f"{names} imported first")
    except Failed as err:
        ctx.violation(str(err))
