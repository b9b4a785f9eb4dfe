"""
Common machinery of the checks: importing the code under test from the current
/repo working tree, sharding an enumeration over processes, accounting, watchdog,
known findings, violation files and evidence.

A check module (checks/cNN.py) provides
    ID, LEVEL, RULE, ASSUMPTIONS
    shards(tier)        -> list of JSON-able work units; their union is the bounded space
    run_shard(sh, ctx)  -> enumerates one unit completely, calling
        ctx.case(x)         x is the case about to be executed (watchdog + reports)
        ctx.add(states=, transitions=, traces=, evaluations=, nontrivial=)
        ctx.outcome(x)      hashable observed outcome (vacuity: distinct outcomes are reported)
        ctx.violation(msg, case=, key=)
Every enumeration is deterministic, so re-running a shard replays its violations.
"""

import faulthandler
import hashlib
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
FIRST = bool(os.environ.get("VERIF_FIRST"))  # stop at the first violation (tools/mutate.py)
HANG_S = 90
LOCAL_TZ = "AAA+9:30BBB,M3.2.0,M11.1.0"
MAXMEM = 4 << 30
MAXVIOL = 3

sys.dont_write_bytecode = True
faulthandler.enable()


def use_repo():
    """Make `import pynmeagps` use the current working tree of the repository."""

    sys.dont_write_bytecode = True
    # never read a byte code cache: always compile the current source
    sys.pycache_prefix = "/nonexistent/pynmeagps-verif"
    if sys.path[:1] != [SRC]:
        sys.path.insert(0, SRC)
    import logging

    # nothing may depend on the local time zone: a strange one, with daylight saving time
    os.environ["TZ"] = LOCAL_TZ
    time.tzset()
    logging.getLogger("pynmeagps").addHandler(logging.NullHandler())
    logging.getLogger("pynmeagps").propagate = False
    import pynmeagps

    got = os.path.abspath(pynmeagps.__file__)
    assert got.startswith(os.path.abspath(SRC) + os.sep), got
    return pynmeagps


def with_clock():
    """Run this process again with a wall clock it can set; exit status, or None if it has one."""
    if os.environ.get("VERIF_CLOCK"):
        return None
    import subprocess
    import tempfile

    with tempfile.TemporaryDirectory(prefix="verif-clock-") as tmp:
        lib = os.path.join(tmp, "clock.so")
        src = os.path.join(VERIF, "mc", "clock.c")
        subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", lib, src, "-ldl"], check=True)
        env = dict(os.environ, LD_PRELOAD=lib, VERIF_CLOCK=lib)
        return subprocess.run([sys.executable] + sys.argv, env=env, check=False).returncode


def set_clock(when=None, zone="UTC"):
    """Set this process's wall clock (aware datetime, None: the real one) and local time zone."""
    import ctypes
    import datetime as dt

    lib = ctypes.CDLL(os.environ["VERIF_CLOCK"])
    lib.verif_set_clock.argtypes = [ctypes.c_longlong]
    epoch = dt.datetime(1970, 1, 1, tzinfo=dt.timezone.utc)
    us = -1 if when is None else (when - epoch) // dt.timedelta(microseconds=1)
    lib.verif_set_clock(us)
    os.environ["TZ"] = zone
    time.tzset()


class Hang(BaseException):
    """Raised by the watchdog."""


class Stop(BaseException):
    """Raised to leave a shard once enough violations were recorded."""


def jsonable(obj):
    if isinstance(obj, (bytes, bytearray)):
        return "b:" + bytes(obj).hex() + " " + repr(bytes(obj))
    if isinstance(obj, dict):
        return {str(k): jsonable(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in obj]
    if isinstance(obj, (str, int, float, bool)) or obj is None:
        return obj
    return repr(obj)


class Ctx:
    """Accounting of one shard."""

    def __init__(self, tier, seed, shard):
        self.tier, self.seed, self.shard = tier, seed, shard
        self.counts = {}
        self.samples = []
        self.outcomes = set()
        self.seen = set()
        self.viols = []
        self.notes = {}
        self.current = None
        self._n = 0

    def case(self, x):
        self.current = x
        self._n += 1
        signal.setitimer(signal.ITIMER_REAL, HANG_S)
        # spread a few samples over the shard
        n = self._n
        if n & (n - 1) == 0 and n <= 65536 and n != 2:
            if len(self.samples) > 5:
                self.samples.pop(1)
            self.samples.append(jsonable(x))

    def add(self, **kw):
        for k, v in kw.items():
            self.counts[k] = self.counts.get(k, 0) + v

    def state(self, key):
        """Record a (hashable) state; True if it is new in this shard."""
        h = hash(key)
        if h in self.seen:
            return False
        self.seen.add(h)
        self.add(states=1)
        return True

    def outcome(self, x):
        if len(self.outcomes) < 5000:
            self.outcomes.add(x if isinstance(x, str) else repr(x))

    def violation(self, msg, case=None, key=None):
        v = {
            "msg": str(msg)[:4000],
            "case": jsonable(self.current if case is None else case),
            "key": key,
            "shard": self.shard,
        }
        if key is not None and any(o["key"] == key for o in self.viols):
            return
        self.viols.append(v)
        if key is None and sum(o["key"] is None for o in self.viols) >= MAXVIOL:
            raise Stop()


def _alarm(_s, _f):
    raise Hang()


def _run_one(args):
    modname, tier, seed, shard = args
    mod = importlib.import_module(modname)
    ctx = Ctx(tier, seed, shard)
    err = None
    t0 = time.monotonic()
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, HANG_S * 3)
    try:
        mod.run_shard(shard, ctx)
    except Stop:
        pass
    except Hang:
        tb = traceback.format_exc()
        ctx.viols.append(
            {
                "msg": f"no answer within {HANG_S} s (does not terminate?)\n{tb[-1500:]}",
                "case": jsonable(ctx.current),
                "key": None,
                "shard": shard,
            }
        )
    except KeyboardInterrupt:
        err = traceback.format_exc()
    except Exception:  # pylint: disable=broad-except
        tb = traceback.format_exc()
        if ctx.current is None and SRC not in tb:
            err = tb
        else:
            ctx.viols.append(
                {
                    "msg": f"unexpected exception\n{tb[-3000:]}",
                    "case": jsonable(ctx.current),
                    "key": None,
                    "shard": shard,
                }
            )
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return {
        "shard": shard,
        "counts": ctx.counts,
        "samples": ctx.samples,
        "outcomes": list(ctx.outcomes),
        "viols": ctx.viols,
        "notes": ctx.notes,
        "err": err,
        "wall": time.monotonic() - t0,
    }


def _worker(conn):
    """Runs the shards it is sent until told to stop."""
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MAXMEM, MAXMEM))
        parent = os.getppid()
        while True:
            while not conn.poll(5):
                if os.getppid() != parent:
                    return
            work = conn.recv()
            if work is None:
                break
            conn.send(_run_one(work))
    finally:
        os._exit(0)


def _pool(work, jobs, per):
    """Results of all shards; a worker process which dies is a violation of its shard."""
    ctx = mp.get_context("fork")
    todo = list(reversed(work))
    results, live = [], {}

    def start():
        here, there = ctx.Pipe()
        proc = ctx.Process(target=_worker, args=(there,))
        proc.start()
        there.close()
        live[here] = [proc, None, 0]
        give(here)

    def give(conn):
        proc, _, done = live[conn]
        if todo and done < per:
            live[conn][1:] = [todo.pop(), done + 1]
            conn.send(live[conn][1])
            return
        conn.send(None)
        conn.close()
        del live[conn]
        proc.join()
        if todo:
            start()

    for _ in range(jobs):
        if todo:
            start()
    while live:
        for conn in mp.connection.wait(list(live)):
            proc, shard, _ = live[conn]
            try:
                results.append(conn.recv())
                give(conn)
            except (EOFError, OSError):
                proc.join()
                results.append(_dead(shard, proc.exitcode))
                conn.close()
                del live[conn]
                if todo:
                    start()
        if sum(1 for r in results for v in r["viols"] if v["key"] is None) > (0 if FIRST else 40):
            for proc, _, _ in live.values():
                proc.kill()
            break
    return results


def _dead(work, code):
    msg = f"the process exploring shard {work[3]} ended (exit code {code})"
    viol = {"msg": msg, "case": jsonable(work[3]), "key": None, "shard": work[3]}
    return {"shard": work[3], "counts": {}, "samples": [], "outcomes": [], "viols": [viol], "notes": {}, "err": None, "wall": 0}


def known_findings():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path, encoding="utf-8") as f:
        return json.load(f)["findings"]


def main(pid, tier=None, only_shard=None, jobs=None, verbose=False):
    tier = tier or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.monotonic()
    modname = "checks." + pid.lower()
    mod = importlib.import_module(modname)
    if getattr(mod, "CLOCK", False):
        status = with_clock()
        if status is not None:
            return status
    if getattr(mod, "IMPORT_REPO_IN_PARENT", True):
        use_repo()
    if hasattr(mod, "prepare"):
        mod.prepare(tier)
    shards = mod.shards(tier)
    if only_shard is not None:
        shards = [only_shard]
    # nothing is sampled; the seed only rotates the order in which shards are started
    if shards:
        r = seed % len(shards)
        shards = shards[r:] + shards[:r]
    jobs = jobs or min(os.cpu_count() or 1, 8)
    work = [(modname, tier, seed, s) for s in shards]
    results = []
    if jobs == 1 or len(work) == 1:
        results = [_run_one(w) for w in work]
    else:
        results = _pool(work, min(jobs, len(work)), getattr(mod, "MAXTASKS", None) or 50)
    counts, samples, outcomes, viols, errs, notes = {}, [], set(), [], [], {}
    results.sort(key=lambda r: json.dumps(r["shard"], sort_keys=True, default=str))
    for res in results:
        for k, v in res["counts"].items():
            counts[k] = counts.get(k, 0) + v
        for k, v in res["notes"].items():
            if isinstance(v, int):
                notes[k] = max(notes.get(k, 0), v)
            else:
                notes[k] = v
        samples += res["samples"][-2:]
        outcomes.update(res["outcomes"])
        viols += res["viols"]
        if res["err"]:
            errs.append(res["err"])
    if hasattr(mod, "final"):
        for v in mod.final(tier, results, counts, notes):
            viols.append(v)

    known = {f["key"]: f for f in known_findings() if f["property"] == pid}
    unknown, hit = [], {}
    for v in viols:
        if v.get("key") in known and v.get("key") is not None:
            hit.setdefault(v["key"], v)
        else:
            unknown.append(v)
    for key in sorted(hit):
        print(f"KNOWN-FINDING: property={pid} {known[key]['what']}")
    outdir = os.path.join(VERIF, "out", pid)
    seen = set()
    for v in unknown[: 0 if FIRST else 10]:
        os.makedirs(outdir, exist_ok=True)
        body = {"property": pid, "tier": tier, "seed": seed, **v}
        h = hashlib.sha256(json.dumps(body, sort_keys=True, default=str).encode()).hexdigest()[:12]
        if h in seen:
            continue
        seen.add(h)
        path = os.path.join(outdir, f"{h}.json")
        with open(path, "w", encoding="utf-8") as f:
            json.dump(body, f, indent=1, default=str)
        print(f"VIOLATION property={pid} replay={path}")
        print("  case: " + json.dumps(v["case"], default=str)[:600])
        print("  " + v["msg"].replace("\n", "\n  ")[:1500])
    wall = round(time.monotonic() - t0, 2)
    step = max(1, len(samples) // 10)
    coverage = {k: v for k, v in sorted(counts.items())}
    coverage["samples"] = samples[::step][:12]
    coverage["rule"] = mod.RULE
    coverage["shards"] = len(results)
    coverage["distinct_outcomes"] = len(outcomes)
    coverage["exhaustive"] = not errs and not unknown and len(results) == len(shards)
    coverage.update(notes)
    if mod.LEVEL in ("exploration", "fault_enumeration"):
        coverage.setdefault("evaluations", 0)
        coverage.setdefault("distinct_nontrivial", 0)
    else:
        for k in ("states", "transitions", "traces_validated_against_impl"):
            coverage.setdefault(k, 0)
    evid = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": mod.LEVEL,
        "coverage": coverage,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": wall,
        "violations": len(unknown),
    }
    if only_shard is None and not FIRST:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", f".{pid}.tmp")
        with open(tmp, "w", encoding="utf-8") as f:
            json.dump(evid, f, indent=1, default=str)
        os.replace(tmp, os.path.join(VERIF, "evidence", f"{pid}.json"))
    brief = {k: v for k, v in coverage.items() if isinstance(v, (int, bool))}
    print(f"{pid} {tier} wall={wall}s known={len(hit)} violations={len(unknown)} {brief}")
    if verbose:
        for r in sorted(results, key=lambda r: -r["wall"])[:8]:
            print("  slow shard", round(r["wall"], 1), json.dumps(r["shard"], default=str)[:150])
    if unknown:
        return 1
    if errs:
        print("HARNESS ERROR\n" + errs[0])
        return 2
    if not getattr(mod, "VACUITY_OK", False) and len(outcomes) < 2:
        print("HARNESS ERROR: vacuous exploration (fewer than 2 distinct outcomes)")
        return 2
    return 0
