"""
C28: copies of a message are equal, immutable and independent.

For every published definition in every mode, unknown, user-defined and generated messages: all
sequences of copy operations (copy, deepcopy, pickle with each protocol) up to the depth, also in
a fresh process which only has the pickled bytes; every copy is compared with the original in all
observable respects and must refuse every change.
"""

import copy
import datetime as dt
import itertools
import os
import pickle
import subprocess
import sys

from mc import core, ref

ID = "C28"
LEVEL = "model_checking"
RULE = (
    "every definition x mode x value class x copy operation sequence up to the depth; unknown, unknown-talker, "
    "user-defined and generated messages; pickles read in another process; state = (message, copies made), "
    "transition = copy operation"
)
ASSUMPTIONS = ["messages are copied with the copy and pickle modules of the standard library"]
OPS = {"copy": copy.copy, "deepcopy": copy.deepcopy}
for _p in range(pickle.HIGHEST_PROTOCOL + 1):
    OPS[f"pickle{_p}"] = lambda m, p=_p: pickle.loads(pickle.dumps(m, p))
UD = {"FUZ": {"num": "IN", "grp": ("num", {"a": "IN", "b": "DE"}), "lat": "LA", "NS": "LAD"}}


def shards(tier):
    n = len(ref.all_defs())
    return [["defs", i, min(n, i + 16)] for i in range(0, n, 16)] + [["other"], ["process", 0], ["process", 1], ["process", 2]]


def observe(m):
    public = [(k, type(v).__name__, v) for k, v in vars(m).items() if k[:1] != "_"]
    return (
        str(m), repr(m), m.serialize(), m.payload, m.checksum, m.identity, m.talker, m.msgID, m.msgmode, public,
    )


def check(ctx, P, m, ops, what):
    ctx.case([what, ops])
    before = observe(m)
    try:
        c = m
        for op in ops:
            c = OPS[op](c)
        got = observe(c)
        if got != before or type(c) is not type(m):
            return f"copy is {got}, should be {before}"
        names = [k for k, _, _ in before[-1]][:2] + ["_payload", "_immutable", "new"]
        for name in names:
            for f in (lambda n=name: setattr(c, n, "x"), lambda n=name: delattr(c, n)):
                try:
                    f()
                except P.NMEAMessageError:
                    continue
                return f"{name} of the copy was changed"
        for x in (m, c):
            # usable in sets and dictionaries, and next to other objects
            if hash(x) != hash(x) or x not in {x} or x != x or not x == x:  # pylint: disable=comparison-with-itself
                return "is not equal to itself"
            if any(x == y or not x != y for y in (None, "x", 1, object(), (), before[2], str(x))):
                return "is equal to an object which is no message"
        c.payload.append("x")
        if observe(c) != before or observe(m) != before:
            return f"changed: original {observe(m)}, copy {observe(c)}, should be {before}"
    except Exception as err:  # pylint: disable=broad-except
        return f"raised {err!r}"
    ctx.outcome([before[5]])
    ctx.add(states=len(ops), transitions=len(ops), traces_validated_against_impl=1)
    return None


def messages(P, lo, hi, quick):
    for d in ref.all_defs()[lo:hi]:
        for cls in ("plain", "sw", "empty") if quick else ref.CLASSES:
            if d.key in ("QTMACK", "QTMNAK"):
                cls = "plain"
            raws = [f[2] for f in ref.fields_for(d, cls, 2)]
            sent = ref.sentence(ref.content_of(d, raws))
            yield f"{d} {cls} {sent!r}", P.NMEAReader.parse(sent, msgmode=d.mode)


def others(P):
    for s in ("GNXXX,1,,\u00e9", "PZZZ", "GXGLL,5327.1,N,00214.2,W,010203.00,A,A", "GNSTN,", "GNTXT,01,01,02,a b"):
        yield s, P.NMEAReader.parse(ref.sentence(s))
    yield "user", P.NMEAReader.parse(ref.sentence("GNFUZ,2,1,1.5,2,2.5,3030.5,S"), userdefined=UD)
    yield "user generated", P.NMEAMessage("GN", "FUZ", 0, userdefined=UD, num=1, a_01=5, lat=-1.5)
    yield "generated", P.NMEAMessage("GN", "GLL", 0, lat=-1.5, lon=2.25, time=dt.time(1, 2, 3), status="A")
    yield "generated hp", P.NMEAMessage("GN", "GGA", 0, True, lat=1.5, lon=-2.25)
    yield "nominal", P.NMEAMessage("GN", "RMC", 0)
    yield "payload", P.NMEAMessage("GN", "STN", 0, payload=["5"])
    yield "unvalidated", P.NMEAReader.parse(b"$GNSTN,5*zz\r\n", validate=0)
    yield "validated", P.NMEAReader.parse(ref.sentence("GNSTN,5"), validate=3)
    yield "set", P.NMEAMessage("P", "QTMCFGUART", 1, baudrate=9600)
    yield "poll", P.NMEAMessage("EI", "GNQ", 2, msgId="RMC")


CHILD = """
import pickle, sys
sys.path.insert(0, sys.argv[1])
sys.path.insert(0, sys.argv[2])
sys.dont_write_bytecode = True
from checks import c28
data = pickle.load(sys.stdin.buffer)
out = [c28.observe(pickle.loads(x)) for x in data]
sys.stdout.buffer.write(pickle.dumps(out))
"""


def run_shard(shard, ctx):
    P = core.use_repo()
    quick = ctx.tier == "quick"
    if shard[0] == "process":
        items = list(others(P)) if shard[1] == 0 else list(messages(P, shard[1] - 1, 10**6 if shard[1] == 2 else 60, True))[:400]
        for proto in range(pickle.HIGHEST_PROTOCOL + 1):
            ctx.case([shard, {"protocol": proto}])
            r = subprocess.run(
                [sys.executable, "-B", "-c", CHILD, core.VERIF, core.SRC],
                input=pickle.dumps([pickle.dumps(m, proto) for _, m in items]),
                capture_output=True, timeout=60, check=False, cwd="/", env=dict(os.environ, PYTHONPYCACHEPREFIX="/nonexistent"),
            )
            if r.returncode:
                ctx.violation(f"pickled messages cannot be read in another process: {r.stderr[-400:]!r}")
                continue
            for (what, m), got in zip(items, pickle.loads(r.stdout)):
                ctx.add(states=1, transitions=1, traces_validated_against_impl=1)
                if got != observe(m):
                    ctx.violation(f"{what} pickled to another process is {got}, should be {observe(m)}")
        ctx.outcome(len(items))
        return
    depth = 2 if quick else 3
    gen = others(P) if shard[0] == "other" else messages(P, shard[1], shard[2], quick)
    for what, m in gen:
        if m is None:
            continue
        for n in range(1, depth + 1 + (shard[0] == "other")):
            for ops in itertools.product(OPS, repeat=n):
                bad = check(ctx, P, m, ops, what)
                if bad:
                    ctx.violation(f"{what} {ops}: {bad}")
