"""
C09: independent readers and messages in different threads do not interfere.

Explored on the real code under a controlled scheduler: for every unordered pair of operations
(parse, generate, serialize, read from file and socket, convert; successful and failing) and of
readers with different configurations over the same data all
interleavings of two threads at source line granularity with at most one preemption (two in the
thorough tier for short operations, and three threads), each from a fresh process image, so that
lazily initialised state is initialised under every schedule. Oracle: each thread's result alone.
"""

import itertools
import signal

from mc import core, ref, sched
from mc import stream as S

ID = "C09"
LEVEL = "model_checking"
RULE = (
    "pairs of operations x starting thread x every line at which the running thread is preempted "
    "(<= 1 preemption; thorough <= 2 for short pairs, 3 threads <= 1); state = scheduling point, "
    "transition = line executed, trace = complete schedule executed on the real code"
)
ASSUMPTIONS = [
    "scheduling points are the source lines of the package and its lock operations; code of the "
    "standard library is not interleaved",
]
IMPORT_REPO_IN_PARENT = False
MAXTASKS = 4
UD = {"FUZ": {"num": "IN", "grp": ("num", {"a": "IN", "b": "DE"})}, "BAR": {"lat": "LA", "NS": "LAD"}}


def ops(P):
    from datetime import datetime, timezone

    E = (P.NMEAParseError, P.NMEAMessageError, P.NMEATypeError, P.NMEAStreamError)

    def show(m):
        return None if m is None else (str(m), m.payload, m.checksum, m.identity, m.serialize(), repr(m))

    def parse(data, **kw):
        def f():
            try:
                return show(P.NMEAReader.parse(data, **kw))
            except E as err:
                return type(err).__name__

        return f

    def gen(talker, msgid, mode, **kw):
        def f():
            try:
                return show(P.NMEAMessage(talker, msgid, mode, **kw))
            except E as err:
                return type(err).__name__

        return f

    def read(els, sock=False, **kw):
        def f():
            data = b"".join(e.data for e in els)
            st = S.FakeSocket([data[:7], data[7:30], data[30:]]) if sock else S.bio(data)
            return S_run(P, st, **kw)

        return f

    def chunked():
        from mc import stream

        data = b"5\r\n$GNZZ\r\n4\r\n*40\r\r\n1\r\n\n\r\n0\r\n\r\n"
        return S_run(P, stream.FakeSocket([data[:11], data[11:12], data[12:]]), encoding=1)

    def conv():
        d = datetime(2016, 12, 31, 23, 59, 59, tzinfo=timezone.utc)
        return (
            P.ddd2dmm(53.45, "LA"), P.deg2dms(-2.5, "LN"), P.dmm2ddd("5327.03942"), P.dms2deg("51\u00b020\u203245.6\u2033S"),
            P.utc2wnotow(d, "E"), P.wnotow2utc(1930, 604799000, None, "G", False, False),
        )

    def conv2():
        d = datetime(2006, 1, 1, tzinfo=timezone.utc)
        return (
            P.ddd2dmm(-3.25, "LN", True), P.deg2dmm(12.5, "LA"), P.dmm2ddd("00030.5"), P.llh2iso6709(1.5, -2, 3),
            P.utc2wnotow(d, "C"), P.leapsecond(d, "G"), P.date2utc("010106"), P.time2utc("123456.78"), P.haversine(1, 2, 3, 4),
        )

    # one stream which every configuration reads differently
    ud = ref.sentence("GNFUZ,2,1,1.5,2,2.5")

    def configured(sock=False, **kw):
        def f():
            data = S.BADCK.data + ud + S.UNK.data + b"\x99junk" + S.ACK.data
            st = S.FakeSocket([data[:9], data[9:]]) if sock else S.bio(data)
            return S_run(P, st, **kw)

        return f

    return {
        "config default": configured(),
        "config unchecked": configured(validate=0),
        "config userdefined": configured(userdefined=UD, validate=1),
        "config validate all": configured(validate=3),
        "config SET mode": configured(msgmode=1),
        "config nmeaonly": configured(nmeaonly=True),
        "config handler": configured(quitonerror=1),
        "config handler 2": configured(quitonerror=1, nmeaonly=True),
        "config ignoring": configured(quitonerror=0, nmeaonly=True),
        "config socket": configured(sock=True, validate=2),
        "parse GGA": parse(S.sent("a", "GET", "GGA").data),
        "parse GSV": parse(S.GSV.data),
        "parse RMC": parse(S.RMC.data),
        "parse unknown": parse(S.UNK.data),
        "parse bad checksum": parse(S.BADCK.data),
        "parse bad group": parse(S.BADFLD2.data),
        "parse PUBX": parse(S.sent("a", "GET_PROP", "UBX03", reps=2).data),
        "parse QTM": parse(S.ACK.data),
        "parse userdefined": parse(ref.sentence("GNFUZ,2,1,1.5,2,2.5"), userdefined=UD),
        "generate GLL": gen("GN", "GLL", 0, lat=-1.5, lon=2.25, time=datetime(2020, 1, 1, 1, 2, 3).time(), status="A"),
        "generate GSV": gen("GP", "GSV", 0, numMsg=1, svid_01=5, svid_02=7, cno_03=40),
        "generate failing": gen("GN", "GSV", 0, numMsg="a", lat="x", svid_01=object, numSV={}),
        "generate QTM": gen("P", "QTMCFGUART", 1, baudrate=9600),
        "read": read([S.DOL, S.SHORT, S.BADCK, S.ACK]),
        "read socket": read([S.SHORT, S.UBXD, S.UNKP], True),
        "read chunked": chunked,
        "convert": conv,
        "convert 2": conv2,
    }


def S_run(P, st, **kw):
    """Events of a reader, without the logging capture (whose handler list is global)."""
    E = (P.NMEAParseError, P.NMEAMessageError, P.NMEATypeError, P.NMEAStreamError)
    out = []
    if kw.get("quitonerror") == 1:
        kw["errorhandler"] = lambda err: out.append(("handled", type(err).__name__))
    rdr = P.NMEAReader(st, **{"quitonerror": 2, **kw})
    for _ in range(20):
        try:
            raw, msg = rdr.read()
        except E as err:
            out.append(type(err).__name__)
            continue
        out.append((raw, None if msg is None else str(msg)))
        if raw is None:
            break
    return out


NAMES = [
    "parse GGA", "parse GSV", "parse RMC", "parse unknown", "parse bad checksum", "parse bad group", "parse PUBX",
    "parse QTM", "parse userdefined", "generate GLL", "generate GSV", "generate failing", "generate QTM", "read",
    "read socket", "read chunked", "convert", "convert 2",
]
CONFIGS = [
    "config default", "config unchecked", "config userdefined", "config validate all", "config SET mode",
    "config nmeaonly", "config socket", "config handler", "config handler 2", "config ignoring",
]
SMALL = ["parse unknown", "parse bad group", "parse userdefined", "parse QTM", "generate QTM", "parse GSV"]


def shards(tier):
    """
    ["cold", a, b, times]: <= 1 preemption, each schedule in a fresh process image
    ["warm", a, b, bound, times, i, n]: schedules one after the other in one process
    """
    pairs = list(itertools.combinations_with_replacement(NAMES, 2))
    confs = list(itertools.combinations_with_replacement(CONFIGS, 2))
    if tier == "quick":
        near = [[n, n] for n in NAMES] + [[a, b] for a, b in zip(NAMES, NAMES[1:] + NAMES[:1])]
        return [["cold", *p, 1] for p in near] + [["warm", *p, 1, 2, 0, 1] for p in pairs + confs]
    out = [["cold", *p, 2] for p in pairs + confs] + [["warm", *p, 1, None, 0, 1] for p in pairs + confs]
    small = itertools.combinations_with_replacement(SMALL, 2)
    out += [["warm", *p, 2, 1, i, 8] for p in small for i in range(8)]
    out += [["three", *p] for p in itertools.combinations_with_replacement(SMALL, 3)]
    return out


def run_shard(shard, ctx):
    P = sched.import_patched(core)
    kind = shard[0]
    names = shard[1:4] if kind == "three" else shard[1:3]

    def make():
        table = ops(P)
        return [table[n] for n in names], None

    alone = []
    for n in names:
        res = sched.in_child(lambda n=n: ops(P)[n]())
        if res[0] != "ok":
            ctx.case([n, "alone"])
            ctx.violation(f"{n} alone: {res}")
            return
        alone.append(res[1])
        ctx.outcome(repr(res[1]))

    def judge(plan, first, r):
        if r["dead"]:
            return f"{names} first {first} preempted {plan}: {r['dead']}"
        for n, got, want in zip(names, r["results"], alone):
            if got != want:
                where = [r["where"][s] for s in sorted(plan)]
                return f"{names} first {first} preempted at {plan} {where}: {n} gives {got!r}, alone {want!r}"
        return None

    def visit(plan, first, res):
        ctx.case([names, {"first": first, "preempt": plan}])
        if res[0] != "ok":
            ctx.violation(f"{names} first {first} preempted {plan}: {res}")
            return
        r = res[1]
        ctx.add(states=r["steps"] - (max(plan) if plan else 0), transitions=r["steps"], traces_validated_against_impl=1)
        bad = judge(plan, first, r)
        if bad:
            ctx.violation(bad)

    if kind == "warm":
        bound, times, i, n = shard[3:]
        ctx.case([names, {"schedules": "all", "bound": bound, "slice": [i, n]}])
        signal.setitimer(signal.ITIMER_REAL, 0)  # the child has its own time limit
        res = sched.explore_warm(
            make, len(names), bound, core.SRC, judge, within=lambda k: k % n == i, times=times
        )
        if res[0] != "ok":
            ctx.violation(f"{names}: {res}")
            return
        r = res[1]
        ctx.add(states=r["states"], transitions=r["steps"], traces_validated_against_impl=r["schedules"])
        for plan, first, bad in r["wrong"]:
            ctx.case([names, {"first": first, "preempt": plan}])
            ctx.violation(bad)
        return
    sched.explore(make, len(names), 1, core.SRC, visit, times=shard[3] if kind == "cold" else 1)
