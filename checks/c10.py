"""
C10: threads which share one reader.

Explored on the real code under a controlled scheduler: every interleaving of two threads (three
in the thorough tier) which share one NMEAReader, at source line granularity, with at most the
bounded number of preemptions; the stream's own calls are scheduling points too. Each thread calls
read() until the end of the stream, or iterates, or makes a fixed number of calls after which the
rest is drained. Oracle: the elements the stream was made of, each exactly once, in order per
thread, error count exact, no deadlock.
"""

import signal

from mc import core, sched
from mc import stream as S

ID = "C10"
LEVEL = "model_checking"
RULE = (
    "stream x kind of stream x error policy x way of reading per thread x starting thread x every "
    "line at which a thread is preempted (quick: <= 1 preemption at the first two executions of each line, "
    "<= 2 at first executions outside message building; thorough: <= 1 at all steps, <= 2 at first "
    "executions, 3 threads); state = scheduling point, transition = line executed, "
    "trace = complete schedule executed on the real code"
)
ASSUMPTIONS = [
    "scheduling points are the source lines of the package, its lock operations and the calls of the "
    "stream; the stream's calls are atomic (it is itself thread-safe)",
]
IMPORT_REPO_IN_PARENT = False
MAXTASKS = 4

STREAMS = {
    "two": [S.SHORT, S.ACK],
    "same": [S.SHORT, S.SHORT, S.SHORT],
    "bad": [S.SHORT, S.BADCK, S.ACK],
    "foreign": [S.UBXD, S.SHORT, S.DOL, S.ACK],
    "unknown": [S.UNK, S.LF, S.UNKP],
    "headers": [S.DOLX, S.SHORT, S.DOL2, S.UNK],
    "group": [S.GSV, S.BADFLD, S.SHORT],
    "mixed": [S.SHORT, S.TEXT, S.BADFLD2, S.UNKP, S.DOL, S.ACK],
}
KINDS = ["bytes", "calls", "socket", "chunked"]
WAYS = [["drain", "drain"], ["iterate", "iterate"], ["iterate", "drain"], ["one", "drain"], ["one", "one"], ["two", "two"]]


class CallStream:
    """A thread-safe stream whose calls are scheduling points before and after they take effect."""

    def __init__(self, data):
        self.inner = S.bio(data)

    def _point(self):
        s = sched.CURRENT
        if s is not None and s.tid() >= 0:
            s.point(s.tid(), "stream")

    def read(self, n):
        self._point()
        out = self.inner.read(n)
        self._point()
        return out

    def readline(self):
        self._point()
        out = self.inner.readline()
        self._point()
        return out


def source(kind, data):
    if kind == "bytes":
        return S.bio(data), {}
    if kind == "calls":
        return CallStream(data), {}
    if kind == "socket":
        cuts = [0, 1, 9, 10, len(data) // 2, len(data)]
        cuts = sorted({min(c, len(data)) for c in cuts})
        return S.FakeSocket([data[a:b] for a, b in zip(cuts, cuts[1:])]), {}
    out = b""
    for a in range(0, len(data), 11):
        part = data[a : a + 11]
        out += b"%x\r\n" % len(part) + part + b"\r\n"
    out += b"0\r\n\r\n"
    cut = len(out) // 3
    return S.FakeSocket([out[:cut], out[cut : 2 * cut], out[2 * cut :]]), {"encoding": 1}


def shards(tier):
    """[stream, kind, ways, policy, nmeaonly, handler, bound, times, slice, slices, mode]"""
    out = []
    quick = tier == "quick"
    configs = ((2, False, False), (1, True, True), (1, False, False), (0, False, False))
    typical = [
        (configs[0], "bytes", WAYS[0]), (configs[2], "socket", WAYS[2]),
        (configs[1], "calls", WAYS[5]), (configs[2], "chunked", WAYS[1]),
    ]
    for name in STREAMS:
        for kind in KINDS:
            for k, ways in enumerate(WAYS):
                for c, conf in enumerate(configs):
                    if quick and (conf, kind, ways) not in typical:
                        if name not in ("bad", "headers") or (k + c + len(kind)) % 3:
                            continue
                    times = 2 if quick or name == "mixed" else None
                    out.append([name, kind, ways, *conf, 1, times, 0, 1, "warm"])
    # two preemptions, in the reader (not while a message is built)
    for name in ("bad",) if quick else STREAMS:
        for ways in WAYS[:1] if quick else WAYS[:4]:
            for kind in ("calls",) if quick else ("calls", "socket"):
                n = 4
                for i in range(n):
                    out.append([name, kind, ways, 1, name == "headers", True, 2, 1 if quick else 2, i, n, "reader"])
    if not quick:
        for name in ("two", "bad"):
            for i in range(16):
                out.append([name, "calls", WAYS[0], 1, False, True, 2, 1, i, 16, "warm"])
        for name in ("two", "headers"):
            for ways in (["drain"] * 3, ["one", "iterate", "one"]):
                out += [[name, "calls", ways, 1, False, True, 2, 1, i, 16, "reader"] for i in range(16)]
    out.append(["two", "calls", ["drain"] * 3, 1, False, True, 1, 1, 0, 1, "warm"])
    out.append(["two", "calls", WAYS[0], 1, False, True, 1, 1 if quick else None, 0, 1, "cold"])
    return out


def in_reader(where):
    """Lock and stream calls, and lines other than those which build messages."""
    return isinstance(where, str) or not where[0].endswith(("nmeamessage.py", "nmeahelpers.py"))


def run_shard(shard, ctx):
    name, kind, ways, policy, nmeaonly, handler, bound, times, i, n, mode = shard
    P = sched.import_patched(core)
    E = (P.NMEAParseError, P.NMEAMessageError, P.NMEATypeError, P.NMEAStreamError)
    els = STREAMS[name]
    data = b"".join(e.data for e in els)
    want = [w for w in S.want(els, policy, 1, nmeaonly) if w != ("eof",)]
    msgs = [w for w in want if w[0] == "msg"]
    nerr = len(want) - len(msgs)

    def make():
        st, kw = source(kind, data)
        errs = []
        if handler:
            kw["errorhandler"] = errs.append
        log = S.Capture()
        logger = S.logging.getLogger("pynmeagps")
        for h in [h for h in logger.handlers if isinstance(h, S.Capture)]:
            logger.removeHandler(h)
        logger.addHandler(log)
        rdr = P.NMEAReader(st, quitonerror=policy, nmeaonly=nmeaonly, **kw)

        order = []  # (thread, is this the end?) in the order in which the threads came to know

        class Seen(list):
            def __init__(self, who):
                super().__init__()
                self.who = who

            def append(self, ev):
                order.append((self.who, ev == ("eof",)))
                super().append(ev)

        def reader(way, who=-1):
            def f():
                out = Seen(who)
                limit = {"one": 1, "two": 2}.get(way, 40)
                for _ in range(limit):
                    try:
                        if way == "iterate":
                            try:
                                raw, msg = next(rdr)
                            except StopIteration:
                                out.append(("eof",))
                                break
                        else:
                            raw, msg = rdr.read()
                            if raw is None and msg is None:
                                out.append(("eof",))
                                break
                    except E:
                        out.append(("err",))
                        continue
                    out.append(S.event(P, raw, msg))
                return list(out)

            return f

        def rest():
            # what is left after all threads stopped, read by the main thread
            out = reader("drain")()
            return out, len(errs) + log.n, order

        return [reader(w, t) for t, w in enumerate(ways)], rest

    def judge(plan, first, r):
        head = f"{name} as {kind}, threads {ways}, policy {policy}, first {first}, preempted at "
        head += f"{plan} {[r['where'][s] for s in sorted(plan)]}: "
        if r["dead"]:
            return head + r["dead"]
        for res in r["results"]:
            if not isinstance(res, list):
                return head + f"a thread ended with {res!r}"
        after, logged, order = r["shared"]
        for k, (who, end) in enumerate(order):
            if end:
                # another thread may have read one sentence before, which it has not seen yet
                late = [t for t, e in order[k + 1 :] if not e and t != who]
                if -1 in late or len(late) != len(set(late)):
                    return head + f"thread {who} was told the end of the stream too early: {order}"
        parts = r["results"] + [after]
        seen = []
        errors = logged
        for t, evs in enumerate(parts):
            pos = -1
            for k, ev in enumerate(evs):
                if ev == ("err",):
                    errors += 1
                elif ev == ("eof",):
                    if k != len(evs) - 1:
                        return head + f"thread {t} goes on after the end"
                else:
                    if ev not in msgs:
                        return head + f"thread {t} received {ev!r}, which is not in the stream"
                    # identical sentences: the next occurrence which is left
                    nxt = [j for j, m in enumerate(msgs) if m == ev and j > pos]
                    if not nxt:
                        return head + f"thread {t} received {S.short(evs)} out of stream order"
                    pos = nxt[0]
                    seen.append(ev)
            if t < len(ways) and ways[t] in ("drain", "iterate") and evs[-1:] != [("eof",)]:
                return head + f"thread {t} did not reach the end: {S.short(evs)}"
        if sorted(map(repr, seen)) != sorted(map(repr, msgs)):
            return head + f"{S.short(seen)} received in all, {S.short(msgs)} sent"
        if errors != nerr:
            return head + f"{errors} errors reported, {nerr} expected"
        return None

    label = [name, kind, ways, policy, nmeaonly]
    if mode == "cold":

        def visit(plan, first, res):
            ctx.case([label, {"first": first, "preempt": plan}])
            if res[0] != "ok":
                ctx.violation(f"{label} first {first} preempted {plan}: {res}")
                return
            ctx.add(states=res[1]["steps"] - (max(plan) if plan else 0), transitions=res[1]["steps"], traces_validated_against_impl=1)
            bad = judge(plan, first, res[1])
            if bad:
                ctx.violation(bad)

        sched.explore(make, len(ways), bound, core.SRC, visit, times=times)
        return
    ctx.case([label, {"schedules": "all", "bound": bound, "slice": [i, n]}])
    signal.setitimer(signal.ITIMER_REAL, 0)  # the child has its own time limit
    res = sched.explore_warm(
        make, len(ways), bound, core.SRC, judge, within=lambda k: k % n == i,
        times=times, only=in_reader if mode == "reader" else None,
    )
    if res[0] != "ok":
        ctx.violation(f"{label}: {res}")
        return
    r = res[1]
    ctx.add(states=r["states"], transitions=r["steps"], traces_validated_against_impl=r["schedules"])
    ctx.outcome(f"{len(msgs)} delivered, {nerr} errors")
    for plan, first, bad in r["wrong"]:
        ctx.case([label, {"first": first, "preempt": plan}])
        ctx.violation(bad)
