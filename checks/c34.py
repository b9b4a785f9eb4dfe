"""
C34: an exception of the program passes through unchanged and leaves the reader usable.

Enumerated on the real code: an exception (interrupt, exit, cancellation, errors of the program or of the
operating system) raised at every call the reader makes to something of the program - the stream's read
and readline before and after they consumed data, the socket's recv, the error handler, a logging
handler - for every stream, error policy and way of reading, alone and (short streams) in pairs; then
reading goes on in the same thread or in another one. And every set of errors at which the error handler
itself reads from the reader. Oracle: the element model. The very exception object must come out of the
reader; afterwards every sentence is delivered once and in order, apart from the one (at most) which was
being read; the error handler's reads deliver what the reader would have delivered.
"""

import asyncio
import datetime
import io
import itertools
import logging
import struct
import threading

from mc import core, ref
from mc import stream as S

ID = "C34"
LEVEL = "fault_enumeration"
RULE = (
    "every call to a collaborator (stream read, readline, recv, error handler, logging handler, value) x exception x "
    "before / after it consumed data x policy x read / iterate x same / other thread, pairs of faults on short streams, all "
    "sets of errors with a reading handler; state = (call at which the fault is raised, what was delivered), transition = "
    "call; non-trivial = the exception was raised"
)
ASSUMPTIONS = [
    "exceptions which say end of data or an NMEA error (EOFError, the package's errors; OSError of a socket) have their own meaning, see C02, C07",
    "an exception is raised by a call of the program's own code or of a stream, not between two instructions of the package",
]


class Own(Exception):
    pass


class OwnBase(BaseException):
    pass


EXCEPTIONS = [
    KeyboardInterrupt, SystemExit, GeneratorExit, asyncio.CancelledError, OwnBase, Own, MemoryError, RecursionError, RuntimeError,
    ValueError, TypeError, AttributeError, KeyError, IndexError, ZeroDivisionError, struct.error, AssertionError, NotImplementedError,
    OSError, TimeoutError, ConnectionResetError, StopIteration, UnicodeError, LookupError, ArithmeticError, BufferError, SystemError,
]
HANDLER_TOO = ["NMEAParseError", "NMEAStreamError", "NMEATypeError", "NMEAMessageError", "EOFError"]
STREAMS = [
    [S.SHORT, S.GLL],
    [S.DOL, S.SHORT, S.DOLX, S.ACK, S.CRLF],
    [S.SHORT, S.BADCK, S.UNK, S.BADFLD, S.SHORT],
    [S.HI, S.BADFLD2, S.DOL2, S.SHORT, S.UBXD, S.ACK],
]
POLICIES = ((0, False), (1, True), (1, False), (2, False))


class Faults:
    """Raises the given exceptions at the given calls (numbered over all collaborators)."""

    def __init__(self, plan):
        self.plan = dict(plan)  # call number -> (exception, after?)
        self.n = -1
        self.raised = []
        self.at = []  # element ranges which may be lost are looked up with these positions

    def call(self, kinds, fun, position=None):
        self.n += 1
        exc, after, kind = self.plan.get(self.n, (None, False, None))
        if exc is None or kind not in kinds:
            return fun()
        before = position() if position else None
        if after:
            fun()
        self.raised.append(exc)
        self.at.append((before, position() if position else None))
        raise exc


class Stream:
    def __init__(self, data, faults):
        self.io, self.faults = io.BytesIO(data), faults

    def read(self, n=-1):
        return self.faults.call("stream", lambda: self.io.read(n), self.io.tell)

    def readline(self, n=-1):
        return self.faults.call("stream", lambda: self.io.readline(n), self.io.tell)


class Sock(S.FakeSocket):
    def __init__(self, segs, faults):
        super().__init__(segs)
        self.faults, self.given = faults, 0

    def recv(self, n, flags=0):
        out = self.faults.call("recv", lambda: S.FakeSocket.recv(self, n, flags), lambda: self.given)
        self.given += len(out)
        return out


class Emit(logging.Handler):
    def __init__(self, faults, events):
        super().__init__(logging.WARNING)
        self.faults, self.events = faults, events

    def emit(self, record):
        self.events.append("err")
        self.faults.call("log", lambda: None)

    def handle(self, record):
        self.emit(record)


def elements(els, validate, policy):
    """[(start, end, event or None)]"""
    out, pos = [], 0
    for e in els:
        ev = None
        if e.is_sentence():
            ev = "err" if e.is_error(validate) else e.data
            if ev == "err" and not policy:
                ev = None
        out.append((pos, pos + len(e.data), ev))
        pos += len(e.data)
    return out


def execute(P, els, kind, policy, handler, iterate, other, plan):
    """Read everything; returns (problem, faults, events)."""
    data = b"".join(e.data for e in els)
    faults = Faults(plan)
    events = []
    log = Emit(faults, events)
    logger = logging.getLogger("pynmeagps")
    logger.addHandler(log)

    def hnd(err):
        events.append("err")
        faults.call("handler", lambda: None)

    errs = (P.NMEAParseError, P.NMEAMessageError, P.NMEATypeError, P.NMEAStreamError)
    state = {"rdr": None, "bad": None, "done": False}

    def make():
        kw = {"quitonerror": policy}
        if handler:
            kw["errorhandler"] = hnd
        return P.NMEAReader(source, **kw)

    def go():
        """Read until the end or until a fault comes out."""
        seen = len(faults.raised)
        try:
            if state["rdr"] is None:
                state["rdr"] = make()
            for _ in range(200):
                try:
                    if iterate:
                        try:
                            raw, _ = next(state["rdr"])
                        except StopIteration as err:
                            if len(faults.raised) > seen and err is faults.raised[-1]:
                                raise
                            raw = None
                    else:
                        raw, _ = state["rdr"].read()
                except errs as err:
                    if len(faults.raised) > seen and err is faults.raised[-1]:
                        raise
                    if policy != 2:
                        state["bad"] = f"{err!r} comes out"
                        return
                    events.append("err")
                    continue
                if len(faults.raised) > seen:
                    state["bad"] = f"{faults.raised[-1]!r} is swallowed"
                    return
                if raw is None:
                    state["done"] = True
                    return
                events.append(raw)
            state["bad"] = "endless"
        except BaseException as err:  # pylint: disable=broad-except
            if len(faults.raised) <= seen:
                state["bad"] = f"{err!r} comes out"
            elif err is not faults.raised[-1]:
                state["bad"] = f"{err!r} comes out instead of {faults.raised[-1]!r}"

    try:
        source = Stream(data, faults) if kind == "plain" else Sock([data[:5], data[5:17], data[17:60], data[60:]], faults)
        for turn in range(len(plan) + 2):
            if other and turn:
                t = threading.Thread(target=go, daemon=True)
                t.start()
                t.join(10)
                if t.is_alive():
                    return "another thread cannot read any more after the exception", faults, events
            else:
                go()
            if state["bad"] or state["done"]:
                break
    finally:
        logger.removeHandler(log)
    if state["bad"]:
        return state["bad"], faults, events
    if not state["done"]:
        return "reading does not come to an end", faults, events
    return None, faults, events


def judge(els, kind, policy, faults, events):
    """Every event, apart from those of elements in which a fault lies."""
    parts = elements(els, 1, policy)
    want = [(ev, any(b is not None and s < max(a, b) and min(a, b) < e or a == b and s < a < e for a, b in [f for f in faults.at if f[0] is not None]))
            for s, e, ev in parts if ev is not None]
    if kind == "socket":
        # what was received last, but not delivered yet, is still there: the sentence which reaches to the fault
        want = [(ev, lost or any(a is not None and s < a < e or a == s for a, _ in faults.at)) for (ev, lost), (s, e) in
                zip(want, [(s, e) for s, e, ev in parts if ev is not None])]

    def match(i, j):
        if i == len(want):
            return j == len(events)
        ev, may = want[i]
        return j < len(events) and events[j] == ev and match(i + 1, j + 1) or may and match(i + 1, j)

    if match(0, 0):
        return None
    return f"events {events}, should be {[w + '?' * l if isinstance(w, str) else (w, 'may be lost') if l else w for w, l in want]}"


def shards(tier):
    quick = tier == "quick"
    out = [["one", i, k, p] for i in range(len(STREAMS)) for k in ("plain", "socket") for p in range(len(POLICIES))]
    out += [["two", i, k, p] for i in range(2 if quick else len(STREAMS)) for k in ("plain", "socket") for p in range(len(POLICIES))]
    out += [["reading handler", i] for i in range(6)]
    out += [["writing"], ["values", 0], ["values", 1], ["values", 2]]
    return out


def exceptions(P, kind, which):
    table = [e for e in EXCEPTIONS if not (which == "recv" and issubclass(e, OSError))]
    if which in ("handler", "log"):
        table += [getattr(P, n, None) or EOFError for n in HANDLER_TOO]
    return table


def calls(P, els, kind, policy, handler, iterate):
    """The kinds of the calls which the reader makes without faults."""
    kinds = []

    class Probe(Faults):
        def call(self, kinds_, fun, position=None):
            kinds.append(kinds_)
            return fun()

    orig = globals()["Faults"]
    globals()["Faults"] = Probe
    try:
        bad, _, events = execute(P, els, kind, policy, handler, iterate, False, ())
    finally:
        globals()["Faults"] = orig
    return kinds, bad, events


def make(exc):
    if exc is UnicodeError:
        return UnicodeDecodeError("utf-8", b"\xff", 0, 1, "bad")
    return exc("outside")


def run_one(P, ctx, els, kind, policy, handler, pairs):
    names = [e.name for e in els]
    for iterate in (False, True):
        kinds, bad, events = calls(P, els, kind, policy, handler, iterate)
        ctx.case([names, kind, policy, handler, "no fault"])
        clean = Faults(())
        bad = bad or judge(els, kind, policy, clean, events)
        if bad:
            ctx.violation(f"without faults: {bad}")
            return
        plans = []
        for k, which in enumerate(kinds):
            for exc in exceptions(P, kind, which):
                if iterate and exc is StopIteration:
                    continue
                for after in (False, True) if which == "stream" else (False,):
                    plans.append([(k, (exc, after, which))])
        if pairs:
            few = [p for p in plans if p[0][1][0] in (KeyboardInterrupt, ValueError)]
            plans = []
            for p, gap in itertools.product(few, range(1, 9)):
                k = p[0][0] + gap
                for which in ("stream", "recv", "handler", "log"):
                    plans.append([p[0], (k, (Own, False, which))])
        for plan in plans:
            for other in (False, True):
                real = [(k, (make(e), after, which)) for k, (e, after, which) in plan]
                ctx.case([names, kind, policy, handler, "iterate" if iterate else "read", [(k, repr(e), "after" if a else "before", w) for k, (e, a, w) in real],
                          "other thread" if other else "same thread"])
                bad, faults, events = execute(P, els, kind, policy, handler, iterate, other, real)
                bad = bad or judge(els, kind, policy, faults, events)
                ctx.add(states=1, transitions=faults.n + 1, evaluations=1, distinct_nontrivial=int(bool(faults.raised)))
                if bad:
                    ctx.violation(bad)
        ctx.outcome((kind, policy, len(kinds)))


HSTREAMS = [
    [S.BADCK, S.SHORT, S.GLL],
    [S.SHORT, S.BADCK, S.BADFLD, S.GLL, S.SHORT],
    [S.BADCK, S.DOL, S.BADFLD, S.SHORT, S.BADFLD2, S.UBXD],
    [S.BADCK, S.BADCK2, S.BADFLD, S.BADFLD2, S.SHORT, S.SHORT, S.GLL, S.ACK],
    [S.SHORT, S.BADCK],
    [S.DOL2, S.BADFLD, S.GLL, S.BADCK, S.SHORT, S.BADCK2],
]


def run_reading_handler(P, ctx, i):
    els = HSTREAMS[i]
    data = b"".join(e.data for e in els)
    nerr = sum(e.is_error(1) for e in els)
    want = [ev for _, _, ev in elements(els, 1, 1) if ev is not None]
    for times in itertools.product((0, 1, 2), repeat=nerr):
        for sock in (False, True):
            for how in ("read", "next", "logging", "another reader", "stream"):
                if sock and how in ("another reader", "stream"):
                    continue
                ctx.case([[e.name for e in els], "reads of the handler at each error", times, how, "socket" if sock else "plain"])
                events, n = [], [0]

                def take(rdr):
                    try:
                        raw, _ = next(rdr) if how == "next" else rdr.read()
                    except StopIteration:
                        return
                    if raw is not None:
                        events.append(raw)

                def hnd(_err):
                    k = n[0]
                    n[0] += 1
                    events.append("err")
                    for _ in range(times[k] if k < nerr else 0):
                        if how == "another reader":
                            take(P.NMEAReader(st, errorhandler=hnd))
                        elif how == "stream":
                            rest = data[st.tell() :]
                            if rest[:4] == b"$GNS":  # the program takes the sentence itself
                                events.append(st.readline())
                        else:
                            take(rdr)

                class Log(logging.Handler):
                    def handle(self, record):
                        hnd(None)

                st = S.FakeSocket([data[:40], data[40:]]) if sock else S.bio(data)
                logger, log = logging.getLogger("pynmeagps"), Log()
                rdr = P.NMEAReader(st, errorhandler=None if how == "logging" else hnd)
                if how == "logging":
                    logger.addHandler(log)
                box = []

                def go():
                    try:
                        while True:
                            raw, _ = rdr.read()
                            if raw is None:
                                break
                            # what the handler got on the way is delivered before
                            events.append(raw)
                    except BaseException as err:  # pylint: disable=broad-except
                        box.append(f"{err!r} comes out")

                try:
                    go()
                finally:
                    logger.removeHandler(log)
                ctx.add(states=len(events), transitions=len(events) + n[0], evaluations=1, distinct_nontrivial=int(any(times)))
                if box or events != want:
                    ctx.violation(f"{box or ''} events {events}, should be {want}")
        ctx.outcome(times)


def run_writing(P, ctx):
    """Exceptions of the socket's send pass through write."""

    class Sending(S.FakeSocket):
        exc = None

        def send(self, data, *a, **kw):
            if self.exc is not None:
                raise self.exc
            return super().send(data, *a, **kw)

    for exc in EXCEPTIONS:
        for encoding in (0, 1):
            for way in ("wrapper", "datastream"):
                ctx.case(["write", exc.__name__, encoding, way])
                body = S.SHORT.data if encoding == 0 else b"%x\r\n%s\r\n" % (len(S.SHORT.data), S.SHORT.data)
                sock = Sending([body])
                w = P.SocketWrapper(sock, encoding=encoding) if way == "wrapper" else P.NMEAReader(sock, encoding=encoding).datastream
                before = w.in_waiting()
                sock.exc = make(exc)
                got = None
                try:
                    w.write(b"abc")
                except BaseException as err:  # pylint: disable=broad-except
                    got = err
                ok = got is sock.exc
                sock.exc = None
                n = w.write(b"de")
                ctx.add(states=1, transitions=3, evaluations=1, distinct_nontrivial=1)
                if not ok or n != 2 or sock.sent != [b"de"] or w.in_waiting() != before or w.readline() != S.SHORT.data:
                    ctx.violation(f"write: {got!r} comes out instead of {exc!r}, then {n} {sock.sent}")
        ctx.outcome(exc.__name__)


class Value:
    """A value which raises an exception at its k-th use."""

    def __init__(self, exc, k):
        self.exc, self.k, self.n = exc, k, -1

    def _use(self):
        self.n += 1
        if self.n == self.k:
            raise self.exc
        return 1.5

    def __str__(self):
        return str(self._use())

    __repr__ = __str__

    def __abs__(self):
        return self._use()

    def __lt__(self, o):
        return self._use() < 0

    def __gt__(self, o):
        return self._use() > 0

    def __hash__(self):
        self._use()
        return 1

    def __format__(self, spec):
        return format(self._use(), spec)

    def __index__(self):
        return int(self._use())

    def strftime(self, _f):
        self._use()
        return "010203.00"

    def replace(self, *_a):
        self._use()
        return "010203"


def run_values(P, ctx, part):
    """Interrupts raised by values while a message is made."""
    defs = [d for d in ref.all_defs() if d.key in ("GLL", "RMC", "GSV", "ZDA", "TXT", "GNS", "QTMCFGUART_1", "UBX00", "DTM", "ALC")]
    base = {d: (P.NMEAMessage(d.talker, d.msgid, d.mode, **fixed(d))).serialize() for d in defs if makes(P, d)}
    for d in list(base)[part::3]:
        for n, typ, _ in ref.fields_for(d, "plain", 1):
            for exc in (KeyboardInterrupt, SystemExit, OwnBase, GeneratorExit, asyncio.CancelledError):
                for k in range(4):
                    v = Value(make(exc), k)
                    ctx.case([repr(d), n, exc.__name__, k])
                    try:
                        P.NMEAMessage(d.talker, d.msgid, d.mode, **{**fixed(d), n: v})
                        got = None
                    except (P.NMEAMessageError, P.NMEATypeError):
                        got = None
                    except BaseException as err:  # pylint: disable=broad-except
                        got = err
                    hit = v.n >= k
                    ctx.add(states=1, transitions=1, evaluations=1, distinct_nontrivial=int(hit))
                    ctx.outcome((typ, hit))
                    if hit and got is not v.exc:
                        ctx.violation(f"{d} {n}: {v.exc!r} raised by a value does not come out, but {got!r}")
                    if not hit and got is not None and not isinstance(got, Exception):
                        ctx.violation(f"{d} {n}: {got!r}")
                    again = P.NMEAMessage(d.talker, d.msgid, d.mode, **fixed(d)).serialize()
                    if again != base[d]:
                        ctx.violation(f"{d}: after the exception {again!r} is made, before {base[d]!r}")


def fixed(d):
    """Keywords which make the message depend neither on the clock nor on nominal values of times."""
    kw = {"msgId": d.first} if d.first is not None else {}
    for n, typ, _ in ref.fields_for(d, "plain", 1):
        if typ in ("TM", "TMX"):
            kw[n] = datetime.time(1, 2, 3)
        elif typ[:2] == "DT" or typ == "DM":
            kw[n] = datetime.date(2021, 2, 3)
    return kw


def makes(P, d):
    try:
        P.NMEAMessage(d.talker, d.msgid, d.mode, **fixed(d))
        return True
    except (P.NMEAMessageError, P.NMEATypeError):
        return False


def run_shard(shard, ctx):
    P = core.use_repo()
    kind = shard[0]
    if kind in ("one", "two"):
        policy, handler = POLICIES[shard[3]]
        run_one(P, ctx, STREAMS[shard[1]], shard[2], policy, handler, kind == "two")
    elif kind == "reading handler":
        run_reading_handler(P, ctx, shard[1])
    elif kind == "writing":
        run_writing(P, ctx)
    else:
        run_values(P, ctx, shard[1])
