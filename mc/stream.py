"""
Stream model: streams are sequences of elements (sentences, bad sentences, foreign data), each
with its bytes and the events it must cause under a configuration. `run` drives a real reader
over a stream and returns the events which were observed.
"""

import functools
import io
import logging
import socket

from mc import ref

IGNORE, LOG, RAISE = 0, 1, 2
VALCKSUM, VALMSGID = 1, 2


class El:
    """
    One stream element.
    good:  delivered; err(validate) tells whether it is an error instead
    head:  number of foreign headers ('$' + byte which starts no sentence) it contains
    """

    def __init__(self, name, data, kind, text=None, identity=None):
        self.name, self.data, self.kind = name, data, kind
        self.text, self.identity = text, identity

    def __repr__(self):
        return self.name

    def is_error(self, validate):
        if self.kind == "badck":
            return bool(validate & VALCKSUM)
        if self.kind == "badfield":
            return True
        if self.kind in ("unknown", "talker"):
            return bool(validate & VALMSGID)
        return False

    def is_sentence(self):
        return self.kind != "foreign"


def text_of(identity, attrs, nominal=False):
    return f"<NMEA({identity}" + (", NOMINAL" if nominal else "") + "".join(f", {n}={v}" for n, v in attrs) + ")>"


def sent(name, table, key, cls="plain", reps=1, kind="good", raws=None, msgmode=0, talker=None):
    d = ref.Def(table, key)
    raws = raws if raws is not None else [f[2] for f in ref.fields_for(d, cls, reps)]
    content = ref.content_of(d, raws, talker)
    data = ref.sentence(content)
    identity = d.identity if talker is None else talker + d.msgid
    if kind == "badck":
        ck = ref.xor(content.encode()) ^ 0x01
        data = ref.sentence(content, b"%02X" % ck)
    text = None if kind == "badfield" else text_of(identity, ref.expected(d.layout, raws))
    return El(name, data, kind, text, identity)


def unknown(name, msgid, raws, talker="GN"):
    content = ",".join([talker + msgid] + raws)
    attrs = [(f"field_{i + 1:02d}", r) for i, r in enumerate(raws)]
    return El(name, ref.sentence(content), "unknown", text_of(talker + msgid, attrs, True), talker + msgid)


def foreign(name, data):
    return El(name, data, "foreign")


def foreign_headers(data, nxt):
    """
    Number of foreign headers in a byte string which contains no sentence and is followed by
    nxt: the dollar signs which are followed by another byte.
    """
    n = data.count(b"$")
    return n - 1 if data[-1:] == b"$" and not nxt else n


GLL = sent("GLL", "GET", "GLL")
RMC = sent("RMC", "GET", "RMC", "sw")
TXT = sent("TXT", "GET", "TXT", "odd")
GSV = sent("GSV", "GET", "GSV", reps=2)
PUBX = sent("PUBX00", "GET_PROP", "UBX00")
ACK = sent("QTMACK", "GET_PROP", "QTMACK", raws=["OK"])
SHORT = El("STN", ref.sentence("GNSTN"), "good", "<NMEA(GNSTN)>", "GNSTN")
UNK = unknown("unknown id", "XXX", ["a", "", "b"])
UNKP = unknown("unknown prop id", "ZZZ99", ["1", "2"], "P")
TALK = sent("unknown talker", "GET", "GLL", kind="talker", talker="GX")
BADCK = sent("bad checksum", "GET", "GLL", "sw", kind="badck")
BADCK2 = sent("bad checksum RMC", "GET", "RMC", kind="badck")
BADFLD = El("bad field", ref.sentence("GNGSV,1,1,x,1,2,3,4"), "badfield")
BADFLD2 = El("bad count", ref.sentence("GNGSV,3,1,11,4,4x,44,33"), "badfield")

UBX = foreign("UBX", b"\xb5b\x01\x07\x04\x00\x01\x02\x0a\x0d\x26\xc3")
UBXD = foreign("UBX with dollar", b"\xb5b\x02\x13\x02\x00$\x11\x38\x99")
RTCM = foreign("RTCM3", b"\xd3\x00\x04L\xe0\x00\x80\xed\xed\xd6")
TEXT = foreign("text", b"hello *6A, world\r\n")
CRLF = foreign("CRLF", b"\r\n")
LF = foreign("LF", b"\n")
NUL = foreign("NUL", b"\x00")
DOL = foreign("dollar", b"$")
DOL2 = foreign("dollar dollar", b"$$")
DOLX = foreign("dollar x", b"$x")
BANG = foreign("AIS", b"!AIVDM,1,1,,A,14eG,0*5D\r\n")
STAR = foreign("star", b"*")
HI = foreign("0xff", b"\xff\xfe")


# ------------------------------------------------------------------- running


class Capture(logging.Handler):
    """Counts what the package logs at warning level or above."""

    def __init__(self):
        super().__init__(logging.WARNING)
        self.n = 0

    def emit(self, record):
        self.n += 1
        record.getMessage()  # must be possible


def event(P, raw, msg):
    if msg is None:
        return ("none", bytes(raw))
    return ("msg", raw, str(msg), msg.serialize())


def run(P, stream, policy=RAISE, validate=1, handler=True, iterate=False, nmeaonly=False, limit=10000, **kw):
    """
    Events of a real reader over a stream:
    ("msg", raw, text, serialized), ("none", raw), ("err",) per error raised, handled or logged.
    The stream's end is checked to be stable.
    """
    events = []
    log = Capture()
    logger = logging.getLogger("pynmeagps")
    logger.addHandler(log)
    logged = 0

    def hnd(err):
        if not isinstance(err, ERRS):
            raise AssertionError(f"error handler got {err!r}")
        events.append(("err",))

    class Falsy:
        def __bool__(self):
            return False

        def __len__(self):
            return 0

        def __call__(self, err):
            hnd(err)

        def method(self, err):
            hnd(err)

    # an error which should have been ignored, raised or handled, but was logged, is no ("err",)
    lost = ("err",) if policy == LOG and not handler else ("logged",)
    ERRS = (P.NMEAParseError, P.NMEAMessageError, P.NMEATypeError, P.NMEAStreamError)
    try:
        args = dict(quitonerror=policy, validate=validate, nmeaonly=nmeaonly, **kw)
        if policy == LOG and handler:
            args["errorhandler"] = {"falsy": Falsy(), "method": Falsy().method, "partial": functools.partial(hnd)}.get(handler, hnd)
        rdr = P.NMEAReader(stream, **args)
        for _ in range(limit):
            try:
                if iterate:
                    try:
                        raw, msg = next(rdr)
                    except StopIteration:
                        events.append(("eof",))
                        break
                else:
                    raw, msg = rdr.read()
                    if raw is None and msg is None:
                        events.append(("eof",))
                        break
                for _ in range(log.n - logged):
                    events.append(lost)
                logged = log.n
                events.append(event(P, raw, msg))
            except ERRS:
                if policy != RAISE:
                    events.append(("raised",))
                else:
                    events.append(("err",))
        else:
            events.append(("endless",))
        for _ in range(log.n - logged):
            events.insert(len(events) - 1, lost)
        return events
    finally:
        logger.removeHandler(log)


def want(els, policy=RAISE, validate=1, nmeaonly=False):
    """Events which the stream of these elements must cause."""
    out = []
    foreign_bytes = b""

    def flush(nxt):
        nonlocal foreign_bytes
        if nmeaonly:
            n = foreign_headers(foreign_bytes, nxt)
            out.extend([("err",)] * n)
        foreign_bytes = b""

    for e in els:
        if not e.is_sentence():
            foreign_bytes += e.data
            continue
        flush(b"$")
        if e.is_error(validate):
            out.append(("err",))
        else:
            out.append(("msg", e.data, e.text, e.data))
    flush(b"")
    out.append(("eof",))
    if policy == IGNORE:
        out = [o for o in out if o != ("err",)]
    return out


def diff(got, exp):
    if got == exp:
        return None
    for i, e in enumerate(exp):
        if i >= len(got) or got[i] != e:
            return f"event {i} is {got[i] if i < len(got) else None}, should be {e}; all: {short(got)} should be {short(exp)}"
    return f"additional events {short(got[len(exp):])}"


def short(evs):
    return [e[1][:12].decode("latin1") if len(e) > 1 else e[0] for e in evs]


# ------------------------------------------------------------------- stream types


class FakeSocket(socket.socket):
    """
    A socket whose receives are scripted: items are bytes (a segment), b"" (end of data),
    or an exception to raise. A segment longer than the buffer size is handed out in pieces.
    """

    def __init__(self, script):  # pylint: disable=super-init-not-called
        self.script = [s if isinstance(s, (bytes, Exception)) else bytes(s) for s in script]
        self.sent = []
        self.calls = 0

    def recv(self, n, flags=0):
        self.calls += 1
        if n < 0:
            raise ValueError("negative buffersize in recv")
        if not self.script or n == 0:
            return b""
        item = self.script[0]
        if isinstance(item, Exception):
            self.script.pop(0)
            raise item
        out, rest = item[:n], item[n:]
        if rest:
            self.script[0] = rest
        else:
            self.script.pop(0)
        return out

    def recv_into(self, buffer, nbytes=0, flags=0):
        data = self.recv(nbytes or len(buffer))
        buffer[: len(data)] = data
        return len(data)

    def send(self, data, *a, **kw):
        self.sent.append(bytes(data))
        return len(data)

    def sendall(self, data, *a, **kw):
        self.sent.append(bytes(data))

    def close(self):
        pass

    def __del__(self):
        pass

    def __repr__(self):
        return "<FakeSocket>"


def bio(data):
    return io.BytesIO(data)
