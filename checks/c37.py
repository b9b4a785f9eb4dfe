"""
C37: parameters act as documented, by name, by position or left out.

For every public function, constructor and method: every sample call x every combination of
documented and other values of its optional parameters x every number of positional arguments x
every set of defaults left out; all spellings of one call must give the same result, and each
optional parameter must make a difference; every documented constant has its value and can be
used as number or name.
"""

import datetime as dt
import io
import itertools
import logging

from mc import core, ref
from mc import stream as S

ID = "C37"
LEVEL = "model_checking"
RULE = (
    "function x sample call x values of up to two optional parameters x number of positional arguments x subset of defaults "
    "left out; state = call as spelled, transition = parameter passed"
)
ASSUMPTIONS = ["the documented parameters are those of the docstrings and README of the pinned version"]
UTC = dt.timezone.utc
D = dt.date(2023, 4, 5)
A = 6378137.0
F = 298.257223563
UD = {"FUZ": {"num": "IN", "grp": ("num", {"a": "IN"})}}
WHEN = dt.datetime(2021, 7, 8, 9, 10, 11, 250000, UTC)
# name: (required parameters, [(optional, default, other values)], sample values of the required)
HELPERS = {
    "area": (["lat1", "lon1", "lat2", "lon2"], [("radius", A / 1000, [1.0])], [(1.0, 2.0, 30.0, 40.0)]),
    "bearing": (["lat1", "lon1", "lat2", "lon2"], [], [(1.0, 2.0, 30.0, -40.0)]),
    "calc_checksum": (["content"], [], [("GNSTN,1",)]),
    "date2str": (["dat"], [("form", "DT", ["DTL", "DM"])], [(D,)]),
    "date2utc": (["dates"], [("form", "DT", ["DM", "DTL"])], [("050423",), ("05042023",)]),
    "ddd2dmm": (["degrees", "att"], [("hpmode", False, [True])], [(51.123456789, "LA"), (-1.5, "LN")]),
    "deg2dmm": (["degrees", "att"], [], [(51.5, "LA"), (-1.25, "LN")]),
    "deg2dms": (["degrees", "att"], [], [(51.5, "LA"), (-1.25, "LN")]),
    "dmm2ddd": (["pos"], [], [("5130.5",)]),
    "dms2deg": (["dmsstr"], [("rnd", 7, [3, 9])], [("51\u00b020\u203245.678\u2033S",)]),
    "ecef2llh": (["x", "y", "z"], [("a", A, [6378388.0]), ("f", F, [297.0])], [(3822566.3, -144427.5, 5086857.2)]),
    "generate_checksum": (["talker", "msgID", "payload"], [], [("GN", "GLL", ["1", "2"])]),
    "get_parts": (["message"], [], [(b"$GNSTN,1*5D\r\n",)]),
    "haversine": (["lat1", "lon1", "lat2", "lon2"], [("radius", A / 1000, [1.0])], [(1.0, 2.0, 30.0, 40.0)]),
    "hex2str": (["num"], [("padding", 0, [8])], [(43981,)]),
    "knots2spd": (["knots"], [("unit", "MS", ["FS", "MPH", "KMPH"])], [(10.0,)]),
    "latlon2dmm": (["lat", "lon"], [], [(-51.5, 1.25)]),
    "latlon2dms": (["lat", "lon"], [], [(-51.5, 1.25)]),
    "leapsecond": (["dat"], [("gnss", "G", ["C"])], [(WHEN,)]),
    "llh2ecef": (["lat", "lon", "height"], [("a", A, [6378388.0]), ("f", F, [297.0])], [(51.5, -1.25, 100.0)]),
    "llh2iso6709": (["lat", "lon", "alt"], [("crs", "WGS_84", ["X"])], [(51.5, -1.25, 100.0)]),
    "msgdesc": (["msgID"], [], [("GLL",)]),
    "planar": (["lat1", "lon1", "lat2", "lon2"], [("radius", A, [1.0])], [(1.0, 2.0, 1.0001, 2.0001)]),
    "time2str": (["tim"], [], [(dt.time(1, 2, 3, 450000),)]),
    "time2utc": (["times"], [], [("010203.45",)]),
    "utc2wnotow": (["utc"], [("gnss", "G", ["E", "C", "I", "J", "R"]), ("modwno", True, [False])], [(WHEN,)]),
    "wnotow2utc": (
        ["wno", "tow"],
        [("ls", None, [0, 5]), ("gnss", "G", ["E", "C", "I", "R"]), ("autoroll", False, [True]), ("modwno", True, [False])],
        [(300, 345678901), (2300, 1000)],
    ),
}
CONSTANTS = {
    "GET": 0, "SET": 1, "POLL": 2, "VALNONE": 0, "VALCKSUM": 1, "VALMSGID": 2, "ERR_IGNORE": 0, "ERR_LOG": 1, "ERR_RAISE": 2,
    "ENCODE_NONE": 0, "ENCODE_CHUNKED": 1, "ENCODE_GZIP": 2, "ENCODE_COMPRESS": 4, "ENCODE_DEFLATE": 8,
    "GPS": "G", "GAL": "E", "BDS": "C", "QZS": "J", "IRN": "I", "GLO": "R", "DT": "DT", "DTL": "DTL", "DM": "DM", "LA": "LA", "LN": "LN",
    "WGS84": "WGS_84", "WGS84_SMAJ_AXIS": A, "WGS84_FLATTENING": F,
}
SAMPLE = S.GLL.data + b"\xb5b\x00$b" + S.UNK.data + S.BADCK.data + ref.sentence("GNFUZ,1,5") + S.SHORT.data + ref.sentence("PQTMCFGUART,R,1")


def result(f):
    try:
        return f()
    except Exception as err:  # pylint: disable=broad-except
        return type(err).__name__, str(err)


def read(P, sock):
    def call(*args, **kw):
        recs, calls = [], []

        class Keep(logging.Handler):
            def emit(self, record):
                recs.append((record.levelname, record.getMessage()))

        class Sock(S.FakeSocket):
            def recv(self, n, flags=0):
                calls.append(n)
                return super().recv(n, flags)

        lg, keep = logging.getLogger("pynmeagps"), Keep()
        lg.addHandler(keep)
        out = []
        # the stream and the handler are made for each call
        data = SAMPLE if not sock else b"%x\r\n%s\r\n" % (len(SAMPLE), SAMPLE) + SAMPLE
        args = list(args)
        st = Sock([data[:100], data[100:]]) if sock else io.BytesIO(data)
        if args:
            args[0] = st
        else:
            kw = dict(kw, stream=st)

        def swap(x):
            return (lambda err: out.append(("handled", str(err)))) if x == "handler" else x

        try:
            rdr = P.NMEAReader(*map(swap, args), **{k: swap(v) for k, v in kw.items()})
            for _ in range(200):
                try:
                    raw, msg = rdr.read()
                except (P.NMEAParseError, P.NMEAMessageError, P.NMEATypeError, P.NMEAStreamError) as err:
                    out.append((type(err).__name__, str(err)))
                    continue
                if raw is None:
                    break
                out.append((raw, str(msg), None if msg is None else msg.msgmode))
        finally:
            lg.removeHandler(keep)
        return out, recs, sorted(set(calls))

    return call


def wrapper(P):
    def call(*args, **kw):
        sock = S.FakeSocket([b"5\r\nab\r\nc\r\n", b"2\r\nde\r\n"])
        args = list(args)
        if args:
            args[0] = sock
        else:
            kw = dict(kw, sock=sock)
        sizes, was = [], sock.recv
        sock.recv = lambda n, flags=0: (sizes.append(n), was(n, flags))[1]
        w = P.SocketWrapper(*args, **kw)
        out = [w.readline(), w.readline(), w.read(2), w.in_waiting(), bytes(w.buffer)]
        return out, sorted(set(sizes))

    return call


def message(P):
    def call(*args, **kw):
        m = P.NMEAMessage(*args, **kw)
        return str(m), m.serialize(), m.payload, m.msgmode, m.checksum

    return call


def table(P):
    out = {}
    for n, (req, opt, samples) in HELPERS.items():
        out[n] = (getattr(P, n), req, opt, [(s, {}) for s in samples])
    mode, val = ("msgmode", 0, [1, 2]), ("validate", 1, [0, 2, 3])
    ud = ("userdefined", None, [UD, {}])
    out["NMEAReader.parse"] = (
        lambda *a, **k: str(P.NMEAReader.parse(*a, **k)), ["message"], [mode, val, ud],
        [((x,), {}) for x in (S.GLL.data, S.UNK.data, S.BADCK.data, ref.sentence("GNFUZ,1,5"), ref.sentence("PQTMCFGUART,R,1"))],
    )
    opt = [mode, val, ("nmeaonly", False, [True]), ("quitonerror", 1, [0, 2]), ("bufsize", 4096, [7]), ("errorhandler", None, ["handler"]), ud, ("encoding", 0, [1])]
    out["NMEAReader"] = (read(P, False), ["stream"], opt, [((None,), {})])
    out["NMEAReader of a socket"] = (read(P, True), ["stream"], opt, [((None,), {})])
    out["SocketWrapper"] = (wrapper(P), ["sock"], [("encoding", 0, [1]), ("bufsize", 4096, [3])], [((None,), {})])
    opt = [("hpnmeamode", False, [True]), ("validate", 1, [0, 2, 3]), ud, ("checksum", None, ["00"])]
    out["NMEAMessage"] = (
        message(P), ["talker", "msgID", "msgmode"], opt,
        [(("GN", "GLL", 0), {"lat": 1.123456789, "lon": 2.5, "time": "010203.00"}), (("GN", "FUZ", 0), {"num": 1, "a_01": 5}), (("GN", "STN", 0), {"payload": ["5"]}),
         (("XX", "STN", 0), {}), (("P", "QTMCFGUART", 1), {"baudrate": 9600})],
    )
    for n, req, opt, samples in (
        ("str2val", ["vals", "att"], [], [("5", "IN"), ("1.5", "DE"), ("", "LA")]),
        ("val2str", ["val", "att"], [("hpmode", False, [True])], [(51.123456789, "LA"), (1.123456789, "LN"), (5, "IN")]),
        ("nomval", ["att"], [("msgmode", 0, [1, 2])], [("QS",), ("IN",)]),
    ):
        out["NMEAMessage." + n] = (getattr(P.NMEAMessage, n), req, opt, [(s, {}) for s in samples])
    return out


NAMES = [*HELPERS, "NMEAReader.parse", "NMEAReader", "NMEAReader of a socket", "SocketWrapper", "NMEAMessage", "NMEAMessage.str2val", "NMEAMessage.val2str", "NMEAMessage.nomval"]


def shards(tier):
    return [["call", n] for n in NAMES] + [["constants"]]


def run_shard(shard, ctx):
    P = core.use_repo()
    if shard[0] == "constants":
        import pynmeagps.nmeatypes_core as ct

        for n, v in CONSTANTS.items():
            ctx.case([n])
            for where in (P, ct):
                got = getattr(where, n, None)
                if got != v or type(got) is not type(v):
                    ctx.violation(f"{where.__name__}.{n} is {got!r}, should be {v!r}")
            ctx.add(states=1, transitions=1, traces_validated_against_impl=1)
        for n in ("NMEAReader", "NMEAMessage", "SocketWrapper", "NMEAParseError", "NMEAMessageError", "NMEATypeError", "NMEAStreamError", *HELPERS):
            ctx.case([n])
            if not callable(getattr(P, n, None)):
                ctx.violation(f"pynmeagps.{n} is not there")
        ctx.outcome("constants")
        return
    most = 2 if ctx.tier == "quick" else 3
    f, req, opt, samples = table(P)[shard[1]]
    differs = set()
    base = {n: d for n, d, _ in opt}
    for values, kw in samples:
        required = dict(zip(req, values))
        plain = result(lambda: f(**required, **base, **kw))
        for k in range(min(most, len(opt)) + 1):
            for chosen in itertools.combinations(opt, k):
                for others in itertools.product(*[c[2] for c in chosen]):
                    given = dict(base, **{c[0]: v for c, v in zip(chosen, others)})
                    whole = {**required, **given}
                    want = result(lambda: f(**whole, **kw))
                    if k == 1 and want != plain:
                        differs.add(chosen[0][0])
                    names = [*req, *base]
                    for p in range(len(names) + 1):
                        rest = [n for n in names[p:] if n in base and n not in [c[0] for c in chosen]]
                        for m in range(len(rest) + 1):
                            for out in itertools.combinations(rest, m):
                                if m not in (0, 1, len(rest) - 1, len(rest)):
                                    continue
                                args = [whole[n] for n in names[:p]]
                                named = {n: whole[n] for n in names[p:] if n not in out}
                                ctx.case([shard[1], repr(args), repr(named), repr(kw)])
                                got = result(lambda: f(*args, **named, **kw))
                                ctx.add(states=1, transitions=len(args) + len(named), traces_validated_against_impl=1)
                                if got != want:
                                    ctx.violation(
                                        f"{shard[1]}({args}, {named}, {kw}) gives {str(got)[:700]}, should be {str(want)[:700]} as with {whole}"
                                    )
                    ctx.outcome([shard[1], str(want)])
    lost = [n for n in base if n not in differs and not (shard[1] == "NMEAReader" and n in ("bufsize", "encoding"))]
    if lost:
        ctx.violation(f"{shard[1]}: {lost} make no difference")
