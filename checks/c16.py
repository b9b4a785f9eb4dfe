"""
C16: results do not depend on what was done before, and inputs are never modified.

Enumerated on the real code: all sequences of operations up to the bound over an alphabet of
successful and failing operations (parse, generate, construct, serialize, read from files and
sockets, convert). Oracle: each operation's result as the first one in a fresh process. After
every operation its arguments, the messages created before and the published tables are compared
with what they were. Also: every definition after every definition (succeeding, failing), all
interleavings of reads from two readers in one thread, long repetitions, and for each operation its
variants (same call with one argument changed) in both orders.
"""

import copy
import itertools
import signal

from mc import core, gen, ref, sched
from mc import stream as S

ID = "C16"
LEVEL = "exploration"
RULE = (
    "sequence of operations (depth in the shard) ending in an operation compared with its result in a "
    "fresh process; definition after definition; merge of the reads of two readers; repetitions; "
    "state = history, transition = operation; non-trivial = the history contains a different operation"
)
ASSUMPTIONS = [
    "the process-wide state is that of the package: the environment (clock, time zone, logging "
    "configuration) does not change between the operations",
]
IMPORT_REPO_IN_PARENT = False
MAXTASKS = 4
UD = {"FUZ": {"num": "IN", "grp": ("num", {"a": "IN", "b": "DE"})}, "BAR": {"lat": "LA", "NS": "LAD"}}
UD2 = {"FUZ": {"x": "CH"}, "BAZ": {"num": "IN"}}
TABLES = (
    "NMEA_PAYLOADS_GET", "NMEA_PAYLOADS_GET_PROP", "NMEA_PAYLOADS_SET", "NMEA_PAYLOADS_SET_PROP",
    "NMEA_PAYLOADS_POLL", "NMEA_PAYLOADS_POLL_PROP", "NMEA_MSGIDS", "NMEA_MSGIDS_PROP", "NMEA_TALKERS",
    "NMEA_PREFIX_PROP", "NMEA_HDR", "LEAPSECONDS", "VALID_TYPES",
)


# the published data; other tables (caches) are the package's own business
NAMES = set(
    "BDS CH DE DEFAULT_BUFSIZE DEF_PROP DEF_STND DEF_UNKN DEF_USER DM DT DTL ENCODE_CHUNKED ENCODE_COMPRESS "
    "ENCODE_DEFLATE ENCODE_GZIP ENCODE_NONE ERR_IGNORE ERR_LOG ERR_RAISE FIXTYPE_GGA FMI_STATUS GAL GET GLO GNSSLIST GPS "
    "HX IN INPUT IRN KNOTSCONV LA LAD LEAPSECONDS LN LND NMEA_HDR NMEA_MSGIDS NMEA_MSGIDS_PROP NMEA_PAYLOADS_GET "
    "NMEA_PAYLOADS_GET_PROP NMEA_PAYLOADS_GET_UNICORE NMEA_PAYLOADS_POLL NMEA_PAYLOADS_POLL_PROP NMEA_PAYLOADS_SET "
    "NMEA_PAYLOADS_SET_PROP NMEA_PREFIX_PROP NMEA_PROTOCOL NMEA_TALKERS OUTPUT POLL POSMODE QS QUALITY QZS RTCM3_PROTOCOL "
    "SBA SET SETPOLL SIGNALID ST SYSTEMID TM UBX_PROTOCOL VALCKSUM VALID_TYPES VALMSGID VALNONE WGS84 WGS84_FLATTENING "
    "WGS84_SMAJ_AXIS".split()
)


def spoil(parts):
    """What get_parts gives is its caller's, who may change it."""
    out = copy.deepcopy(parts)
    for x in parts:
        if isinstance(x, list):
            x.append("X")
            x.reverse()
    return out


def published(P):
    """Everything the package publishes which is data."""
    import sys

    out = []
    for name in sorted(sys.modules):
        if name.split(".")[0] != "pynmeagps":
            continue
        for n, v in sorted(vars(sys.modules[name]).items()):
            if n in NAMES and isinstance(v, (dict, list, tuple, str, bytes, int, float, set)):
                out.append((name, n, repr(v)))
    return out


def show(P, x):
    if isinstance(x, P.NMEAMessage):
        return (
            str(x), repr(x), tuple(x.payload), x.checksum, x.identity, x.talker, x.msgID, x.msgmode, x.serialize(),
            tuple((k, repr(v)) for k, v in vars(x).items() if k[:1] != "_"),
        )
    if isinstance(x, tuple):
        return tuple(show(P, y) for y in x)
    return repr(x)


class Changed(Exception):
    pass


def call(P, live, fun, /, *args, **kw):
    before = copy.deepcopy((args, kw))
    try:
        out = fun(*args, **kw)
    except Exception as err:  # pylint: disable=broad-except
        res = (type(err).__name__, str(err))
    else:
        res = show(P, out)
        if live is not None and isinstance(out, P.NMEAMessage):
            live.append((out, res))
    if repr((args, kw)) != repr(before):
        raise Changed(f"arguments change from {before!r} to {(args, kw)!r}")
    return res


def read_all(P, els, sock=False, **kw):
    data = b"".join(e.data for e in els)
    st = S.FakeSocket([data[:7], data[7:30], data[30:]]) if sock else S.bio(data)
    ud = kw.get("userdefined")
    before = repr(ud)
    out = []
    for raw, msg in P.NMEAReader(st, quitonerror=0, **kw):
        out.append((raw, str(msg)))
    if repr(ud) != before:
        raise Changed("user-defined dictionary changes")
    return out


def chunked(P, data, cut, encoding=1, bufsize=4096):
    w = P.SocketWrapper(S.FakeSocket([data[:cut], data[cut : cut + 2], data[cut + 2 :]]), encoding=encoding, bufsize=bufsize)
    return w.read(1), w.readline(), w.readline(), w.read(3)


def ops(P):
    """name -> function(live) returning a comparable result"""
    from datetime import date, datetime, time, timezone

    t1, d1 = time(1, 2, 3), date(2020, 2, 3)
    dt1 = datetime(2016, 12, 31, 23, 59, 59, tzinfo=timezone.utc)
    NR, NM = P.NMEAReader.parse, P.NMEAMessage
    cd = b"5\r\n$GNZZ\r\n4\r\n*40\r\r\n1\r\n\n\r\n0\r\n\r\n"
    import gzip

    o = {}

    def op(name, fun, /, *args, **kw):
        o[name] = lambda live: call(P, live, fun, *copy.deepcopy(args), **copy.deepcopy(kw))

    op("parse GLL", NR, S.GLL.data)
    op("parse GLL south", NR, ref.sentence("GNGLL,0130.5,S,00130.5,W,010203.00,A,A"))
    op("parse GSV", NR, S.GSV.data)
    op("parse RMC", NR, S.RMC.data)
    op("parse unknown", NR, S.UNK.data)
    op("parse unknown validated", NR, S.UNK.data, validate=3)
    op("parse bad checksum", NR, S.BADCK.data)
    op("parse bad checksum unchecked", NR, S.BADCK.data, validate=0)
    op("parse bad group", NR, S.BADFLD2.data)
    op("parse garbage", NR, b"$*")
    op("parse PUBX", NR, S.PUBX.data)
    op("parse ack", NR, S.ACK.data)
    op("parse poll", NR, ref.sentence("EIGNQ,RMC"), msgmode=2)
    op("parse userdefined", NR, ref.sentence("GNFUZ,2,1,1.5,2,2.5"), userdefined=UD)
    op("parse userdefined 2", NR, ref.sentence("GNFUZ,2,1,1.5,2,2.5"), userdefined=UD2)
    op("parse userdefined none", NR, ref.sentence("GNFUZ,2,1,1.5,2,2.5"))
    op("parse userdefined bad", NR, ref.sentence("GNFUZ,x,1,1.5,2,2.5"), userdefined=UD)
    op("generate GLL", NM, "GN", "GLL", 0, lat=-1.5, lon=2.25, time=t1, status="A", posMode="A")
    op("generate GLL hp", NM, "GN", "GLL", 0, hpnmeamode=True, lat=-1.5123456, lon=-2.25, time=t1)
    op("generate GLL nominal", NM, "GN", "GLL", 0, time=t1)
    op("generate GSV", NM, "GP", "GSV", 0, numMsg=1, svid_01=5, svid_02=7, cno_03=40)
    op("generate GSV small", NM, "GP", "GSV", 0, numMsg=1, numSV=0)
    op("generate failing", NM, "GN", "GLL", 0, lat="x", lon=5, time=t1)
    op("generate unknown", NM, "GN", "QQQ", 0, a=1, b=[2])
    op("generate bad mode", NM, "GN", "GLL", 7)
    op("generate QTM", NM, "P", "QTMCFGUART", 1, baudrate=9600)
    op("generate list", NM, "GN", "TXT", 0, numMsg=1, text=[1, "2"])
    op("generate userdefined", NM, "GN", "FUZ", 0, userdefined=UD, num=2, a_01=1, b_02=2.5)
    op("construct GSV", NM, "GP", "GSV", 0, payload=S.GSV.data[7:-5].decode().split(","))
    op("construct unknown", NM, "GN", "XYZ", 0, payload=["1", "", "[x]"])
    op("construct bad", NM, "GN", "GLL", 0, payload=["x", "N", "y"])
    op("construct PSSNSNC", NM, "P", "SSN", 0, payload=["SNC", "[1", "20", "2000", "[S1", "0", "a", "b]]"])
    op("read", lambda: read_all(P, [S.DOL, S.SHORT, S.BADCK, S.ACK]))
    op("read header at end", lambda: read_all(P, [S.SHORT, S.DOL]))
    op("read half header", lambda: read_all(P, [S.SHORT, S.El("cut", b"$GNGLL,53", "foreign")]))
    op("read nmeaonly", lambda: read_all(P, [S.DOL, S.SHORT, S.UBXD, S.UNKP], nmeaonly=True))
    op("read userdefined", lambda: read_all(P, [S.El("FUZ", ref.sentence("GNFUZ,1,1,2"), "good")], userdefined=copy.deepcopy(UD)))
    op("read socket", lambda: read_all(P, [S.SHORT, S.UBXD, S.UNKP], True))
    op("socket chunked", lambda: chunked(P, cd, 11))
    op("socket chunked incomplete", lambda: chunked(P, cd[:13], 3))
    op("socket chunked bad", lambda: chunked(P, b"xx\r\n$GNZZ\r\n", 4))
    op("socket gzip", lambda: chunked(P, gzip.compress(b"$GNZZ*40\r\nabc\nxyz", mtime=0), 999, 2))
    op("convert ddd2dmm", lambda: (P.ddd2dmm(53.45, "LA"), P.ddd2dmm(-3.25, "LN", True), P.ddd2dmm("", "LA")))
    op("convert ddd2dmm bad", P.ddd2dmm, "x", "LA")
    op("convert dmm2ddd", lambda: (P.dmm2ddd("5327.03942"), P.dmm2ddd("00030.5"), P.dmm2ddd("")))
    op("convert deg", lambda: (P.deg2dms(-2.5, "LN"), P.deg2dmm(12.5, "LA"), P.dms2deg("51\u00b020\u203245.6\u2033S"), P.llh2iso6709(1.5, -2, 3)))
    op("convert dms2deg bad", P.dms2deg, "nonsense")
    op("convert times", lambda: (P.utc2wnotow(dt1, "E"), P.wnotow2utc(1930, 604799000, None, "G", False, False), P.leapsecond(dt1, "G")))
    op("convert dates", lambda: (P.date2utc("010106"), P.time2utc("123456.78"), P.date2str(d1), P.time2str(t1)))
    op("convert date bad", P.date2utc, "999999")
    op("convert distances", lambda: (P.haversine(1, 2, 3, 4), P.planar(1, 2, 1.1, 2.1), P.bearing(1, 2, 3, 4)))
    op("convert ecef", lambda: (P.llh2ecef(1, 2, 3), P.ecef2llh(3980574.247, -102.127, 4966830.065)))
    op("message lists", lambda: (spoil(P.get_parts(S.GLL.data)), P.calc_checksum("GNZZ"), P.msgdesc("GLL"), P.msgdesc("?")))
    op("val2str", lambda: [P.NMEAMessage.val2str(v, t) for v, t in ((1, "IN"), (1.5e-7, "DE"), (d1, "DT"), (d1, "DM"), (t1, "TM"))])
    op("str2val", lambda: [P.NMEAMessage.str2val(v, t) for v, t in (("1", "IN"), ("", "DE"), ("030220", "DT"), ("020320", "DM"))])
    op("str2val bad", P.NMEAMessage.str2val, "x", "ZZ")
    op("nomval", lambda: [P.NMEAMessage.nomval(t, m) for t in ("CH", "IN", "DE", "LAD", "QS") for m in (0, 1, 2)])
    return o


NOPS = 57


def variants(P):
    """
    Families of close variants of one operation: the arguments of two members differ in one or
    few places, or are equal but of different types. name -> list of functions.
    """
    from datetime import date, datetime, time, timedelta, timezone

    utc, cet = timezone.utc, timezone(timedelta(hours=1))
    prod = itertools.product
    fams = {}

    def fam(name, fun, argss, /):
        lst = []
        for i, a in enumerate(argss):
            args, kw = a if isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], tuple) and isinstance(a[1], dict) else (a, {})
            label = f"{name} {i} {args!r} {kw!r}"[:300]
            lst.append((label, lambda live, args=args, kw=kw: call(P, live, fun, *copy.deepcopy(args), **copy.deepcopy(kw))))
        fams[name] = lst

    # dates around leap seconds, week and year boundaries
    days = []
    for y, m in ((1981, 7), (1999, 1), (2006, 1), (2009, 1), (2012, 7), (2015, 7), (2017, 1)):
        d = datetime(y, m, 1, tzinfo=utc)
        days += [d - timedelta(days=40), d - timedelta(seconds=1), d, d + timedelta(days=40), d.replace(month=m + 3)]
    days += [datetime(2019, 4, 6, 23, 59, 42, tzinfo=utc), datetime(2019, 4, 7, tzinfo=utc), datetime(2024, 2, 29, 12, tzinfo=utc)]
    fam("leapsecond", P.leapsecond, prod(days + [d.replace(tzinfo=None) for d in days[5:25:2]], "GECJI"))
    late = days[5:]
    fam("utc2wnotow", P.utc2wnotow, prod(late[::2] + [late[0].astimezone(cet)], "GEC", (True, False)))
    fam("utc2wnotow 2", P.utc2wnotow, [(d,) for d in late] + [(d, g) for d in late[:4] for g in "GECJI"])
    fam("wnotow2utc", P.wnotow2utc, prod((1, 1023, 1024, 1930, 2061), (0, 1, 604799999, 345600000), (None, 0, 18), "GEC"))
    fam("wnotow2utc 2", P.wnotow2utc, prod((1, 1023, 1930), (0, 604799000), (None, 18), "GCI", (False, True), (True, False)))
    degs = (0, 0.0, -0.0, 1, 1.0, True, -1, 1.5, -1.5, 12.999999999, 59.9999999999, 89.99999999, "", "1", None, 179.5)
    fam("ddd2dmm", P.ddd2dmm, prod(degs, ("LA", "LN"), (False, True)))
    fam("deg2dmm", P.deg2dmm, prod(degs, ("LA", "LN")))
    fam("deg2dms", P.deg2dms, prod(degs, ("LA", "LN")))
    fam("latlon2dms", P.latlon2dms, prod(degs[:9], degs[3:10]))
    fam("latlon2dmm", P.latlon2dmm, prod(degs[:9], degs[3:10]))
    fam("dmm2ddd", P.dmm2ddd, [(x,) for x in ("", "0000.0", "00000.0", "5327.03942", "05327.03942", "0530.0", "530.0", "-0530.0", "x", "99", "5327.039421", "5327.03942 ", ".5")])
    dms = ["51\u00b020\u203245.6\u2033N", "51\u00b020\u203245.6\u2033S", "51\u00b020.76\u2032S", "51.346S", "-51.346", "51 20 45.6 S", "51 20 45.6 W", "x"]
    fam("dms2deg", P.dms2deg, [(x,) for x in dms] + list(prod(dms, (7, 2, 0, 10))))
    fam("iso6709", P.llh2iso6709, [(a, b, c) for a, b, c in prod((0.0, -0.0, 1, 1.0, -1.5), (2, -2.5), (0, -3, 8850.0))] + [(1.5, 2.5, 3, "X")])
    dates = [date(y, m, d) for y, m, d in ((2001, 2, 3), (2001, 3, 2), (1999, 2, 3), (2099, 2, 3), (2003, 2, 1), (1901, 2, 3))]
    fam("date2str", P.date2str, prod(dates + ["", "2001-02-03", datetime(2001, 2, 3)], ("DT", "DTL", "DM")))
    fam("date2utc", P.date2utc, prod(("010203", "020103", "030201", "010269", "010268", "01022003", "01021903", "02012003", "", "x", "310201"), ("DT", "DTL", "DM")))
    times = [time(1, 2, 3), time(1, 2, 3, 40000), time(1, 2, 3, 45678), time(3, 2, 1), time(0), "", time(1, 2, 3, tzinfo=utc)]
    fam("time2str", P.time2str, [(t,) for t in times])
    fam("time2utc", P.time2utc, [(t,) for t in ("010203", "010203.04", "010203.0", "010203.045678", "000000", "0102", "", "246060")])
    pts = [(0, 0), (0.0, -0.0), (51.5, -0.25), (-51.5, 0.25), (1, 2), (1.0, 2.0), (90, 0), (10, 179.5), (10, -179.5)]
    pairs = [(*a, *b) for a in pts for b in pts]
    for n in ("haversine", "planar", "area"):
        fam(n, getattr(P, n), pairs[::2] + [(*p, r) for p in pairs[3:60:6] for r in (1, 1.0, 6371)])
    fam("bearing", P.bearing, pairs)
    ecef = [P.llh2ecef(a, b, c) for a, b, c in prod((0, 45, -45.5, 89.9), (0, 10, -170), (0, 1000, -200))]
    for n, ps in (("llh2ecef", list(prod((0, 45.0, -45.0, 90), (0, 10, -170), (0, 0.0, 1000)))), ("ecef2llh", ecef)):
        fam(n, getattr(P, n), ps + [(*p, a, f) for p in ps[::3] for a, f in ((6378137.0, 298.257223563), (6378136.0, 298.257839303), (6378137.0, 300))])
    fam("knots2spd", P.knots2spd, prod((0, 1, 1.0, 10.5, -1), ("MS", "KMPH", "MPH", "FT", "ms", "XX")))
    fam("hex2str", P.hex2str, prod((0, 1, 15, 16, 255, 4096, True), (0, 2, 4)))
    fam("calc_checksum", P.calc_checksum, [(x,) for x in ("", "GNGLL", "GNGLM", "GNLGL", "\u00e9", "$GNGLL*", "GNGLL,1")])
    fam("msgdesc", P.msgdesc, [(x,) for x in ("GLL", "UBX00", "QTMACK", "GLLX", "gll", "", "PUBX00", "P", "FOO", "UBX", "UBX03")])
    nm = P.NMEAMessage
    typs = ("CH", "ST", "DE", "IN", "HX", "LA", "LN", "LAD", "LND", "QS", "TM", "DT", "DTL", "DM")
    vals = (0, 1, 1.0, True, -1.5, 0.0, -0.0, "", "1", "a", "2001-02-03", dates[0], times[0], times[1], 1e-7, 12.25)
    for t in typs:
        fam(f"val2str {t}", nm.val2str, [((v, t), k) for v in vals for k in ({}, {"hpmode": True})] if t in ("LA", "LN") else prod(vals, (t,)))
    strs = ("", "1", "01", "1.0", "-1", "x", "010203", "01022003", "010203.5", "0530.5", "00530.5", "N", "S")
    fam("str2val", nm.str2val, prod(strs, typs))
    fam("nomval", nm.nomval, prod([t for t in typs if t not in ("TM", "DT", "DTL", "DM")], (0, 1, 2)))

    # one sentence, received in many ways
    def parses(name, heads, pays, modes=(0,), uds=(None,)):
        lst = []
        for head, pay, mode, ud in prod(heads, pays, modes, uds):
            content = ",".join([head] + pay)
            s = ref.sentence(content)
            for data, flags in ((s, 1), (s, 3), (s[:-4] + b"00" + s[-2:], 1), (s[:-4] + b"00" + s[-2:], 0), (s[:-4] + s[-4:-2].lower() + s[-2:], 1)):
                kw = {"msgmode": mode, "validate": flags}
                if ud is not None:
                    kw["userdefined"] = ud
                lst.append(((data,), kw))
        fam("parse " + name, P.NMEAReader.parse, lst)

    gll = ["5327.0", "N", "00214.5", "W", "223232.00", "A", "A"]
    parses("GLL", ("GNGLL", "GPGLL", "GXGLL"), [gll, gll[:1] + ["S"] + gll[2:], gll[:3] + ["E"] + gll[4:], gll[:3], [""] * 7, ["0530.5"] + gll[1:]])
    gsv = [["3", "1", "11"] + [str(10 * i + j) for i in range(n) for j in range(4)] for n in (0, 1, 2, 4)]
    parses("GSV", ("GPGSV", "GLGSV"), gsv + [g + ["1"] for g in gsv] + [["3", "1", "x"]])
    parses("RMC", ("GNRMC",), [["010203.00", "A"] + gll[:4] + ["1.5", "2.5", d, "", "", "A", "V"] for d in ("010203", "020103", "310299", "")], (0, 2))
    parses("PUBX", ("PUBX",), [["00"] + [""] * 19, ["04", "073731.00", "091202", "113851.00", "1196", "15D", "1930035", "-2660.664", "43"],
                               ["03", "1", "23", "-", "", "", "45", "010"], ["40", "GLL", "1", "0", "0", "0", "0", "0"], ["99"], []], (0, 1, 2))
    parses("QTM", ("PQTMCFGUART", "PQTMCFGMSGRATE", "PQTMCFGSAT", "PQTMSN"),
           [["OK"], ["OK", "1"], ["R"], ["R", "1"], ["W", "9600"], ["W", "1", "9600"], ["W", "GLL", "1"], ["OK", "1", "9600", "8", "0", "1", "0"], ["ERROR", "1"]], (0, 1, 2))
    parses("FUZ", ("GNFUZ", "GNBAR", "GNBAZ", "GNGLL"), [["2", "1", "1.5", "2", "2.5"], ["1", "N"], ["x"], []], (0, 1), (None, {}, UD, UD2))
    parses("ASHR", ("PASHR",), [["010203.00", "1", "T", "2", "3", "4", "5", "6", "7", "8", "9"], ["POS", "1", "2", "010203.00"], ["HPR", "1"], ["x"], []], (0, 1))
    parses("unknown", ("GNXXX", "PXXX", "ZZXXX", "GNGLLL", "GNGL", "PGLL"), [["1"], ["1", "2"], [""], []], (0, 1, 2))
    parses("other ids", ("GNGGA", "GNGNS", "GNGST", "GNTXT", "GNDTM", "GNVTG", "GNZDA", "GNTHS"), [["1"], ["1", "2", "3"], [""] * 20, ["010203.00", "A"]], (0, 2))

    # one message, generated in many ways
    lst = []
    full = {"lat": 1.5, "lon": -2.5, "time": times[0], "status": "A", "posMode": "A"}
    for change in ({}, {"lat": -1.5}, {"lat": 1}, {"lat": 0.0}, {"lat": -0.0}, {"lon": 2.5}, {"lat": ""}, {"time": times[1]}, {"time": "01:02:03"},
                   {"status": "V"}, {"NS": "S"}, {"EW": "E"}, {"lat": "x"}, {"bogus": 1}, {"lat": True}):
        for hp in (False, True):
            for talker in ("GN", "GP", "QQ"):
                for flags in (1, 3):
                    lst.append(((talker, "GLL", 0), dict(full, hpnmeamode=hp, validate=flags, **change)))
    fam("generate GLL", nm, lst)
    lst = []
    for kw in ({"numSV": 0}, {"svid_01": 1}, {"svid_01": 1, "svid_02": 2}, {"svid_02": 2}, {"cno_12": 3}, {"svid_01": 1.0}, {"svid_01": True}, {"svid_01": "1"}, {"signalID": 7}):
        lst += [((t, "GSV", 0), dict(kw, numMsg=n)) for t in ("GP", "GL") for n in (1, 2, "x")]
    fam("generate GSV", nm, lst)
    lst = []
    for kw in ({}, {"portid": 1}, {"baudrate": 9600}, {"portid": 1, "baudrate": 9600}, {"databit": 8}, {"portid": 1, "baudrate": 9600, "databit": 8}, {"bogus": 1}, {"status": "OK"}):
        lst += [(("P", i, m), dict(kw)) for i in ("QTMCFGUART", "QTMCFGGEOFENCE", "QTMCFGMSGRATE", "QTMCFGPPS", "QTMCFGSAT") for m in (0, 1, 2)]
    fam("generate QTM", nm, lst)
    lst = []
    for kw in ({}, {"num": 1}, {"num": 2, "a_01": 1}, {"num": 2, "a_01": 1, "a_02": 2}, {"x": "y"}, {"lat": -1.5}, {"lat": 1.5, "NS": "S"}):
        lst += [(("GN", i, m), dict(kw, **u)) for i in ("FUZ", "BAR", "BAZ") for m in (0, 1) for u in ({}, {"userdefined": UD}, {"userdefined": UD2})]
    fam("generate user-defined", nm, lst)
    lst = []
    for pay in ([], ["1"], ["1", "2"], ["1", "2", "3", "4"], [""], ["1"] * 30, ["00", "1"], ["40", "GLL"]):
        lst += [((t, i, m), {"payload": pay, **k}) for t, i in (("GN", "GLL"), ("GN", "TXT"), ("P", "UBX"), ("P", "QTMSN"), ("GN", "QQQ"), ("QQ", "GLL"))
                for m in (0, 1, 2) for k in ({}, {"checksum": "00"}, {"validate": 3})]
    fam("construct", nm, lst)

    # one stream, read with many configurations
    els = [S.DOL, S.SHORT, S.BADCK, S.UNK, S.El("FUZ", ref.sentence("GNFUZ,1,1,2"), "good"), S.TALK, S.ACK, S.DOLX]
    lst = []
    for kw in ({}, {"nmeaonly": True}, {"validate": 0}, {"validate": 2}, {"validate": 3}, {"msgmode": 1}, {"msgmode": 2}, {"userdefined": UD}, {"userdefined": UD2},
               {"bufsize": 3}, {"nmeaonly": True, "validate": 3}):
        lst += [((els[k:],), dict(kw, sock=s)) for s in (False, True) for k in (0, 1, 3)]
    fams["read"] = [(f"read {i} {a!r}", lambda live, a=a: call(P, None, lambda: read_all(P, a[0][0], **copy.deepcopy(a[1])))) for i, a in enumerate(lst)]
    import gzip
    import zlib

    txt = b"$GNZZ*40\r\nabc\nxyz"
    co = zlib.compressobj(wbits=-15)
    raw = co.compress(txt) + co.flush()
    bodies = (txt, gzip.compress(txt, mtime=0), zlib.compress(txt), raw)
    bodies += tuple(b"%x\r\n%s\r\n0\r\n\r\n" % (len(b), b) for b in bodies) + (b"zz\r\n" + txt,)
    fams["socket"] = [
        (f"socket {i} cut {c} encoding {e} bufsize {z}", lambda live, b=b, c=c, e=e, z=z: call(P, None, lambda: chunked(P, b, c, e, z)))
        for (i, b), c, e, z in prod(enumerate(bodies), (5, 999), (0, 1, 2, 3, 4, 5, 8, 9), (4096, 8))
    ]
    return fams


NFAMS = 59


def dops(P, d):
    """Operations with one definition: name -> function."""
    raws = [f[2] for f in ref.fields_for(d, "plain", 2)]
    good = ref.sentence(ref.content_of(d, raws))
    one = ref.sentence(ref.content_of(d, [f[2] for f in ref.fields_for(d, "odd", 1)]))
    cut = ref.sentence(ref.content_of(d, raws[: (len(raws) + 1) // 2]))
    bad = ref.sentence(ref.content_of(d, raws[:1] + ["?!"] * (len(raws) - 1)))
    kw = dict(ref.expected(d.layout, raws))
    kw.update(gen.required(d))
    o = {}

    def op(name, fun, /, *args, **kw):
        o[f"{name} {d}"] = lambda live: call(P, live, fun, *copy.deepcopy(args), **copy.deepcopy(kw))

    op("parse", P.NMEAReader.parse, good, msgmode=d.mode)
    op("parse 1", P.NMEAReader.parse, one, msgmode=d.mode)
    op("parse cut", P.NMEAReader.parse, cut, msgmode=d.mode)
    op("parse bad", P.NMEAReader.parse, bad, msgmode=d.mode)
    op("generate", P.NMEAMessage, d.talker, d.msgid, d.mode, **kw)
    op("generate bad", P.NMEAMessage, d.talker, d.msgid, d.mode, **dict(kw, **{n: object for n in list(kw)[-1:]}))
    return o


def merges(P):
    """Readers (name -> function returning a fresh reader) for the merge exploration."""
    a = b"".join(e.data for e in (S.DOL, S.SHORT, S.UNK, S.ACK))
    b = b"".join(e.data for e in (S.SHORT, S.BADCK, S.DOLX, S.GSV))
    c = ref.sentence("GNFUZ,1,1,2") + S.DOL2.data + S.SHORT.data + S.DOL.data
    d = b"".join(e.data for e in (S.BADCK, S.SHORT, S.BADFLD, S.BADCK2, S.ACK, S.BADFLD2))

    def handled(data, **kw):
        box = []
        return P.NMEAReader(S.bio(data), quitonerror=1, errorhandler=lambda err: box.append((type(err).__name__, str(err))), **kw), box

    chunks = b"".join(b"%x\r\n" % len(x) + x + b"\r\n" for x in (a[:9], a[9:30], a[30:], b)) + b"0\r\n\r\n"
    return {
        "plain": lambda: P.NMEAReader(S.bio(a), quitonerror=0),
        "nmeaonly": lambda: P.NMEAReader(S.bio(b), quitonerror=2, nmeaonly=True),
        "unchecked": lambda: P.NMEAReader(S.bio(b), quitonerror=2, validate=0),
        "userdefined": lambda: P.NMEAReader(S.bio(c), quitonerror=2, userdefined=copy.deepcopy(UD)),
        "userdefined 2": lambda: P.NMEAReader(S.bio(c), quitonerror=2, userdefined=copy.deepcopy(UD2)),
        "handler": lambda: handled(d),
        "handler 2": lambda: handled(b + d, nmeaonly=True),
        "ignoring": lambda: P.NMEAReader(S.bio(d), quitonerror=0),
        "set mode": lambda: P.NMEAReader(S.bio(a), quitonerror=2, msgmode=1),
        "socket": lambda: P.NMEAReader(S.FakeSocket([a[:9], a[9:50], a[50:]]), quitonerror=2),
        "socket 2": lambda: P.NMEAReader(S.FakeSocket([b[:3], b[3:80], b[80:]]), quitonerror=2, bufsize=4),
        "chunked": lambda: P.NMEAReader(S.FakeSocket([chunks[:7], chunks[7:40], chunks[40:]]), quitonerror=2, encoding=1),
        "chunked cut": lambda: P.NMEAReader(S.FakeSocket([chunks[:17], chunks[17:18], chunks[18:60]]), quitonerror=2, encoding=1),
    }


def one_read(P, rdr):
    """Result of one read (and, if it has an own error handler, what that got)."""
    if isinstance(rdr, tuple):
        rdr[1].clear()
        return one_read(P, rdr[0]), list(rdr[1])
    try:
        raw, msg = rdr.read()
    except (P.NMEAParseError, P.NMEAMessageError, P.NMEATypeError, P.NMEAStreamError) as err:
        return (type(err).__name__, str(err))
    return (raw, None if msg is None else show(P, msg))


def shards(tier):
    quick = tier == "quick"
    out = [["pairs", i] for i in range(NOPS)]
    out += [["triples", i] for i in range(NOPS)]
    out += [["repeat", i] for i in range(NOPS)]
    n = len(ref.all_defs())
    step = 6
    out += [["defs", i, min(n, i + step), quick] for i in range(0, n, step)]
    out += [["variants", i, j] for i in range(NFAMS) for j in range(3)]
    names = 10
    out += [["merge", i, j] for i in range(names) for j in range(i, names)]
    if not quick:
        out += [["quads", i, j] for i in range(NOPS) for j in range(0, NOPS, 8)]
    return out


def baselines(P, table, ctx):
    """Result of each operation in a process of its own."""
    base = {}
    for n in table:
        res = sched.in_child(lambda n=n: table[n](None))
        if res[0] != "ok":
            ctx.case([n])
            ctx.violation(f"{n} alone in a fresh process: {res[1]}")
            raise core.Stop()
        base[n] = res[1]
    return base


def run_shard(shard, ctx):
    P = core.use_repo()
    kind = shard[0]
    if kind == "merge":
        run_merge(P, shard, ctx)
        return
    if kind == "defs":
        run_defs(P, shard, ctx)
        return
    if kind == "variants":
        run_variants(P, shard, ctx)
        return
    table = ops(P)
    assert len(table) == NOPS, len(table)
    names = list(table)
    base = baselines(P, table, ctx)
    for n in names:
        ctx.outcome(repr((n, base[n])))
    pub = published(P)
    first = names[shard[1]]

    def check(seq, live):
        """Run a sequence; every result must be that of the operation alone."""
        for k, n in enumerate(seq):
            try:
                got = table[n](live)
            except Changed as err:
                return f"{seq[:k + 1]}: {n}: {err}"
            if got != base[n]:
                return f"{n} after {seq[:k]} gives {got!r}, in a fresh process {base[n]!r}"
        for m, was in live:
            if show(P, m) != was:
                return f"a message created in {seq} changes from {was[0]} to {m}"
        return None

    def tables(seq):
        now = published(P)
        if now != pub:
            d = [x[:2] for x, y in zip(pub, now) if x != y] or [x[:2] for x in set(pub) ^ set(now)]
            return f"published data {d[0]} change after {seq}"
        return None

    signal.setitimer(signal.ITIMER_REAL, 0)
    if kind == "pairs":
        # every pair in a fresh process, with the tables compared
        for n in names:
            for seq in ([first, n], [first, first, n]):
                ctx.case(seq)
                ctx.add(states=1, transitions=len(seq), evaluations=1, distinct_nontrivial=int(n != first))
                res = sched.in_child(lambda seq=seq: check(seq, []) or tables(seq))
                if res != ("ok", None):
                    ctx.violation(f"{res[1]}")
    elif kind == "repeat":
        def go():
            live = []
            for k in range(1500):
                bad = check([first], live)
                if bad:
                    return f"repetition {k}: {bad}"
                del live[:-3]
            for n in names:
                bad = check([n], live)
                if bad:
                    return f"after 1500 times {first}: {bad}"
            return tables([first])

        ctx.case([first, "1500 times, then each operation"])
        ctx.add(states=1500, transitions=1500, evaluations=1500 + len(names), distinct_nontrivial=len(names))
        res = sched.in_child(go, 600)
        if res != ("ok", None):
            ctx.violation(f"{res[1]}")
    else:
        def go():
            n = 0
            if kind == "triples":
                seqs = itertools.product([first], names, names)
            else:
                seqs = itertools.product([first], names[shard[2] : shard[2] + 8], names, names[n % 2 :: 2])
            for seq in seqs:
                n += 1
                bad = check(seq, [])
                if bad:
                    return n, list(seq), bad
            return n, [first], tables([first, "...", "..."])

        ctx.case([first, kind, shard[1:]])
        res = sched.in_child(go, 800)
        if res[0] != "ok":
            ctx.violation(f"{first}: {res[1]}")
            return
        n, seq, bad = res[1]
        ctx.add(states=n, transitions=n * (3 if kind == "triples" else 4), evaluations=n, distinct_nontrivial=n)
        if bad:
            ctx.case(seq)
            ctx.violation(bad)


def run_defs(P, shard, ctx):
    lo, hi, quick = shard[1:]
    defs = ref.all_defs()
    # this shard's definitions are the history; quick: followed by each of the shard and by
    # representatives, thorough: by every definition
    firsts = defs[lo:hi]
    seconds = firsts + (defs[::25] if quick else defs)
    table = {}
    for d in seconds:
        table.update(dops(P, d))
    res = sched.in_child(lambda: {n: table[n](None) for n in table}, 600)
    pub = published(P)
    # the baseline of a definition: its operations alone
    base = {}
    for d in seconds:
        mine = dops(P, d)
        r = sched.in_child(lambda mine=mine: {n: f(None) for n, f in mine.items()})
        ctx.case([repr(d)])
        if r[0] != "ok" or res[0] != "ok":
            ctx.violation(f"{d}: {r} {res}"[:500])
            return
        for n in mine:
            base[n] = r[1][n]
            ctx.outcome(repr(base[n])[:60])
            if res[1][n] != base[n]:
                ctx.violation(f"{n} after other definitions gives {res[1][n]!r}, alone {base[n]!r}")

    def go(d1):
        mine = dops(P, d1)
        n = 0
        for a in mine:
            for b in table:
                n += 1
                live = []
                try:
                    mine[a](live)
                    got = table[b](live)
                except Changed as err:
                    return n, f"{a}, {b}: {err}"
                if got != base[b]:
                    return n, f"{b} after {a} gives {got!r}, alone {base[b]!r}"
                for m, was in live:
                    if show(P, m) != was:
                        return n, f"{a}, {b}: a message changes from {was[0]} to {m}"
        if published(P) != pub:
            return n, f"published data change after operations with {d1}"
        return n, None

    for d1 in firsts:
        ctx.case([repr(d1), "then", len(seconds), "definitions"])
        signal.setitimer(signal.ITIMER_REAL, 0)
        r = sched.in_child(lambda d1=d1: go(d1), 800)
        if r[0] != "ok":
            ctx.violation(f"{d1}: {r}")
            continue
        n, bad = r[1]
        ctx.add(states=n, transitions=2 * n, evaluations=n, distinct_nontrivial=n)
        if bad:
            ctx.violation(bad)


def run_variants(P, shard, ctx):
    """Each member of a family first, then all others (in both directions)."""
    fams = variants(P)
    assert len(fams) == NFAMS, len(fams)
    name = list(fams)[shard[1]]
    fam = fams[name]
    signal.setitimer(signal.ITIMER_REAL, 0)
    pub = published(P)
    base = []
    for label, fun in fam:
        ctx.case([label])
        signal.setitimer(signal.ITIMER_REAL, 0)
        r = sched.in_child(lambda fun=fun: fun(None))
        if r[0] != "ok":
            ctx.violation(f"{label} alone in a fresh process: {r}")
            return
        base.append(r[1])
        ctx.outcome(repr(r[1])[:80])

    def go(order):
        live = []
        for k, i in enumerate(order):
            label, fun = fam[i]
            try:
                got = fun(live)
            except Changed as err:
                return f"{label}: {err}"
            if got != base[i]:
                return f"{label} after {[fam[j][0] for j in order[:k]][-1:]} and {max(0, k - 1)} more gives {got!r}, alone {base[i]!r}"
            for m, was in live[-3:]:
                if show(P, m) != was:
                    return f"{label}: a message changes from {was[0]} to {m}"
        if published(P) != pub:
            return f"published data change after {fam[order[0]][0]}"
        return None

    n = len(fam)
    for i in range(shard[2], n, 3):
        ctx.case([name, "from", fam[i][0]])
        signal.setitimer(signal.ITIMER_REAL, 0)
        rest = [(i + j) % n for j in range(1, n)]
        both = n <= 130 or ctx.tier != "quick"
        for order in ([i] + rest, [i] + rest[::-1]) if both else ([i] + rest[:: (1, -1)[i % 2]],):
            r = sched.in_child(lambda order=order: go(order))
            ctx.add(states=n, transitions=n, evaluations=n, distinct_nontrivial=n - 1)
            if r != ("ok", None):
                ctx.violation(r[1])


def run_merge(P, shard, ctx):
    table = merges(P)
    names = list(table)
    a, b = names[shard[1]], names[shard[2]]
    k = 5

    def alone(n):
        rdr = table[n]()
        return [one_read(P, rdr) for _ in range(k)]

    base = []
    for n in (a, b):
        r = sched.in_child(lambda n=n: alone(n))
        ctx.case([n])
        if r[0] != "ok":
            ctx.violation(f"{n}: {r}")
            return
        base.append(r[1])
        ctx.outcome(repr(r[1]))

    def go():
        cnt = 0
        for pos in itertools.combinations(range(2 * k), k):
            cnt += 1
            rdrs = [table[a](), table[b]()]
            at = [0, 0]
            for i in range(2 * k):
                w = 0 if i in pos else 1
                got = one_read(P, rdrs[w])
                if got != base[w][at[w]]:
                    return cnt, f"read {at[w]} of {(a, b)[w]} in order {pos} gives {got!r}, alone {base[w][at[w]]!r}"
                at[w] += 1
        return cnt, None

    ctx.case([a, b, "all merges of", k, "and", k, "reads"])
    r = sched.in_child(go, 300)
    if r[0] != "ok":
        ctx.violation(f"{a}, {b}: {r}")
        return
    ctx.add(states=r[1][0], transitions=r[1][0] * 2 * k, evaluations=r[1][0], distinct_nontrivial=r[1][0])
    if r[1][1]:
        ctx.violation(r[1][1])
