"""
C26: an endless stream is read with bounded memory.

Every operation of the bounded alphabet (each kind of stream element x transport x error policy x
entry point, each way to make a message, each conversion) is a loop in the state graph of the
package: it is run around on the real code thousands of times, with different data each time,
and the memory held at the same point of the loop is compared between rounds. Alternations of
two kinds of elements are loops, too. A retained message, field, error or byte per round shows
as growth in every window; a bounded cache or a counter does not.
"""

import datetime as dt
import gc
import itertools
import socket
import tracemalloc
import zlib

from mc import core, ref
from mc import stream as S

ID = "C26"
LEVEL = "model_checking"
RULE = (
    "every element kind x transport (file, raw socket, chunked, gzip chunks) x error policy, all pairs of "
    "element kinds, every way to generate a message, every conversion, as loops of 3 x N rounds with different "
    "data in each round (N in the evidence); state = point of the loop where memory is measured, transition = "
    "round; violation = more than 4 bytes per round retained in every window but the first, also 15 N rounds later"
)
ASSUMPTIONS = [
    "memory is what Python's allocator holds at the end of a round after garbage collection (tracemalloc)",
    "caches of more than 14 N entries would be taken for a leak",
]
PER_ROUND = 4


def kinds():
    """name -> function(round number) -> bytes of one stream element, different in each round."""
    sen = ref.sentence

    def bad(c):
        ck = b"%02X" % (ref.xor(c.encode()) ^ 1)
        return sen(c, ck)

    def pos(n):
        return f"{n % 90:02d}{n % 60:02d}.{n:05d},N,{n % 180:03d}{n % 60:02d}.{n:05d},W"

    return {
        "position": lambda n: sen(f"GNGLL,{pos(n)},010203.00,A,A"),
        "group": lambda n: sen(f"GPGSV,1,1,{n % 9},{n},10,{n},{n},{n % 7 + 1}"),
        "text": lambda n: sen(f"GNTXT,01,01,02,text{n}"),
        "proprietary": lambda n: sen(f"PUBX,03,1,{n},U,{n}.5,2.5,{n},{n}"),
        "ack": lambda n: sen(f"PQTMABC{n},OK" if n % 2 else "PQTMSRR,OK"),
        "talkers": lambda n: sen(f"{chr(65 + n % 26)}{chr(65 + n // 26 % 26)}STN,{n}"),
        "unknown": lambda n: sen(f"GNX{n},{n},a,b"),
        "unknown prop": lambda n: sen(f"PX{n},{n}"),
        "userdefined": lambda n: sen(f"GNFUZ,2,{n},1.5,{n + 1},2.5"),
        "bad checksum": lambda n: bad(f"GNTXT,01,01,02,text{n}"),
        "bad field": lambda n: sen(f"GNGSV,1,1,x{n},1,2,3,4"),
        "malformed": lambda n: b"$GNTXT,%d no checksum\r\n" % n,
        "not utf-8": lambda n: b"$GNTXT,\xff%d*00\r\n" % n,
        "foreign": lambda n: b"\xb5b\x01%d\x00" % n,
        "foreign header": lambda n: b"$x%d;" % n,
        "line": lambda n: b"some text %d\r\n" % n,
    }


UD = {"FUZ": {"num": "IN", "grp": ("num", {"a": "IN", "b": "DE"})}}
KINDS = list(kinds())
CONF = [  # transport, policy, validate, nmeaonly
    ("file", 0, 1, False),
    ("file", 1, 3, False),
    ("file", 2, 1, True),
    ("socket", 2, 1, False),
    ("socket", "handler", 0, False),
    ("chunked", 0, 1, False),
    ("gzip", 2, 1, False),
]


class Source:
    """Produces the elements on demand, so that no data are kept here."""

    def __init__(self, make, limit):
        self.make, self.n, self.limit, self.buf = make, 0, limit, b""

    def more(self):
        if self.n >= self.limit:
            return False
        self.buf += self.make(self.n)
        self.n += 1
        return True

    def read(self, num=1):
        while len(self.buf) < num and self.more():
            pass
        out, self.buf = self.buf[:num], self.buf[num:]
        return out

    def readline(self):
        while b"\n" not in self.buf and self.more():
            pass
        i = self.buf.find(b"\n") + 1 or len(self.buf)
        out, self.buf = self.buf[:i], self.buf[i:]
        return out


class Sock(S.FakeSocket):
    """Socket over a source; segments of changing length."""

    def __init__(self, src, coding):  # pylint: disable=super-init-not-called
        self.src, self.coding, self.k, self.out = src, coding, 0, b""
        self.sent, self.script = [], []

    def recv(self, n, flags=0):
        if self.coding:
            while len(self.out) < 50 and self.src.more():
                c, self.src.buf = self.src.buf, b""
                if self.coding == "gzip":
                    z = zlib.compressobj(wbits=zlib.MAX_WBITS | 16)
                    c = z.compress(c) + z.flush()
                self.out += b"%x\r\n" % len(c) + c + b"\r\n"
            self.k = self.k % 97 + 1
            seg, self.out = self.out[: min(n, self.k)], self.out[min(n, self.k) :]
            return seg
        self.k = self.k % 97 + 1
        return self.src.read(min(n, self.k))


def ops(P):
    """name -> function(round number): makes and drops messages, conversions."""
    E = (P.NMEAParseError, P.NMEAMessageError, P.NMEATypeError, P.NMEAStreamError)

    def quiet(f):
        def g(n):
            try:
                f(n)
            except E:
                pass

        return g

    def show(m):
        if m is None:
            return
        m.serialize(), str(m), repr(m), m.payload, m.identity, m.checksum, m.talker, m.msgID, m.msgmode

    utc = dt.timezone.utc
    day0 = dt.date(1990, 1, 1)
    t0 = dt.datetime(1990, 1, 1, tzinfo=utc)
    table = {"parse " + k: (lambda n, f=f: show(P.NMEAReader.parse(f(n), userdefined=UD))) for k, f in kinds().items()}
    table.update(
        {
            "parse validated": lambda n: P.NMEAReader.parse(ref.sentence(f"GNX{n},{n}"), validate=3),
            "parse str": lambda n: P.NMEAReader.parse(ref.sentence(f"GNSTN,{n}").decode()),
            "parse set": lambda n: show(P.NMEAReader.parse(ref.sentence(f"PQTMCFGUART,W,{n}"), msgmode=1)),
            "parse poll": lambda n: show(P.NMEAReader.parse(ref.sentence(f"GNGNQ,R{n}"), msgmode=2)),
            "parse bad mode": lambda n: P.NMEAReader.parse(ref.sentence(f"GNSTN,{n}"), msgmode=n + 3),
            "generate": lambda n: show(P.NMEAMessage("GN", "GLL", 0, lat=n / 200, lon=-n / 300, status=f"{n}")),
            "generate hp": lambda n: show(P.NMEAMessage("GN", "GGA", 0, True, lat=-n / 200, lon=n / 300)),
            "generate group": lambda n: show(P.NMEAMessage("GP", "GSV", 0, svid_01=n, svid_02=n + 1, signalID=n)),
            "generate prop": lambda n: show(P.NMEAMessage("P", "QTMCFGUART", 1, baudrate=n)),
            "generate nominal": lambda n: show(P.NMEAMessage("GN", ("RMC", "GLL", "ZDA", "GRS")[n % 4], 0)),
            "generate user": lambda n: show(P.NMEAMessage("GN", "FUZ", 0, userdefined=UD, num=1, a_01=n)),
            "generate failing": lambda n: P.NMEAMessage("GN", "GSV", 0, numMsg=f"x{n}", lat=[n]),
            "generate unknown": lambda n: show(P.NMEAMessage("GN", f"X{n}", 0, payload=[str(n)])),
            "generate rejected": lambda n: P.NMEAMessage("GN", f"X{n}", 0, validate=3, payload=[str(n)]),
            "assign": lambda n: setattr(P.NMEAReader.parse(b"$GNSTN,1*4E\r\n", validate=0), f"a{n % 7}", n),
            "degrees": lambda n: (
                P.ddd2dmm(n / 300, "LN"), P.ddd2dmm(n / 500, "LA", True), P.deg2dmm(-n / 300, "LN"), P.deg2dms(n / 500, "LA"),
                P.dmm2ddd(f"{n % 90:02d}30.{n}"), P.dms2deg(f"{n % 90}\u00b0{n % 60}\u2032{n % 60}.{n}\u2033S"), P.latlon2dmm(n / 500, n / 300),
                P.latlon2dms(n / 500, n / 300), P.llh2iso6709(n / 500, n / 300, n),
            ),
            "times": lambda n: (
                P.date2utc(f"{n:06d}"), P.date2utc(f"{n:08d}", "DTL"), P.time2utc(f"{n:06d}"), P.time2str((t0 + dt.timedelta(seconds=n)).time()),
                P.date2str(day0 + dt.timedelta(days=n % 20000), "DM"), P.utc2wnotow(t0 + dt.timedelta(hours=n), "GECJI"[n % 5]),
                P.wnotow2utc(n % 3000, n * 1000), P.leapsecond(t0 + dt.timedelta(days=n % 9000), "C"),
            ),
            "geometry": lambda n: (
                P.haversine(n / 500, 1, 2, n / 300), P.planar(n / 500, 1, n / 500 + 0.0001, 1), P.bearing(n / 500, 1, 2, n / 300),
                P.area(n / 500, 1, 2, n / 300), P.llh2ecef(n / 500, n / 300, n), P.ecef2llh(6.4e6 + n, n, -n), P.knots2spd(n, "KMPH"),
                P.hex2str(n, 8),
            ),
            "checksum": lambda n: (
                P.calc_checksum(f"GNTXT,{n}"), P.generate_checksum("GN", "TXT", [str(n)]), P.get_parts(f"$GNTXT,{n}*00\r\n"),
                P.msgdesc(f"X{n}"),
            ),
        }
    )
    return {k: quiet(f) for k, f in table.items()}


OPS = [
    *("parse " + k for k in KINDS), "parse validated", "parse str", "parse set", "parse poll", "parse bad mode", "generate",
    "generate hp", "generate group", "generate prop", "generate nominal", "generate user", "generate failing",
    "generate unknown", "generate rejected", "assign", "degrees", "times", "geometry", "checksum",
]


def shards(tier):
    out = [["op", n] for n in OPS]
    out += [["read", k, i] for k in KINDS for i in range(len(CONF))]
    out += [["pair", a, b] for a, b in itertools.combinations(KINDS, 2)]
    return out


def windows(ctx, name, rounds, step):
    """Runs step(n) for n in three windows; memory at the end of each."""
    held = []
    tracemalloc.start(1)
    try:
        # the first, short window fills fixed tables (imports, regular expressions)
        todo, n, per = [100] + [rounds] * 3, 0, []
        while todo:
            size = todo.pop(0)
            for n in range(n, n + size):
                step(n)
            n += 1
            gc.collect()
            held.append(tracemalloc.get_traced_memory()[0])
            if len(held) > 1:
                per.append((held[-1] - held[-2]) / size)
            ctx.add(states=1, transitions=size)
            if len(per) == 3 and min(per[1:]) > PER_ROUND:
                todo = [12 * rounds, rounds]  # a leak, or a large bounded cache which is filled
    finally:
        tracemalloc.stop()
    ctx.add(traces_validated_against_impl=1)
    ctx.outcome([name, per[2] > 1])
    if len(per) == 5 and min(per[1:]) > PER_ROUND:
        ctx.violation(f"{name}: memory held grows by {per} bytes per round")


def run_shard(shard, ctx):
    P = core.use_repo()
    rounds = 1000 if ctx.tier == "quick" else 30000
    kind = shard[0]
    ctx.case([shard, {"rounds": rounds}])
    E = (P.NMEAParseError, P.NMEAMessageError, P.NMEATypeError, P.NMEAStreamError)
    if kind == "op":
        f = ops(P)[shard[1]]

        def step(n):
            if n % 1000 == 0:
                ctx.case([shard, n])
            f(n)

        windows(ctx, shard[1], rounds, step)
        return
    make = kinds()
    if kind == "read":
        one = make[shard[1]]
        transport, policy, validate, nmeaonly = CONF[shard[2]]
    else:
        a, b = make[shard[1]], make[shard[2]]
        rounds //= 2

        def one(n):
            return a(n) + b(n)

        transport, policy, validate, nmeaonly = CONF[0]
    src = Source(one, 0)
    args = dict(quitonerror=policy, validate=validate, nmeaonly=nmeaonly, userdefined=UD)
    if policy == "handler":
        args.update(quitonerror=1, errorhandler=lambda err: None)
    if transport != "file":
        enc = {"socket": 0, "chunked": 1, "gzip": 3}[transport]
        sock = Sock(src, transport if enc else "")
        rdr = P.NMEAReader(sock, encoding=enc, bufsize=64, **args)
    else:
        rdr = P.NMEAReader(src, **args)
    seen = [0]

    def step(n):
        if n % 1000 == 0:
            ctx.case([shard, n])
        src.limit = n + 1
        for _ in range(100):
            try:
                raw, _m = rdr.read()
            except E:
                seen[0] += 1
                continue
            if raw is None:
                break
            seen[0] += 1

    windows(ctx, f"{shard[1:]} {transport} {args['quitonerror']}", rounds, step)
    ctx.outcome(seen[0] > 0)
