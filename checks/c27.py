"""
C27: a socket stream can be written while it is read, and knows what it has buffered.

Every sequence of operations read(n), readline, write, in_waiting and buffer up to the depth, under
every segmentation of short byte strings, with sockets which accept writes completely or in part,
with and without chunked coding; the model is two byte queues (in and out). Also with a reader on
top: writes between and during the reads of sentences.
"""

import itertools

from mc import core
from mc import stream as S

ID = "C27"
LEVEL = "model_checking"
RULE = (
    "all operation sequences up to the depth x all segmentations x buffer sizes x partial or complete sends; "
    "state = (bytes received, bytes delivered, bytes written), transition = operation"
)
ASSUMPTIONS = ["the socket's own send decides how much of a write it accepts and returns the number"]
DATA = [b"ab\r\ncd", b"$G\r\n\n", b"\r\r\n\x00\xff"]
OPS = ["r1", "r2", "r5", "line", "w1", "w2", "wait", "buf"]
OUT = {"w1": b"$GNGNQ,RMC*24\r\n", "w2": b"\x00\r\n\xff"}


class Sock(S.FakeSocket):
    def __init__(self, script, accept):
        super().__init__(script)
        self.accept, self.fed, self.most = accept, b"", 0

    def recv(self, n, flags=0):
        self.most = max(self.most, n)
        out = super().recv(n, flags)
        self.fed += out
        return out

    def send(self, data, *a, **kw):
        self.args = (a, kw)
        n = min(len(data), self.accept)
        self.sent.append(bytes(data[:n]))
        return n


def shards(tier):
    out = [["ops", i, a, b] for i in range(len(DATA)) for a in range(len(OPS)) for b in range(len(OPS))]
    return out + [["reader", i] for i in range(4)] + [["chunked", i] for i in range(8)]


def segmentations(data):
    n = len(data)
    for mask in range(1 << (n - 1)):
        cuts = [i + 1 for i in range(n - 1) if mask >> i & 1]
        yield [data[a:b] for a, b in zip([0] + cuts, cuts + [n])]


def run_ops(ctx, P, segs, ops, buf, accept, enc=0, plain=None):
    """plain: decoded data of a chunked transfer."""
    ctx.case([[bytes(s) for s in segs], ops, buf, accept, enc])
    sock = Sock(segs, accept)
    try:
        w = P.SocketWrapper(sock, encoding=enc, bufsize=buf)
        got, written = b"", []
        for k, op in enumerate(ops):
            if op[0] == "r":
                n = int(op[1:])
                data = w.read(n)
                if data and len(data) != n:
                    return f"read({n}) gives {data!r}"
                got += data
            elif op == "line":
                got += w.readline()
            elif op[0] == "w" and op != "wait":
                r = w.write(OUT[op])
                written.append(OUT[op][:accept])
                if r != len(written[-1]):
                    return f"write returns {r}, the socket accepted {len(written[-1])}"
            held = len(sock.fed) - len(got) if plain is None else None
            if op == "wait":
                n = w.in_waiting()
                if held is not None and n != held:
                    return f"after {k + 1} operations in_waiting is {n}, should be {held}"
                calls = sock.calls
                if plain is not None or n:
                    data = w.read(n)
                    if len(data) != n or sock.calls != calls:
                        return f"in_waiting is {n}, but read({n}) gives {data!r} with {sock.calls - calls} receives"
                    got += data
            elif op == "buf" and bytes(w.buffer) != sock.fed[len(got) :] and plain is None:
                return f"buffer is {bytes(w.buffer)!r}, should be {sock.fed[len(got):]!r}"
            want = sock.fed if plain is None else plain
            if want[: len(got)] != got:
                return f"after {k + 1} operations {got!r} was read, should be a prefix of {want!r}"
            if sock.sent != written:
                return f"socket got {sock.sent}, should be {written}"
            if sock.most > buf:
                return f"{sock.most} bytes are received at once, the buffer size is {buf}"
            ctx.add(transitions=1)
        ctx.outcome([len(got), len(written)])
        ctx.add(states=1, traces_validated_against_impl=1)
    except Exception as err:  # pylint: disable=broad-except
        return f"raised {err!r}"
    return None


def run_shard(shard, ctx):
    P = core.use_repo()
    quick = ctx.tier == "quick"
    if shard[0] == "ops":
        data = DATA[shard[1]]
        depth = 2 if quick else 3
        for tail in itertools.product(OPS, repeat=depth):
            ops = [OPS[shard[2]], OPS[shard[3]], *tail]
            # every sequence ends by emptying the stream
            ops += ["wait", "line", "w1", "line", "r1", "buf"]
            for segs in segmentations(data):
                for buf, accept in ((4096, 99), (2, 3)):
                    bad = run_ops(ctx, P, segs, ops, buf, accept)
                    if bad:
                        ctx.violation(f"segments {segs} buffer size {buf} operations {ops}: {bad}")
        return
    if shard[0] == "chunked":
        wire = (b"3\r\nab\r\r\n2\r\n\ncd\r\n0\r\n\r\n", b"1\r\na\r\n6\r\n$G\r\n\n\n\r\n0\r\n\r\n")[shard[1] % 2]
        plain = (b"ab\r\ncd", b"a$G\r\n\n\n")[shard[1] % 2]
        if shard[1] % 2 == 0:
            wire = b"3\r\nab\r\r\n3\r\n\ncd\r\n0\r\n\r\n"
        n = len(wire)
        cuts = [c for k in range(0, 3) for c in itertools.combinations(range(1, n), k)]
        for j, c in enumerate(cuts):
            if j % 4 != shard[1] // 2:
                continue
            segs = [wire[a:b] for a, b in zip([0, *c], [*c, n])]
            for ops in itertools.product(OPS, repeat=3 if quick else 4):
                ops = [*ops, "wait", "line", "w2", "r1"]
                bad = run_ops(ctx, P, segs, ops, 4096, 99, 1, plain)
                if bad:
                    ctx.violation(f"chunked, segments {segs} operations {ops}: {bad}")
        return
    els = ([S.GLL, S.TXT], [S.BADCK, S.UBXD, S.GSV], [S.DOL, S.SHORT, S.UNK], [S.PUBX, S.ACK, S.BADFLD, S.RMC])[shard[1]]
    data = b"".join(e.data for e in els)
    exp = S.want(els, S.RAISE, 1)
    polls = [b"$EIGNQ,RMC*%02X\r\n" % n for n in range(20)]
    for cut in range(1, len(data)):
        for cut2 in (cut, *([] if quick else range(cut + 1, len(data), 3))):
            ctx.case(["reader", repr(els), cut, cut2])
            segs = [s for s in (data[:cut], data[cut:cut2], data[cut2:]) if s]
            sock = Sock(segs, 99)
            try:
                rdr = P.NMEAReader(sock, quitonerror=2, bufsize=37)
                stream, got = rdr.datastream, []
                for k in range(20):
                    stream.write(polls[k])
                    try:
                        raw, msg = rdr.read()
                    except (P.NMEAParseError, P.NMEATypeError, P.NMEAMessageError, P.NMEAStreamError):
                        got.append(("err",))
                        continue
                    if raw is None:
                        got.append(("eof",))
                        break
                    got.append(S.event(P, raw, msg))
                if sock.sent != polls[: k + 1]:
                    ctx.violation(f"{els} cut {cut},{cut2}: socket got {sock.sent}, should be {polls[:k + 1]}")
                d = S.diff(got, exp)
                if sock.most > 37:
                    d = f"{sock.most} bytes are received at once, the buffer size is 37"
                if d:
                    ctx.violation(f"{els} cut {cut},{cut2} with writes in between: {d}")
                ctx.outcome(len(got))
                ctx.add(states=1, transitions=len(got), traces_validated_against_impl=1)
            except Exception as err:  # pylint: disable=broad-except
                ctx.violation(f"{els} cut {cut},{cut2}: raised {err!r}")
