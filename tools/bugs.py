"""Planted bugs: edits of src/pynmeagps and a demonstration each."""

BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append({"id": id, "property": prop, "edits": edits, "needs": needs, "breaks": breaks, "demo": demo})


H, M, R, S = "nmeahelpers.py", "nmeamessage.py", "nmeareader.py", "socketwrapper.py"

bug("b02-type-error-escapes", "C02", [(R, "                nme.NMEAMessageError,\n                nme.NMEATypeError,\n", "                nme.NMEAMessageError,\n")],
    "a sentence with right checksum and a field of the wrong type, error policy ignore or log",
    "the conversion error is raised out of read() in spite of the policy, and the iteration ends",
    '''
from io import BytesIO
from pynmeagps import NMEAReader, NMEAMessage
from pynmeagps.nmeahelpers import calc_checksum

def s(c):
    return f"${c}*{calc_checksum(c)}\\r\\n".encode()

data = s("GNGSV,1,1,x,1,2,3,4") + s("GNSTN,1")
try:
    got = [m.identity for _, m in NMEAReader(BytesIO(data), quitonerror=0)]
except Exception as err:
    raise SystemExit(f"raised {err!r}")
assert got == ["GNSTN"], got
''')
bug("b03-group-count-type", "C03", [(M, "            struct.error,\n            TypeError,\n            ValueError,\n", "            struct.error,\n            ValueError,\n")],
    "a sentence whose repeat count field is empty",
    "a TypeError leaks out of parse instead of the package's error",
    '''
from pynmeagps import NMEAReader, NMEAParseError, NMEAMessageError, NMEATypeError
from pynmeagps.nmeahelpers import calc_checksum

for c in ("PUBX,03,,1,-,1,2,3,4", "GNALC,1,1,1,,a,b,c,d", "PQTMSVINSTATUS,,", "PSTMSBAS,"):
    try:
        NMEAReader.parse(f"${c}*{calc_checksum(c)}\\r\\n".encode())
    except (NMEAParseError, NMEAMessageError, NMEATypeError):
        pass
''')
bug("b04-short-checksum", "C04", [(R, "if checksum.upper() != ccksum:", "if not ccksum.endswith(checksum.upper()):")],
    "a sentence with a missing or one-digit checksum",
    "a sentence whose checksum is cut off is accepted",
    '''
from pynmeagps import NMEAReader, NMEAParseError

for data in (b"$GNSTN,1*\\r\\n", b"$GNSTN,1*E\\r\\n", b"$GNSTN,1*A\\r\\n", b"$GNSTN,1*4\\r\\n"):
    try:
        NMEAReader.parse(data)
    except NMEAParseError:
        continue
    raise SystemExit(f"{data} accepted")
''')
bug("b04-flags-equal", "C04", [(R, "            if validate & VALCKSUM:\n", "            if validate == VALCKSUM:\n")],
    "checksum validation combined with message id validation (validate=3)",
    "with validate=3 wrong checksums are accepted",
    '''
from pynmeagps import NMEAReader, NMEAParseError

try:
    NMEAReader.parse(b"$GNSTN,1*00\\r\\n", validate=3)
except NMEAParseError:
    raise SystemExit(0)
raise SystemExit(1)
''')
bug("b04-lower-nibble", "C04", [(R, "if checksum.upper() != ccksum:", "if checksum.upper().strip() != ccksum:")],
    "a checksum field with blanks around it",
    "accepted although the two characters after the asterisk are not the checksum",
    '''
from pynmeagps import NMEAReader, NMEAParseError
from pynmeagps.nmeahelpers import calc_checksum

try:
    NMEAReader.parse(f"$GNSTN,1* {calc_checksum('GNSTN,1')}\\r\\n".encode())
except NMEAParseError:
    raise SystemExit(0)
raise SystemExit(1)
''')
bug("b05-read-once", "C05", [(S, "        while len(self._buffer) < num:\n            if not self._recv():\n                return b\"\"\n", "        if len(self._buffer) < num:\n            if not self._recv():\n                return b\"\"\n")],
    "a read of several bytes which needs more than one further segment",
    "read(n) returns fewer bytes although more arrive",
    '''
import socket
from pynmeagps.socketwrapper import SocketWrapper

class F(socket.socket):
    parts = [b"a", b"b", b"c", b"d"]
    def recv(self, n, flags=0):
        return self.parts.pop(0) if self.parts else b""

w = SocketWrapper(F())
got = w.read(4)
assert got == b"abcd", got
''')
bug("b05-readline-lf", "C05", [(S, 'if line[-2:] == b"\\r\\n":', 'if data == b"\\n":')],
    "a line feed which is not preceded by a carriage return",
    "readline stops at a bare line feed",
    '''
import socket
from pynmeagps.socketwrapper import SocketWrapper

class F(socket.socket):
    parts = [b"ab\\ncd\\r\\nef"]
    def recv(self, n, flags=0):
        return self.parts.pop(0) if self.parts else b""

got = SocketWrapper(F()).readline()
assert got == b"ab\\ncd\\r\\n", got
''')
bug("b05-crlf-lookback", "C05", [(S, "            if len(data) == 1:\n                line += data\n                if line[-2:] == b\"\\r\\n\":\n                    break\n",
     "            if len(data) == 1:\n                line += data\n                if data == b\"\\r\" and self._buffer[:1] == b\"\\n\":\n                    line += self.read(1)\n                    break\n")],
    "a segment boundary exactly between the CR and the LF of a sentence",
    "two sentences are merged into one line and lost",
    '''
import socket
from pynmeagps import NMEAReader
from pynmeagps.nmeahelpers import calc_checksum

a = f"$GNSTN,1*{calc_checksum('GNSTN,1')}\\r\\n".encode()

class F(socket.socket):
    parts = [a[:-1], a[-1:] + a]
    def recv(self, n, flags=0):
        return self.parts.pop(0) if self.parts else b""

got = [r for r, _ in NMEAReader(F(), quitonerror=0)]
assert got == [a, a], got
''')
bug("b06-deflate", "C06", [(S, "chunk = decompress(chunk, wbits=-MAX_WBITS)", "chunk = decompress(chunk, wbits=MAX_WBITS)")],
    "a deflate coded chunked transfer",
    "raw deflate content cannot be decoded",
    '''
import socket, zlib
from pynmeagps.socketwrapper import SocketWrapper

c = zlib.compressobj(wbits=-15)
z = c.compress(b"hello\\r\\n") + c.flush()

class F(socket.socket):
    parts = [b"%x\\r\\n" % len(z) + z + b"\\r\\n0\\r\\n\\r\\n"]
    def recv(self, n, flags=0):
        return self.parts.pop(0) if self.parts else b""

got = SocketWrapper(F(), encoding=9).readline()
assert got == b"hello\\r\\n", got
''')
bug("b07-only-timeout", "C07", [(S, "except (OSError, TimeoutError):", "except TimeoutError:")],
    "a connection reset while receiving",
    "ConnectionResetError escapes from read() instead of ending the stream",
    '''
import socket
from pynmeagps import NMEAReader

class F(socket.socket):
    parts = [b"$GN", ConnectionResetError()]
    def recv(self, n, flags=0):
        if not self.parts:
            return b""
        x = self.parts.pop(0)
        if isinstance(x, Exception):
            raise x
        return x

try:
    list(NMEAReader(F(), quitonerror=0))
except ConnectionResetError:
    raise SystemExit(1)
''')
bug("b07-timeout-drops-partial", "C07", [(S, "        except (OSError, TimeoutError):\n            return False\n", "        except (OSError, TimeoutError):\n            self._partial = b\"\"\n            return False\n")],
    "a receive timeout while a chunk is incomplete",
    "the rest of the chunk, with complete sentences in it, is lost",
    '''
import socket
from pynmeagps import NMEAReader
from pynmeagps.nmeahelpers import calc_checksum

a = f"$GNSTN,1*{calc_checksum('GNSTN,1')}\\r\\n".encode()
data = b"%x\\r\\n" % (3 * len(a)) + a * 3 + b"\\r\\n0\\r\\n\\r\\n"

class F(socket.socket):
    parts = [data[:10], TimeoutError(), data[10:]]
    def recv(self, n, flags=0):
        if not self.parts:
            return b""
        x = self.parts.pop(0)
        if isinstance(x, Exception):
            raise x
        return x

r = NMEAReader(F(), quitonerror=0, encoding=1)
got = [r.read()[0] for _ in range(6)]
assert got.count(a) >= 2, got
''')
bug("b10-next-unlocked", "C10", [(R, "        raw_data, parsed_data = self.read()\n", "        raw_data, parsed_data = self._read_message()\n")],
    "two threads iterating over one reader, preempted within a sentence",
    "sentences are torn between the threads and lost",
    '''
import sys
import threading
from io import BytesIO
from pynmeagps import NMEAReader
from pynmeagps.nmeahelpers import calc_checksum

data = b"".join(f"${c}*{calc_checksum(c)}\\r\\n".encode() for c in (f"GNSTN,{i}" for i in range(4000)))
sys.setswitchinterval(1e-6)
got = []
rdr = NMEAReader(BytesIO(data), quitonerror=0)

def work():
    for raw, _ in rdr:
        got.append(raw)

ts = [threading.Thread(target=work) for n in range(6)]
[t.start() for t in ts]
[t.join() for t in ts]
assert sorted(got) == sorted(data.splitlines(True)), len(got)
''')
bug("b12-checksum-upper", "C12", [(M, '        output += f"*{self._checksum}\\r\\n"\n', '        output += f"*{self._checksum.upper()}\\r\\n"\n')],
    "a received sentence whose checksum has lower case digits",
    "serialize() does not reproduce the received bytes",
    '''
from pynmeagps import NMEAReader
from pynmeagps.nmeahelpers import calc_checksum

for i in range(50):
    c = f"GNSTN,{i}"
    d = f"${c}*{calc_checksum(c).lower()}\\r\\n".encode()
    assert NMEAReader.parse(d).serialize() == d, d
''')
bug("b12-repr-mode", "C12", [(M, '            f"{self._mode}, payload={self._payload})"\n', '            f"{self._mode & 1}, payload={self._payload})"\n')],
    "repr of a POLL message",
    "eval(repr(message)) has another mode",
    '''
from pynmeagps import NMEAMessage

m = NMEAMessage("EI", "GNQ", 2, msgId="RMC")
n = eval(repr(m))
assert (n.msgmode, str(n)) == (2, str(m)), n
''')
bug("b13-time-string", "C13", [(M, '                vals = str(val.replace(":", ""))\n', '                vals = str(val.replace(":", ""))[:6]\n')],
    "a time attribute given as a string with decimals",
    "the decimals of the seconds are lost",
    '''
from pynmeagps import NMEAMessage

m = NMEAMessage("GN", "GLL", 0, lat=1, lon=1, time="12:34:56.78")
assert m.payload[4] == "123456.78", m.payload
''')
bug("b14-zero-west", "C14", [(M, 'val = "W" if self.lon < 0 else "E"', 'val = "W" if self.lon <= 0 else "E"')],
    "a message generated with longitude exactly zero",
    "hemisphere letter W for a longitude which is not negative",
    '''
from pynmeagps import NMEAMessage

m = NMEAMessage("GN", "GLL", 0, lat=1.0, lon=0.0, status="A")
assert m.EW == "E", m
''')
bug("b15-new-attribute", "C15", [(M, '        if self._immutable:\n            raise nme.NMEAMessageError(\n                f"Object is immutable. Updates to', '        if self._immutable and name in self.__dict__:\n            raise nme.NMEAMessageError(\n                f"Object is immutable. Updates to')],
    "assignment of an attribute the message does not have yet",
    "the attribute is added to the message and shows up in its string form",
    '''
from pynmeagps import NMEAReader, NMEAMessageError

m = NMEAReader.parse(b"$GNSTN,1*79\\r\\n", validate=0)
try:
    m.spam = 1
except NMEAMessageError:
    pass
assert "spam" not in str(m), m
''')
bug("b16-ud-retained", "C16", [(M, "        self._userdefined = {} if userdefined is None else userdefined\n", "        self._userdefined = _KNOWN\n        self._userdefined.update(userdefined or {})\n"),
    (M, 'class NMEAMessage:\n', '_KNOWN = {}\n\n\nclass NMEAMessage:\n')],
    "an operation without user definitions after one with them",
    "user definitions of an earlier call decode the sentences of later calls",
    '''
from pynmeagps import NMEAReader, NMEAMessage

a = NMEAMessage("GN", "ZZZ", 0, payload=["1"]).serialize()
NMEAReader.parse(a, userdefined={"ZZZ": {"spam": "IN"}})
m = NMEAReader.parse(a)
assert not hasattr(m, "spam"), m
''')
bug("b16-leap-cache", "C16", [(H, "    ep0 = EPOCH0_BEIDOU if gnss == BDS else EPOCH0_GPS\n", "    if (dat.year, gnss) in _LEAPS:\n        return _LEAPS[dat.year, gnss]\n    ep0 = EPOCH0_BEIDOU if gnss == BDS else EPOCH0_GPS\n"),
    (H, "    return dts[0] - dts[1]\n", "    _LEAPS[dat.year, gnss] = dts[0] - dts[1]\n    return dts[0] - dts[1]\n"),
    (H, "def date2str(", "_LEAPS = {}\n\n\ndef date2str(")],
    "two dates of the same year on both sides of a leap second, in this order",
    "the second result is that of the first",
    '''
from datetime import datetime
from pynmeagps import leapsecond

a = leapsecond(datetime(2015, 3, 1)), leapsecond(datetime(2015, 9, 1))
assert a == (16, 17), a
''')
bug("b19-suffix-100", "C19", [(M, '                keyr += f"_{i:02d}"\n', '                keyr += f"_{i % 100:02d}"\n')],
    "a repeating group with 100 or more repeats",
    "attributes of later repeats overwrite the first ones",
    '''
from pynmeagps import NMEAMessage

ud = {"ZZZ": {"num": "IN", "grp": ("num", {"a": "IN"})}}
m = NMEAMessage("GN", "ZZZ", 0, payload=["120"] + [str(i) for i in range(1, 121)], userdefined=ud)
assert m.a_101 == 101 and m.a_01 == 1
''')
bug("b21-small-south", "C21", [(H, "        negative = degrees < 0\n        degrees = abs(degrees)\n        degrees, minutes = divmod(degrees * 60, 60)\n", "        negative = degrees * 60 <= -1\n        degrees = abs(degrees)\n        degrees, minutes = divmod(degrees * 60, 60)\n")],
    "a negative position of less than one minute",
    "the hemisphere is wrong",
    '''
from pynmeagps import deg2dmm

got = deg2dmm(-0.01, "LA")
assert got.endswith("S"), got
''')
bug("b22-dtl", "C22", [(H, "            dform = \"%d%m%Y\"\n", "            dform = \"%d%m20%y\"\n")],
    "a four-digit year date before 2000 or after 2099",
    "no date is returned",
    '''
import datetime as dt
from pynmeagps.nmeahelpers import date2utc
d = date2utc("30061999", "DTL")
assert d == dt.date(1999, 6, 30), d
''')
bug("b25-bearing-360", "C25", [(H, "    brng = (theta * 180 / pi + 360) % 360\n", "    brng = theta * 180 / pi + (360 if theta <= 0 else 0)\n")],
    "a bearing of exactly north",
    "360 instead of 0, outside the documented range [0, 360)",
    '''
from pynmeagps import bearing

b = bearing(10, 20, 30, 20)
assert 0 <= b < 360, b
''')
S_ = '''
from pynmeagps.nmeahelpers import calc_checksum


def s(c):
    return f"${c}*{calc_checksum(c)}\\r\\n".encode()


'''
FS = '''
import socket


class F(socket.socket):
    def __init__(self, parts):
        self.parts = list(parts)

    def recv(self, n, flags=0):
        if not self.parts:
            return b""
        x = self.parts.pop(0)
        if isinstance(x, Exception):
            raise x
        return x

    def close(self):
        pass

    def __del__(self):
        pass


'''
bug("b01-iter-stops", "C01", [(R, "        if raw_data is None and parsed_data is None:\n            raise StopIteration", "        if raw_data is None or parsed_data is None:\n            raise StopIteration")],
    "iterating over a stream in which a line starts like a sentence but is badly formed",
    "the iteration ends before the sentences which follow",
    S_ + '''
from io import BytesIO
from pynmeagps import NMEAReader

got = [r for r, m in NMEAReader(BytesIO(b"$GNGLL\\r\\n" + s("GNSTN,1")), quitonerror=0)]
assert s("GNSTN,1") in got, got
''')
bug("b01-long-line", "C01", [(R, "        if data[-1:] != b\"\\x0a\":  # truncated stream\n", "        if data[-1:] != b\"\\x0a\" or len(data) > 1024:  # truncated stream\n")],
    "a sentence of more than 1026 bytes",
    "the sentence is reported as truncated instead of being delivered",
    S_ + '''
from io import BytesIO
from pynmeagps import NMEAReader

a = s("GNTXT,1,1,0," + "x" * 1100)
got = [r for r, _ in NMEAReader(BytesIO(a), quitonerror=0)]
assert got == [a], got
''')
bug("b01-header-talkers", "C01", [("nmeatypes_core.py", 'for i in NMEA_TALKERS}', 'for i in NMEA_TALKERS if i[0:1] not in "WY"}')],
    "a sentence of a weather instrument or transducer talker in a stream",
    "it is skipped as foreign data",
    S_ + '''
from io import BytesIO
from pynmeagps import NMEAReader

data = s("WIMWD,1,T,2,M,3,N,4,M") + s("YXXDR,C,1,C,T")
got = [r for r, _ in NMEAReader(BytesIO(data), quitonerror=0)]
assert len(got) == 2, got
''')
bug("b01-crlf-header", "C01", [(R, '                if byte1 != b"\\x24":  # not NMEA, discard and continue\n', '                if byte1 == b"\\xd3":  # RTCM3, skip 2nd header byte\n                    self._read_bytes(1)\n                if byte1 != b"\\x24":  # not NMEA, discard and continue\n')],
    "a byte 0xd3 directly before a sentence",
    "the dollar sign is swallowed and the sentence lost",
    S_ + '''
from io import BytesIO
from pynmeagps import NMEAReader

got = [r for r, _ in NMEAReader(BytesIO(b"\\xd3" + s("GNSTN,1")), quitonerror=0)]
assert len(got) == 1, got
''')
bug("b02-handler-and-log", "C02", [(R, "            if self._errorhandler is None:\n                self._logger.error(err)\n            else:\n                self._errorhandler(err)\n",
    "            if self._errorhandler is not None:\n                self._errorhandler(err)\n            self._logger.error(err)\n")],
    "error policy log with an error handler",
    "each error is passed to the handler and logged, too",
    '''
import logging
from io import BytesIO
from pynmeagps import NMEAReader

n = []


class H(logging.Handler):
    def emit(self, record):
        n.append(record)


logging.getLogger("pynmeagps").addHandler(H())
list(NMEAReader(BytesIO(b"$GNSTN,1*00\\r\\n"), quitonerror=1, errorhandler=n.append))
assert len(n) == 1, n
''')
bug("b02-stale-parsed", "C02", [(R, "                if self._quitonerror:\n                    self._do_error(err)\n                continue\n",
    "                if self._quitonerror:\n                    self._do_error(err)\n                elif raw_data is not None:\n                    return (raw_data, None)\n                continue\n")],
    "a bad sentence in a stream read with errors ignored",
    "the bad sentence is delivered as raw data",
    S_ + '''
from io import BytesIO
from pynmeagps import NMEAReader

got = [r for r, m in NMEAReader(BytesIO(s("GNSTN,1") + b"$GNSTN,1*00\\r\\n" + s("GNSTN,2")), quitonerror=0)]
assert got == [s("GNSTN,1"), s("GNSTN,2")], got
''')
bug("b02-same-error-once", "C02", [
    (R, "            if self._errorhandler is None:\n                self._logger.error(err)\n", "            if str(err) == self._last_error:\n                return\n            self._last_error = str(err)\n            if self._errorhandler is None:\n                self._logger.error(err)\n"),
    (R, "        self._quitonerror = quitonerror\n", "        self._quitonerror = quitonerror\n        self._last_error = None\n")],
    "two bad sentences with equal error texts after each other",
    "only the first one is reported",
    '''
from io import BytesIO
from pynmeagps import NMEAReader

n = []
list(NMEAReader(BytesIO(b"$GNSTN,1*00\\r\\n" * 3), quitonerror=1, errorhandler=n.append))
assert len(n) == 3, n
''')
bug("b03-quadratic", "C03", [(M, "        for i, fld in enumerate(payload):\n            setattr(self, f\"field_{i+1:02d}\", fld)\n", "        for fld in payload:\n            i = len([a for a in self.__dict__ if a[0] != \"_\"])\n            setattr(self, f\"field_{i+1:02d}\", fld)\n")],
    "an unknown sentence with very many fields",
    "the parse time grows with the square of the sentence length",
    S_ + '''
import time
from pynmeagps import NMEAReader

t = []
for n in (1000, 16000):
    d = s("GNXXX" + ",1" * n)
    t0 = time.perf_counter()
    NMEAReader.parse(d)
    t.append(time.perf_counter() - t0)
assert t[1] < 100 * t[0] + 0.05, t
''')
bug("b04-empty-checksum", "C04", [(R, "            if validate & VALCKSUM:\n", "            if validate & VALCKSUM and checksum:\n")],
    "a sentence which ends in the asterisk",
    "it is accepted without a checksum",
    '''
from pynmeagps import NMEAReader, NMEAParseError

try:
    m = NMEAReader.parse(b"$GNSTN,1*\\r\\n")
except NMEAParseError:
    m = None
assert m is None
''')
bug("b04-strip-space", "C04", [(H, '        content, cksum = message.strip("$\\r\\n").split("*", 1)\n', '        content, cksum = message.strip().strip("$").split("*", 1)\n')],
    "a sentence followed by blanks, or whose first byte is not the dollar sign",
    "bytes which are not part of the sentence are accepted",
    S_ + '''
from pynmeagps import NMEAReader, NMEAParseError

d = s("GNSTN,1")
for bad in (d[:-2] + b" \\r\\n", d[:-2] + b"\\t\\r\\n"):
    try:
        m = NMEAReader.parse(bad)
    except NMEAParseError:
        m = None
    assert m is None, m
''')
bug("b04-content-in-unchecked", "C04", [(R, "                checksum=checksum,\n", "                checksum=checksum if validate & VALCKSUM else None,\n")],
    "a sentence with a wrong checksum parsed without checksum validation",
    "serialize() does not give back the received bytes",
    '''
from pynmeagps import NMEAReader

assert NMEAReader.parse(b"$GNSTN,1*00\\r\\n", validate=0).serialize() == b"$GNSTN,1*00\\r\\n"
''')
BUGS[-1]["property"] = "C12"
bug("b05-line-split", "C05", [(S, '                if line[-2:] == b"\\r\\n":\n                    break\n', '                if line[-2:] == b"\\r\\n":\n                    break\n                if len(line) >= self._bufsize:\n                    break\n')],
    "a sentence longer than the receive buffer",
    "the line is cut at the buffer size",
    FS + S_ + '''
from pynmeagps import NMEAReader

a = s("GNTXT,1,1,0," + "x" * 200)
got = [r for r, _ in NMEAReader(F([a[:64], a[64:128], a[128:]]), bufsize=64, quitonerror=0)]
assert got == [a], got
''')
bug("b06-strip-chunk", "C06", [(S, "                chunks += chunk\n", "                chunks += chunk.lstrip(b\"\\r\\n\") if not chunks else chunk\n")],
    "a chunk whose content starts with CR or LF",
    "these bytes are lost",
    FS + '''
from pynmeagps.socketwrapper import SocketWrapper

got = SocketWrapper(F([b"3\\r\\nabc\\r\\n4\\r\\n", b"\\r\\nde\\r\\n0\\r\\n\\r\\n"]), encoding=1).read(7)
assert got == b"abc\\r\\nde", got
''')
bug("b06-gzip-elif", "C06", [(S, "                    if self._encoding & ENCODE_COMPRESS:\n", "                    elif self._encoding == ENCODE_COMPRESS:\n")],
    "a chunked transfer with compress encoding",
    "the chunks are delivered undecoded",
    FS + '''
import zlib
from pynmeagps.socketwrapper import SocketWrapper

z = zlib.compress(b"hello\\r\\n")
got = SocketWrapper(F([b"%x\\r\\n" % len(z) + z + b"\\r\\n0\\r\\n\\r\\n"]), encoding=5).readline()
assert got == b"hello\\r\\n", got
''')
bug("b06-length-limit", "C06", [(S, "            if chunk_length != 0:\n                chunk = instream.read(chunk_length)\n", "            if chunk_length != 0:\n                chunk = instream.read(min(chunk_length, 65536))\n")],
    "a chunk of more than 64 kB",
    "the chunk is never taken as complete",
    FS + '''
from pynmeagps.socketwrapper import SocketWrapper

d = b"x" * 70000
got = SocketWrapper(F([b"%x\\r\\n" % len(d) + d + b"\\r\\n0\\r\\n\\r\\n"]), encoding=1).read(70000)
assert got == d, len(got)
''')
bug("b06-upper-hex", "C06", [(S, "                chunk_length = int(length_bytes.strip(), 16)\n", "                chunk_length = int(length_bytes.strip(), 16 if length_bytes.lower() == length_bytes else 10)\n")],
    "chunk lengths in upper case hex digits",
    "the chunk is lost",
    FS + '''
from pynmeagps.socketwrapper import SocketWrapper

got = SocketWrapper(F([b"A\\r\\nhelloworld\\r\\n0\\r\\n\\r\\n"]), encoding=1).read(10)
assert got == b"helloworld", got
''')
bug("b07-closed-flag", "C07", [(S, "        except (OSError, TimeoutError):\n            return False\n", "        except (OSError, TimeoutError):\n            self._bufsize = max(1, self._bufsize // 2)\n            self._buffer.clear()\n            return False\n")],
    "a receive timeout while bytes of a sentence are buffered (a read of more than is buffered)",
    "buffered bytes are dropped",
    FS + '''
from pynmeagps.socketwrapper import SocketWrapper

w = SocketWrapper(F([b"abc", TimeoutError(), b"def"]))
assert w.read(6) == b""
got = w.read(6)
assert got == b"abcdef", got
''')
bug("b07-truncated-delivered", "C07", [(R, "        if data[-1:] != b\"\\x0a\":  # truncated stream\n", "        if data[-1:] != b\"\\x0a\" and b\"*\" not in data:  # truncated stream\n")],
    "a stream which ends or times out between the checksum and the line end",
    "the truncated sentence is delivered",
    S_ + '''
from io import BytesIO
from pynmeagps import NMEAReader

got = list(NMEAReader(BytesIO(s("GNSTN,1")[:-2]), quitonerror=0))
assert got == [], got
''')
bug("b07-eof-sticks", "C07", [(R, "            except EOFError:\n                return (None, None)\n", "            except EOFError:\n                self._stream = _END\n                return (None, None)\n"),
    (R, "class NMEAReader:\n", "_END = BytesIO()\n\n\nclass NMEAReader:\n"),
    (R, "from logging import getLogger\n", "from io import BytesIO\nfrom logging import getLogger\n")],
    "a read which times out before a sentence, and a read after it",
    "reading cannot be resumed",
    FS + S_ + '''
from pynmeagps import NMEAReader

r = NMEAReader(F([s("GNSTN,1"), TimeoutError(), s("GNSTN,2")]), quitonerror=0)
got = [r.read()[0] for _ in range(3)]
assert s("GNSTN,2") in got, got
''')
bug("b08-error-once", "C08", [(R, "                        raise nme.NMEAParseError(f\"Unknown protocol header {bytehdr}.\")\n", "                        self._nmea_only = self._quitonerror == ERR_RAISE\n                        raise nme.NMEAParseError(f\"Unknown protocol header {bytehdr}.\")\n")],
    "two foreign headers in nmeaonly mode with errors logged",
    "only the first one is reported",
    '''
from io import BytesIO
from pynmeagps import NMEAReader

n = []
list(NMEAReader(BytesIO(b"$\\x01$\\x02$\\x03"), nmeaonly=True, quitonerror=1, errorhandler=n.append))
assert len(n) == 3, n
''')
bug("b08-skips-line", "C08", [(R, "                        raise nme.NMEAParseError(f\"Unknown protocol header {bytehdr}.\")\n", "                        if byte2 == b\"\\x0d\":\n                            self._read_bytes(1)  # LF\n                        raise nme.NMEAParseError(f\"Unknown protocol header {bytehdr}.\")\n")],
    "nmeaonly mode and a dollar sign and CR directly before a sentence",
    "the sentence after it is lost",
    S_ + '''
from io import BytesIO
from pynmeagps import NMEAReader

got = [r for r, _ in NMEAReader(BytesIO(b"$\\r" + s("GNSTN,1")), nmeaonly=True, quitonerror=0)]
assert got == [s("GNSTN,1")], got
''')
bug("b09-class-gindex", "C09", [(M, "        gindex = []  # (nested) grouped attribute indices\n", "        gindex = NMEAMessage.GINDEX  # (nested) grouped attribute indices\n        gindex.clear()\n"),
    (M, '    """NMEA GNSS/GPS Message Class."""\n', '    """NMEA GNSS/GPS Message Class."""\n\n    GINDEX = []\n')],
    "two threads building messages with repeating groups at the same time",
    "attributes of one message get the group suffixes of the other",
    '''
import sys
import threading
from pynmeagps import NMEAReader

DATA = b"$GPGSV,3,1,11,03,03,111,00,04,15,270,00,06,01,010,00,13,06,292,00*74\\r\\n"
want = str(NMEAReader.parse(DATA))
sys.setswitchinterval(1e-6)
bad = []


def work():
    for _ in range(4000):
        try:
            got = str(NMEAReader.parse(DATA))
        except Exception as err:
            bad.append(repr(err))
            return
        if got != want:
            bad.append(got)
            return


ts = [threading.Thread(target=work) for n in range(6)]
[t.start() for t in ts]
[t.join() for t in ts]
assert not bad, bad[0]
''')
bug("b05-first-recv", "C05", [(S, "                self._buffer += data\n        except", "                self._buffer += data if self._buffer or len(data) > 1 else data.strip()\n        except")],
    "a segment of one white space byte while the buffer is empty",
    "the byte is dropped",
    FS + S_ + '''
from pynmeagps import NMEAReader

a = s("GNSTN,1")
got = [r for r, _ in NMEAReader(F([a[:-1], a[-1:], a]), quitonerror=0)]
assert got == [a, a], got
''')
bug("b09-leap-list", "C09", [(H, "    dts = []\n    for dt in (dat, ep0):\n", "    dts = _DTS\n    dts.clear()\n    for dt in (dat, ep0):\n"),
    (H, "def leapsecond(", "_DTS = []\n\n\ndef leapsecond(")],
    "two threads converting GNSS times at the same time",
    "the leap second offset of one is that of the other's arguments",
    '''
import sys
import threading
from datetime import datetime
from pynmeagps import leapsecond

sys.setswitchinterval(1e-6)
bad = []


def work(y, want):
    d = datetime(y, 2, 1)
    for _ in range(6000):
        try:
            got = leapsecond(d)
        except IndexError as err:
            got = err
        if got != want:
            bad.append(got)
            return


ts = [threading.Thread(target=work, args=a) for a in ((2020, 18), (2010, 15), (2000, 13)) * 2]
[t.start() for t in ts]
[t.join() for t in ts]
assert not bad, bad[0]
''')
bug("b09-userdefined-global", "C09", [(R, "                    parsed_data = self.parse(\n                        raw_data,\n                        msgmode=self._mode,\n                        validate=self._validate,\n                        userdefined=self._userdefined,\n                    )\n",
     "                    _args.update(\n                        msgmode=self._mode,\n                        validate=self._validate,\n                        userdefined=self._userdefined,\n                    )\n                    parsed_data = self.parse(raw_data, **_args)\n"),
    (R, "class NMEAReader:\n", "_args = {}\n\n\nclass NMEAReader:\n")],
    "two readers with different configuration in two threads, preempted between two statements",
    "sentences are parsed with the configuration of the other reader",
    S_ + '''
import sys
import threading
from io import BytesIO
from pynmeagps import NMEAReader

sys.setswitchinterval(1e-6)
bad = []


def work(val):
    n = sum(1 for _ in NMEAReader(BytesIO(b"$GNSTN,1*00\\r\\n" * 4000), quitonerror=0, validate=val))
    if n != (0 if val else 4000):
        bad.append(n)


ts = [threading.Thread(target=work, args=(n,)) for n in (0, 1, 0, 1)]
[t.start() for t in ts]
[t.join() for t in ts]
assert not bad, bad[0]
''')
bug("b11-count-cap", "C11", [(M, "            rng = getattr(self, numr)\n", "            rng = min(getattr(self, numr), 64)\n")],
    "a sentence with a repeat count above 64",
    "the remaining repeats are not decoded",
    S_ + '''
from pynmeagps import NMEAReader

c = "PUBX,03,70" + "".join(f",{i},-,1,2,3,4" for i in range(70))
m = NMEAReader.parse(s(c))
assert hasattr(m, "svid_70"), m
''')
bug("b11-int-plus", "C11", [(M, "                val = int(vals)\n", "                val = int(float(vals))\n")],
    "an integer field of 17 or more digits, or with decimals",
    "the value is rounded, and fields which are no integers are accepted",
    S_ + '''
from pynmeagps import NMEAReader

m = NMEAReader.parse(s("GNGSV,1,1,12345678901234567890"))
assert m.numSV == 12345678901234567890, m
''')
bug("b11-suffix-nested", "C11", [(M, "            if i > 0:\n                keyr += f\"_{i:02d}\"\n", "            if i > 0:\n                keyr = f\"{key}_{i:02d}\"\n")],
    "a definition with nested groups",
    "the attributes of the inner group lose their outer index and overwrite each other",
    '''
from pynmeagps import NMEAMessage

ud = {"ZZZ": {"grp": (2, {"a": "IN", "sub": (2, {"b": "IN"})})}}
m = NMEAMessage("GN", "ZZZ", 0, payload=list("123456"), userdefined=ud)
assert m.b_02_01 == 5, m
''')
BUGS[-1]["property"] = "C19"
bug("b12-trailing-empty", "C12", [(M, '        for att in self._payload:\n            output += "," + att\n', '        for att in self._payload:\n            output += "," + att.strip("\\0")\n')],
    "a field which starts or ends with a NUL byte",
    "the byte is lost when the message is serialized",
    '''
from pynmeagps import NMEAMessage

m = NMEAMessage("GN", "TXT", 0, payload=["1", "1", "0", "x\\0"])
assert m.serialize().count(b"\\0") == 1
''')
bug("b12-encode", "C12", [(M, '        return output.encode("utf-8")  # convert str to bytes\n', '        return output.encode("latin-1", "replace")  # convert str to bytes\n')],
    "a message with a non-ASCII character",
    "the serialized bytes differ",
    '''
from pynmeagps import NMEAMessage

m = NMEAMessage("GN", "TXT", 0, payload=["1", "1", "0", "\\u00e9\\u20ac"])
assert "\\u00e9\\u20ac".encode() in m.serialize()
''')
bug("b12-repr-quotes", "C12", [(M, "            f\"{self._mode}, payload={self._payload})\"\n", "            f\"{self._mode}, payload={str(self._payload).replace(chr(34), chr(39))})\"\n")],
    "repr of a message with an apostrophe in a field",
    "the representation cannot be evaluated",
    '''
from pynmeagps import NMEAMessage

m = NMEAMessage("GN", "TXT", 0, payload=["1", "1", "0", "it's"])
assert eval(repr(m)).payload == m.payload
''')
bug("b12-strip-dollar", "C12", [(H, '        content, cksum = message.strip("$\\r\\n").split("*", 1)\n', '        content, cksum = message.strip("$\\r\\n").replace("$", "").split("*", 1)\n')],
    "a dollar sign within a field, checksum validation off",
    "the dollar sign is lost",
    '''
from pynmeagps import NMEAReader

d = b"$GNTXT,1,1,0,a$b*00\\r\\n"
assert NMEAReader.parse(d, validate=0).serialize() == d
''')
GP, CO = "nmeatypes_get_prop.py", "nmeatypes_core.py"
bug("b13-falsy", "C13", [(M, "                    val = kwargs.get(keyr, self.nomval(att, self.msgmode))\n", "                    val = kwargs.get(keyr) or self.nomval(att, self.msgmode)\n")],
    "an attribute supplied as an empty string whose type has a nominal value (time, date, integer, decimal, hex)",
    "an empty value supplied for a field is replaced by the nominal value (e.g. the current time)",
    S_ + '''
from pynmeagps import NMEAMessage

m = NMEAMessage("GN", "GLL", 0, lat=1.5, lon=2.5, time="", status="V")
assert m.payload[4] == "", m.payload
m = NMEAMessage("GN", "GGA", 0, lat=1.5, lon=2.5, time="010203.00", diffAge="", diffStation="")
assert m.payload[-2:] == ["", ""], m.payload
''')
bug("b14-int-position", "C14", [(M, '                    if isinstance(self.lat, (int, float)):\n                        val = "S" if self.lat < 0 else "N"\n', '                    if isinstance(self.lat, float):\n                        val = "S" if self.lat < 0 else "N"\n')],
    "a message generated from an integer latitude in the southern hemisphere",
    "the hemisphere letter is N",
    S_ + '''
from pynmeagps import NMEAMessage, NMEAReader
m = NMEAMessage("GN", "GLL", 0, lat=-33, lon=151)
assert m.NS == "S", m
assert NMEAReader.parse(m.serialize()).lat == -33
''')
bug("b14-sign-flip", "C14", [(M, '                    self.lon = -abs(self.lon) if val == "W" else abs(self.lon)\n', '                    self.lon = abs(self.lon) if val in ("E", "") else -abs(self.lon)\n')],
    "a position whose longitude is followed by another letter than E or W",
    "the longitude becomes negative though the letter is not W",
    S_ + '''
from pynmeagps import NMEAReader
m = NMEAReader.parse(s("GNGLL,5327.04,N,00214.41,w,223232.00,A,A"))
assert m.lon > 0, m
m = NMEAReader.parse(s("GNGLL,5327.04,N,00214.41,0,223232.00,A,A"))
assert m.lon > 0, m
''')
bug("b15-underscore", "C15", [(M, "        if self._immutable:\n            raise nme.NMEAMessageError(\n                f\"Object is immutable. Updates", "        if self._immutable and name[0] != \"_\":\n            raise nme.NMEAMessageError(\n                f\"Object is immutable. Updates")],
    "assignment to an attribute whose name starts with an underscore",
    "the message can be changed through its private attributes, which then unlock the public ones",
    S_ + '''
from pynmeagps import NMEAReader, NMEAMessageError
m = NMEAReader.parse(s("GNSTN,1"))
for n, v in (("_payload", ["9"]), ("_checksum", "00"), ("_talker", "GP"), ("_immutable", False)):
    try:
        setattr(m, n, v)
    except NMEAMessageError:
        continue
    raise SystemExit(f"{n} assigned, message is now {m.serialize()}")
''')
bug("b16-kwargs-popped", "C16", [(R, "            return NMEAMessage(\n                talker,\n                msgid,\n                msgmode,\n                payload=payload,\n                checksum=checksum,\n                validate=validate,\n                userdefined=userdefined,\n            )\n",
    "            if userdefined:\n                userdefined.setdefault(msgid, {})\n            return NMEAMessage(\n                talker,\n                msgid,\n                msgmode,\n                payload=payload,\n                checksum=checksum,\n                validate=validate,\n                userdefined=userdefined,\n            )\n")],
    "an unknown sentence parsed with user-defined definitions supplied",
    "the caller's dictionary gets an entry for every id seen",
    S_ + '''
from pynmeagps import NMEAReader
ud = {"FUZ": {"a": "IN"}}
NMEAReader.parse(s("GNSTN,1"), userdefined=ud)
assert ud == {"FUZ": {"a": "IN"}}, ud
''')
bug("b16-nominal-time-cached", "C29", [(M, "            val = datetime.now(timezone.utc).date()\n", "            val = _today()\n"), (M, "class NMEAMessage:\n", "_days = []\n\n\ndef _today():\n    if not _days:\n        _days.append(datetime.now(timezone.utc).date())\n    return _days[0]\n\n\nclass NMEAMessage:\n")],
    "a process which generates messages with omitted dates before and after midnight UTC",
    "the nominal date stays that of the first message",
    S_ + '''
import datetime as dt
import pynmeagps.nmeamessage as nm

class D(dt.datetime):
    t = dt.datetime(2024, 2, 28, 23, 59, 59, tzinfo=dt.timezone.utc)
    @classmethod
    def now(cls, tz=None):
        return cls.t

nm.datetime = D
a = nm.NMEAMessage("GN", "RMC", 0, lat=1.0, lon=2.0)
D.t += dt.timedelta(seconds=2)
b = nm.NMEAMessage("GN", "RMC", 0, lat=1.0, lon=2.0)
assert str(b.date) == "2024-02-29", b.date
''')
bug("b17-talker-lower", "C17", [(M, "        if talker not in nmt.NMEA_TALKERS:\n", "        if talker.upper() not in nmt.NMEA_TALKERS:\n")],
    "a talker in lower case with message id validation on",
    "the unknown talker is accepted",
    S_ + '''
from pynmeagps import NMEAReader, NMEAParseError
try:
    m = NMEAReader.parse(s("gnSTN,1"), validate=3)
except NMEAParseError:
    pass
else:
    raise SystemExit(f"accepted {m}")
''')
bug("b17-nominal-100", "C17", [(M, '            setattr(self, f"field_{i+1:02d}", fld)\n', '            setattr(self, f"field_{(i + 1) % 100:02d}", fld)\n')],
    "an unknown sentence of 100 or more fields",
    "fields after the 99th overwrite the first ones",
    S_ + '''
from pynmeagps import NMEAReader
m = NMEAReader.parse(s("GNXXX," + ",".join(str(i) for i in range(1, 121))))
assert m.field_01 == "1" and m.field_101 == "101", str(m)[:80]
''')
bug("b17-unknown-user", "C17", [(M, "        elif msgID in self._userdefined:\n            self._defsource = nmt.DEF_USER  # user-defined\n", "        elif self._userdefined:\n            self._defsource = nmt.DEF_USER  # user-defined\n")],
    "an unknown id while user-defined definitions of other ids are supplied, message id validation on",
    "with validation on the unknown id is reported in another way, with validation off it is not marked nominal",
    S_ + '''
from pynmeagps import NMEAReader
m = NMEAReader.parse(s("GNXXX,1,2"), userdefined={"FUZ": {"a": "IN"}})
assert "NOMINAL" in str(m) and m.field_02 == "2", m
''')
bug("b18-pps-duration", "C18", [(M, "            if (py and lp == 3) or (not py and kwargs.get(\"enable\", 1) == 0):\n                key += \"_DIS\"\n        return key\n\n    def _get_dict_qtmcfgsat", "            if (py and self._payload[2] == \"0\") or (not py and kwargs.get(\"enable\", 1) == 0):\n                key += \"_DIS\"\n        return key\n\n    def _get_dict_qtmcfgsat")],
    "a full-length PQTMCFGPPS set command whose enable field is 0",
    "the fields after enable are not decoded",
    S_ + '''
from pynmeagps import NMEAReader
m = NMEAReader.parse(s("PQTMCFGPPS,W,1,0,100,1,1,0"), msgmode=1)
assert getattr(m, "duration", None) == 100, m
''')
bug("b18-msgid-two-digit", "C18", [(M, "                    key += self._payload[0]\n", "                    key += self._payload[0].lstrip(\"0\").zfill(2)\n")],
    "a first field written with surplus or missing zeros",
    "PUBX,0 or PUBX,003 are decoded as PUBX,00 and PUBX,03",
    S_ + '''
from pynmeagps import NMEAReader
for c in ("PUBX,3,1,1,-,1,2,3,4", "PUBX,003,1,1,-,1,2,3,4", "PUBX,4,010203.00,010120,1,2,3,4,5"):
    m = NMEAReader.parse(s(c))
    assert hasattr(m, "field_01"), m
''')
bug("b18-drs-prefix", "C18", [(M, "            msgtype = self._payload[0]\n", "            msgtype = self._payload[0][:2]\n")],
    "a PSTMDRSENMSG whose message type is longer than two digits",
    "an unknown message type is decoded with the layout of another",
    S_ + '''
from pynmeagps import NMEAReader
m = NMEAReader.parse(s("PSTMDRSENMSG,300,1,2,3,4,5,6,7"))
assert hasattr(m, "field_01"), m
''')
bug("b19-user-upper", "C19", [(M, "                dic = self._userdefined[key]\n", "                dic = self._userdefined.get(key) or self._userdefined[self.msgID.lower()]\n")],
    "two user-defined ids which differ in case, one of them with an empty layout",
    "the sentence is decoded with the layout of the other id",
    S_ + '''
from pynmeagps import NMEAReader
m = NMEAReader.parse(s("GNFUZ,5"), userdefined={"FUZ": {}, "fuz": {"a": "IN"}})
assert not hasattr(m, "a"), m
''')
bug("b19-priority", "C19", [(M, "        if msgID in nmt.NMEA_MSGIDS:\n            self._defsource", "        if msgID in self._userdefined and talker not in nmt.NMEA_TALKERS:\n            self._defsource = nmt.DEF_USER  # user-defined\n        elif msgID in nmt.NMEA_MSGIDS:\n            self._defsource")],
    "a user-defined definition of a standard id, sentence from an unknown talker",
    "the user-defined definition replaces the published one",
    S_ + '''
from pynmeagps import NMEAReader
m = NMEAReader.parse(s("ZXSTN,1"), userdefined={"STN": {"zzz": "ST"}})
assert not hasattr(m, "zzz"), m
''')
bug("b20-wide-lat", "C20", [(H, "        if dp < 4:\n", "        if dp not in (4, 5):\n")],
    "a field with superfluous leading zeros or a sign",
    "a well-formed field with more than three digits of degrees is not converted",
    S_ + '''
from pynmeagps.nmeahelpers import dmm2ddd
assert dmm2ddd("005130.00") == 51.5, dmm2ddd("005130.00")
''')
bug("b21-iso-zero", "C21", [(H, '    lati, loni, alti = ["-" if c < 0 else "+" for c in (lat, lon, alt)]\n', '    lati, loni, alti = ["-" if c < 0 else "+" for c in (lat, lon, int(alt))]\n')],
    "an altitude between -1 and 0",
    "the negative altitude is written with a plus sign",
    S_ + '''
from pynmeagps.nmeahelpers import llh2iso6709
assert "-0.5CRS" in llh2iso6709(1.5, 2.5, -0.5), llh2iso6709(1.5, 2.5, -0.5)
''')
bug("b21-dms-split", "C21", [(H, "        ddd += 0.0 if dms[x] == \"\" else float(dms[x]) / pow(60, x)\n", "        ddd += 0.0 if dms[x] == \"\" or ddd == 0 < x else float(dms[x]) / pow(60, x)\n")],
    "a position of less than one degree",
    "the minutes and seconds of a position below one degree are ignored",
    S_ + '''
from pynmeagps.nmeahelpers import dms2deg, deg2dms
assert dms2deg(deg2dms(0.5, "LA")) == 0.5, dms2deg(deg2dms(0.5, "LA"))
''')
bug("b22-window", "C22", [(H, "        utc = datetime.strptime(dates, dform)\n        return utc.date()\n", "        utc = datetime.strptime(dates, dform)\n        if utc.year < 1980:  # before GPS epoch\n            utc = utc.replace(year=utc.year + 100)\n        return utc.date()\n")],
    "a date between 1969 and 1979",
    "the date is a century late",
    S_ + '''
import datetime
from pynmeagps.nmeahelpers import date2utc
assert date2utc("010175") == datetime.date(1975, 1, 1), date2utc("010175")
''')
bug("b22-round-time", "C22", [(H, '        return tim.strftime("%H%M%S.%f")[0:9]\n', '        return tim.strftime("%H%M%S") + f"{tim.microsecond / 1e6:.2f}"[1:]\n')],
    "a time whose hundredths round up to the next second",
    "23:59:59.996 is written as 235959.00",
    S_ + '''
import datetime
from pynmeagps.nmeahelpers import time2str, time2utc
t = datetime.time(23, 59, 59, 996000)
b = time2utc(time2str(t))
assert abs((b.second + b.microsecond / 1e6) - 59.996) <= 0.01, time2str(t)
''')
bug("b23-irn-epoch", "C23", [(H, "    elif gnss == IRN:\n        ep0 = EPOCH0_IRN\n        rollover = 1024\n    else:\n        ep0 = EPOCH0_GPS\n        rollover = 1024\n\n    ls", "    elif gnss == IRN:\n        ep0 = EPOCH0_GAL\n        rollover = 2048\n    else:\n        ep0 = EPOCH0_GPS\n        rollover = 1024\n\n    ls")],
    "an IRNSS week number after its first rollover",
    "week numbers run to 2047 instead of 1023",
    S_ + '''
from datetime import datetime, timezone
from pynmeagps.nmeahelpers import utc2wnotow
w = utc2wnotow(datetime(2020, 1, 1, tzinfo=timezone.utc), "I")[0]
assert w < 1024, w
w = utc2wnotow(datetime(2024, 1, 1, tzinfo=timezone.utc), "I")[0]
assert w < 1024, w
''')
bug("b23-naive-local", "C23", [(H, "        dat = dat.replace(tzinfo=timezone.utc)\n", "        dat = dat.astimezone(timezone.utc)\n")],
    "a naive datetime within hours of a leap second, in a process whose local time zone is not UTC",
    "the leap second takes effect at local midnight",
    '''
import os
import time
os.environ["TZ"] = "XXX-10"
time.tzset()
''' + S_ + '''
from datetime import datetime
from pynmeagps.nmeahelpers import leapsecond
assert leapsecond(datetime(2017, 1, 1, 5)) == 18
''')
bug("b24-south-height", "C24", [(H, "    if z < 0.0:\n        lat = -lat\n", "    if z < -1e-3 * r:\n        lat = -lat\n")],
    "a position a few kilometres south of the equator",
    "the latitude comes back north",
    S_ + '''
from pynmeagps.nmeahelpers import ecef2llh, llh2ecef
b = ecef2llh(*llh2ecef(-0.01, 12.0, 0.0))
assert abs(b[0] + 0.01) < 1e-9, b
''')
bug("b25-area-wrap", "C25", [(H, "    return pow(radius, 2) * pi * abs(sin(phi1) - sin(phi2)) * abs(lon1 - lon2) / 180\n", "    return pow(radius, 2) * pi * abs(sin(phi1) - sin(phi2)) * (abs(lon1 - lon2) % 360) / 180\n")],
    "an area around the whole globe",
    "the area between -180 and 180 degrees is zero",
    S_ + '''
from pynmeagps.nmeahelpers import area
assert area(-90, -180, 90, 180, 1) > 12.5, area(-90, -180, 90, 180, 1)
''')
bug("b25-knots-case", "C25", [(H, "        return knots * KNOTSCONV[unit.upper()]\n", "        return knots * KNOTSCONV.get(unit.upper(), KNOTSCONV[unit.upper().strip()])\n")],
    "an invalid unit which is a valid one with blanks",
    "the invalid unit is accepted",
    S_ + '''
from pynmeagps.nmeahelpers import knots2spd
try:
    v = knots2spd(10, " ms")
except KeyError:
    pass
else:
    raise SystemExit(f"accepted {v}")
''')
bug("b12-dollar-content", "C12", [(M, '            output += "," + att\n', '            output += "," + att.rstrip()\n')],
    "a field which ends with a blank",
    "the serialized sentence differs from the received one, and its checksum is wrong",
    S_ + '''
from pynmeagps import NMEAReader
d = s("GNTXT,01,01,02,ANTSTATUS=OK ")
m = NMEAReader.parse(d)
assert m.serialize() == d, m.serialize()
''')
bug("b08-printable", "C08", [(R, "                    if self._nmea_only:  # raise error and quit\n", "                    if self._nmea_only and not byte2.isdigit():  # raise error and quit\n")],
    "foreign data with a dollar sign followed by a digit in NMEA-only mode",
    "it is skipped without an error",
    S_ + '''
from io import BytesIO
from pynmeagps import NMEAReader, NMEAParseError
r = NMEAReader(BytesIO(b"$5.00\\r\\n" + s("GNSTN,1")), nmeaonly=True, quitonerror=2)
try:
    r.read()
except NMEAParseError:
    pass
else:
    raise SystemExit("no error")
''')
bug("b07-short-read", "C07", [(R, "        if 0 < len(data) < size:  # truncated stream\n", "        if 1 < len(data) < size:  # truncated stream\n"), (R, '        if data[-1:] != b"\\x0a":  # truncated stream\n', '        if data[-1:] != b"\\x0a" and b"*" not in data[-3:]:  # truncated stream\n')],
    "a serial stream whose line read times out between the checksum and the line end",
    "the truncated sentence is delivered, with raw bytes which are not those of the stream",
    S_ + '''
from pynmeagps import NMEAReader, NMEAStreamError

class St:
    def __init__(self, d):
        self.d = d
    def read(self, n):
        r, self.d = self.d[:n], self.d[n:]
        return r
    def readline(self):
        r, self.d = self.d[:-2], self.d[-2:]
        return r

r = NMEAReader(St(s("GNSTN,1")), quitonerror=2)
try:
    raw, m = r.read()
except NMEAStreamError:
    pass
else:
    raise SystemExit(f"delivered {raw}")
''')
W = S
LOOP = '''
import gc
import tracemalloc


def grows(step, n=6000):
    tracemalloc.start(1)
    held = []
    for w in range(4):
        for i in range(w * n, (w + 1) * n):
            step(i)
        gc.collect()
        held.append(tracemalloc.get_traced_memory()[0])
    tracemalloc.stop()
    return min(b - a for a, b in zip(held[1:], held[2:])) > 4 * n


'''
bug("b26-lru-latlon", "C26", [(H, "def dmm2ddd(pos: str) -> float | str:\n", "@functools.lru_cache(maxsize=None)\ndef dmm2ddd(pos: str) -> float | str:\n"), (H, "import re\n", "import functools\nimport re\n")],
    "a long running process which receives ever new positions",
    "every position ever seen is kept in an unbounded cache",
    S_ + LOOP + '''
from pynmeagps import NMEAReader
assert not grows(lambda i: NMEAReader.parse(s(f"GNGLL,{i % 90:02d}30.{i:05d},N,00130.{i:05d},W,010203.00,A,A")))
''')
bug("b26-seen-ids", "C26", [(M, "            self._defsource = nmt.DEF_UNKN  # unrecognised\n", "            self._defsource = _SEEN.setdefault(talker + msgID, nmt.DEF_UNKN)  # unrecognised\n"), (M, "class NMEAMessage:\n", "_SEEN = {}\n\n\nclass NMEAMessage:\n")],
    "a stream with very many different unknown message ids (noise which passes as sentences)",
    "every id is kept",
    S_ + LOOP + '''
from pynmeagps import NMEAReader
assert not grows(lambda i: NMEAReader.parse(s(f"GNX{i},1")))
''')
bug("b26-errors-kept", "C26", [(R, "                if self._quitonerror:\n                    self._do_error(err)\n", "                self._errors.append(err)\n                if self._quitonerror:\n                    self._do_error(err)\n"), (R, "        self._mode = msgmode\n", "        self._errors = []\n        self._mode = msgmode\n")],
    "a long stream with many bad sentences",
    "every error is kept by the reader",
    S_ + LOOP + '''
from pynmeagps import NMEAReader


class Src:
    i = 0
    buf = b""

    def readline(self):
        out, self.buf = self.buf, b""
        return out

    def read(self, n=1):
        out, self.buf = self.buf[:n], self.buf[n:]
        return out


src = Src()
rdr = NMEAReader(src, quitonerror=0)


def step(i):
    src.buf = b"$GNTXT,%d*00\\r\\n" % i
    rdr.read()


assert not grows(step)
''')
bug("b27-write-flush", "C27", [(S, "        return self._socket.send(data, **kwargs)\n", "        sent = self._socket.send(data, **kwargs)\n        self._buffer = bytearray()  # what follows is the response\n        return sent\n")],
    "a command written while received data are still in the buffer",
    "the data received before and not yet read are lost",
    FS + '''
from pynmeagps import SocketWrapper


class G(F):
    def send(self, data, flags=0):
        return len(data)


w = SocketWrapper(G([b"ab\\r\\ncd\\r\\n"]))
assert w.readline() == b"ab\\r\\n"
assert w.write(b"x") == 1
assert w.readline() == b"cd\\r\\n"
''')
bug("b27-waiting-recv", "C27", [(S, "        return len(self._buffer)\n", "        return len(self._buffer) or (len(self._buffer) if self._recv() else 0)\n")],
    "in_waiting asked while nothing is buffered",
    "it blocks in a receive call",
    FS + '''
from pynmeagps import SocketWrapper
f = F([b"a", b"b"])
w = SocketWrapper(f)
w.read(1)
assert w.in_waiting() == 0, w.in_waiting()
assert f.parts == [b"b"], f.parts
''')
bug("b28-weakset", "C28", [(M, "        self._immutable = True  # once initialised, object is immutable\n", "        _BUILT.add(self)  # once initialised, object is immutable\n"),
    (M, "        if self._immutable:\n            raise nme.NMEAMessageError(\n                f\"Object is immutable. Updates", "        if self in _BUILT:\n            raise nme.NMEAMessageError(\n                f\"Object is immutable. Updates"),
    (M, "        if self._immutable:\n            raise nme.NMEAMessageError(\n                f\"Object is immutable. Deletion", "        if self in _BUILT:\n            raise nme.NMEAMessageError(\n                f\"Object is immutable. Deletion"),
    (M, "class NMEAMessage:\n", "_BUILT = WeakSet()\n\n\nclass NMEAMessage:\n"), (M, "import struct\n", "import struct\nfrom weakref import WeakSet\n")],
    "a copied or unpickled message",
    "copies can be changed",
    S_ + '''
import copy
from pynmeagps import NMEAReader, NMEAMessageError
m = copy.copy(NMEAReader.parse(s("GNSTN,1")))
try:
    m.talkerId = 5
except NMEAMessageError:
    pass
else:
    raise SystemExit(f"assigned: {m}")
''')
bug("b28-proxy", "C28", [(M, "        self._userdefined = {} if userdefined is None else userdefined\n", "        self._userdefined = {} if userdefined is None else MappingProxyType(userdefined)\n"), (M, "import struct\n", "import struct\nfrom types import MappingProxyType\n")],
    "a message parsed with user-defined definitions which is pickled or deep-copied",
    "copying fails",
    S_ + '''
import copy
from pynmeagps import NMEAReader
m = NMEAReader.parse(s("GNFUZ,1"), userdefined={"FUZ": {"a": "IN"}})
assert str(copy.deepcopy(m)) == str(m)
''')
CLK = '''
import datetime as dt
import pynmeagps.nmeamessage as nm
import pynmeagps.nmeahelpers as nh


class D(dt.datetime):
    t = None

    @classmethod
    def now(cls, tz=None):
        return cls.t if tz else cls.t.astimezone().replace(tzinfo=None)


nm.datetime = D
nh.datetime = D


def at(*a):
    D.t = D(*a, tzinfo=dt.timezone.utc)


'''
bug("b29-local-date", "C29", [(M, "            val = datetime.now(timezone.utc).date()\n", "            val = datetime.now().date()\n")],
    "a message with omitted date generated where the local date is not the UTC date",
    "the nominal date is the local one",
    '''
import os
import time
os.environ["TZ"] = "XXX-14"
time.tzset()
''' + S_ + '''
import datetime as dt
import pynmeagps
day = dt.datetime.now(dt.timezone.utc)
m = pynmeagps.NMEAMessage("GN", "RMC", 0, lat=1.0, lon=2.0)
os.environ["TZ"] = "XXX+12"
time.tzset()
m2 = pynmeagps.NMEAMessage("GN", "RMC", 0, lat=1.0, lon=2.0)
assert m.date == m2.date, (m.date, m2.date)
''')
bug("b29-window", "C29", [(H, "        utc = datetime.strptime(dates, dform)\n        return utc.date()\n", "        utc = datetime.strptime(dates, dform)\n        if form != \"DTL\" and utc.year > datetime.now(timezone.utc).year + 42:\n            utc = utc.replace(year=utc.year - 100)\n        return utc.date()\n")],
    "two-digit years more than 42 years ahead of the clock (a clock before 2026)",
    "the window for two-digit years moves with the clock",
    S_ + CLK + '''
at(2024, 5, 5)
assert nh.date2utc("010267") == dt.date(2067, 2, 1), nh.date2utc("010267")
''')
bug("b29-import-now", "C29", [(H, "    current = datetime.now(timezone.utc)\n", "    current = _NOW\n"), (H, "def wnotow2utc(\n", "_NOW = datetime.now(timezone.utc)\n\n\ndef wnotow2utc(\n")],
    "a week number of a rollover which happened while the process runs",
    "weeks are resolved against the time at which the package was imported",
    S_ + '''
import time
from datetime import datetime, timezone
from pynmeagps.nmeahelpers import utc2wnotow, wnotow2utc
time.sleep(2)
now = datetime.now(timezone.utc)
w, t, ls = utc2wnotow(now, "G")
assert abs((wnotow2utc(w, t, ls, "G", True) - now).total_seconds()) < 1, wnotow2utc(w, t, ls, "G", True)
''')
bug("b09-shared-bytesio", "C09", [(S, "        instream = BytesIO(segment)\n", "        instream = _INSTREAM\n        instream.seek(0)\n        instream.truncate()\n        instream.write(segment)\n        instream.seek(0)\n"), (S, "class SocketWrapper:\n", "_INSTREAM = BytesIO()\n\n\nclass SocketWrapper:\n")],
    "two chunked sockets read in two threads which are switched inside dechunk",
    "one connection receives data of the other",
    FS + '''
import sys
import threading
from pynmeagps import SocketWrapper

sys.setswitchinterval(1e-6)
bad = []


def run(ch):
    for _ in range(400):
        parts = [b"%x\\r\\n" % n + ch * n + b"\\r\\n" for n in range(1, 30)]
        w = SocketWrapper(F(parts), encoding=1)
        try:
            data = w.read(29 * 15)
        except Exception as err:
            bad.append(repr(err))
            return
        if data != ch * (29 * 15):
            bad.append(data)
            return


ts = [threading.Thread(target=run, args=(c,)) for c in (b"a", b"b", b"c", b"d")]
for t in ts:
    t.start()
for t in ts:
    t.join()
assert not bad, bad[:1]
''')
bug("b05-big-read", "C05", [(S, "            data = self._socket.recv(self._bufsize)\n", "            data = self._socket.recv(self._bufsize - len(self._buffer))\n")],
    "read of more bytes than the buffer size",
    "nothing is returned although the data arrive",
    '''
import socket
import threading
''' + S_ + '''
from pynmeagps import SocketWrapper
a, b = socket.socketpair()
b.sendall(b"0123456789")
a.settimeout(2)
w = SocketWrapper(a, bufsize=4)
got = w.read(10)
assert got == b"0123456789", got
''')
bug("b02-handler-text", "C02", [(R, "                self._errorhandler(err)\n", "                self._errorhandler(str(err) if isinstance(err, nme.NMEATypeError) else err)\n")],
    "a sentence with a field of the wrong type, log policy with a handler",
    "the handler gets a text instead of the error",
    S_ + '''
from io import BytesIO
from pynmeagps import NMEAReader
got = []
list(NMEAReader(BytesIO(s("GNGSV,1,1,x,1,2,3,4")), quitonerror=1, errorhandler=got.append))
assert len(got) == 1 and isinstance(got[0], Exception), got
''')
bug("b16-def-cache", "C16", [(M, "                dic = self._userdefined[key]\n", "                dic = _DEFS.setdefault(key, self._userdefined[key])\n"), (M, "class NMEAMessage:\n", "_DEFS = {}\n\n\nclass NMEAMessage:\n")],
    "two different user-defined definitions of the same id in one process",
    "the second is decoded with the first",
    S_ + '''
from pynmeagps import NMEAReader
NMEAReader.parse(s("GNFUZ,1"), userdefined={"FUZ": {"a": "IN"}})
m = NMEAReader.parse(s("GNFUZ,1"), userdefined={"FUZ": {"b": "ST"}})
assert getattr(m, "b", None) == "1", m
''')
bug("b25-bearing-neg", "C25", [(H, "    brng = (theta * 180 / pi + 360) % 360\n", "    brng = theta * 180 / pi + (360 if theta < 0 else 0)\n")],
    "a direction a rounding error west of north",
    "the bearing is 360",
    S_ + '''
from pynmeagps.nmeahelpers import bearing
b = bearing(0.0, 0.0, 60.0, -1e-15)
assert 0 <= b < 360, b
''')
bug("b23-gal-roll", "C23", [(H, "        ep0 = EPOCH0_GAL\n        rollover = 4096\n    elif gnss == IRN:\n        ep0 = EPOCH0_IRN\n        rollover = 1024\n    else:\n        ep0 = EPOCH0_GPS\n        rollover = 1024\n    wno = wno", "        ep0 = EPOCH0_GAL\n        rollover = 4095\n    elif gnss == IRN:\n        ep0 = EPOCH0_IRN\n        rollover = 1024\n    else:\n        ep0 = EPOCH0_GPS\n        rollover = 1024\n    wno = wno")],
    "a Galileo week number of 4095",
    "it becomes week 0",
    S_ + '''
from pynmeagps.nmeahelpers import wnotow2utc
assert wnotow2utc(4095, 1000, 18, "E").year == 2078, wnotow2utc(4095, 1000, 18, "E")
''')
bug("b14-lat-only", "C14", [(M, '                if isinstance(self.lon, (int, float)):\n                    self.lon = -abs(self.lon) if val == "W" else abs(self.lon)\n', '                if isinstance(self.lon, (int, float)) and self.lon <= 180:\n                    self.lon = -abs(self.lon) if val == "W" else abs(self.lon)\n')],
    "a longitude field of more than 180 degrees",
    "its sign does not follow the letter",
    S_ + '''
from pynmeagps import NMEAReader
m = NMEAReader.parse(s("GNGLL,5130.0,N,18130.0,W,010203.00,A,A"))
assert m.lon == -181.5, m
''')
bug("b11-cap-repeat", "C11", [(M, "        for i in range(rng):\n", "        for i in range(min(rng, 99)):\n")],
    "a group repeated more than 99 times",
    "the further repeats are dropped",
    S_ + '''
from pynmeagps import NMEAReader
m = NMEAReader.parse(s("GNFUZ,120," + ",".join(str(i) for i in range(120))), userdefined={"FUZ": {"n": "IN", "g": ("n", {"a": "IN"})}})
assert getattr(m, "a_120", None) == 119, m
''')
bug("b30-desc-talker", "C30", [(H, "    if msgID in NMEA_MSGIDS:\n        return NMEA_MSGIDS[msgID]\n", "    if msgID[-3:] in NMEA_MSGIDS:  # with or without talker\n        return NMEA_MSGIDS[msgID[-3:]]\n")],
    "an unknown id which ends like a standard one",
    "it is described as the standard sentence",
    S_ + '''
from pynmeagps import msgdesc
assert msgdesc("FOOGGA") == "Unknown msgID FOOGGA", msgdesc("FOOGGA")
''')
bug("b15-same-value", "C15", [(M, "        if self._immutable:\n            raise nme.NMEAMessageError(\n                f\"Object is immutable. Updates", "        if self._immutable and getattr(self, name, None) != value:\n            raise nme.NMEAMessageError(\n                f\"Object is immutable. Updates")],
    "assigning an equal value of another type (1 for 1.0, True for 1)",
    "the attribute changes type, and the string form with it",
    S_ + '''
from pynmeagps import NMEAReader
m = NMEAReader.parse(s("GNGSV,1,1,0"))
before = str(m)
try:
    m.numMsg = True
except Exception:
    pass
try:
    m.numMsg = 1.0
except Exception:
    pass
assert str(m) == before, str(m)
''')
bug("b15-del-missing", "C15", [(M, "        if self._immutable:\n            raise nme.NMEAMessageError(\n                f\"Object is immutable. Deletion", "        if self._immutable and name in self.__dict__:\n            raise nme.NMEAMessageError(\n                f\"Object is immutable. Deletion")],
    "deleting an attribute the message does not have",
    "an AttributeError is raised instead of the package's error",
    S_ + '''
from pynmeagps import NMEAReader, NMEAMessageError
m = NMEAReader.parse(s("GNSTN,1"))
for name in ("foo", "payload"):
    try:
        delattr(m, name)
    except NMEAMessageError:
        pass
''')
bug("b10-item-attribute", "C10", [(R, "        raw_data, parsed_data = self.read()\n        if raw_data is None and parsed_data is None:\n            raise StopIteration\n        return (raw_data, parsed_data)\n", "        self._item = self.read()\n        if self._item == (None, None):\n            raise StopIteration\n        return self._item\n")],
    "two threads iterating over one reader, switched between reading and returning",
    "one thread gets the sentence of the other, which is delivered twice",
    '''
import sys, threading
from io import BytesIO
from pynmeagps import NMEAReader
from pynmeagps.nmeahelpers import calc_checksum

def s(c):
    return f"${c}*{calc_checksum(c)}\\r\\n".encode()

class Slow(NMEAReader):
    def read(self):
        item = super().read()
        return item

reader = NMEAReader(BytesIO(s("GNSTN,1") + s("GNSTN,2")))
turn = [threading.Event(), threading.Event()]
got = {}

def trace(frame, event, arg):
    if frame.f_code.co_name != "__next__":
        return None
    seen = []
    def line(frame, event, arg):
        # stop after the read, let the other thread have its sentence
        if event == "line":
            seen.append(frame.f_lineno)
            if len(seen) == 2:
                turn[0].set()
                turn[1].wait(10)
        return line
    return line

def one():
    sys.settrace(trace)
    got[1] = next(reader)[0]
    sys.settrace(None)

def two():
    turn[0].wait(10)
    got[2] = next(reader)[0]
    turn[1].set()

ts = [threading.Thread(target=f) for f in (one, two)]
for t in ts:
    t.start()
for t in ts:
    t.join()
assert sorted(got.values()) == [s("GNSTN,1"), s("GNSTN,2")], got
''')
bug("b17-talker-get", "C17", [(M, "            if self._validate & nmt.VALMSGID:\n                raise nme.NMEAMessageError(f\"Unknown talker {talker}.\")", "            if self._validate & nmt.VALMSGID and msgmode == nmt.GET:\n                raise nme.NMEAMessageError(f\"Unknown talker {talker}.\")")],
    "an unknown talker in SET or POLL mode with message id validation",
    "it is accepted",
    S_ + '''
from pynmeagps import NMEAReader, NMEAParseError
try:
    m = NMEAReader.parse(s("XXGNQ,RMC"), msgmode=2, validate=3)
except NMEAParseError:
    pass
else:
    raise SystemExit(f"accepted: {m}")
''')
bug("b02-falsy-handler", "C02", [(R, "            if self._errorhandler is None:\n", "            if not self._errorhandler:\n")],
    "an error handler object which is false as a truth value, such as a callable list which is still empty",
    "errors are logged instead of passed to the handler",
    '''
from io import BytesIO
from pynmeagps import NMEAReader

class Errors(list):
    def __call__(self, err):
        self.append(err)

errors = Errors()
list(NMEAReader(BytesIO(b"$GNSTN,1*00\\r\\n" * 3), errorhandler=errors))
assert len(errors) == 3, errors
''')
bug("b31-attribute-error", "C31", [(M, "        except (\n            AttributeError,\n", "        except (\n")],
    "a user-defined definition whose repeat count names no earlier attribute",
    "AttributeError instead of the package's error",
    S_ + '''
from pynmeagps import NMEAMessage, NMEATypeError, NMEAMessageError
try:
    NMEAMessage("GN", "FUZ", 0, userdefined={"FUZ": {"g": ("count", {"b": "IN"})}}, b_01=1)
except (NMEATypeError, NMEAMessageError):
    pass
''')
bug("b31-date-slice", "C31", [(M, "            if isinstance(val, str):\n                # yyyymmdd -> ddmmyy\n                val = val.replace(\"-\", \"\")\n", "            if isinstance(val, str):\n                # yyyymmdd -> ddmmyy\n                val = val.replace(val[4], \"\")\n")],
    "a date field given as a text of less than five characters, such as an empty one",
    "IndexError drops the field silently instead of leaving it empty",
    S_ + '''
from pynmeagps import NMEAMessage
m = NMEAMessage("GN", "RMC", 0, date="")
assert len(m.payload) == len(NMEAMessage("GN", "RMC", 0).payload), m.payload
''')
bug("b31-time-colon", "C31", [(M, "            if isinstance(val, str):\n                vals = str(val.replace(\":\", \"\"))\n            else:  # time\n                vals = time2str(val)\n", "            if isinstance(val, str):\n                vals = str(val.replace(\":\", \"\"))\n            else:  # time\n                vals = time2str(val) or None\n")],
    "something which is no time passed for a time field",
    "the message is created but cannot be serialized",
    S_ + '''
from pynmeagps import NMEAMessage
NMEAMessage("GN", "GLL", 0, time=5).serialize()
''')
bug("b32-assert-mode", "C32", [(M, "        if msgmode not in (0, 1, 2):\n            raise nme.NMEAMessageError(\n                f\"Invalid msgmode {msgmode} - must be 0, 1 or 2.\"\n            )\n", "        try:\n            assert msgmode in (0, 1, 2)\n        except AssertionError as err:\n            raise nme.NMEAMessageError(\n                f\"Invalid msgmode {msgmode} - must be 0, 1 or 2.\"\n            ) from err\n")],
    "an interpreter started with -O",
    "an invalid message mode is accepted or fails differently",
    '''
import os, subprocess, sys
env = dict(os.environ, PYTHONPATH=os.getcwd() + "/src")
code = """
from pynmeagps import NMEAMessage, NMEAMessageError
try:
    NMEAMessage("GN", "GLL", 7)
except NMEAMessageError as err:
    raise SystemExit(0 if "7" in str(err) else 4)
raise SystemExit(5)
"""
for opt in ("-B", "-O"):
    assert subprocess.run([sys.executable, opt, "-c", code], env=env).returncode == 0, opt
''')
bug("b32-strftime-locale", "C32", [(H, "            dform = \"%m%d%y\"\n        elif form == DTL:\n            # %Y", "            return dat.strftime(\"%x\").replace(\"/\", \"\")\n        elif form == DTL:\n            # %Y")],
    "a program which has set another locale",
    "DM dates are written in the order of the locale",
    '''
import datetime, locale, os, shutil, subprocess, sys, tempfile
from pynmeagps import date2str
assert date2str(datetime.date(2024, 2, 3), "DM") == "020324"
tmp = tempfile.mkdtemp()
try:
    subprocess.run(["localedef", "-c", "-i", "de_DE", "-f", "UTF-8", tmp + "/de_DE.UTF-8"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    code = "import locale, datetime; from pynmeagps import date2str; locale.setlocale(locale.LC_ALL, 'de_DE.UTF-8'); x = date2str(datetime.date(2024, 2, 3), 'DM'); assert x == '020324', x"
    assert subprocess.run([sys.executable, "-B", "-c", code], env=dict(os.environ, LOCPATH=tmp, PYTHONPATH=os.getcwd() + "/src")).returncode == 0
finally:
    shutil.rmtree(tmp)
''')
bug("b32-basic-config", "C32", [(R, "from logging import getLogger\n", "from logging import WARNING, basicConfig, getLogger\n"), (R, "from pynmeagps.socketwrapper import SocketWrapper\n", "from pynmeagps.socketwrapper import SocketWrapper\n\nbasicConfig(level=WARNING)\n")],
    "a program which configures logging after importing the package",
    "the import has configured the root logger, so the program's configuration has no effect",
    '''
import logging, os, subprocess, sys
env = dict(os.environ, PYTHONPATH=os.getcwd() + "/src")
code = "import logging; import pynmeagps; assert not logging.getLogger().handlers, logging.getLogger().handlers"
assert subprocess.run([sys.executable, "-B", "-c", code], env=env).returncode == 0
''')
bug("b32-socket-timeout", "C32", [(S, "        self._recv()  # populate initial buffer\n", "        if sock.gettimeout() is None:\n            sock.settimeout(60)\n        self._recv()  # populate initial buffer\n"), (S, "        except (OSError, TimeoutError):\n            return False\n        return True\n", "        except OSError:  # includes TimeoutError\n            return False\n        return True\n")],
    "a blocking socket which the program goes on using",
    "the socket has a timeout afterwards",
    '''
import socket
from pynmeagps import NMEAReader
a, b = socket.socketpair()
with a, b:
    b.sendall(b"$GNSTN*40\\r\\n")
    b.shutdown(socket.SHUT_WR)
    list(NMEAReader(a))
    assert a.gettimeout() is None, a.gettimeout()
''')
bug("b33-socket-lookahead", "C33", [(S, "        while len(self._buffer) < num:\n            if not self._recv():\n                return b\"\"\n", "        while len(self._buffer) <= num:\n            if not self._recv():\n                if len(self._buffer) < num:\n                    return b\"\"\n                break\n")],
    "a live socket on which a sentence arrives and then nothing for a while",
    "the sentence is only delivered when more data arrive",
    S_ + '''
import socket
from pynmeagps import NMEAReader
a, b = socket.socketpair()
with a, b:
    a.settimeout(3)
    b.sendall(s("GNSTN,1"))
    rdr = NMEAReader(a)
    import time
    t = time.time()
    raw, msg = rdr.read()
    assert raw == s("GNSTN,1"), raw
    assert time.time() - t < 2, "delivered after the timeout"
''')
bug("b33-raw-buffered", "C33", [(R, "from logging import getLogger\n", "from io import BufferedReader, RawIOBase\nfrom logging import getLogger\n"), (R, "            self._stream = SocketWrapper(stream, encoding=encoding, bufsize=bufsize)\n        else:\n            self._stream = stream\n", "            self._stream = SocketWrapper(stream, encoding=encoding, bufsize=bufsize)\n        elif isinstance(stream, RawIOBase):  # avoid a system call for every byte\n            self._stream = BufferedReader(stream)\n        else:\n            self._stream = stream\n")],
    "an unbuffered file which is read by several readers in turn or by the program itself",
    "data behind the sentence are consumed and lost",
    S_ + '''
import tempfile
from pynmeagps import NMEAReader
with tempfile.NamedTemporaryFile() as tmp:
    tmp.write(s("GNSTN,1") + s("GNSTN,2"))
    tmp.flush()
    with open(tmp.name, "rb", buffering=0) as f:
        assert NMEAReader(f).read()[0] == s("GNSTN,1")
        assert f.read() == s("GNSTN,2"), "consumed"
''')
bug("b33-next-ahead", "C33", [(R, "        raw_data, parsed_data = self.read()\n        if raw_data is None and parsed_data is None:\n            raise StopIteration\n        return (raw_data, parsed_data)\n", "        if self._ahead is None:\n            self._ahead = self.read()\n        raw_data, parsed_data = self._ahead\n        if raw_data is None and parsed_data is None:\n            self._ahead = None\n            raise StopIteration\n        self._ahead = self.read()  # next item\n        return (raw_data, parsed_data)\n"), (R, "        self._quitonerror = quitonerror\n", "        self._quitonerror = quitonerror\n        self._ahead = None\n")],
    "iterating over a live stream",
    "a sentence is only delivered when the next one has been read",
    S_ + '''
from io import BytesIO
from pynmeagps import NMEAReader
st = BytesIO(s("GNSTN,1") + s("GNSTN,2"))
raw, _ = next(NMEAReader(st))
assert st.tell() == len(raw), st.tell()
''')
bug("b34-handler-guarded", "C34", [(R, "            else:\n                self._errorhandler(err)\n", "            else:\n                try:\n                    self._errorhandler(err)\n                except Exception as herr:  # pylint: disable=broad-except\n                    self._logger.error(\"Error handler failed: %s\", herr)\n")],
    "an error handler which raises an exception to stop reading",
    "the exception of the error handler is swallowed and reading goes on",
    S_ + '''
from io import BytesIO
from pynmeagps import NMEAReader
class Stop(Exception):
    pass
def handler(err):
    raise Stop()
bad = s("GNSTN,1")[:-4] + b"00\\r\\n"
rdr = NMEAReader(BytesIO(bad + s("GNSTN,2")), errorhandler=handler)
try:
    rdr.read()
except Stop:
    pass
else:
    raise AssertionError("swallowed")
''')
bug("b34-stream-valueerror", "C34", [(R, "        data = self._stream.read(size)\n", "        try:\n            data = self._stream.read(size)\n        except ValueError as err:  # stream has been closed\n            raise EOFError() from err\n")],
    "a stream whose read raises a ValueError",
    "the error of the stream looks like a regular end of data",
    S_ + '''
from io import BytesIO
from pynmeagps import NMEAReader
st = BytesIO(s("GNSTN,1") + s("GNSTN,2"))
rdr = NMEAReader(st)
rdr.read()
st.close()
try:
    got = rdr.read()
except ValueError:
    pass
else:
    raise AssertionError(got)
''')
bug("b34-busy-flag", "C34", [(R, "        parsing = True\n        raw_data = None\n        parsed_data = None\n\n        while parsing:", "        if self._busy:  # called by the error handler\n            return (None, None)\n        self._busy = True\n        try:\n            return self._next_message()\n        except Exception:\n            self._busy = False\n            raise\n        finally:\n            if exc_info()[0] is None:\n                self._busy = False\n\n    def _next_message(self) -> tuple[bytes | NoneType, NMEAMessage | NoneType]:\n        \"\"\"\n        Read and parse next message from the stream buffer.\n\n        :return: tuple of (raw_data as bytes, parsed_data as NMEAMessage)\n        :rtype: tuple[bytes | NoneType, NMEAMessage | NoneType]\n        \"\"\"\n\n        parsing = True\n        raw_data = None\n        parsed_data = None\n\n        while parsing:"), (R, "        self._quitonerror = quitonerror\n", "        self._quitonerror = quitonerror\n        self._busy = False\n"), (R, "from socket import socket\n", "from socket import socket\nfrom sys import exc_info\n")],
    "a KeyboardInterrupt while the reader waits for data, or a read within an exception handler, and then a further read",
    "the reader then reports the end of data for ever",
    S_ + '''
from io import BytesIO
from pynmeagps import NMEAReader
class Str(BytesIO):
    n = 0
    def read(self, size=-1):
        self.n += 1
        if self.n == 3:
            raise KeyboardInterrupt
        return super().read(size)
rdr = NMEAReader(Str(s("GNSTN,1") + s("GNSTN,2")))
assert rdr.read()[0] == s("GNSTN,1")
try:
    rdr.read()
except KeyboardInterrupt:
    pass
else:
    raise AssertionError("swallowed")
assert rdr.read()[0] == s("GNSTN,2"), "nothing read after the interrupt"
''')
bug("b34-write-error", "C34", [(S, "        return self._socket.send(data, **kwargs)\n", "        try:\n            return self._socket.send(data, **kwargs)\n        except OSError:\n            return 0\n")],
    "a socket which cannot be written to any more",
    "the error is swallowed and the program believes nothing went wrong",
    S_ + '''
import socket
from pynmeagps import NMEAReader
a, b = socket.socketpair()
b.sendall(s("GNSTN,1"))
a.shutdown(socket.SHUT_WR)
try:
    got = NMEAReader(a).datastream.write(b"abc")
except OSError:
    pass
else:
    raise AssertionError(got)
''')
bug("b34-recv-broad", "C34", [(S, "        except (OSError, TimeoutError):\n            return False\n", "        except Exception:  # pylint: disable=broad-except\n            return False\n")],
    "a socket whose recv raises an exception which is not one of the operating system (for example a cancellation or an error of a subclass)",
    "the exception is swallowed and looks like the end of data",
    S_ + '''
import socket
from pynmeagps import NMEAReader
class Stop(Exception):
    pass
class Sock(socket.socket):
    def recv(self, n, flags=0):
        raise Stop()
with Sock() as sock:
    try:
        got = NMEAReader(sock).read()
    except Stop:
        pass
    else:
        raise AssertionError(got)
''')
bug("b35-duck-socket", "C35", [(R, "        if isinstance(stream, socket):\n", "        if hasattr(stream, \"recv\"):  # socket or socket-like\n")],
    "a stream which is no socket, but has a method named recv",
    "its read and readline are not used",
    S_ + '''
from io import BytesIO
from pynmeagps import NMEAReader
class Port(BytesIO):
    def recv(self, n, flags=0):
        raise NotImplementedError
rdr = NMEAReader(Port(s("GNSTN,1")))
raw, _ = rdr.read()
assert raw == s("GNSTN,1"), raw
''')
bug("b35-datagram", "C35", [(R, "        if isinstance(stream, socket):\n", "        if isinstance(stream, socket) and stream.type == SOCK_STREAM:\n"), (R, "from socket import socket\n", "from socket import SOCK_STREAM, socket\n")],
    "a datagram socket",
    "sentences sent as datagrams cannot be read any more",
    S_ + '''
import socket
from pynmeagps import NMEAReader
a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_DGRAM)
with a, b:
    a.send(s("GNSTN,1"))
    raw, _ = NMEAReader(b).read()
    assert raw == s("GNSTN,1"), raw
''')
bug("b35-falsy-stream", "C35", [(R, "        else:\n            self._stream = stream\n", "        else:\n            self._stream = stream or BytesIO()\n"), (R, "from socket import socket\n", "from io import BytesIO\nfrom socket import socket\n")],
    "a stream whose length is 0 or which is false when nothing is buffered yet",
    "nothing is read from it",
    S_ + '''
from io import BytesIO
from pynmeagps import NMEAReader
class Port(BytesIO):
    def __len__(self):
        return 0  # nothing buffered
raw, _ = NMEAReader(Port(s("GNSTN,1"))).read()
assert raw == s("GNSTN,1"), raw
''')
bug("b35-in-waiting", "C35", [(R, "        data = self._stream.read(size)\n", "        if getattr(self._stream, \"in_waiting\", size) == 0:\n            raise EOFError()  # nothing there\n        data = self._stream.read(size)\n")],
    "a serial port on which nothing has been received at the moment",
    "reading ends instead of waiting for data",
    S_ + '''
from io import BytesIO
from pynmeagps import NMEAReader
class Port(BytesIO):
    in_waiting = 0
raw, _ = NMEAReader(Port(s("GNSTN,1"))).read()
assert raw == s("GNSTN,1"), raw
''')
bug("b35-closes", "C35", [(R, "            except EOFError:\n                return (None, None)\n", "            except EOFError:\n                if hasattr(self._stream, \"close\"):\n                    self._stream.close()\n                return (None, None)\n")],
    "a stream which is used after its present end was reached",
    "the stream is closed",
    S_ + '''
from io import BytesIO
from pynmeagps import NMEAReader
st = BytesIO(s("GNSTN,1"))
rdr = NMEAReader(st)
rdr.read()
assert rdr.read() == (None, None)
assert not st.closed
''')
bug("b02-max-errors", "C02", [(R, "        if self._quitonerror == ERR_LOG:\n", "        self._errs += 1\n        if self._errs > 1000:\n            return  # enough has been reported\n        if self._quitonerror == ERR_LOG:\n"), (R, "        self._mode = msgmode\n", "        self._mode = msgmode\n        self._errs = 0\n")],
    "more than a thousand errors in a stream",
    "further errors are not reported",
    S_ + '''
from io import BytesIO
from pynmeagps import NMEAReader
n = []
for _ in NMEAReader(BytesIO(b"$GNSTN,1*00\\r\\n" * 1200), quitonerror=1, errorhandler=n.append):
    pass
assert len(n) == 1200, len(n)
''')
bug("b01-count-wrap", "C01", [(R, "        raw_data = None\n        parsed_data = None\n\n        while", "        raw_data = None\n        parsed_data = None\n        self._n = (self._n + 1) & 0xFFFF\n        if self._n == 0:  # resynchronise from time to time\n            self._stream.readline()\n\n        while"), (R, "        self._mode = msgmode\n", "        self._mode = msgmode\n        self._n = 0\n")],
    "65536 reads by one reader",
    "a sentence is lost",
    S_ + '''
from io import BytesIO
from pynmeagps import NMEAReader
n = sum(1 for _ in NMEAReader(BytesIO(s("PZZZ,1") * 65600)))
assert n == 65600, n
''')
bug("b03-log-format", "C03", [(R, "                self._logger.error(err)\n", "                self._logger.error(str(err) % ())\n")],
    "errors are logged and the text of one contains a percent sign",
    "an exception of another kind leaves the reader",
    S_ + '''
from io import BytesIO
from pynmeagps import NMEAReader
rdr = NMEAReader(BytesIO(b"$GNS%N,1*00\\r\\n" + s("GNSTN,1")), quitonerror=1)
raw, _ = rdr.read()
assert raw == s("GNSTN,1"), raw
''')
bug("b09-class-handler", "C09", [(R, "        self._errorhandler = errorhandler\n", "        type(self)._errorhandler = staticmethod(errorhandler) if errorhandler else None\n")],
    "two readers with different error handlers in use at the same time",
    "the errors of both go to the handler of the second",
    S_ + '''
from io import BytesIO
from pynmeagps import NMEAReader
a, b = [], []
bad = b"$GNSTN,1*00\\r\\n"
r1 = NMEAReader(BytesIO(bad), errorhandler=a.append)
r2 = NMEAReader(BytesIO(bad), errorhandler=b.append)
r1.read()
r2.read()
assert (len(a), len(b)) == (1, 1), (len(a), len(b))
''')
bug("b04-undecodable", "C04", [(H, "message = message.decode(\"utf-8\")", "message = message.decode(\"utf-8\", \"ignore\")")],
    "a sentence with bytes which are not UTF-8",
    "they vanish from the content before the checksum is tested, so corrupted sentences are accepted",
    S_ + '''
from pynmeagps import NMEAReader
good = s("GNSTN,1")
bad = good.replace(b",1", b",\\xff1")
try:
    m = NMEAReader.parse(bad)
except Exception:
    pass
else:
    assert m is None, f"accepted {bad}: {m}"
''')
bug("b17-prop-talker", "C17", [(M, "if talker not in nmt.NMEA_TALKERS:", "if talker not in nmt.NMEA_TALKERS and talker[:1] != \"P\":")],
    "a message is created with an undefined talker which begins with P",
    "it is not refused",
    S_ + '''
from pynmeagps import NMEAMessage, NMEAMessageError
try:
    m = NMEAMessage("PX", "GLL", 0, validate=3)
except NMEAMessageError:
    pass
else:
    raise SystemExit(str(m))
''')
bug("b28-equal", "C28", [(M, "    def __setattr__(self, name, value):", "    def __eq__(self, other):\n        return self.serialize() == other.serialize()\n\n    def __setattr__(self, name, value):")],
    "messages in a set or dictionary, or compared with something which is no message",
    "they cannot be hashed, and the comparison raises",
    S_ + '''
from pynmeagps import NMEAReader
m = NMEAReader.parse(s("GNSTN,1"))
assert m in {m}
assert m != None
''')
bug("b27-receive-size", "C27", [(S, "self._socket.recv(self._bufsize)", "self._socket.recv(max(self._bufsize, 1024))")],
    "a buffer size below 1024",
    "more is taken from the socket than the buffer may hold",
    '''
import socket
from pynmeagps import SocketWrapper


class F(socket.socket):
    def __init__(self):
        self.sizes = []

    def recv(self, n, flags=0):
        self.sizes.append(n)
        return b"a\\r\\n"


f = F()
SocketWrapper(f, bufsize=16).readline()
assert f.sizes == [16], f.sizes
''')
bug("b32-debug-only", "C32", [(R, "        if msgmode not in (0, 1, 2):\n            raise nme.NMEAParseError(\n                f\"Invalid parse", "        if __debug__ and msgmode not in (0, 1, 2):\n            raise nme.NMEAParseError(\n                f\"Invalid parse")],
    "an invalid mode and an interpreter started with -O",
    "another error is raised than without -O",
    '''
import subprocess
code = """
import sys
sys.path.insert(0, "src")
from pynmeagps import NMEAReader
try:
    NMEAReader.parse(b"$GNSTN,1*00", msgmode=5)
except Exception as err:
    print(type(err).__name__, err)
"""
out = {o: subprocess.run([sys.executable, "-B", *o, "-c", code], capture_output=True, text=True).stdout for o in ((), ("-O",), ("-OO",))}
assert len(set(out.values())) == 1, out
''')
Z_ = FS + '''
import logging
import zlib
from pynmeagps import SocketWrapper
logging.disable()


def gz(data):
    c = zlib.compressobj(6, zlib.DEFLATED, 31)
    return c.compress(data) + c.flush()


def ch(data):
    return b"%x\\r\\n%s\\r\\n" % (len(data), data)


def rd(parts, enc):
    w, out = SocketWrapper(F(parts), encoding=enc), b""
    while True:
        c = w.read(1)
        if not c:
            return out
        out += c


'''
bug("b36-abandon", "C36", [(S, "                    # parser will discard data\n", "                    # parser will discard data\n                    break\n")],
    "a chunk which cannot be decompressed with others behind it in the same segment",
    "those are lost too",
    Z_ + '''
got = rd([ch(b"\\xff\\xff") + ch(gz(b"abc"))], 3)
assert got.endswith(b"abc"), got
''')
bug("b36-coding-off", "C36", [(S, "                    # parser will discard data\n", "                    # parser will discard data\n                    self._encoding = ENCODE_CHUNKED\n")],
    "a chunk which cannot be decompressed",
    "later chunks are not decompressed any more",
    Z_ + '''
got = rd([ch(b"\\xff\\xff"), ch(gz(b"abc")), ch(gz(b"def"))], 3)
assert got.endswith(b"abcdef"), got
''')
bug("b36-sticky-line", "C36", [(S, "                # residual bytes at beginning of stream\n", "                # residual bytes at beginning of stream\n                partial = instream.read()\n")],
    "an invalid length line with intact chunks before the segment's end",
    "what follows is decoded from the wrong place",
    Z_ + '''
got = rd([ch(b"ab") + b"zz\\r\\n" + b"5\\r\\nab", ch(b"cd"), ch(b"ef")], 1)
assert got == b"abcdef", got
''')
bug("b36-discard", "C36", [(S, "                    # parser will discard data\n", "                    chunks = chunk = b\"\"  # parser would discard data\n")],
    "a chunk which cannot be decompressed behind intact ones in the same segment",
    "the intact ones are lost",
    Z_ + '''
got = rd([ch(gz(b"abc")) + ch(b"\\xff\\xff")], 3)
assert got.startswith(b"abc"), got
''')
bug("b37-wrapper-order", "C37", [(S, "encoding=ENCODE_NONE, bufsize=DEFAULT_BUFSIZE\n", "bufsize=DEFAULT_BUFSIZE, encoding=ENCODE_NONE\n")],
    "a socket wrapper made with positional arguments",
    "the encoding is taken for the buffer size",
    FS + '''
from pynmeagps import SocketWrapper
w = SocketWrapper(F([b"2\\r\\nab\\r\\n"]), 1)
got = w.read(2)
assert got == b"ab", got
''')
bug("b37-parse-order", "C37", [(R, "        validate: int = VALCKSUM,\n        userdefined: dict | NoneType = None,\n    ) -> NMEAMessage", "        userdefined: dict | NoneType = None,\n        validate: int = VALCKSUM,\n    ) -> NMEAMessage")],
    "parse called with the validation setting by position",
    "the setting is ignored",
    S_ + '''
from pynmeagps import NMEAReader
m = NMEAReader.parse(b"$GNSTN,1*00\\r\\n", 0, 0)
assert m is not None
''')
bug("b37-bufsize-default", "C37", [(R, "        bufsize: int = DEFAULT_BUFSIZE,\n", "        bufsize: int = 1024,\n")],
    "a socket read with the default buffer size",
    "it is another than the documented one",
    S_ + FS + '''
from pynmeagps import NMEAReader, DEFAULT_BUFSIZE


class G(F):
    def recv(self, n, flags=0):
        sizes.append(n)
        return super().recv(n, flags)


sizes = []
NMEAReader(G([s("GNSTN,1")])).read()
assert set(sizes) == {DEFAULT_BUFSIZE}, sizes
''')
bug("b37-checksum-default", "C37", [(M, "        validate: int = nmt.VALCKSUM,\n", "        validate: int = nmt.VALCKSUM | nmt.VALMSGID,\n")],
    "a message with an unknown talker or id is made without a validation setting",
    "it is refused",
    S_ + '''
from pynmeagps import NMEAMessage
m = NMEAMessage("XX", "STN", 0)
assert m.identity == "XXSTN"
''')
bug("b13-suffixless", "C13", [(M, "val = kwargs.get(keyr, self.nomval(att, self.msgmode))", "val = kwargs.get(keyr, kwargs.get(key, self.nomval(att, self.msgmode)))")],
    "a message with a repeating group is made from keywords among which is a group attribute without number",
    "every member of the group gets the value",
    S_ + '''
from pynmeagps import NMEAMessage
m = NMEAMessage("GN", "GSA", 0, opMode="A", navMode=3, svid=7)
assert m.svid_01 == 0 and m.serialize() == s("GNGSA,A,3,0,0,0,0,0,0,0,0,0,0,0,0,0.0,0.0,0.0,0"), m
''')
bug("b12-empty-checksum", "C12", [(M, "            if self._checksum is None:", "            if not self._checksum:")],
    "a sentence whose checksum was cut off, read with checksum validation off",
    "another sentence is serialized",
    '''
from pynmeagps import NMEAReader
raw = b"$GNSTN,12*\\r\\n"
m = NMEAReader.parse(raw, validate=0)
assert m.serialize() == raw, m.serialize()
''')
bug("b01-iterate-none", "C01", [(R, "        if raw_data is None and parsed_data is None:", "        if raw_data is None or (parsed_data is None and self._quitonerror == ERR_IGNORE):")],
    "a truncated line in an iterated stream whose errors are ignored",
    "iteration ends although there are more sentences",
    S_ + '''
import io
from pynmeagps import NMEAReader
r = NMEAReader(io.BytesIO(s("GNSTN,1") + b"$GNGLL\\r\\n" + s("GNSTN,2")), quitonerror=0)
assert s("GNSTN,2") in [raw for raw, _ in r]
''')
bug("b02-once-raised", "C02", [(R, "        if self._quitonerror == ERR_RAISE:\n            raise err from err", "        if self._quitonerror == ERR_RAISE:\n            self._quitonerror = ERR_LOG\n            raise err from err")],
    "a second bad sentence after an error was raised",
    "only the first error is raised",
    S_ + '''
import io
from pynmeagps import NMEAReader, NMEAParseError
bad = s("GNSTN,1")[:-4] + b"00\\r\\n"
r = NMEAReader(io.BytesIO(bad + bad + s("GNSTN,2")), quitonerror=2)
for _ in range(2):
    try:
        r.read()
        raise SystemExit("no error")
    except NMEAParseError:
        pass
assert r.read()[0] == s("GNSTN,2")
''')
bug("b01-nul", "C01", [(R, "raw_data = bytehdr + byten\n", "raw_data = bytehdr + byten.replace(b\"\\x00\", b\"\")\n")],
    "a sentence with a NUL byte in a text field",
    "it is not delivered as it is in the stream",
    S_ + '''
import io
from pynmeagps import NMEAReader
x = s("GNTXT,01,01,02,a\\x00b")
raw, msg = NMEAReader(io.BytesIO(x)).read()
assert raw == x and msg is not None, (raw, msg)
''')
bug("b17-upper-id", "C17", [(M, "        if msgID in nmt.NMEA_MSGIDS:", "        if msgID.upper() in nmt.NMEA_MSGIDS:")],
    "an id which differs in letter case from a published one, read with message id validation",
    "it is taken for the published one",
    S_ + '''
from pynmeagps import NMEAReader, NMEAParseError
try:
    print(NMEAReader.parse(s("GNstn,1"), validate=3))
    raise SystemExit("not rejected")
except NMEAParseError:
    pass
''')
bug("b30-any-talker", "C30", [(M, "            self._talker == \"P\"\n            and self._msgID", "            self._msgID")],
    "an id with message number (UBX, FEC, ...) sent by a standard talker",
    "its identity contains the message number",
    S_ + '''
from pynmeagps import NMEAReader
m = NMEAReader.parse(s("GNUBX,00"))
assert m.identity == "GNUBX", m.identity
''')
bug("b02-hex-int", "C02", [(M, "                val = int(vals)", "                val = int(vals, 16 if vals[:2] == \"0x\" else 10)")],
    "an integer field in hexadecimal notation",
    "the sentence is delivered although the field is not an integer",
    S_ + '''
import io
from pynmeagps import NMEAReader, NMEATypeError
r = NMEAReader(io.BytesIO(s("GNGSV,0x1,1,1,1,2,3,4")), quitonerror=2)
try:
    r.read()
    raise SystemExit("delivered")
except NMEATypeError:
    pass
''')
bug("b23-glonass", "C23", [(H, "ls = 0 if gnss == GLO else leapsecond(utc, gnss)", "ls = leapsecond(utc, gnss)")],
    "the GLONASS time system",
    "leap seconds are applied to a time scale which contains them",
    '''
from datetime import datetime
from pynmeagps import utc2wnotow
got = utc2wnotow(datetime(2024, 1, 7, 0, 0, 10), "R")
assert got[1:] == (10000, 0), got
''')
bug("b17-gn-proprietary", "C17", [(M, "        elif msgID in nmt.NMEA_MSGIDS_PROP or msgID in nmt.NMEA_PREFIX_PROP:", "        elif talker != \"GN\" and msgID in nmt.NMEA_MSGIDS_PROP or msgID in nmt.NMEA_PREFIX_PROP:")],
    "a proprietary id sent by a standard talker",
    "it is unknown for one talker and known for all others",
    S_ + '''
from pynmeagps import NMEAReader
a = NMEAReader.parse(s("GPQTMVERNO,a,b,c"))
b = NMEAReader.parse(s("GNQTMVERNO,a,b,c"))
assert a.verstr == getattr(b, "verstr", None), b
''')
bug("b16-cached-parts", "C16", [(H, "def get_parts", "@__import__('functools').lru_cache(maxsize=64)\ndef get_parts")],
    "the list which get_parts returned is changed by its caller, and the same sentence is split again",
    "the changed list is returned",
    S_ + '''
from pynmeagps import get_parts
x = s("GNSTN,1,2")
get_parts(x)[3].clear()
assert get_parts(x)[3] == ["1", "2"], get_parts(x)
''')
bug("b18-precise-uart", "C18", [(M, '        elif mode == nmt.POLL:\n            if (py and lp == 1) or (not py and not pt):\n                key += "_CURR"', '        elif mode == nmt.POLL:\n            if (py and lp == 1) or (not py and not (pt or self._hpnmeamode)):\n                key += "_CURR"')],
    "the query for the current port made in high precision mode",
    "it is made with the layout for a given port",
    '''
from pynmeagps import NMEAMessage
a = NMEAMessage("P", "QTMCFGUART", 2)
b = NMEAMessage("P", "QTMCFGUART", 2, hpnmeamode=True)
assert a.serialize() == b.serialize(), (a, b)
''')
