"""
C04: checksum validation accepts exactly the sentences whose checksum is right.

Enumerated: for a sentence of every published definition every value of the two checksum digits,
and for representative sentences every single-byte substitution (255 values at every position),
deletion and insertion, under every validation setting; checksums of the helpers, of generated
and payload-built messages and of serialized output against an own XOR.
"""

import itertools

from mc import core, gen, ref

ID = "C04"
LEVEL = "exploration"
RULE = (
    "definition x 256 checksums x letter case x validation; representative sentence x position x "
    "255 substitutions; all content strings up to the length over an alphabet for the helpers; "
    "non-trivial = the checksum does not match"
)
ASSUMPTIONS = ["a content change which introduces an asterisk or CR/LF moves the field boundaries; then only acceptance with a wrong checksum is an error"]
ALPHA = ["A", "*" , ",", "\u00e9", "\u20ac", "0", "\x7f", "a"]


def reps():
    out = []
    for key in ("GGA", "GSV", "TXT", "STN", "UBX00", "QTMCFGUART", "GRME", "ASHR", "SSNSNC", "QTMACK"):
        for d in ref.all_defs():
            if d.key == key and d.mode == 0:
                for cls in ("plain", "odd"):
                    out.append((d, ref.content_of(d, ref.fields_for(d, cls, 2))))
    out.append((None, "GNXXX,1,\u00e9,\u20ac,x"))
    out.append((None, "PZZZ"))
    return out


def shards(tier):
    n = len(ref.all_defs())
    out = [["sums", i, min(n, i + 8)] for i in range(0, n, 8)]
    out += [["subst", i, j] for i in range(len(reps())) for j in range(2)]
    out += [["help", i] for i in range(len(ALPHA))]
    out += [["gen", i, min(n, i + 16)] for i in range(0, n, 16)]
    return out


def accepts(P, data, mode, val):
    """A message or None; parse errors count as rejection."""
    try:
        return P.NMEAReader.parse(data, msgmode=mode, validate=val)
    except (P.NMEAParseError, P.NMEAMessageError, P.NMEATypeError):
        return None


def right(data):
    """Is this a sentence whose checksum digits are the XOR of its content?"""
    body = data.strip(b"$\r\n")
    content, star, ck = body.partition(b"*")
    try:
        body.decode("utf-8")
    except UnicodeDecodeError:
        return False
    return star == b"*" and ck.upper() == b"%02X" % ref.xor(content)


def run_shard(shard, ctx):
    P = core.use_repo()
    quick = ctx.tier == "quick"
    kind = shard[0]
    if kind == "sums":
        for d in ref.all_defs()[shard[1] : shard[2]]:
            content = ref.content_of(d, ref.fields_for(d, "plain", 2))
            good = P.NMEAReader.parse(ref.sentence(content), msgmode=d.mode)
            want = ref.xor(content.encode())
            text = str(good)
            for n in range(256):
                for ck in {b"%02X" % n, b"%02x" % n}:
                    data = ref.sentence(content, ck)
                    for val in (1, 3, 0):
                        ctx.case([data, d.mode, val])
                        ctx.add(evaluations=1, distinct_nontrivial=int(n != want))
                        msg = accepts(P, data, d.mode, val)
                        if (msg is not None) != (n == want or not val & 1):
                            ctx.violation(f"parse({data!r}, {d.mode}, validate={val}): {msg!r}")
                        elif msg is not None and str(msg) != text:
                            ctx.violation(f"checksum {ck} changes the attributes: {msg} instead of {text}")
                        elif n == want and msg.checksum.upper() != "%02X" % n:
                            ctx.violation(f"checksum of {data!r} is {msg.checksum!r}")
                        ctx.outcome((val, msg is not None))
            for ck in (b"", b"0", b"%X" % (want & 15), b"0%02X" % want, b"%02X0" % want, b" %02X" % want, b"%02X " % want, b"0x%02X" % want, b"+%02X" % want, b"%02X*%02X" % (want, want), b"ZZ", b"\xc3\xa9", b"%02X\x00" % want, b"%d" % want):
                data = ref.sentence(content, ck)
                if ck.upper() == b"%02X" % want:
                    continue
                for val in (1, 3):
                    ctx.case([data, d.mode, val])
                    ctx.add(evaluations=1, distinct_nontrivial=1)
                    if accepts(P, data, d.mode, val) is not None:
                        ctx.violation(f"parse({data!r}, {d.mode}, validate={val}) accepted with checksum {ck!r}")
            # more than one asterisk: what follows the first one is no checksum
            text2 = content.encode()
            for at in range(2, len(text2) + 1):
                for mid in (text2[:at] + b"*" + text2[at:], text2[:at] + b"**" + text2[at:]):
                    data = b"$" + mid + b"*%02X\r\n" % ref.xor(mid)
                    for val in (1, 3):
                        ctx.case([data, d.mode, val])
                        ctx.add(evaluations=1, distinct_nontrivial=1)
                        if accepts(P, data, d.mode, val) is not None:
                            ctx.violation(f"parse({data!r}, {d.mode}, validate={val}) accepted")
        return
    if kind == "subst":
        d, content = reps()[shard[1]]
        mode = d.mode if d else 0
        data = ref.sentence(content)
        n = len(content.encode())
        for pos in range(1 + shard[2], n + 4, 2):
            for b in range(256):
                if data[pos] == b:
                    continue
                bad = data[:pos] + bytes([b]) + data[pos + 1 :]
                for val in (1, 3) if not quick else (1,):
                    ctx.case([bad, mode, val])
                    ctx.add(evaluations=1, distinct_nontrivial=1)
                    got = accepts(P, bad, mode, val)
                    if pos > n + 1 and bad[pos : pos + 1].upper() == data[pos : pos + 1].upper():
                        ok = d is not None or val == 1  # letter case of a checksum digit; an unknown id is refused
                    else:
                        ok = False
                    if (got is not None) != ok:
                        ctx.violation(f"parse({bad!r}, {mode}, validate={val}) gave {got!r}; sentence {data!r} changed at byte {pos}")
                    ctx.outcome((pos > n, got is not None))
            for bad in (data[:pos] + data[pos + 1 :], data[:pos] + data[pos : pos + 1] + data[pos:], data[:pos] + b"0" + data[pos:]):
                ctx.case([bad, mode])
                ctx.add(evaluations=1, distinct_nontrivial=1)
                got = accepts(P, bad, mode, 1)
                if got is not None and not right(bad):
                    ctx.violation(f"parse({bad!r}, {mode}) accepted")
            if not quick:  # two bytes
                for q in range(pos + 1, min(pos + 4, n + 1)):
                    for x in (1, 2, 0x20, 0x80, 0xFF):
                        for y in (1, 3, 0x20, 0x81):
                            bad = bytearray(data)
                            bad[pos] ^= x
                            bad[q] ^= y
                            bad = bytes(bad)
                            ctx.case([bad, mode])
                            ctx.add(evaluations=1, distinct_nontrivial=1)
                            got = accepts(P, bad, mode, 1)
                            if got is not None and not right(bad):
                                ctx.violation(f"parse({bad!r}, {mode}) accepted")
        return
    if kind == "help":
        for n in range(0, 5 if quick else 6):
            for t in itertools.product(ALPHA, repeat=n):
                s = ALPHA[shard[1]] + "".join(t)
                ctx.case(["helpers", s])
                want = "%02X" % ref.xor(s.encode())
                if P.calc_checksum(s) != want:
                    ctx.violation(f"calc_checksum({s!r}) = {P.calc_checksum(s)!r}, should be {want}")
                ctx.add(evaluations=1, distinct_nontrivial=1)
                if "*" in s or n > 3:
                    continue
                c = "GNXXX," + s
                pay = s.split(",")
                got = P.generate_checksum("GN", "XXX", pay)
                want = "%02X" % ref.xor(c.encode())
                if got != want:
                    ctx.violation(f"generate_checksum('GN','XXX',{pay!r}) = {got!r}, should be {want}")
                msg = P.NMEAMessage("GN", "XXX", 0, payload=pay)
                if msg.checksum != want or msg.serialize() != ref.sentence(c):
                    ctx.violation(f"message with payload {pay!r}: {msg.checksum!r}, {msg.serialize()!r}")
                parts = P.get_parts(ref.sentence(c))
                if parts[0] != c or parts[4] != want or P.get_parts("$" + c + "*" + want + "\r\n") != parts:
                    ctx.violation(f"get_parts of {c!r}: {parts!r}")
                ctx.add(evaluations=3)
                ctx.outcome(want[:1])
        return
    for d in ref.all_defs()[shard[1] : shard[2]]:
        for cls in ref.CLASSES:
            fields = ref.fields_for(d, cls, 2)
            raws = [f[2] for f in fields]
            content = ref.content_of(d, raws)
            ctx.case([repr(d), cls])
            msg = P.NMEAMessage(d.talker, d.msgid, d.mode, payload=list(raws))
            ctx.add(evaluations=1, distinct_nontrivial=1)
            want = "%02X" % ref.xor(content.encode())
            if msg.checksum != want or msg.serialize() != ref.sentence(content):
                ctx.violation(f"{d} built from payload: checksum {msg.checksum!r}, {msg.serialize()!r}, should be {want}")
            if cls == "empty":
                continue
            kw = dict(ref.expected(d.layout, raws))
            kw.update(gen.required(d))
            try:
                msg = P.NMEAMessage(d.talker, d.msgid, d.mode, **kw)
            except P.NMEAMessageError:
                continue
            data = msg.serialize()
            body, _, ck = data.strip(b"$\r\n").partition(b"*")
            ctx.add(evaluations=1)
            if ck != b"%02X" % ref.xor(body) or msg.checksum.encode() != ck:
                ctx.violation(f"{d} generated: checksum {msg.checksum!r} in {data!r}")
            ctx.outcome(d.key)
