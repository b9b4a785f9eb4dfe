"""
C12: parse -> serialize reproduces the sentence; eval(repr(message)) recreates the message.

Enumerated: every definition x mode x value class x truncation; unknown, user-defined and
unknown-talker sentences whose fields are all strings up to the bound over a hostile alphabet;
both checksum cases, damaged checksums read without validation; fields of thousands of characters and sentences of hundreds of fields; messages
generated from attributes.
"""

import itertools

from mc import core, gen, ref

ID = "C12"
LEVEL = "exploration"
RULE = (
    "every accepted sentence of the bounded language (definitions x classes x truncations; unknown "
    "and user-defined ids x all field strings over the alphabet up to the bound) is serialized and "
    "its repr evaluated; non-trivial = the sentence was accepted (a message object was returned)"
)
ASSUMPTIONS = [
    "sentences start with one dollar sign and end with CRLF",
    "repr is compared on the attributes except for user-defined ids (repr does not carry them)",
]
ALPHA = ["a", "1", ".", "-", " ", "'", '"', "\\", "[", "]", "{", "\t", "é", "°", "$", "\x00", "\x7f", "😀", "\n"]
CKS = [b"", b"0", b"zz", b"ZZ", b"000", b"5d5D", b"  ", b"0x", b"-1", b"\xc3\xa9", b"None"]
UDEF = {"XYZ": {"a": "ST", "b": "ST"}, "Qq1": {"n": "IN", "grp": ("n", {"v": "ST"})}}


def shards(tier):
    n = len(ref.all_defs())
    step = 24 if tier == "quick" else 10
    out = [["defs", i, min(n, i + step)] for i in range(0, n, step)]
    out += [["chars", i] for i in range(len(ALPHA))]
    return out


def run_shard(shard, ctx):
    P = core.use_repo()
    quick = ctx.tier == "quick"
    env = {"NMEAMessage": P.NMEAMessage}

    def check(sent, mode, label, userdefined=None, validate=1, deep=True):
        ctx.case([label, mode, validate, sent])
        ctx.add(evaluations=1)
        try:
            try:
                msg = P.NMEAReader.parse(sent, msgmode=mode, validate=validate, userdefined=userdefined)
            except P.NMEATypeError:
                return False  # a typed field without a value of its type
            if msg is None:
                return False
            ctx.add(distinct_nontrivial=1)
            out = msg.serialize()
            ctx.outcome((label[:12], mode, len(msg.payload) if msg.payload else 0))
            if out != sent:
                ctx.violation(f"{label}: serialize gives {out!r} for {sent!r}")
                return True
            if str(out) != str(msg.serialize()):
                ctx.violation(f"{label}: serialize differs when repeated")
            if deep:
                recreate(msg, label, good=validate & 1 and sent[-4:-2] == sent[-4:-2].upper())
        except Exception as err:  # pylint: disable=broad-except
            ctx.violation(f"{label}: raised {err!r} for {sent!r}")
        return True

    def recreate(msg, label, good=True, userdef=False):
        text = repr(msg)
        new = eval(text, dict(env))  # pylint: disable=eval-used
        pairs = [
            ("identity", msg.identity, new.identity) if not userdef else ("id", msg.msgID, new.msgID),
            ("mode", msg.msgmode, new.msgmode),
            ("talker", msg.talker, new.talker),
            ("msgID", msg.msgID, new.msgID),
            ("payload", list(msg.payload), list(new.payload)),
        ]
        if not userdef:
            pairs.append(("str", str(msg), str(new)))
        pairs.append(("repr", text, repr(new)))
        if good:
            pairs.append(("serialize", msg.serialize(), new.serialize()))
            pairs.append(("checksum", msg.checksum, new.checksum))
        for what, a, b in pairs:
            if a != b:
                ctx.violation(f"{label}: {what} of eval(repr) is {b!r}, should be {a!r}")

    if shard[0] == "defs":
        for d in ref.all_defs()[shard[1] : shard[2]]:
            var = ref.has_group(d.layout, "open") or ref.has_group(d.layout, "counted")
            for cls in ref.CLASSES:
                for reps in (0, 1, 2, 10, 11) + ((99, 100, 101, 300) if cls == "plain" else ()) if var else (2,):
                    raws = [f[2] for f in ref.fields_for(d, cls, reps)]
                    sent = ref.sentence(ref.content_of(d, raws))
                    if not check(sent, d.mode, f"{d}/{cls}/{reps}"):
                        ctx.violation(f"{d} {cls}: not accepted {sent!r}")
                    low = sent[:-4] + sent[-4:-2].lower() + sent[-2:]
                    check(low, d.mode, f"{d}/{cls}/{reps} lower case checksum")
                    bad = sent[:-4] + (b"00" if sent[-4:-2] != b"00" else b"01") + sent[-2:]
                    check(bad, d.mode, f"{d}/{cls}/{reps} unchecked checksum", validate=0)
            for cls in ("plain", "odd"):
                sent = ref.sentence(ref.content_of(d, [f[2] for f in ref.fields_for(d, cls, 2)]))
                for ck in CKS:
                    check(sent[:-4] + ck + sent[-2:], d.mode, f"{d}/{cls} checksum {ck}", validate=0)
                    check(sent[:-4] + ck + sent[-2:], d.mode, f"{d}/{cls} checksum {ck}", validate=2)
            for cls in ("plain", "sw", "empty") if quick else ref.CLASSES:
                raws = [f[2] for f in ref.fields_for(d, cls, 2)]
                counts = ref.counts_of(d.layout)
                lo = 0
                for i, (name, _, _) in enumerate(ref.fields_for(d, cls, 2)):
                    if name in counts:
                        lo = i + 1
                for k in range(lo, len(raws)):
                    check(ref.sentence(ref.content_of(d, raws[:k])), d.mode, f"{d}/{cls}/first {k}")
                for extra in ([""], ["x"], ["", ""], ["1", "2", "3"]):
                    check(ref.sentence(ref.content_of(d, raws + extra)), d.mode, f"{d}/{cls}/surplus")
            # every mode, although the layout belongs to another one
            raws = [f[2] for f in ref.fields_for(d, "plain", 2)]
            for mode in (0, 1, 2):
                sent = ref.sentence(ref.content_of(d, raws))
                try:
                    P.NMEAReader.parse(sent, msgmode=mode)
                except P.NMEATypeError:
                    continue
                check(sent, mode, f"{d} as mode {mode}")
            # group delimiters as used by PSSNSNC
            if d.key == "SSNSNC":
                raws = [f[2] for f in ref.fields_for(d, "plain", 3)]
                for i in range(1, len(raws)):
                    alt = list(raws)
                    alt[i] = "[" + alt[i]
                    alt[-1] = alt[-1] + "]"
                    check(ref.sentence(ref.content_of(d, alt)), d.mode, f"{d}/brackets at {i}")
            # generated messages
            if d.variant:
                continue
            for cls in ("plain", "sw", "odd"):
                fields = ref.fields_for(d, cls, 2)
                kw = dict(ref.expected(d.layout, [f[2] for f in fields]))
                kw.update(gen.required(d))
                for kwargs in (kw, gen.required(d)):
                    for hp in (False, True):
                        ctx.case([f"generated {d}/{cls}", {k: repr(v) for k, v in kwargs.items()}])
                        ctx.add(evaluations=1, distinct_nontrivial=1)
                        msg = P.NMEAMessage(d.talker, d.msgid, d.mode, hpnmeamode=hp, **kwargs)
                        wire = msg.serialize()
                        back = P.NMEAReader.parse(wire, msgmode=d.mode)
                        if back is None or back.serialize() != wire:
                            ctx.violation(f"generated {d}/{cls}: {wire!r} does not survive parse")
                        new = eval(repr(msg), dict(env))  # pylint: disable=eval-used
                        for what, a, b in (
                            ("payload", list(msg.payload), list(new.payload)),
                            ("serialize", wire, new.serialize()),
                            ("identity", msg.identity, new.identity),
                            ("mode", msg.msgmode, new.msgmode),
                            ("str", str(back), str(new)),
                        ):
                            if a != b:
                                ctx.violation(f"generated {d}/{cls}: {what} of eval(repr) {b!r} != {a!r}")
        return

    first = ALPHA[shard[1]]
    size = 3 if quick else 4
    # long fields and many fields
    for big in (79, 80, 82, 83, 100, 127, 128, 255, 256, 257, 1000, 1024, 4096, 10000)[shard[1] :: len(ALPHA)]:
        for head in ("GNXXX", "GNTXT", "PZZZ", "GNXYZ"):
            for fields in (["a" * big], ["1", "", "é" * big], [str(i) for i in range(big)], [""] * big):
                udef = UDEF if head == "GNXYZ" else None
                if head == "GNTXT":
                    fields = ["1", "1", "2"] + fields
                sent = ref.sentence(",".join([head] + fields))
                if not check(sent, 0, f"{head} long {big}", userdefined=udef, deep=udef is None):
                    ctx.violation(f"{head}: sentence not accepted {sent[:200]!r}", case=[sent])
    strings = [""] if shard[1] == 0 else []
    for n in range(0, size):
        strings += [first + "".join(t) for t in itertools.product(ALPHA, repeat=n)]
    heads = (("GNXXX", None, 0), ("GNTXT", None, 0), ("PZZZ", None, 0), ("ZZGGA", None, 0), ("GNXYZ", UDEF, 0),
             ("PUBX", None, 0), ("GNQq1", UDEF, 0), ("PQTMVERNO", None, 0), ("AIAAM", None, 2))
    for text in strings:
        for head, udef, mode in heads:
            for fields in ([text], ["", text], [text, "1", text]):
                sent = ref.sentence(",".join([head] + fields))
                try:
                    P.NMEAReader.parse(sent, msgmode=mode, userdefined=udef)
                except P.NMEATypeError:
                    if head in ("GNXXX", "PZZZ", "ZZGGA", "GNXYZ") and (head != "ZZGGA"):
                        ctx.violation(f"{head} rejected {sent!r}")
                    continue  # typed field
                ok = check(sent, mode, f"{head} {text!r}", userdefined=udef, deep=udef is None)
                if not ok:
                    ctx.violation(f"{head}: sentence not accepted {sent!r}", case=[sent])
