"""
C19: user-defined sentences behave like published ones.

The space of definitions is enumerated: all sequences of attribute types up to the bound and all
bounded arrangements of groups. For each definition its layout automaton gives the sentences
(value classes x repeats x truncations x modes) which are replayed on parser, reader and generator.
"""

import io
import itertools

from mc import core, gen, ref

ID = "C19"
LEVEL = "model_checking"
RULE = (
    "every definition of the bounded grammar x mode x value class x repeats x truncation; state = "
    "(definition, field position), trace = one sentence parsed through both entry points, serialized, "
    "or generated and parsed back"
)
ASSUMPTIONS = ["an indeterminate group is the last element, as documented", "attribute names do not collide with group suffixes"]
TYPES = ("CH", "ST", "LAD", "LND", "QS", "HX", "DE", "IN", "LA", "LN", "TM", "DT", "DTL", "DM")
FEW = ("ST", "IN", "DE", "LA", "TM")


def definitions(tier):
    """Yield layouts (spec form)."""
    out = []

    def add(*els):
        lay, n = [], 0
        for el in els:
            if isinstance(el, str):
                lay.append([f"{'abcdefgh'[n]}t", el])
            else:
                lay.append(el)
            n += 1
        out.append(lay)

    for t in TYPES:
        add(t)
    for t in itertools.product(TYPES, repeat=2):
        add(*t)
    for t in itertools.product(FEW if tier == "quick" else TYPES, repeat=3):
        add(*t)
    if tier != "quick":
        for t in itertools.product(FEW, repeat=4):
            add(*t)
    # positions
    pos = [["lat", "LA"], ["NS", "LAD"], ["lon", "LN"], ["EW", "LND"]]
    for pre in ([], ["IN"], ["ST", "TM"]):
        for post in ([], ["IN"], ["DE", "CH"]):
            out.append(
                [[f"p{i}", t] for i, t in enumerate(pre)] + pos + [[f"q{i}", t] for i, t in enumerate(post)]
            )
    out.append(pos[2:] + pos[:2])
    out.append([pos[0], ["x", "ST"], pos[1], pos[2], ["y", "IN"], pos[3]])

    # groups
    subs = [[["g", t]] for t in TYPES] + [
        [["g", a], ["h", b]] for a in FEW for b in FEW
    ] + [[["g", "IN"], ["h", "DE"], ["i_x", "ST"]]]
    if tier != "quick":
        subs += [[["g", a], ["h", b], ["i", c]] for a in FEW for b in FEW for c in FEW]
    prefixes = ([], ["ST"], ["DE", "IN"])
    suffixes = ([], ["ST"], ["IN", "TM"])
    for sub in subs:
        for pre in prefixes:
            for suf in suffixes:
                a = [[f"p{i}", t] for i, t in enumerate(pre)]
                z = [[f"z{i}", t] for i, t in enumerate(suf)]
                for n in (1, 2, 3):
                    out.append(a + [["grp", [n, sub]]] + z)
                out.append(a + [["num", "IN"], ["grp", ["num", sub]]] + z)
                out.append(a + [["num", "IN"], ["mid", "ST"], ["grp", ["num", sub]]] + z)
                if not suf:
                    out.append(a + [["grp", ["None", sub]]])
    # several groups
    s1, s2 = [["g", "IN"], ["h", "DE"]], [["k", "ST"]]
    for pre in prefixes:
        a = [[f"p{i}", t] for i, t in enumerate(pre)]
        for first in (["one", [2, s1]], ["one", ["num", s1]]):
            for second in (["two", [2, s2]], ["two", ["num2", s2]], ["two", ["None", s2]]):
                for suf in suffixes if second[1][0] != "None" else ([],):
                    z = [[f"z{i}", t] for i, t in enumerate(suf)]
                    out.append(a + [["num", "IN"], ["num2", "IN"], first, ["m", "ST"], second] + z)
    # nested
    for outer in (1, 2, "num"):
        for inner in (1, 2, "num2"):
            for tail in ([], [["r", "DE"]]):
                sub = [["g", "IN"], ["in", [inner, [["h", "ST"], ["k", "IN"]]]]] + tail
                out.append([["num", "IN"], ["num2", "IN"], ["grp", [outer, sub]], ["z", "ST"]])
                if not tail:  # three levels
                    sub = [["g", "IN"], ["in", [inner, [["h", "ST"], ["deep", [2, [["q", "IN"]]]], ["k", "IN"]]]]]
                    out.append([["num", "IN"], ["num2", "IN"], ["grp", [outer, sub]], ["z", "ST"]])
    return out


def to_python(lay):
    return {n: ((t[0], to_python(t[1])) if ref.is_group(t) else t) for n, t in lay}


class UDef:
    """Definition with the interface of ref.Def."""

    def __init__(self, layout, talker, msgid, mode):
        self.layout, self.talker, self.msgid, self.mode = layout, talker, msgid, mode
        self.key, self.first, self.variant = msgid, None, False

    @property
    def identity(self):
        return self.talker + self.msgid


IDS = (("GN", "XQZ"), ("P", "XQZM"), ("GN", "abc"), ("P", "QTMXQ"), ("ZX", "XQZ"), ("P", "UBX7"))
# ids which are easily taken for each other
SIMILAR = ["XQZ", "xqz", "Xqz", "XQ", "XQZZ", "XQZ1", "GNXQZ", "QZ", "XQZ_", "XQZ ", "STNX", "stnx", "UBX7", "QTMACK1"]


def shards(tier):
    n = len(definitions(tier))
    step = 40 if tier == "quick" else 60
    return [["def", i, min(n, i + step)] for i in range(0, n, step)] + [["similar", i] for i in range(len(SIMILAR))] + [["other", i, i + 60] for i in range(0, len(ref.all_defs()), 60)]


def run_shard(shard, ctx):
    P = core.use_repo()
    quick = ctx.tier == "quick"
    if shard[0] == "other":
        return others(P, ctx, shard)
    if shard[0] == "similar":
        return similar(P, ctx, SIMILAR[shard[1]])
    for i, lay in enumerate(definitions(ctx.tier)[shard[1] : shard[2]]):
        talker, msgid = IDS[i % len(IDS)]
        udict = {msgid: to_python(lay), "OTHER": {"q": "ST"}}
        frozen = repr(udict)
        counts = ref.counts_of(lay)
        nested = [x for n, t in lay if ref.is_group(t) for x in t[1] if ref.is_group(x[1])]
        for n, t in lay:
            if ref.is_group(t):
                counts.update({x[1][0]: n for x in t[1] if ref.is_group(x[1]) and isinstance(x[1][0], str)})
        var = bool(counts) or ref.has_group(lay, "open")
        for mode in (0, 1, 2):
            d = UDef(lay, talker, msgid, mode)

            def check(raws, label, flags=1):
                sent = ref.sentence(ref.content_of(d, raws))
                exp = ref.expected(lay, raws)
                ctx.case([udict[msgid], mode, label, sent])
                for k in range(len(raws) + 1):
                    ctx.state((repr(lay), k, len(raws) if var else 0))
                ctx.add(transitions=len(exp), traces_validated_against_impl=1)
                ctx.outcome((msgid, len(exp), mode))
                try:
                    msg = P.NMEAReader.parse(sent, msgmode=mode, validate=flags, userdefined=udict)
                    diff = ref.attr_diff(msg, d.identity, exp)
                    if not diff and msg.serialize() != sent:
                        diff = f"serialize gives {msg.serialize()!r}"
                    if not diff and list(msg.payload) != raws:
                        diff = f"payload is {msg.payload!r}"
                    rdr = P.NMEAReader(io.BytesIO(sent), msgmode=mode, validate=flags, userdefined=udict, quitonerror=2)
                    raw2, msg2 = rdr.read()
                    if not diff and (raw2 != sent or str(msg2) != str(msg)):
                        diff = f"reader gives {raw2!r} {msg2}"
                except Exception as err:  # pylint: disable=broad-except
                    diff = f"raised {err!r}"
                if diff:
                    ctx.violation(f"{udict[msgid]} mode={mode} {label} {sent!r}: {diff}")

            def generate(kw, label, hp=False):
                ctx.case([udict[msgid], mode, label, {k: repr(v) for k, v in kw.items()}])
                ctx.add(transitions=1, traces_validated_against_impl=1)
                try:
                    diff = gen.check_generated(P, d, dict(kw), hp, userdefined=udict)
                except Exception as err:  # pylint: disable=broad-except
                    diff = f"raised {err!r}"
                if diff:
                    ctx.violation(f"generate {udict[msgid]} mode={mode} {label}: {diff}")

            full_mode = mode == 0 or not quick
            for reps in (0, 1, 2, 3) if var else (2,):
                for cls in ref.CLASSES if full_mode else ("plain", "sw"):
                    fields = fields_u(d, cls, reps, counts)
                    raws = [f[2] for f in fields]
                    check(raws, f"{cls}/reps={reps}", flags=(1, 1 if talker == "ZX" else 3, 0)[mode])
                    kw = dict(ref.expected(lay, raws))
                    generate(kw, f"{cls}/reps={reps}", hp=mode == 1)
                    if cls == "plain" and full_mode:
                        lo = 0
                        for k, (name, _, _) in enumerate(fields):
                            if name in counts:
                                lo = k + 1
                        for k in range(lo, len(raws)):
                            check(raws[:k], f"first {k}/reps={reps}")
                        if not ref.has_group(lay, "open"):
                            check(raws + ["9", ""], "surplus")
                        for e in range(len(raws)):
                            alt = [f[2] for f in fields_u(d, cls, reps, counts, e)]
                            check(alt, f"empty {e}/reps={reps}")
                        for n in kw:
                            if n not in counts and reps == 2:
                                less = {k: v for k, v in kw.items() if k != n}
                                generate(less, f"all but {n}")
            if var and mode == 0:
                # many repeats
                for reps in (4, 10, 12) if nested else (10, 12, 99, 100, 101) if quick else (10, 12, 99, 100, 101, 257, 1000):
                    fields = fields_u(d, "plain", reps, counts)
                    raws = [f[2] for f in fields]
                    check(raws, f"plain/reps={reps}")
                    generate(dict(ref.expected(lay, raws)), f"plain/reps={reps}")
            generate({}, "nothing supplied")
        if repr(udict) != frozen:
            ctx.violation(f"user-defined dictionary modified: {udict} (was {frozen})")
        del nested
        # not supplied: unknown sentence
        raws = [f[2] for f in fields_u(UDef(lay, talker, msgid, 0), "plain", 2, counts)]
        sent = ref.sentence(ref.content_of(UDef(lay, talker, msgid, 0), raws))
        for udef in (None, {}, {"OTHER": {"q": "ST"}}):
            msg = P.NMEAReader.parse(sent, userdefined=udef)
            diff = ref.attr_diff(msg, talker + msgid, [(f"field_{k + 1:02d}", v) for k, v in enumerate(raws)], nominal=True)
            if diff:
                ctx.violation(f"definition not supplied ({udef}), {sent!r}: {diff}")
            try:
                P.NMEAReader.parse(sent, validate=3, userdefined=udef)
                ctx.violation(f"definition not supplied ({udef}), {sent!r} accepted with id validation")
            except P.NMEAParseError:
                pass


def fields_u(d, cls, reps, counts, empty_at=None):
    """fields_for with counts of nested groups kept meaningful."""
    orig = ref.counts_of
    try:
        ref.counts_of = lambda _lay: counts
        return ref.fields_for(d, cls, reps, empty_at)
    finally:
        ref.counts_of = orig


def similar(P, ctx, msgid):
    """Each id is decoded with its own definition, whatever other ids are defined."""
    lays = {}
    for i, k in enumerate(SIMILAR):
        lays[k] = ([], [["a%d" % i, "IN"]], [["b%d" % i, "ST"], ["c%d" % i, "IN"]])[i % 3]
    for size in (1, 2, 3):
        for others_ in itertools.combinations(SIMILAR, size):
            for order in (others_, others_[::-1]):
                udict = {k: to_python(lays[k]) for k in order}
                for raws in ([], ["5"], ["5", "6"]):
                    for talker in ("GN", "P", "ZX", "gn"):
                        if talker == "P" and msgid in ("UBX7", "QTMACK1") and msgid not in udict:
                            continue
                        sent = ref.sentence(",".join([talker + msgid] + raws))
                        ctx.case(["similar ids", list(udict), sent])
                        ctx.add(transitions=1, traces_validated_against_impl=1)
                        ctx.state((sent, order))
                        if msgid in udict:
                            exp, nominal = ref.expected(lays[msgid], raws), False
                        else:
                            exp, nominal = [(f"field_{k + 1:02d}", v) for k, v in enumerate(raws)], True
                        for flags in (1, 3):
                            try:
                                msg = P.NMEAReader.parse(sent, validate=flags, userdefined=udict)
                                diff = ref.attr_diff(msg, talker + msgid, exp, nominal)
                                if flags == 3 and (nominal or talker in ("ZX", "gn")):
                                    diff = "accepted with id validation"
                            except P.NMEAParseError as err:
                                diff = None if flags == 3 and (nominal or talker in ("ZX", "gn")) else f"raised {err!r}"
                            except Exception as err:  # pylint: disable=broad-except
                                diff = f"raised {err!r}"
                            if diff:
                                ctx.violation(f"user ids {list(udict)} validate={flags} {sent!r}: {diff}")
                        ctx.outcome((nominal, len(exp)))


def others(P, ctx, shard):
    """A user-defined dictionary which names published ids changes nothing for them."""
    defs = ref.all_defs()[shard[1] : shard[2]]
    for d in defs:
        udict = {d.msgid: {"hijack": "ST"}, d.key: {"hijack": "ST"}, "XQZ": {"a": "ST"}, d.talker + d.msgid: {"hijack": "ST"}}
        for cls in ("plain", "sw"):
            raws = [f[2] for f in ref.fields_for(d, cls, 2)]
            sent = ref.sentence(ref.content_of(d, raws))
            ctx.case(["published id in user dictionary", repr(d), sent])
            ctx.state((repr(d), cls))
            ctx.add(transitions=len(raws), traces_validated_against_impl=2)
            exp = ref.expected(d.layout, raws, strip="[]" if d.key == "SSNSNC" else "")
            ident = d.identity if exp else d.talker + d.msgid
            for udef in (udict, {}):
                msg = P.NMEAReader.parse(sent, msgmode=d.mode, userdefined=udef)
                diff = ref.attr_diff(msg, ident, exp)
                if diff:
                    ctx.violation(f"{d} with user dictionary {list(udef)}: {diff}")
                for talker in ("GP", "BD", "ZX", "gn", "") if d.talker != "P" else ():
                    sent2 = ref.sentence(ref.content_of(d, raws, talker) if talker else d.msgid + "," + ",".join(raws))
                    for flags in (0, 1):
                        msg = P.NMEAReader.parse(sent2, msgmode=d.mode, userdefined=udef, validate=flags)
                        if not talker:
                            bad = msg is not None and hasattr(msg, "hijack")
                            diff = f"is decoded as {msg}" if bad else None
                        else:
                            diff = ref.attr_diff(msg, talker + d.msgid, exp)
                        if diff:
                            ctx.violation(f"{sent2!r} with user dictionary {list(udef)}: {diff}")
            ctx.outcome((d.key, len(exp)))
