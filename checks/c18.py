"""
C18: the right layout variant is chosen for overloaded proprietary sentences.

Model: decision table (id, mode, number of fields, first field) -> variant, namely the published
variant with that many fields (or that first field). All cells are replayed on the parser; every
distinguishing attribute combination is replayed on the generator.
"""

import itertools

from mc import core, gen, ref

ID = "C18"
LEVEL = "model_checking"
RULE = (
    "every overloaded id x mode x every published field count x value class; OK / ERROR,n for every QTM id; "
    "every first-field message id; every combination of non-distinguishing attributes left out on generation; "
    "state = (id, mode, field count, first field), trace = one sentence parsed or generated"
)
ASSUMPTIONS = [
    "field counts for which no variant is published are outside the property",
    "QTMSN_ALT (transposed firmware variant, same attribute names) is receive-only",
]
DISTINCT = {
    "QTMCFGUART": {"portid", "baudrate", "databit"},
    "QTMCFGMSGRATE": {"msgver", "porttype"},
    "QTMCFGPPS": {"enable"},
    "QTMCFGSAT": {"maskhigh"},
    "QTMCFGGEOFENCE": {"lon1", "geofencemode"},
    "QTMSN": set(),
    "STMDRSENMSG": {"msgtype"},
}


# definitions of ids which do not matter here
UD = {"XYZ": {"a": "ST"}, "TESTZ": {"status": "ST", "b": "IN"}, "QTMZZZ": {"b": "IN"}}


def variants():
    out = [d for d in ref.all_defs() if d.msgid in DISTINCT]
    return out


def shards(tier):
    out = [["parse", b] for b in DISTINCT] + [["gen", b] for b in DISTINCT]
    qtm = [k for k in ref.SPEC["MSGIDS_PROP"] if k.startswith("QTM")]
    out += [["ack", i, i + 15] for i in range(0, len(qtm), 15)]
    out += [["first", p] for p in ref.PREFIXES]
    out += [["almost", p, i] for p in [*ref.PREFIXES, "STMDRSENMSG"] for i in range(3)]
    out += [["almostack", i, i + 15] for i in range(0, len(qtm), 15)]
    return out


def run_shard(shard, ctx):
    P = core.use_repo()
    quick = ctx.tier == "quick"

    def expect_parse(sent, mode, ident, attrs, label, nominal=None):
        ctx.case([label, mode, sent])
        ctx.state((sent.split(b",")[0], mode, sent.count(b","), tuple(sent.split(b",")[1:2])))
        ctx.add(transitions=len(attrs), traces_validated_against_impl=1)
        for flags, udef in [(f, None) for f in range(4)] + [(1, UD), (3, UD), (1, {})]:
            try:
                msg = P.NMEAReader.parse(sent, msgmode=mode, validate=flags, userdefined=udef)
                diff = ref.attr_diff(msg, ident, attrs)
            except Exception as err:  # pylint: disable=broad-except
                diff = f"raised {err!r}"
            if diff:
                ctx.violation(f"{label} {sent!r} validate={flags}: {diff}")
                return
        ctx.outcome((label, len(attrs)))

    if shard[0] == "parse":
        for d in variants():
            if d.msgid != shard[1]:
                continue
            for cls in ref.CLASSES:
                raws = [f[2] for f in ref.fields_for(d, cls, 2)]
                expect_parse(
                    ref.sentence(ref.content_of(d, raws)), d.mode, d.identity, ref.expected(d.layout, raws), f"{d}/{cls}"
                )
                for e in range(len(raws)):
                    raws2 = [f[2] for f in ref.fields_for(d, cls, 2, empty_at=e)]
                    if cls == "plain":
                        expect_parse(
                            ref.sentence(ref.content_of(d, raws2)), d.mode, d.identity, ref.expected(d.layout, raws2), f"{d}/{cls}/empty {e}"
                        )
            if d.msgid == "QTMSN" and d.mode == 0:
                firsts = (
                    [str(n) for n in range(0, 120)] if d.key == "QTMSN_ALT" else ["OK", "", "ERROR", "A1", "1A", "-1", "W"]
                )
                for f in firsts:
                    raws = [f, "5", "6", "SN123"] if d.key == "QTMSN" else [f, "5", "OK", "SN123"]
                    expect_parse(ref.sentence(ref.content_of(d, raws)), d.mode, d.identity, ref.expected(d.layout, raws), f"{d} first {f}")
            # statuses a receiver reports, and values which look like other variants
            if d.mode == 0 and d.layout and d.layout[0][0] == "status":
                for st in ("OK", "ERROR", "R", "W"):
                    raws = [f[2] for f in ref.fields_for(d, "plain", 2)]
                    raws[0] = st
                    if len(raws) in (1, 2):
                        continue
                    expect_parse(ref.sentence(ref.content_of(d, raws)), d.mode, d.identity, ref.expected(d.layout, raws), f"{d} status {st}")
        if shard[1] == "STMDRSENMSG":
            for n in range(0, 100):
                if n in (3, 24, 30, 31):
                    continue
                sent = ref.sentence(f"PSTMDRSENMSG,{n},1,2")
                ctx.case(["unknown message type", sent])
                ctx.add(transitions=1, traces_validated_against_impl=1)
                msg = P.NMEAReader.parse(sent)
                if msg is None or getattr(msg, "field_01", None) != str(n) or hasattr(msg, "timestamp"):
                    ctx.violation(f"message type {n}: {msg}")
                try:
                    P.NMEAReader.parse(sent, validate=3)
                    ctx.violation(f"message type {n} accepted with message id validation")
                except P.NMEAParseError:
                    pass
    elif shard[0] == "ack":
        qtm = [k for k in ref.SPEC["MSGIDS_PROP"] if k.startswith("QTM")][shard[1] : shard[2]]
        for key in qtm:
            sent = ref.sentence(f"P{key},OK")
            expect_parse(sent, 0, "P" + key, [("status", "OK")], f"{key} OK")
            for n in (0, 1, 2, 3, 9, 10, 255):
                sent = ref.sentence(f"P{key},ERROR,{n}")
                want = ref.expected(ref.SPEC["GET_PROP"]["QTMNAK"], ["ERROR", str(n)])
                expect_parse(sent, 0, "P" + key, want, f"{key} ERROR {n}")
            # in the other modes, or with more fields, the ordinary layout applies
            for table, mode in (("SET_PROP", 1), ("POLL_PROP", 2)):
                if key in ref.SPEC[table] and key not in DISTINCT:
                    lay = ref.SPEC[table][key]
                    if len(lay) >= 1 and lay[0][0] == "status":
                        raws = ["OK"]
                        expect_parse(ref.sentence(f"P{key},OK"), mode, "P" + key, ref.expected(lay, raws), f"{key} OK mode {mode}")
    elif shard[0] == "first":
        for d in ref.all_defs(variants=False):
            if d.msgid != shard[1]:
                continue
            for cls in ref.CLASSES:
                raws = [f[2] for f in ref.fields_for(d, cls, 2)]
                expect_parse(ref.sentence(ref.content_of(d, raws)), d.mode, d.identity, ref.expected(d.layout, raws, strip="[]" if d.key == "SSNSNC" else ""), f"{d}/{cls}")
            kw = dict(ref.expected(d.layout, [f[2] for f in ref.fields_for(d, "plain", 2)]))
            kw.update(gen.required(d))
            generate(P, ctx, d, kw, f"{d} all")
            generate(P, ctx, d, gen.required(d), f"{d} none")
        # the message id is mandatory
        for mode in (0, 1, 2):
            ctx.case(["no message id", shard[1], mode])
            ctx.add(transitions=1, traces_validated_against_impl=1)
            try:
                P.NMEAMessage("P", shard[1], mode)
                ctx.violation(f"P{shard[1]} generated without message id")
            except P.NMEAMessageError:
                ctx.outcome("refused")
        if shard[1] == "ASHR":
            d = ref.Def("GET_PROP", "ASHR")
            lay = d.layout
            for t in ("000000.00", "235959.99", "123456", "1", "12"):
                if len(t) < 2:
                    continue
                for cls in ("plain", "sw", "zero", "empty"):
                    raws = [t] + [f[2] for f in ref.fields_for(d, cls, 2)][1:]
                    expect_parse(ref.sentence(ref.content_of(d, raws)), 0, "PASHR", ref.expected(lay, raws), f"{d} time {t}/{cls}")
    elif shard[0] == "almost":
        # first fields which are no published message id, however similar
        pfx, mode = shard[1], shard[2]
        table = dict(ref.SPEC[("GET_PROP", "SET_PROP", "POLL_PROP")[mode]])
        if mode == 2:
            table.update(ref.SPEC["POLL"])
        sep = "_" if pfx == "STMDRSENMSG" else ""
        known = {k[len(pfx + sep) :] for k in table if k.startswith(pfx + sep)}
        firsts = {"".join(t) for n in range(4) for t in itertools.product("0134Ax-", repeat=n)}
        for k in known | {"03", "AVR", "POS"}:
            firsts |= {k[:-1], k[1:], k + "0", "0" + k, k.lstrip("0"), k + " ", " " + k, k + k, k + "_", "_" + k, k + "x", "+" + k}
        for first in sorted(firsts):
            if first in known or first.upper() in known:
                continue
            if pfx == "ASHR" and first[1:2].isdigit():
                continue
            for raws in ([first], [first, "1", "2", "3"], [first] + ["1"] * 12):
                sent = ref.sentence(",".join(["P" + pfx] + raws))
                ctx.case(["first field", sent, mode])
                ctx.state((pfx, mode, first))
                for flags in (0, 1, 2, 3):
                    ctx.add(transitions=1, traces_validated_against_impl=1)
                    try:
                        msg = P.NMEAReader.parse(sent, msgmode=mode, validate=flags)
                        got = [(k, v) for k, v in vars(msg).items() if k[:1] != "_"]
                    except P.NMEAParseError:
                        got = "rejected"
                    except Exception as err:  # pylint: disable=broad-except
                        got = repr(err)
                    want = "rejected" if flags & 2 else [(f"field_{i + 1:02d}", v) for i, v in enumerate(raws)]
                    if got != want:
                        ctx.violation(f"{sent!r} mode={mode} validate={flags}: {got} should be {want}")
                ctx.outcome((pfx, len(raws)))
    elif shard[0] == "almostack":
        qtm = [k for k in ref.SPEC["MSGIDS_PROP"] if k.startswith("QTM")][shard[1] : shard[2]]
        for key in qtm:
            if key in DISTINCT:
                continue
            lay = ref.SPEC["GET_PROP"].get(key)
            for raws in (["ok"], ["OKAY"], [" OK"], ["ERROR"], ["ERR"], ["ERROR", "1", "2"], ["OK", "1"], ["OK", "1", "2"], ["error", "1"], ["ERRORS", "1"]):
                sent = ref.sentence(",".join(["P" + key] + raws))
                if lay is None:
                    want = [(f"field_{i + 1:02d}", v) for i, v in enumerate(raws)]
                else:
                    try:
                        want = ref.expected(lay, raws)
                    except (KeyError, ValueError):
                        want = "rejected"  # unconvertible or no repeat count
                ctx.case(["almost a response", sent])
                ctx.state((key, tuple(raws)))
                ctx.add(transitions=1, traces_validated_against_impl=1)
                try:
                    msg = P.NMEAReader.parse(sent)
                    got = [(k, v) for k, v in vars(msg).items() if k[:1] != "_"]
                except (P.NMEATypeError, P.NMEAParseError):
                    got = "rejected"
                except Exception as err:  # pylint: disable=broad-except
                    got = repr(err)
                if got != want:
                    ctx.violation(f"{sent!r}: {got} should be {want}")
                ctx.outcome(str(want)[:40])
    else:
        base = shard[1]
        for d in variants():
            if d.msgid != base or d.key == "QTMSN_ALT" or not d.layout:
                continue
            for cls in ("plain", "sw") if quick else ("plain", "sw", "odd"):
                kw = dict(ref.expected(d.layout, [f[2] for f in ref.fields_for(d, cls, 2)]))
                kw.update(gen.required(d))
                if d.key in ("QTMCFGPPS_DIS",):
                    kw["enable"] = 0
                if d.key == "QTMCFGGEOFENCE_DIS":
                    kw["geofencemode"] = 0
                free = [n for n in kw if n not in DISTINCT[base]]
                for r in range(len(free) + 1):
                    for drop in itertools.combinations(free, r):
                        sub = {k: v for k, v in kw.items() if k not in drop}
                        generate(P, ctx, d, sub, f"{d}/{cls} without {drop}")
                rev = dict(reversed(list(kw.items())))
                generate(P, ctx, d, rev, f"{d}/{cls} reversed order")


def generate(P, ctx, d, kw, label):
    ctx.case([label, {k: repr(v) for k, v in kw.items()}])
    ctx.state(("gen", repr(d), tuple(sorted(kw))))
    ctx.add(transitions=1, traces_validated_against_impl=1)
    ctx.outcome((d.key, len(kw)))
    try:
        diff = gen.check_generated(P, d, kw) or gen.check_generated(P, d, kw, True)
    except Exception as err:  # pylint: disable=broad-except
        diff = f"raised {err!r}"
    if diff:
        ctx.violation(f"generate {label}: {diff}")
