"""
C17: unknown sentences and talkers are handled exactly as the flags say.

Model: decision table (id known? talker known? checksum right? mode defined? flags) ->
(message with published attributes | message with nominal attributes | parse error).
Every cell of talkers x ids x modes x flags x checksum is executed through the parser,
the stream reader and the constructor; unknown sentences of up to 300 fields.
"""

import io

from mc import core, ref

ID = "C17"
LEVEL = "model_checking"
RULE = (
    "complete matrix talker x id x mode x validation flags x checksum right/wrong x entry point; "
    "state = cell of the decision table, transition = one call, trace = parser and reader agree with the table"
)
ASSUMPTIONS = ["talker and id lists as published at the pinned commit", "ids used as unknown: XQJ, ZZQ, QQXYZ, lower case and empty ones"]

UNK_IDS = ["XQJ", "ZZQ", "QQXYZ", "Q", "", "12345678"]
UNK_TALK = ["ZZ", "XX", "G1", "AA", "Q "]
CHARS = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"
# definitions which concern none of the ids tried here
UD = {"FUZ": {"a": "IN"}, "XQ": {"a": "IN"}, "XQJZ": {"a": "IN"}, "xqj": {"a": "IN"}, "ZZ": {}, "QQQX": {"grp": ("None", {"a": "IN"})}, "GNXQJ": {"a": "IN"}, "fuz": {"lat": "LA"}}
PROP_UNK = [*[f"{c}QZ" for c in CHARS], "PPP", "PWR1", "GN", "GNGLL", "QQQ", "XYZW", "UBX99", "GPPADX", "QTM", "STM", "TNLXX"]
STD = {"quick": None, "thorough": None}


def samples_of(d):
    return [f[2] for f in ref.fields_for(d, "plain", 2)]


def shards(tier):
    talk = ref.SPEC["TALKERS"]
    talk = [t for t in talk if len(t) == 2]
    out = []
    if tier == "quick":
        out += [["std", t] for t in talk]
    else:
        out += [["std", t] for t in talk]
    out += [["unk", t] for t in talk[::6] + ["GN"] + UNK_TALK]
    out += [["std", t] for t in UNK_TALK]
    out += [["talkers", c] for c in CHARS if c != "P"]
    ids = sorted(set(d.msgid for d in ref.all_defs(variants=False) if d.talker == "P"))
    out += [["prop", i, i + 20] for i in range(0, len(ids), 20)]
    out += [["similar", i] for i in range(16)]
    out += [["propunk"], ["modes"], ["bad"]]
    out += [["generate", i] for i in range(8)]
    return out


def run_shard(shard, ctx):
    P = core.use_repo()
    hdr1 = {t[:1].encode() for t in ref.SPEC["TALKERS"]}

    def outcome(fn):
        try:
            return ("msg", fn())
        except P.NMEAParseError as err:
            return ("parse", str(err))
        except P.NMEATypeError as err:
            return ("type", str(err))
        except Exception as err:  # pylint: disable=broad-except
            return ("other", repr(err))

    ud = {}

    def read1(sent, mode, flags):
        rdr = P.NMEAReader(io.BytesIO(sent), msgmode=mode, validate=flags, quitonerror=P.ERR_RAISE, **ud)
        raw, msg = rdr.read()
        if raw is None:
            raise RuntimeError("sentence skipped by reader")
        if raw != sent:
            raise RuntimeError(f"raw {raw!r}")
        return msg

    def nominal(payload):
        return [(f"field_{i + 1:02d}", v) for i, v in enumerate(payload)]

    def check(talker, msgid, payload, mode, flags, good, want):
        """want: 'err' | 'nominal' | 'nominal?' | list of attributes"""
        content = ",".join([talker + msgid] + payload)
        ck = ref.xor(content.encode())
        sent = ref.sentence(content) if good else ref.sentence(content, b"%02X" % (ck ^ 0x11))
        ctx.case([sent, mode, flags])
        ctx.state((talker, msgid, mode, flags, good, len(payload)))
        if flags & 1 and not good:
            want = "err"
        res = outcome(lambda: P.NMEAReader.parse(sent, msgmode=mode, validate=flags, **ud))
        ctx.add(transitions=1)
        ctx.outcome((res[0], flags, mode, want if isinstance(want, str) else "attrs"))
        lab = f"{sent!r} mode={mode} validate={flags}"
        if want == "err":
            if res[0] != "parse":
                ctx.violation(f"{lab}: {res} but must be rejected with a parse error")
        else:
            if res[0] != "msg" or res[1] is None:
                ctx.violation(f"{lab}: {res} but must be returned")
            else:
                msg = res[1]
                attrs = nominal(payload) if isinstance(want, str) else want
                if want == "nominal?":
                    # definition absent in this mode: attributes nominal, label not specified
                    bad = [n for n, v in attrs if getattr(msg, n, None) != v] or hasattr(msg, f"field_{len(payload) + 1:02d}")
                    diff = f"nominal attributes wrong: {msg}" if bad else None
                else:
                    ident = talker + msgid
                    if talker == "P" and msgid in ref.PREFIXES and isinstance(want, list):
                        ident = "P" + msgid + (payload[0] if attrs and attrs[0][0] == "msgId" else "")
                    diff = ref.attr_diff(msg, ident, attrs, nominal=want == "nominal")
                if diff:
                    ctx.violation(f"{lab}: {diff}")
        # the stream reader must agree with the static parser
        if (talker + msgid)[:1].encode() in hdr1:
            res2 = outcome(lambda: read1(sent, mode, flags))
            ctx.add(transitions=1, traces_validated_against_impl=1)
            a = (res[0], str(res[1]))
            b = (res2[0], str(res2[1]))
            if a != b:
                ctx.violation(f"{lab}: parser gives {a}, reader gives {b}")
        # and so must the constructor (which has no checksum to validate)
        if good:
            try:
                msg = P.NMEAMessage(talker, msgid, mode, validate=flags, payload=list(payload), **ud)
                got = str(msg)
            except P.NMEAMessageError:
                got = None
            ctx.add(transitions=1)
            exp = None if res[0] == "parse" else str(res[1])
            if got != exp:
                ctx.violation(f"{lab}: constructor gives {got}, parser gives {exp}")

    talkers = set(ref.SPEC["TALKERS"])
    if shard[0] == "std":
        t = shard[1]
        for key in ref.SPEC["MSGIDS"]:
            for mode in (0, 1, 2):
                table = ("GET", "SET", "POLL")[mode]
                has = key in ref.SPEC[table]
                payload = ["1", "2", "3"] if not has else samples_of(ref.Def(table, key))
                attrs = ref.expected(ref.SPEC[table][key], payload) if has else "nominal?"
                if key == "FOO":
                    continue
                for flags in (0, 1, 2, 3):
                    for good in (True, False):
                        want = attrs
                        if flags & 2 and (t not in talkers or not has):
                            want = "err"
                        check(t, key, payload, mode, flags, good, want)
    elif shard[0] == "unk":
        t = shard[1]
        for key in UNK_IDS:
            many = [str(i) for i in range(12)], [f"v{i}" for i in range(101)], [""] * 300
            for payload in ([], [""], ["a"], ["1", "", "b c"], many[0], *(many[1:] if t in ("GN", "ZZ") else ())):
                for mode in (0, 1, 2):
                    for flags in (0, 1, 2, 3):
                        for good in (True, False):
                            for ud in ({}, {"userdefined": UD}, {"userdefined": {}}) if good else ({},):
                                check(t, key, payload, mode, flags, good, "err" if flags & 2 else "nominal")
        ud = {}
    elif shard[0] == "talkers":
        for c in CHARS + "\u00e9 _-":
            t = shard[1] + c
            for key in ("STN", "GLL", "XQJ"):
                payload = ["7"] if key != "GLL" else samples_of(ref.Def("GET", key))
                for flags in (0, 1, 2, 3):
                    want = "nominal" if key == "XQJ" else ref.expected(ref.SPEC["GET"][key], payload)
                    check(t, key, payload, 0, flags, True, "err" if flags & 2 and (key == "XQJ" or t not in talkers) else want)
    elif shard[0] == "similar":
        # ids which differ from a published one by the case of letters or a single character
        known = {*ref.SPEC["MSGIDS"], *ref.SPEC["MSGIDS_PROP"], *ref.PREFIXES}
        for d in [x for x in ref.all_defs() if x.key != "FOO"][shard[1] :: 16]:
            m = d.msgid
            odd = {m.lower(), m.title(), m.swapcase(), m + " ", " " + m, m + "0", "0" + m, m + "_", m[1:], m[:-1], m + m, m[::-1]}
            odd |= {m[:i] + m[i].swapcase() + m[i + 1 :] for i in range(len(m))}
            for key in sorted(odd - known):
                payload = samples_of(d)
                for flags in (0, 1, 2, 3):
                    check("P" if d.talker == "P" else "GN", key, payload, d.mode, flags, True, "err" if flags & 2 else "nominal")
                    ctx.case(["generate", key, flags])
                    try:
                        msg = P.NMEAMessage("P" if d.talker == "P" else "GN", key, d.mode, validate=flags, lat=1.0, status="A")
                        got = ("made", msg.payload, str(msg).count("="))
                    except P.NMEAMessageError:
                        got = "refused"
                    except Exception as err:  # pylint: disable=broad-except
                        got = repr(err)
                    ctx.add(transitions=1)
                    if got != ("refused" if flags & 2 else ("made", [], 0)):
                        ctx.violation(f"message with id {key!r} made with validate={flags}: {got}")
    elif shard[0] == "generate":
        # messages made from keywords follow the same table
        talk = ["GN", "GP", "AB", "WI", *UNK_TALK, "PX", "P1", "PG", "", "G", "GNX", "gn", "GPGN", "p"]
        props = sorted({d.msgid for d in ref.all_defs(variants=False) if d.talker == "P" and d.first is None})
        std = list(ref.SPEC["MSGIDS"])
        for key in [*std, *props, *UNK_IDS][shard[1] :: 8]:
            for mode in (0, 1, 2):
                has = any(d.mode == mode and d.msgid == key and d.key.startswith(key) for d in ref.all_defs())
                if key in props and not has:
                    continue  # may share the layout of another mode
                if key == "FOO" or key in ref.PREFIXES:
                    continue
                for t in ["P"] if key in props else talk:
                    for flags in (0, 1, 2, 3):
                        for kw in ({}, {"nonsense": 1}):
                            ctx.case(["generate", t, key, mode, flags, kw])
                            known = has and key not in UNK_IDS and (t in talkers or t == "P")
                            try:
                                msg = P.NMEAMessage(t, key, mode, validate=flags, **kw)
                                got = "made"
                            except P.NMEAMessageError:
                                got = "refused"
                            except Exception as err:  # pylint: disable=broad-except
                                got = repr(err)
                            want = "refused" if flags & 2 and not known else "made"
                            ctx.add(transitions=1)
                            ctx.state(("generate", t, key, mode, flags))
                            ctx.outcome(("generate", got, flags))
                            if got != want:
                                ctx.violation(f"NMEAMessage({t!r}, {key!r}, {mode}, validate={flags}, {kw}): {got}, must be {want}")
                            elif got == "made" and (msg.identity != t + key or msg.msgmode != mode or not has and msg.payload):
                                ctx.violation(f"NMEAMessage({t!r}, {key!r}, {mode}, validate={flags}, {kw}): {msg} {msg.payload}")
    elif shard[0] == "prop":
        ids = sorted(set(d.msgid for d in ref.all_defs(variants=False) if d.talker == "P"))
        mine = ids[shard[1] : shard[2]]
        for d in ref.all_defs(variants=False):
            if d.talker != "P" or d.msgid not in mine:
                continue
            for cls in ("plain", "sw"):
                payload = [f[2] for f in ref.fields_for(d, cls, 2)]
                attrs = ref.expected(d.layout, payload, strip="[]" if d.key == "SSNSNC" else "")
                if not attrs:
                    continue
                for flags in (0, 1, 2, 3):
                    for good in (True, False):
                        check("P", d.msgid, payload, d.mode, flags, good, attrs)
                        for t in ("GN", "GP", "ZZ"):
                            check(t, d.msgid, payload, d.mode, flags, good, "err" if flags & 2 and t not in talkers else attrs)
    elif shard[0] == "propunk":
        for key in PROP_UNK:
            for payload in (["zz", "1"], ["9", "", "b"]):
                for mode in (0, 1, 2):
                    for flags in (0, 1, 2, 3):
                        for good in (True, False):
                            pre = key in ref.PREFIXES
                            check("P", key, payload, mode, flags, good, "err" if flags & 2 else "nominal?" if pre else "nominal")
        for key in ref.PREFIXES:  # known prefix, unknown message number
            for payload in (["QQ", "1"], ["zz9", "", "b"]):
                for mode in (0, 1, 2):
                    for flags in (0, 1, 2, 3):
                        for good in (True, False):
                            check("P", key, payload, mode, flags, good, "err" if flags & 2 else "nominal?")
    elif shard[0] == "modes":
        sent = ref.sentence("GNGLL,5327.04319,N,00214.41396,W,223232.00,A,A")
        for mode in (-1, 3, 4, 99, "0", None, "GET"):
            for flags in (0, 1, 2, 3):
                ctx.case(["invalid mode", mode, flags])
                ctx.state((str(mode), flags))
                ctx.add(transitions=3, traces_validated_against_impl=1)
                res = outcome(lambda: P.NMEAReader.parse(sent, msgmode=mode, validate=flags))
                if res[0] != "parse":
                    ctx.violation(f"parse with mode {mode!r} gives {res}")
                res = outcome(lambda: P.NMEAReader(io.BytesIO(sent), msgmode=mode, validate=flags))
                if res[0] != "parse":
                    ctx.violation(f"reader with mode {mode!r} gives {res}")
                for kw in ({"payload": ["1"]}, {}, {"lat": 1.0}):
                    try:
                        P.NMEAMessage("GN", "GLL", mode, validate=flags, **kw)
                        ctx.violation(f"constructor accepts mode {mode!r}")
                    except P.NMEAMessageError:
                        pass
                ctx.outcome(("invalid", flags))
                ctx.outcome(("invalid", str(mode)))
    else:  # badly formed: returned as no message, or rejected if ids are validated
        for text in (b"$GNGLL,1,2\r\n", b"$\r\n", b"", b"GNGLL", b"$GNGLL\xff,1*00\r\n", b"$,\r\n", b"$GN\r\n"):
            for mode in (0, 1, 2):
                for flags in (0, 1, 2, 3):
                    ctx.case(["badly formed", text, mode, flags])
                    ctx.state((text, mode, flags))
                    ctx.add(transitions=1, traces_validated_against_impl=1)
                    res = outcome(lambda: P.NMEAReader.parse(text, msgmode=mode, validate=flags))
                    ctx.outcome(res[0])
                    if flags & 2 and res[0] != "parse":
                        ctx.violation(f"badly formed {text!r} validate={flags} gives {res}")
                    if not flags & 2 and res != ("msg", None):
                        ctx.violation(f"badly formed {text!r} validate={flags} gives {res}")
