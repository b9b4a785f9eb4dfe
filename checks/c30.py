"""
C30: identities, descriptions and decode tables agree with the decoded messages.

For every published definition in every mode x every talker x value classes, and for unknown,
user-defined and generated messages, the identity, talker, message id, mode and payload of the
message are those of the sentence, and the description of its id is the published one (every
other id over a bounded alphabet is described as unknown). Every code of the decode tables is
put into every field which carries it, and the decoded value must look up its meaning.
"""

import itertools

from mc import core, ref

ID = "C30"
LEVEL = "model_checking"
RULE = (
    "definition x mode x talker x value class; unknown and user-defined ids; every id and near-id of the "
    "tables; every decode code x sentence type x mode; state = (id, talker, mode), transition = sentence"
)
ASSUMPTIONS = ["the ids, descriptions and codes published at the pinned commit (mc/spec_defs.json and this file)"]
QUALITY = {0: "NO FIX", 1: "2D", 2: "3D", 3: "N/A", 4: "RTK FIXED", 5: "RTK FLOAT", 6: "DR ONLY"}
POSMODE = {"A": "2D", "N": "N/A", "E": "DR", "D": "3D", "F": "RTK FLOAT", "R": "RTK FIXED"}
SYSTEMID = {"1": "GPS", "2": "GLONASS", "3": "Galileo", "4": "Beidou", "5": "QZSS", "6": "NavIC"}
SIGNALS = {
    "1": "1:GPS L1C/A2 6:GPS L2 CL|5:GPS L2 CM|7:GPS L5 I|8:GPS L5 Q",
    "3": "7:Galileo E1 B2/C2|1:Galileo E5 aI/aQ|2:Galileo E5 bI/bQ",
    "4": "1:BeiDou B1I D12/D22|B:BeiDou B2I D1/D2|3:BeiDou B1 Cp/Cd|5:BeiDou B2 ap/ad",
    "5": "1:QZSS L1C/A2|4:QZSS L1S|5:QZSS L2 CM|6:QZSS L2 CL|7:QZSS L5 I|8:QZSS L5 Q",
    "2": "1:GLONASS L1 OF|3:GLONASS L2 OF",
    "6": "1:NavIC L5 A",
}
SIGNALS["1"] = SIGNALS["1"].replace("A2 6", "A2|6")
TALKERS = None


def shards(tier):
    n = len(ref.all_defs())
    step = 30 if tier == "quick" else 10
    return [["defs", i, min(n, i + step)] for i in range(0, n, step)] + [["ids", i] for i in range(4)] + [["decode"], ["other"]]


def check(ctx, P, sent, mode, talker, msgid, identity, raws, **kw):
    ctx.case([sent, mode])
    ctx.state((talker, msgid, identity, mode))
    ctx.add(transitions=1, traces_validated_against_impl=1)
    msg = P.NMEAReader.parse(sent, msgmode=mode, **kw)
    got = (msg.talker, msg.msgID, msg.identity, msg.msgmode, list(msg.payload))
    want = (talker, msgid, identity, mode, list(raws))
    if got != want:
        ctx.violation(f"{sent!r} mode {mode}: (talker, id, identity, mode, payload) is {got}, should be {want}")
    if not str(msg).startswith(f"<NMEA({identity}"):
        ctx.violation(f"{sent!r} mode {mode}: shown as {msg}, should be {identity}")
    return msg


def run_shard(shard, ctx):
    P = core.use_repo()
    ids = {**ref.SPEC["MSGIDS"], **ref.SPEC["MSGIDS_PROP"]} if isinstance(ref.SPEC["MSGIDS"], dict) else None
    if shard[0] == "defs":
        for d in ref.all_defs()[shard[1] : shard[2]]:
            for cls in ref.CLASSES if ctx.tier != "quick" else ("plain", "empty"):
                raws = [f[2] for f in ref.fields_for(d, cls, 2)]
                if d.first is not None and raws:
                    raws[0] = d.first
                for talker in ["P", "GN", "GP", "ZX"] if d.talker == "P" else ref.SPEC["TALKERS"] + ["ZX", "gn"]:
                    if talker == "P" and d.talker != "P":
                        continue
                    sent = ref.sentence(ref.content_of(d, raws, talker))
                    ident = d.identity if talker == "P" else talker + d.msgid
                    if not raws and d.msgid in ref.PREFIXES:
                        ident = talker + d.msgid
                    head = sent[1:].split(b",")[0].split(b"*")[0].decode()
                    check(ctx, P, sent, d.mode, talker, d.msgid, ident, raws)
                    if head != talker + d.msgid:
                        raise AssertionError(head)
            names = [d.msgid] + ([d.identity[1:]] if d.msgid in ref.PREFIXES else [])
            if not any(P.msgdesc(n) == ids.get(n) for n in names):
                ctx.violation(f"{d}: description of {names} is {[P.msgdesc(n) for n in names]}, should be {[ids.get(n) for n in names]}")
            ctx.outcome(P.msgdesc(d.msgid))
        return
    if shard[0] == "ids":
        for k in sorted(ids)[shard[1] :: 4]:
            near = {k, k.lower(), k + "X", k + " ", " " + k, k[:-1], k[1:], "P" + k, "GN" + k, k + k, k[::-1], ""}
            for n in sorted(near):
                ctx.case(["msgdesc", n])
                ctx.state(n)
                ctx.add(transitions=1, traces_validated_against_impl=1)
                want = ids.get(n, f"Unknown msgID {n}")
                if P.msgdesc(n) != want:
                    ctx.violation(f"description of {n!r} is {P.msgdesc(n)!r}, should be {want!r}")
                ctx.outcome(n in ids)
        return
    if shard[0] == "other":
        ud = {"FUZ": {"a": "IN"}, "Fuz9": {"a": "IN"}}
        for talker, msgid in itertools.product(["GN", "P", "ZX", "gn", "1x"], ["FUZ", "Fuz9", "XX", "X", "", "GLLX", "GL", "gga", "Q12345"]):
            for raws in ([], ["1"], ["7", "x", ""]):
                for mode in (0, 1, 2):
                    sent = ref.sentence(",".join([talker + msgid] + raws))
                    check(ctx, P, sent, mode, talker, msgid, talker + msgid, raws, userdefined=ud)
                    check(ctx, P, sent, mode, talker, msgid, talker + msgid, raws, validate=0)
                    if msgid not in ud and msgid:
                        m = P.NMEAMessage(talker, msgid, mode, payload=raws)
                        if (m.identity, m.msgmode, m.payload) != (talker + msgid, mode, raws):
                            ctx.violation(f"constructed {talker!r}, {msgid!r}, {mode}: {m}")
            # a field named msgId belongs to the identity of the published ids only
            for raws in (["00"], ["QQ", "1"]):
                sent = ref.sentence(",".join([talker + "FUM"] + raws))
                msg = check(ctx, P, sent, 0, talker, "FUM", talker + "FUM", raws, userdefined={"FUM": {"msgId": "ST", "b": "ST"}})
                if msg.msgId != raws[0]:
                    ctx.violation(f"{sent!r}: {msg}")
            ctx.outcome(talker)
        return
    # decode tables
    if dict(P.QUALITY) != QUALITY or dict(P.FIXTYPE_GGA) != QUALITY or dict(P.POSMODE) != POSMODE or dict(P.SYSTEMID) != SYSTEMID:
        ctx.violation("a decode table differs from the published one", case="decode tables")
    signals = {(s, x.split(":")[0]): x.split(":", 1)[1] for s, v in SIGNALS.items() for x in v.split("|")}
    if dict(P.SIGNALID) != signals:
        ctx.violation(f"SIGNALID is {P.SIGNALID}, should be {signals}", case="SIGNALID")
    fields = [("GGA", "quality", QUALITY, str, P.QUALITY), ("GGA", "quality", QUALITY, lambda c: "0%d" % c, P.FIXTYPE_GGA)]
    fields += [(k, "posMode", POSMODE, str, P.POSMODE) for k in ("GLL", "RMC", "VTG", "GNS")]
    fields += [(k, "systemId", SYSTEMID, str, P.SYSTEMID) for k in ("GSA", "GRS", "GBS")]
    defs = {d.key: d for d in ref.all_defs() if d.mode == 0}
    for key, att, table, form, pub in fields:
        d = defs[key]
        fl = ref.fields_for(d, "plain", 2)
        if att not in [n for n, _, _ in fl]:
            continue
        for code, meaning in table.items():
            raws = [form(code) if n == att else r for n, _, r in fl]
            sent = ref.sentence(ref.content_of(d, raws))
            ctx.case([sent, att])
            ctx.state((key, att, code))
            ctx.add(transitions=1, traces_validated_against_impl=1)
            msg = P.NMEAReader.parse(sent)
            got = pub.get(getattr(msg, att))
            if got != meaning:
                ctx.violation(f"{sent!r}: {att} {getattr(msg, att)!r} decodes to {got!r}, should be {meaning!r}")
            ctx.outcome((key, got))
    for (sysid, sig), meaning in signals.items():
        for key in ("GRS", "GBS"):
            d = defs[key]
            raws = [{"systemId": sysid, "signalId": sig}.get(n, r) for n, _, r in ref.fields_for(d, "plain", 2)]
            sent = ref.sentence(ref.content_of(d, raws))
            ctx.case([sent, "signal"])
            ctx.add(transitions=1, traces_validated_against_impl=1)
            msg = P.NMEAReader.parse(sent)
            if P.SIGNALID.get((msg.systemId, msg.signalId)) != meaning:
                ctx.violation(f"{sent!r}: signal {(msg.systemId, msg.signalId)} should be {meaning!r}")
