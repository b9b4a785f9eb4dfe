"""
C02: a bad sentence costs exactly one error, handled as configured, nothing else.

Model: stream elements with error events; enumerated: every sequence of good, bad and foreign
elements up to the depth x error policy x error handler x validation flags, and each published
layout with a wrong checksum, unknown talker or an unconvertible field between two good ones.
"""

import itertools

from mc import core, ref
from mc import stream as S

ID = "C02"
LEVEL = "model_checking"
RULE = (
    "all sequences up to the depth over good/bad checksum/bad field/bad count/unknown id/unknown "
    "talker/foreign x policy x handler x validation x read/iterate; every layout corrupted in "
    "every field; state = model position, transition = element"
)
ASSUMPTIONS = ["a sentence has at most one defect of each kind; the error object's text is not compared, its type is one of the package's"]
ELS = [S.GLL, S.GSV, S.TXT, S.BADCK, S.BADCK2, S.BADFLD, S.BADFLD2, S.UNK, S.UNKP, S.TALK, S.UBXD, S.TEXT]


def configs():
    for validate in range(4):
        for policy, handler in ((S.IGNORE, True), (S.LOG, True), (S.LOG, False), (S.RAISE, False)):
            yield dict(validate=validate, policy=policy, handler=handler)


def shards(tier):
    n = len(ELS)
    out = [["seq", i, j] for i in range(n) for j in range(n)]
    out += [["defs", m, i] for m in range(3) for i in range(8)]
    out += [["policy"]]
    out += [["long", i] for i in range(n + 1)]
    return out


def check(ctx, P, els, **kw):
    data = b"".join(e.data for e in els)
    ctx.case([repr(els), kw])
    st = S.FakeSocket([data]) if kw.pop("sock", False) else S.bio(data)
    exp = S.want(els, kw.get("policy", S.RAISE), kw.get("validate", 1))
    got = S.run(P, st, limit=10000 + 2 * len(els), **kw)
    ctx.add(transitions=len(els), traces_validated_against_impl=1)
    d = S.diff(got, exp)
    if d:
        ctx.violation(f"{d[:600]}: stream {els} {kw} {data[:300]!r}")
    return exp


def bad_values(typ):
    return {
        "DE": ["x", "1.2.3", "1-5", "0x1", "++1", "--1"],
        "IN": ["x", "0x1", "1.5", "++1", "1e3", "--1", "0b1"],
    }.get(typ, [])


def run_shard(shard, ctx):
    P = core.use_repo()
    quick = ctx.tier == "quick"
    if shard[0] == "seq":
        depth = 4 if quick else 5
        for n in range(0, depth - 1):
            for t in itertools.product(ELS, repeat=n):
                els = [ELS[shard[1]], ELS[shard[2]], *t]
                ctx.add(states=1)
                for kw in configs():
                    exp = check(ctx, P, els, **kw)
                    if n < 2:
                        check(ctx, P, els, iterate=True, sock=n == 0, **kw)
                        ctx.outcome(repr([e[0] for e in exp]))
        for t in itertools.product(ELS, repeat=depth - 1):
            els = [ELS[shard[1]], ELS[shard[2]], *t]
            ctx.add(states=1)
            for kw in (dict(policy=S.RAISE, validate=3), dict(policy=S.LOG, validate=1)):
                check(ctx, P, els, **kw)
        return
    if shard[0] == "policy":
        # every error of a run, many times in a row: nothing accumulates
        for kw in configs():
            for e in ELS:
                check(ctx, P, [e] * 40 + [S.GLL] + [e] * 5, **kw)
                ctx.add(states=46)
                ctx.outcome((repr(e), repr(kw)))
                if kw["policy"] == S.LOG and kw["handler"]:
                    for handler in ("falsy", "method", "partial"):
                        check(ctx, P, [e, S.GLL, e], **{**kw, "handler": handler})
                        ctx.add(states=3)
        return
    if shard[0] == "long":
        # thousands of errors: no limit is reached
        many = 1300 if quick else 12000
        els = [ELS[shard[1]]] * many if shard[1] < len(ELS) else [e for e in ELS if e is not S.GLL] * (many // 12)
        for kw in configs():
            check(ctx, P, els + [S.GLL, ELS[0]], **kw)
            ctx.add(states=len(els) + 2)
            ctx.outcome((shard[1], repr(kw)))
        return
    mode = shard[1]
    a, b = (S.GLL, S.RMC) if mode == 0 else (S.UNK, S.UNK)
    for d in [d for d in ref.all_defs() if d.mode == mode][shard[2] :: 8]:
        fields = ref.fields_for(d, "plain", 2)
        raws = [f[2] for f in fields]
        bads = [S.sent(f"{d} bad checksum", d.table, d.key, kind="badck", reps=2)]
        if d.talker != "P":
            bads.append(S.sent(f"{d} unknown talker", d.table, d.key, kind="talker", reps=2, talker="GX"))
        for i, (name, typ, _) in enumerate(fields):
            if d.variant and i == 0 or (d.first is not None and i == 0):
                continue
            for v in bad_values(typ)[: 5 if quick else None]:
                bad = raws[:i] + [v] + raws[i + 1 :]
                bads.append(S.El(f"{d} {name}={v}", ref.sentence(ref.content_of(d, bad)), "badfield"))
        for bad in bads:
            for validate in (1, 3):
                for policy in (S.LOG, S.RAISE):
                    vals = validate if mode == 0 else validate & 1
                    check(ctx, P, [a, bad, b, bad, b], policy=policy, validate=vals, msgmode=mode)
            ctx.add(states=5)
            ctx.outcome(bad.name)
