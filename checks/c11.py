"""
C11: every published layout decodes field by field as published.

Model: for each definition a layout automaton (mc/ref.py: decode) whose states are
(definition, group repeat, field position); one transition per received field.
All complete words of the automaton up to the repeat bound, every truncation, every
single empty field, every text field in brackets, quotes or blanks, surplus fields, all value classes (ordinary, extreme, unusual spelling, many
digits) and repeat counts up to 2500 are replayed on the real parser.
"""

from mc import core, ref

ID = "C11"
LEVEL = "model_checking"
RULE = (
    "for every definition x mode: all value classes x repeats; every truncation length; every "
    "single empty field; 1-2 surplus fields; each sentence is one trace of the layout automaton "
    "replayed on the real parser and compared attribute by attribute, with type and order"
)
ASSUMPTIONS = [
    "published layouts are those of the pinned commit (mc/spec_defs.json), FOO (a deliberately bad test entry) excluded",
    "ids whose layout depends on the field count are truncated in C18, not here",
    "a sentence truncated before its own repeat count or first-field message id is outside the property",
]


def shards(tier):
    n = len(ref.all_defs())
    step = 16 if tier == "quick" else 6
    return [[i, min(n, i + step)] for i in range(0, n, step)]


def run_shard(shard, ctx):
    P = core.use_repo()
    defs = ref.all_defs()[shard[0] : shard[1]]
    quick = ctx.tier == "quick"

    def check(d, raws, label):
        content = ref.content_of(d, raws)
        sent = ref.sentence(content)
        ctx.case([repr(d), label, sent])
        exp = ref.expected(d.layout, raws, strip="[]" if d.key == "SSNSNC" else "")
        for i in range(len(raws) + 1):
            ctx.state((repr(d), i, len(raws) if ref.has_group(d.layout, "open") else 0))
        ctx.add(transitions=len(exp), traces_validated_against_impl=1)
        try:
            msg = P.NMEAReader.parse(sent, msgmode=d.mode, validate=P.VALCKSUM)
        except Exception as err:  # pylint: disable=broad-except
            ctx.violation(f"{d} {label}: raised {err!r}")
            return
        ident = d.identity
        if not exp:
            ident = d.talker + d.msgid
        diff = ref.attr_diff(msg, ident, exp)
        if diff:
            ctx.violation(f"{d} {label}: {diff}")
        ctx.outcome((d.key, len(exp)))
        if tuple(msg.payload) != tuple(raws) or msg.msgmode != d.mode:
            ctx.violation(f"{d} {label}: payload {msg.payload} or mode {msg.msgmode} differs")
        if msg.talker != d.talker or msg.msgID != d.msgid:
            ctx.violation(f"{d} {label}: talker {msg.talker} or id {msg.msgID} differs")

    for d in defs:
        grouped = ref.has_group(d.layout)
        openg = ref.has_group(d.layout, "open")
        varreps = openg or ref.has_group(d.layout, "counted")
        if varreps:
            reps = (0, 1, 2, 3, 11) if quick else tuple(range(0, 13)) + (33, 99, 100, 101)
        else:
            reps = (2,)
        ack = d.key in ("QTMACK", "QTMNAK")
        classes = ("plain",) if ack else ref.CLASSES
        for rep in reps:
            for cls in classes:
                full = [f[2] for f in ref.fields_for(d, cls, rep)]
                check(d, full, f"full/{cls}/reps={rep}")
        if varreps:
            for rep in (9, 10, 12, 99, 100, 101, 255, 256, 257, 1000) + (() if quick else (2500,)):
                full = [f[2] for f in ref.fields_for(d, "plain", rep)]
                check(d, full, f"full/plain/reps={rep}")
        if d.variant or ack:
            continue
        trunc_reps = (1, 2) if quick else (1, 2, 3, 5)
        for rep in trunc_reps if varreps else (2,):
            for cls in ("plain", "sw") if quick else ref.CLASSES:
                fields = ref.fields_for(d, cls, rep)
                full = [f[2] for f in fields]
                lo = 1 if (d.first is not None or d.msgid == "ASHR") else 0
                counts = ref.counts_of(d.layout)
                for i, (name, _, _) in enumerate(fields):
                    if name in counts:
                        lo = max(lo, i + 1)
                for k in range(lo, len(full)):
                    check(d, full[:k], f"truncated to {k}/{cls}/reps={rep}")
                slack = 2
                for _, t in d.layout:
                    if ref.is_group(t) and t[0] == "None":
                        trailing = d.layout[-1][0] == "signalID"
                        slack = len(t[1]) - 1 - (1 if trailing else 0)
                for extra in range(1, min(2, slack) + 1):
                    check(d, full + ["7"] * extra, f"{extra} surplus/{cls}/reps={rep}")
                for e in range(len(full)):
                    alt = [f[2] for f in ref.fields_for(d, cls, rep, empty_at=e)]
                    if alt != full:
                        check(d, alt, f"field {e} empty/{cls}/reps={rep}")
        # values in brackets, quotes or blanks are values like any others
        fields = ref.fields_for(d, "plain", 2)
        full = [f[2] for f in fields]
        for i, (_, typ, _) in enumerate(fields):
            if typ not in ("CH", "ST", "LAD", "LND", "HX", "QS") or (i == 0 and d.first is not None):
                continue
            for form in ("[{}]", "[{}", "{}]", "({})", " {}", "{} ", '"{}"', "'{}'", "<{}>", "{{{}}}", "\\{}", "{}\x00", "{};", "\t{}"):
                check(d, full[:i] + [form.format(full[i])] + full[i + 1 :], f"field {i} as {form!r}")
        if not grouped and not quick:
            # every pair of empty fields
            full = [f[2] for f in ref.fields_for(d, "plain", 2)]
            lo = 1 if (d.first is not None or d.msgid == "ASHR") else 0
            for a in range(lo, len(full)):
                for b in range(a + 1, len(full)):
                    alt = list(full)
                    alt[a] = alt[b] = ""
                    check(d, alt, f"fields {a},{b} empty")
