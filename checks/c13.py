"""
C13: a message generated from attributes parses back to those attributes.

Model: mc/gen.py walks the layout with the supplied attributes (layout position is the state,
"supplied / omitted" the choice at each attribute). All choice vectors of the bounded kinds
(all, none, exactly one, all but one; thorough: exactly two, all but two) are replayed.
"""

import datetime
import re

from mc import core, gen, ref

ID = "C13"
LEVEL = "model_checking"
RULE = (
    "for every definition x mode: attributes supplied = all | none | one | all but one (thorough: "
    "pairs; plus each argument the layout lacks) x value classes x repeats x precision; the generated bytes are split and check-summed "
    "independently, parsed back and compared with the model"
)
ASSUMPTIONS = [
    "layouts whose selection depends on supplied attributes (Quectel variants) are in C18",
    "dates and times omitted are nominal = current UTC, compared with the clock around the call",
]


def shards(tier):
    n = len([d for d in ref.all_defs(variants=False) if d.layout])
    step = 12 if tier == "quick" else 4
    return [[i, min(n, i + step)] for i in range(0, n, step)]


NUMS = (0, -1, 7, 10**12, 0.5, -0.25, 1e-5, -1e-7, 123456789.123, 1e16, 2.5e-10, 1e22)


def values(d, cls, reps):
    """Typed attribute values of a full message of this class."""
    fields = ref.fields_for(d, cls, reps)
    raws = [f[2] for f in fields]
    kw = dict(ref.expected(d.layout, raws))
    for name, typ, _ in fields:
        if typ == "TM" and cls == "sw":
            kw[name] = "23:59:59.99"  # string forms are accepted, too
        if typ in ("DT", "DTL", "DM") and cls == "zero":
            kw[name] = "2001-01-01"
    return kw


def names_of(layout):
    out = set()
    for n, t in layout:
        out |= names_of(t[1]) if ref.is_group(t) else {n}
    return out


def run_shard(shard, ctx):
    P = core.use_repo()
    quick = ctx.tier == "quick"
    defs = [d for d in ref.all_defs(variants=False) if d.layout][shard[0] : shard[1]]

    def check(d, kw, hp, label):
        ctx.case([repr(d), label, hp, {k: repr(v) for k, v in kw.items()}])
        n = len(gen.layout_names(d, kw))
        given = tuple(sorted(kw))
        ctx.state((repr(d), given, hp))
        ctx.add(transitions=n, traces_validated_against_impl=1)
        ctx.outcome((d.key, n))
        try:
            diff = gen.check_generated(P, d, dict(kw), hp)
        except Exception as err:  # pylint: disable=broad-except
            diff = f"raised {err!r}"
        if diff:
            ctx.violation(f"{d} {label} hp={hp}: {diff}")

    for d in defs:
        req = gen.required(d)
        counted = ref.counts_of(d.layout)
        var = ref.has_group(d.layout, "open") or counted
        repsall = ((0, 1, 2, 3, 11) if quick else (0, 1, 2, 3, 5, 9, 10, 11, 33, 100)) if var else (2,)
        for reps in repsall:
            for cls in ref.CLASSES:
                kw = values(d, cls, reps)
                kw.update(req)
                for hp in (False, True):
                    check(d, kw, hp, f"all/{cls}/reps={reps}")
        if var:
            for reps in (10, 12, 99, 100, 101, 257) + (() if quick else (999, 1000, 1001)):
                kw = values(d, "plain", reps)
                kw.update(req)
                check(d, kw, False, f"all/plain/reps={reps}")
        check(d, req, False, "none")
        for cls in ("plain", "sw") if quick else ref.CLASSES:
            full = values(d, cls, 2)
            full.update(req)
            names = [n for n in full if n not in req]
            keep = {c: full[c] for c in counted if c in full}
            for n in names:
                one = dict(req)
                if counted and "_" in n:
                    one.update(keep)
                one[n] = full[n]
                if n in counted:
                    one[n] = full[n]
                check(d, one, False, f"only {n}/{cls}")
                less = {k: v for k, v in full.items() if k != n}
                check(d, less, True, f"all but {n}/{cls}")
            if not quick and cls in ("plain", "sw") and len(names) <= 24:
                for i, a in enumerate(names):
                    for b in names[i + 1 :]:
                        two = dict(req)
                        two.update(keep if counted else {})
                        two[a], two[b] = full[a], full[b]
                        check(d, two, False, f"only {a},{b}/{cls}")
                        less = {k: v for k, v in full.items() if k not in (a, b)}
                        check(d, less, False, f"all but {a},{b}/{cls}")
        # attributes the layout does not have are ignored
        full = values(d, "plain", 2)
        full.update(req)
        groups = {re.sub(r"(_[0-9]+)+$", "", n) for n in full if re.search(r"_[0-9]+$", n) and n not in names_of(d.layout)}
        lean = {k: v for k, v in full.items() if re.sub(r"(_[0-9]+)+$", "", k) not in groups}
        alien = {"xyz": "q", "field_01": "q", "field_1": "q", "Msgid": "q", "_lat": 1.0, "talkerid": "GP"}
        top, openg = {n for n, _ in d.layout}, ref.has_group(d.layout, "open")
        for base in (full, lean, *({k: v for k, v in full.items() if re.sub(r"(_[0-9]+)+$", "", k) != g} for g in sorted(groups))):
            for n, v in [*[(n, v) for n, v in values(d, "sw", 1).items() if re.search(r"_01$", n)], *alien.items()]:
                if n in alien:
                    odd = [(n, v)] if n not in names_of(d.layout) else []
                else:
                    stem = re.sub(r"(_[0-9]+)+$", "", n)
                    odd = [(stem, v), (stem + "_1", v), (stem + "_001", v), (stem + "_00", v), (stem + "01", v), (stem + "_", v), ("_01" + stem, v), (stem.upper() + "_01", v)]
                for name, val in odd:
                    if name in base or name in top or name in full:
                        continue
                    if openg and re.search(r"_[0-9]+$", name):
                        continue  # an indeterminate number of repeats is that of the attributes
                    check(d, dict(base, **{name: val}), False, f"alien {name}")
        # numeric fields: magnitudes needing care in plain notation
        for name, typ in d.layout:
            if name in req:
                continue
            if typ in ("DE", "IN") and name not in counted:
                for val in NUMS:
                    if typ == "IN" and isinstance(val, float):
                        continue
                    kw = dict(req)
                    kw[name] = val
                    if name in ("lat", "lon") and gen.hemis(d)[0 if name == "lat" else 1]:
                        continue
                    check(d, kw, False, f"{name}={val!r}")
            elif typ in ("LA", "LN"):
                for val in (0.0, 1e-9, 0.9999999999, 12.99999999, 45.5, 89.999999999, 59.99999 / 60):
                    for hp in (False, True):
                        check(d, dict(req, **{name: val}), hp, f"{name}={val!r}")
            elif typ == "TM":
                for val in ("01:02:03", "01:02:03.4", "01:02:03.45", "23:59:59.456", "23:59:59.999999", "010203", "010203.456", datetime.time(1, 2, 3, 450000), datetime.time(23, 59, 59)):
                    check(d, dict(req, **{name: val}), False, f"{name}={val!r}")
            elif typ in ("DT", "DTL", "DM"):
                for val in ("2021-02-03", "20210203", "2068-12-31", "1969-01-01", "2000-02-29", datetime.date(2021, 2, 3), datetime.datetime(1999, 12, 31, 23, 59, 59)):
                    check(d, dict(req, **{name: val}), False, f"{name}={val!r}")
