"""
C15: a message object cannot be changed after it was created.

Enumerated on the real code: messages of every origin (parsed with and without validation, read
from a stream, constructed from a payload list, generated from attributes, unknown, user-defined,
proprietary, without fields, with groups, every definition) x all sequences of mutation attempts
up to the bound (assignments and deletions of every attribute, slot, property, method and new
name; changes of lists obtained from or passed to the message, of dictionaries passed to it; of
copies). After every step the observable state of the message must be what it was.
"""

import copy
import itertools

from mc import core, ref
from mc import stream as S

ID = "C15"
LEVEL = "exploration"
RULE = (
    "origin of the message x sequence of mutation attempts (depth in the shard), and every definition "
    "x every single attempt; non-trivial = the attempt has something to change (attribute exists, list "
    "is not empty); state = message after a sequence of attempts"
)
ASSUMPTIONS = [
    "bypassing the object's own guards (object.__setattr__, writing to __dict__) is out of scope",
]
UD = {"FUZ": {"num": "IN", "grp": ("num", {"a": "IN", "b": "CH"})}}


def observe(m):
    return (
        str(m), repr(m), tuple(m.payload), m.checksum, m.identity, m.talker, m.msgID, m.msgmode, m.serialize(),
        tuple((k, repr(v)) for k, v in vars(m).items() if k[:1] != "_"),
    )


def origins(P):
    """name -> function which returns (message, {name: mutable object passed in})"""
    from datetime import date, time

    def parsed(data, **kw):
        def f():
            buf = bytes(data)
            kw2 = copy.deepcopy(kw)
            return P.NMEAReader.parse(buf, **kw2), {k: v for k, v in kw2.items() if isinstance(v, dict)}

        return f

    def payload(talker, msgid, mode, raws, **kw):
        def f():
            lst = list(raws)
            kw2 = copy.deepcopy(kw)
            passed = {"payload": lst}
            passed.update({k: v for k, v in kw2.items() if isinstance(v, dict)})
            return P.NMEAMessage(talker, msgid, mode, payload=lst, **kw2), passed

        return f

    def generated(talker, msgid, mode, **kw):
        def f():
            kw2 = copy.deepcopy(kw)
            return P.NMEAMessage(talker, msgid, mode, **kw2), {
                k: v for k, v in kw2.items() if isinstance(v, (list, dict, bytearray, set))
            }

        return f

    def read(els, nth=0, sock=False):
        def f():
            data = b"".join(e.data for e in els)
            rdr = P.NMEAReader(S.FakeSocket([data]) if sock else S.bio(data))
            for _ in range(nth + 1):
                _, msg = rdr.read()
            return msg, {}

        return f

    def rebuilt():
        m = P.NMEAReader.parse(S.GSV.data)
        lst = m.payload
        return P.NMEAMessage(m.talker, m.msgID, m.msgmode, payload=lst), {"payload": lst}

    def shared():
        # two messages from one list
        lst = ["1", "2", "x"]
        P.NMEAMessage("GN", "XYZ", 0, payload=lst)
        return P.NMEAMessage("GN", "XYZ", 0, payload=lst), {"payload": lst}

    return {
        "parsed GLL": parsed(S.GLL.data),
        "parsed GSV": parsed(S.GSV.data),
        "parsed unknown": parsed(S.UNK.data),
        "parsed unchecked": parsed(S.BADCK.data, validate=0),
        "parsed PUBX": parsed(S.PUBX.data),
        "parsed ack": parsed(S.ACK.data),
        "parsed without fields": parsed(S.SHORT.data),
        "parsed userdefined": parsed(ref.sentence("GNFUZ,2,1,x,2,y"), userdefined=UD),
        "payload GLL": payload("GN", "GLL", 0, ["5327.03942", "N", "00214.42462", "W", "223232.00", "A", "A"]),
        "payload unknown": payload("GN", "XYZ", 0, ["1", "2", "x"]),
        "payload userdefined": payload("GN", "FUZ", 0, ["1", "1", "x"], userdefined=UD),
        "payload with checksum": payload("GN", "XYZ", 0, ["1", "2", "x"], checksum="00"),
        "payload set": payload("P", "QTMCFGUART", 1, ["W", "460800"]),
        "payload empty": payload("GN", "STN", 0, []),
        "payload PSSNSNC": payload("P", "SSN", 0, ["SNC", "[1", "20", "2000", "[S1", "0", "a", "b]]"]),
        "payload rebuilt": rebuilt,
        "payload shared": shared,
        "generated GLL": generated("GN", "GLL", 0, lat=-1.5, lon=2.25, time=time(1, 2, 3), status="A", posMode="A"),
        "generated GSV": generated("GP", "GSV", 0, numMsg=1, msgNum=1, numSV=2, svid_01=5, svid_02=7, cno_03=40),
        "generated RMC": generated("GN", "RMC", 0, lat=-1.5, lon=2.25, time=time(1, 2, 3), date=date(2020, 2, 3)),
        "generated list": generated("GN", "TXT", 0, numMsg=1, text=[1, "2"]),
        "generated dict": generated("GN", "TXT", 0, numMsg=1, text={"a": [1]}),
        "generated bytes": generated("GN", "TXT", 0, numMsg=1, text=bytearray(b"ab")),
        "generated list in group": generated("GP", "GSV", 0, numMsg=[1], svid_01=[5]),
        "generated userdefined": generated("GN", "FUZ", 0, num=1, a_01=5, userdefined=UD),
        "generated poll": generated("EI", "GNQ", 2, msgId="RMC"),
        "generated prop": generated("P", "QTMCFGUART", 1, baudrate=9600),
        "generated no fields": generated("GN", "STN", 0),
        "read GLL": read([S.GLL, S.RMC]),
        "read second": read([S.GLL, S.LF, S.RMC], 1),
        "read socket": read([S.UNKP], 0, True),
    }


class New:
    """A value which equals nothing."""


def guarded(P, fun):
    """Run fun, which must raise the package's message error."""
    try:
        fun()
    except P.NMEAMessageError:
        return None
    except Exception as err:  # pylint: disable=broad-except
        return f"raises {err!r}, should raise NMEAMessageError"
    return "is accepted, should raise NMEAMessageError"


def attempts(P, m, passed):
    """[(label, function which returns None or what is wrong, trivial?)]"""
    out = []
    names = list(vars(m))
    names += [
        "payload", "checksum", "identity", "talker", "msgID", "msgmode", "serialize", "str2val", "brandnew",
        "_brandnew", "__class__", "__dict__", "__doc__", "lat", "", "field_99",
    ]
    for n in dict.fromkeys(names):
        old = getattr(m, n, None)
        vals = [New(), None, False]
        if isinstance(old, list):
            vals.append(old + ["z"])
        for k, v in enumerate(vals):
            out.append((f"set {n} {k}", lambda n=n, v=v: guarded(P, lambda: setattr(m, n, v)), not hasattr(m, n)))
        out.append((f"set {n} same", lambda n=n, o=old: guarded(P, lambda: setattr(m, n, o)), False))
        out.append((f"del {n}", lambda n=n: guarded(P, lambda: delattr(m, n)), not hasattr(m, n)))

    def iadd():
        m.payload += ["z"]

    def imul():
        m.payload *= 2

    out.append(("payload += list", lambda: guarded(P, iadd), False))
    out.append(("payload *= 2", lambda: guarded(P, imul), False))

    def lists(label, get):
        acts = {
            "append": lambda x: x.append("zz"),
            "insert": lambda x: x.insert(0, "zz"),
            "clear": lambda x: x.clear(),
            "pop": lambda x: x.pop(),
            "item": lambda x: x.__setitem__(0, "zz"),
            "slice": lambda x: x.__setitem__(slice(None), ["q"]),
            "extend": lambda x: x.extend(["q", "r"]),
            "reverse": lambda x: x.reverse(),
            "delete": lambda x: x.__delitem__(0),
            "sort": lambda x: x.sort(),
        }
        for an, act in acts.items():

            def go(act=act):
                try:
                    act(get())
                except (TypeError, AttributeError, IndexError):
                    pass  # not a list, or an immutable one, or empty

            try:
                trivial = not get()
            except Exception:  # pylint: disable=broad-except
                trivial = True
            out.append((f"{label} {an}", go, trivial))

    lists("payload", lambda: m.payload)
    held = m.payload
    lists("payload held", lambda: held)
    for n, v in list(vars(m).items()):
        if n[:1] != "_" and isinstance(v, (list, dict, set, bytearray)):
            lists(f"attribute {n}", lambda n=n: getattr(m, n))
    for n, obj in passed.items():
        if isinstance(obj, (list, bytearray)):
            lists(f"passed {n}", lambda obj=obj: obj)
        elif isinstance(obj, dict):

            def change(obj=obj):
                obj["zz"] = {"q": "IN"}
                for v in list(obj.values()):
                    if isinstance(v, dict):
                        v.clear()
                    if isinstance(v, list):
                        v.append(1)

            out.append((f"passed {n} change", change, False))
            out.append((f"passed {n} clear", lambda obj=obj: obj.clear(), False))
    def copied():
        c = copy.copy(m)
        if c.payload:
            c.payload[0] = "zz"
        d = copy.deepcopy(m)
        d.payload.append("zz")
        for x in (c, d):
            bad = guarded(P, lambda x=x: setattr(x, "zz", 1)) or guarded(P, lambda x=x: delattr(x, "_payload"))
            if bad:
                return f"of a copy {bad}"
            x.serialize()
        return None

    def pickled():
        import pickle

        try:
            c = pickle.loads(pickle.dumps(m))
        except (pickle.PicklingError, TypeError, AttributeError, P.NMEAMessageError):
            return None
        bad = guarded(P, lambda: setattr(c, "zz", 1))
        return f"of a pickled copy {bad}" if bad else None

    def used():
        str(m), repr(m), m.serialize(), m.payload.append("q"), hash(m), m == copy, list(vars(m))
        try:
            P.NMEAMessage(m.talker, m.msgID, m.msgmode, payload=m.payload)
        except P.NMEATypeError:
            pass  # "[1]" generated as a number

    out.append(("copies", copied, False))
    out.append(("pickle", pickled, False))
    out.append(("use", used, False))
    return out


def reduced(labels):
    """Representatives of the attempts for the deeper sequences."""
    keep = []
    sets = [x for x in labels if x.startswith("set ")]
    for n in ("_payload", "_immutable", "_checksum", "payload", "brandnew"):
        keep += [x for x in sets if x in (f"set {n} 2", f"set {n} same")]
        keep += [x for x in labels if x == f"del {n}"]
    pub = [x for x in sets if not x.startswith("set _")]
    keep += pub[:1]
    keep += [x for x in labels if x.split()[0] not in ("set", "del") and x.split()[-1] in (
        "append", "clear", "item", "list", "copies", "use", "change", "reverse")]
    return list(dict.fromkeys(keep))


NORIG = 31


def shards(tier):
    out = [["origin", i, 2] for i in range(NORIG)]
    if tier == "thorough":
        out += [["origin full", i, 2] for i in range(NORIG)]
        out += [["origin", i, 3] for i in range(NORIG)]
    n = len(ref.all_defs())
    out += [["defs", i, min(n, i + 20)] for i in range(0, n, 20)]
    return out


def run_shard(shard, ctx):
    P = core.use_repo()
    if shard[0] == "defs":
        run_defs(P, shard, ctx)
        return
    table = origins(P)
    assert len(table) == NORIG, len(table)
    name = list(table)[shard[1]]
    make = table[name]
    m, passed = make()
    labels = [a[0] for a in attempts(P, m, passed)]
    if shard[0] == "origin":
        first = [[x] for x in labels] if shard[2] == 2 else []
        alphabet = reduced(labels)
    else:
        first, alphabet = [], labels
    seqs = itertools.chain(first, map(list, itertools.product(alphabet, repeat=shard[2])))
    for seq in seqs:
        ctx.case([name, seq])
        ctx.add(evaluations=1, states=1)
        m, passed = make()
        acts = {a[0]: a for a in attempts(P, m, passed)}
        base = observe(m)
        nontrivial = 0
        for k, label in enumerate(seq):
            _, fun, trivial = acts[label]
            nontrivial |= not trivial
            bad = fun()
            if bad:
                ctx.violation(f"{name}, {seq[:k + 1]}: {label} {bad}")
                break
            now = observe(m)
            if now != base:
                d = [(a, b) for a, b in zip(base, now) if a != b]
                ctx.violation(f"{name}, {seq[:k + 1]}: message changes from {d[0][0]!r} to {d[0][1]!r}")
                break
        ctx.add(distinct_nontrivial=int(nontrivial))
    ctx.outcome((name, base[0]))


def run_defs(P, shard, ctx):
    for d in ref.all_defs()[shard[1] : shard[2]]:
        for reps in (1, 2):
            raws = [f[2] for f in ref.fields_for(d, "plain", reps)]
            lst = list(raws)
            ctx.case([repr(d), raws])
            data = ref.sentence(ref.content_of(d, raws))
            for origin in ("parsed", "payload", "generated"):
                if origin == "parsed":
                    m, passed = P.NMEAReader.parse(data, msgmode=d.mode), {}
                elif origin == "payload":
                    m, passed = P.NMEAMessage(d.talker, d.msgid, d.mode, payload=lst), {"payload": lst}
                else:
                    from mc import gen

                    kw = dict(ref.expected(d.layout, raws))
                    kw.update(gen.required(d))
                    m, passed = P.NMEAMessage(d.talker, d.msgid, d.mode, **kw), {}
                base = observe(m)
                for label, fun, trivial in attempts(P, m, passed):
                    ctx.case([repr(d), origin, raws, label])
                    ctx.add(evaluations=1, states=1, distinct_nontrivial=int(not trivial))
                    bad = fun()
                    if bad:
                        ctx.violation(f"{d} {origin}: {label} {bad}")
                    elif observe(m) != base:
                        ctx.violation(f"{d} {origin}: {label} changes the message from {base[0]} to {m}")
            ctx.outcome((d.key, reps))
