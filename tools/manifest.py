"""Writes MANIFEST.json from the check modules (docstring, LEVEL, ASSUMPTIONS)."""

import ast
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "explicit-state enumeration of stream models (all element sequences to a depth), every trace replayed on the real reader",
    "C02": "explicit-state enumeration of stream models with error events, every trace replayed on the real reader",
    "C03": "bounded exhaustive enumeration of input strings, field values and mutations on the real code, work measured in executed lines",
    "C04": "bounded exhaustive enumeration of checksums and single-byte corruptions on the real code against an independent XOR",
    "C05": "exhaustive enumeration of TCP segmentations and operation sequences on the real code against a byte queue model",
    "C06": "exhaustive enumeration of segmentations and chunk divisions on the real code against the concatenation model",
    "C07": "exhaustive fault injection: every position of one fault and of two faults, on the real code",
    "C08": "explicit-state enumeration of stream models, every trace replayed on the real reader",
    "C09": "stateless model checking of the real code under a controlled scheduler, bounded preemptions",
    "C10": "stateless model checking of the real code under a controlled scheduler, bounded preemptions",
    "C11": "layout automaton (model) explored exhaustively, every trace replayed on the real parser",
    "C12": "bounded exhaustive enumeration of accepted sentences on the real code, round trip oracle",
    "C13": "generation model explored over all bounded choice vectors, every trace replayed on the real generator and parser",
    "C14": "bounded exhaustive enumeration on the real code against a sign/letter model",
    "C15": "exhaustive enumeration of mutation sequences to a depth on real message objects",
    "C16": "exhaustive enumeration of operation histories to a depth on the real code, against fresh-process results",
    "C17": "decision table model, every cell executed on the real parser, reader and constructor",
    "C18": "decision table model, every cell executed on the real parser and generator",
    "C19": "space of user definitions enumerated to a bound, their automata's traces replayed on the real code",
    "C20": "bounded exhaustive enumeration of the field grid on the real code against exact rational arithmetic",
    "C21": "bounded exhaustive enumeration of the value grid and strings on the real code against exact rational arithmetic",
    "C22": "exhaustive enumeration of days, times and digit strings on the real code against calendar arithmetic",
    "C23": "exhaustive enumeration of week/leap second boundaries on the real code against integer arithmetic",
    "C24": "exhaustive enumeration of a boundary-value grid on the real code against an independent geometric construction",
    "C25": "exhaustive enumeration of point pairs of a boundary-value grid on the real code against vector geometry",
    "C26": "exhaustive enumeration of the loops of a bounded operation alphabet on the real code, memory compared between rounds",
    "C27": "exhaustive enumeration of operation sequences and segmentations on the real code against two byte queues",
    "C28": "exhaustive enumeration of copy operation sequences on real message objects of every definition",
    "C29": "exhaustive enumeration of instants, pairs of instants and zones on the real code under a clock set by the check",
    "C30": "exhaustive enumeration of definitions, modes, talkers, ids and decode codes on the real code against the published tables",
    "C31": "exhaustive enumeration of creations (definition, attribute, value) on the real code, each resulting sentence checked and parsed back",
    "C32": "exhaustive enumeration of operations x interpreter configurations and process settings on the real code, results compared with a plain interpreter, process state compared before and after",
    "C33": "exhaustive enumeration of element sequences, handovers and socket segmentations on the real code, with a source checking at every request that everything complete was delivered",
    "C34": "fault enumeration: an exception injected at every call the real code makes to stream, socket, error handler, logging handler and values, alone and in pairs, and every set of errors with a reading handler",
    "C35": "exhaustive enumeration of element sequences x kinds of streams (memory, files, archives, pipes, terminals, sockets) on the real code against the element model, stream state compared before and after",
    "C36": "exhaustive fault enumeration (chunk damage, invalid length lines) x segmentations on the real code against per-chunk decoding",
    "C37": "exhaustive enumeration of call spellings (positional, named, omitted) x parameter values on the real code against the documented defaults",
}


def main():
    checks = []
    for pid in sorted(TECH):
        path = os.path.join(VERIF, "checks", pid.lower() + ".py")
        with open(path, encoding="utf-8") as f:
            tree = ast.parse(f.read())
        d = {
            n.targets[0].id: ast.literal_eval(n.value)
            for n in tree.body
            if isinstance(n, ast.Assign)
            and isinstance(n.targets[0], ast.Name)
            and n.targets[0].id in ("ID", "LEVEL", "RULE", "ASSUMPTIONS")
        }
        assert d["ID"] == pid
        note = "Holds on everything within the bounds: " + d["RULE"] + "."
        if d.get("ASSUMPTIONS"):
            note += " Assumes: " + "; ".join(d["ASSUMPTIONS"]) + "."
        checks.append(
            {
                "property": pid,
                "quick_cmd": f"./check {pid} quick",
                "thorough_cmd": f"./check {pid} thorough",
                "technique": TECH[pid],
                "level": d["LEVEL"],
                "level_note": note,
            }
        )
    out = {
        "version": 1,
        "setup_cmd": "./check --setup",
        "checks": checks,
        "not_applicable": [],
        "notes": "Pure Python: nothing is compiled, every check imports the package from /repo/src as it is. "
        "No hooks in /repo. Every enumeration is deterministic; VERIF_SEED only rotates the order of the work units.",
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(out, f, indent=1)
        f.write("\n")


main()
