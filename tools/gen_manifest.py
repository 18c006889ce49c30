"""Writes MANIFEST.json from the list of properties and the check modules."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True

MC = "explicit-state bounded model checking with exhaustive conformance replay on the implementation"
TECH = {
    "C01": "exhaustive enumeration of parameter sequences for all style pairs, each replayed on the real code against a reference model",
    "C02": "exhaustive enumeration of query texts (all strings / token sequences up to a bound) against a scanner model, replayed on the real code",
    "C03": "exhaustive enumeration of query texts and escape strings against a scanner model, replayed on the real code",
    "C04": "exhaustive enumeration of percent-rich texts against a model of percent rendering, replayed on the real code",
    "C05": "exhaustive enumeration of value assignments and tuple lengths against the reference model, replayed on the real code",
    "C06": "exhaustive enumeration of row histories (shapes, containers, iterables) against the reference model, replayed on the real code",
    "C07": "exhaustive enumeration of slot and value sequences; outputs read back by an independent grammar and compared with the model",
    "C08": "exhaustive enumeration of call histories on shared instances, compared with pristine copies of the package",
    "C09": "stateless model checking of the real code: all thread interleavings up to a preemption bound under a controlled scheduler",
    "C10": "exhaustive enumeration of call/damage histories with aliasing and mutation monitors",
    "C11": "exhaustive enumeration of values and positions with recording values as monitors, replayed on the real code",
    "C12": "exhaustive enumeration of byte strings up to a bound, lock-step comparison of bytes and text runs and the model",
    "C13": "exhaustive enumeration of texts and comment-style lists against a model of comment stripping, replayed on the real code",
    "C14": "exhaustive enumeration of absent and ill-typed parameters at every position against the reference model, replayed on the real code",
    "C15": "exhaustive enumeration of equivalent containers (key writings, orders, extras, classes), compared with the plain one and the model",
    "C16": "exhaustive enumeration of query and key spellings against a model of Oracle's rules, replayed on the real code",
    "C17": "exhaustive exploration of all 729 two-step conversion chains, compared with the direct conversion and the model",
    "C18": "exhaustive enumeration of constructor options and change histories against a model of the effective configuration",
    "C19": "exhaustive enumeration of bindings over SQL templates, executed by SQLite as the independent oracle",
    "C20": "exhaustive fault injection: every access of a call to caller containers fails in turn, on the real code",
    "C21": "exhaustive enumeration of call histories with weak-reference monitors on everything the caller passed, on the real code",
    "C22": "exhaustive interruption injection: every source line a call executes in the package is interrupted in turn, on the real code",
    "C23": "exhaustive enumeration of operation histories under monitors for side effects (audit events, output, settings), on the real code",
    "C24": "exhaustive enumeration of repeated syntax patterns and large dimensions, each executed by the real code under a monitor of CPU time and stack",
}
NOTE = {
    "C09": "Exhaustive over the interleavings of the listed call sets up to the preemption bound (evidence: bounds), at source-line and for small sets at bytecode "
           "granularity, executed by the real code; beyond the bound and for other call sets nothing is claimed. Trusts CPython's tracing and the scheduler.",
    "C19": "Exhaustive over the listed templates, values and slot assignments. Trusts SQLite and the hand-written literal rendering.",
    "C21": "Exhaustive over the histories of the listed operations up to the depth and the run lengths in the evidence, executed by the real code; the monitor is CPython's "
           "reference counting and cycle collector.",
    "C23": "Exhaustive over the histories of the listed operations up to the depth, executed by the real code; effects are those the monitors see: the interpreter's audit "
           "events, streams, warnings, log records and a snapshot of settings.",
    "C24": "Exhaustive over the repetitions of the listed tokens (two, thorough three, per unit) between the listed beginnings and ends, and the listed sizes, executed by the "
           "real code; growth is judged by an absolute limit on CPU time some ten times what the slowest call takes.",
    "C22": "Exhaustive over every source line the listed operations execute in the package, as the point of interruption; lines that acquire or release resources are exempt. "
           "Trusts CPython's line tracing; results afterwards are compared with an undisturbed copy, itself judged by the reference model.",
    "C20": "Exhaustive over every access the dry run makes and the listed exception classes and histories of faults. Trusts the counting containers.",
}
DEFAULT = ("Exhaustive within the bounds recorded in the evidence; every explored case is executed by the real code and compared with a reference model written "
           "from the documentation (mc/model.py), so the model is bound to the code on every trace. Beyond the bounds nothing is claimed (small-scope assumption). "
           "Trusts the model, CPython and the comparison code.")


def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
    checks = []
    for p in props:
        mod = importlib.import_module("mc.checks." + p["id"].lower())
        checks.append(dict(property=p["id"], quick_cmd="python3 -m mc %s" % p["id"], thorough_cmd="python3 -m mc %s --tier thorough" % p["id"],
                           evidence_file="evidence/%s.json" % p["id"], technique=TECH[p["id"]], level=mod.LEVEL, level_note=NOTE.get(p["id"], DEFAULT)))
    man = dict(version=1, setup_cmd="python3 -c 'import mc.engine; mc.engine.repo.load()'", checks=checks, not_applicable=[],
               notes="Pure Python; nothing to build. No hooks in /repo. Checks import sqlparams from /repo's working tree. KNOWN_FINDINGS.txt lists the findings.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")


main()
