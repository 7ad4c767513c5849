#!/usr/bin/env python3
"""Rewrites MANIFEST.json from properties.jsonl and the table below.

Not part of any check. Run it after adding a check to the table.
"""
import json, os

TREE = ("Decided from the current source for all inputs within the abstraction; "
        "trusts the Go type checker and SSA construction and the models of library "
        "functions listed in the evidence; not a machine-checked proof.")
FLOW = "path-sensitive dataflow analysis over SSA with a specification per construct"
SHAPES = ("Decided from the current source for documents of the listed shapes with any keys and any depth limit; "
          "a rule on numbers in the recursive part extends it to other shapes; trusts the type checker, SSA construction "
          "and the models of library functions; not a machine-checked proof.")
DRAWN = ("Decided from the current source for trees of the listed shapes with any texts; a rule on numbers extends it to "
         "other shapes; trusts the type checker, SSA construction and what is assumed of the graph library; not a machine-checked proof.")
CHECKS = {
    "M01": (FLOW, TREE),
    "M02": (FLOW, TREE),
    "M03": (FLOW, TREE),
    "M04": (FLOW, TREE),
    "M05": (FLOW, TREE),
    "M06": (FLOW, TREE),
    "M07": (FLOW, TREE),
    "M08": (FLOW + ", with a proof obligation for every operation that can panic", TREE),
    "M09": ("effect analysis over SSA: who may write what while matching", TREE),
    "I01": ("whole-program reference analysis over SSA: what is reached from package variables, and who writes it", TREE),
    "I02": ("whole-program reference analysis over SSA: what is reached from arguments that are only read, and who writes it", TREE),
    "P01": (FLOW, TREE),
    "P02": (FLOW, TREE),
    "P03": (FLOW, TREE),
    "P04": (FLOW, TREE),
    "P05": (FLOW + ", one step of the recursion at a time", TREE),
    "P06": (FLOW, TREE),
    "P07": (FLOW + ", comparing conversions of the text", TREE),
    "P08": (FLOW, TREE),
    "P09": (FLOW + ", counting messages per literal", TREE),
    "P10": (FLOW, TREE),
    "M13": (FLOW + " over recordings, with lock and copy rules over SSA", TREE),
    "G01": ("rules over the grammar graph extracted from the generated parser: termination, definedness, whole input", TREE),
    "G02": (FLOW + ", who may start the parser and how results are remembered", TREE),
    "G03": (FLOW + " over the actions, with regular-language inclusion over the grammar", TREE),
    "G04": (FLOW + " over the actions, with regular-language inclusion over the grammar", TREE),
    "G05": ("structural comparison of the grammar source with the generated parser, with dataflow analysis where code differs", TREE),
    "G07": ("fixpoint over the grammar of what stands between neighbouring tokens, with regular-language inclusion", TREE),
    "G06": (FLOW + " for each operator of the generated parser", TREE),
    "M10": (FLOW + ", counting effects", TREE),
    "M11": (FLOW + ", order of effects", TREE),
    "M12": (FLOW + ", over literals of up to three characters of each class", TREE),
    "F01": (FLOW + ", with a proof obligation for every operation that can panic, over everything a template can use", TREE),
    "F02": (FLOW + ", comparing bounds of parts of the query", TREE),
    "F03": (FLOW + ", with the types of everything a template can use", TREE),
    "V01": (FLOW + ", over query trees of known shape with unknown texts, with the label template evaluated", DRAWN),
    "V02": (FLOW + ", over query trees of known shape, with the failure of every library call on a path of its own", DRAWN),
    "C01": (FLOW + ", with the failure of every call on a path of its own", TREE),
    "W01": (FLOW + ", provenance of file names and typestate of open files, for requests to the started server", TREE),
    "W02": (FLOW + ", of the program built for browsers, comparing bounds as terms over the text", TREE),
    "N01": (FLOW + ", comparing numeric conversions", TREE),
    "S01": (FLOW + ", over documents of known shape with unknown keys", SHAPES),
    "S02": (FLOW + ", over histories of documents of known shape", SHAPES),
    "S03": (FLOW + ", over histories of documents of known shape, with the comparison read as a polynomial", SHAPES),
    "S04": (FLOW + ", with a proof obligation for every operation that can panic", SHAPES),
}
NOT_APPLICABLE = {}

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(root + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    if i in CHECKS:
        t, n = CHECKS[i]
        checks.append({"property": i, "quick_cmd": "bash check.sh " + i,
                       "thorough_cmd": "bash check.sh " + i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": t, "level": "other", "level_note": n})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(
            i, "No check has been built for it yet.")})
m = {"version": 1, "setup_cmd": "bash check.sh", "checks": checks, "not_applicable": na,
     "notes": "All checks are one static analyzer (analyzer/) applied to /repo's current source."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
