#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (only properties that have a check are claimed)."""
import json
import os

from definitions import P, R, ROOT, SIM, prop

NA = []


def na(id, title, statement, over, quantifier, why, files, mechanism, reason):
    prop(id, title, statement, over, quantifier, why, files, mechanism, [], None)
    NA.append({"property": id, "reason": reason})


PURE = " It is a pure function of its input: there is no scheduling, time, I/O, randomness or failure in it for a simulator to control, so simulated runs would only be random input testing under another name."

na("C20", "The parser finds exactly the derivations that the grammar allows",
   "For every grammar and text, the parser returns exactly the parse trees that the grammar derives for the text, and an error if there are none.",
   ["inputs", "programs"], "all grammars and texts", "Tests use a few fixed grammars.", ["processor/parser/earley/EarleyParser.py", "processor/parser/earley/tree_extract.py"],
   [("predict, scan, complete", R + "processor/parser/earley/EarleyParser.py:buildChart")], "Soundness and completeness of parsing." + PURE)
na("C21", "Optimizing a query does not change its answers",
   "The semantics of a sentence has the same answers before and after optimization.",
   ["programs", "inputs"], "all compositions of atoms and all models", "Tests compare a few fixed forms.", ["processor/semantic_composer/optimizer/BasicQueryOptimizer.py", "processor/semantic_composer/optimizer/SortByCost.py", "processor/semantic_composer/optimizer/IsolateIndependentParts.py"],
   [("reordering and isolation", R + "processor/semantic_composer/optimizer/")], "Equivalence of two forms of a query." + PURE + " (C04, C07, C08 and C11 do run the applications with and without the optimizer.)")
na("C22", "Variables of different parts of a sentence are never confused",
   "The meaning composed for a sentence uses the same variable for two constituents exactly when the grammar rules say that they share it.",
   ["programs", "inputs"], "all grammars and parse trees", "Tests compare a few fixed compositions.", ["processor/semantic_composer/SemanticComposer.py"],
   [("unification of variables", R + "processor/semantic_composer/SemanticComposer.py:compose")], "Variable hygiene of composition." + PURE)
na("C23", "Rule and grammar texts mean what they say",
   "Every well-formed grammar rule or inference rule text is read as exactly the rule it denotes, and every other text is refused.",
   ["inputs"], "all texts", "Tests parse a few fixed rules.", ["processor/parser/helper/SimpleGrammarRulesParser.py", "module/helper/SimpleInferenceRuleParser.py"],
   [("tokenizing and parsing", R + "module/helper/SimpleInferenceRuleParser.py:parse")], "Parsing of rule texts." + PURE + " (Reading rule files under failures is C13.)")
na("C24", "Parse trees are tried in order of preference",
   "Alternative parse trees are ordered by boost, depth and use of free text, in the same order each time.",
   ["inputs"], "all sets of parse trees", "Tests cover a few sentences.", ["processor/parser/tree_sort_heuristics/BasicParseTreeSortHeuristics.py"],
   [("sorting", R + "processor/parser/tree_sort_heuristics/BasicParseTreeSortHeuristics.py")], "Ordering of alternatives." + PURE + " (That alternatives are tried in the given order is C09; that the order does not depend on the process is part of C10.)")


def main():
    claimed = []
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in sorted(P, key=lambda p: p["id"]):
            has_check = os.path.exists(os.path.join(ROOT, "sim", "props", p["id"].lower() + ".py"))
            if p["note"] is not None and not has_check:
                continue
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["quantifier"]}, "why_tests_cant": p["why"],
                "anchors": {"files": [R + x for x in p["files"]], "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                            "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
            if has_check:
                claimed.append(p)
    python = "/opt/venv/bin/python -W ignore check.py"
    manifest = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -W ignore -c \"import sys; sys.path[:0]=['/repo','.']; import sim.master, richard.core.System\"",
        "hooks": {"guard": "none", "enable": "no hooks were needed in /repo: clock, randomness, disk, network, threads and data sources are replaced from outside", "source_commits": []},
        "checks": [{
            "property": p["id"], "quick_cmd": f"{python} {p['id']} --tier quick", "thorough_cmd": f"{python} {p['id']} --tier thorough", "evidence_file": f"evidence/{p['id']}.json",
            "technique": SIM + " (seeded search)", "level": "exploration", "level_note": p["note"]} for p in sorted(claimed, key=lambda p: p["id"])],
        "not_applicable": NA,
        "notes": "See DESIGN.md. known_findings.json lists the genuine defects: repaired ones (fixed) and the one that is recorded (known).",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")
    print(len(claimed), "claimed,", len(NA), "not applicable")


main()
