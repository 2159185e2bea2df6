#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("totality monitor in worker processes (panic, hang and memory watchdogs)", "Observes Text, Tree and Word on generated, mutated and hostile texts."),
 "C02": ("reference-model monitor: independent PEG interpreter over the published grammar", "Parse tree and AST of every observed text are compared with those of an independent recognizer; trusts the frozen copy of the grammar in harness/grammar.peg."),
 "C03": ("conservation monitor over the stream of visited words", "Every byte of every observed accepted text is accounted for once."),
 "C04": ("metamorphic monitor: respelled texts", "Trusts the harness's table of tone notations."),
 "C05": ("reference-model monitor of the failure position", "Trusts the independent PEG interpreter's furthest failure."),
 "C06": ("assertions on every node of observed ASTs", "Spans recomputed from the words by an independent walk."),
 "C07": ("request-sequence monitor against fresh parsers, mutation of results, and the Go race detector", "Schedules are those the stress run produced."),
 "C08": ("trace comparison of Word reads with the AST and the word rule of the reference PEG", "Every offset of short texts is asked, 120 of longer ones."),
 "C09": ("online trace checker of visitor calls", "The traversal specification is an independent list of each node type's children."),
 "C10": ("relational monitor with single-point changes made by reflection", "Equality is compared with an independent structural dump."),
 "C11": ("read-back monitor of the bracketed form", "Compared with an independent rendering."),
 "C12": ("round-trip monitor of the ASCII form", "Trusts the harness's tone table."),
 "C13": ("algebraic-law monitor over words in every tone, case and length", "Every syllable x tone x case is enumerated once, longer words are sampled; trusts the harness's own letter table."),
 "C14": ("totality monitor in worker processes with an independent list of unsupported connectives", "Observes Interpret, printing, visiting and AST stripping."),
 "C15": ("purity monitor over call histories, overwriting of results, and the Go race detector", "Schedules are those the stress run produced."),
 "C16": ("scope assertions on every node of observed statements", "Bindings, occurrences and numbers of every statement are checked."),
 "C17": ("reference-model monitor: independent interpreter of the AST", "Workload favours linking words, serial predicates and prenexes; trusts harness/refinterp.go."),
 "C18": ("reference-model monitor: independent interpreter of the AST", "Workload favours connectives in all places; trusts harness/refinterp.go."),
 "C19": ("reference-model monitor: independent interpreter of the AST", "Workload favours quantifiers, anaphora and relative clauses; trusts harness/refinterp.go."),
 "C20": ("reference-model monitor: independent interpreter of the AST", "Workload favours clauses, adverbs, prepositions and quotes; trusts harness/refinterp.go."),
 "C21": ("metamorphic monitor: rewritten texts", "Equivalent texts are made by rewriting observed ones; needs no model of the meaning."),
 "C22": ("reference matcher of printed formulas against the statement, also on synthetic statements", "The expected string is built with holes for the variables' names, which must be consistent and distinct."),
 "C23": ("client-side trace checker under concurrent, faulty and hostile clients, and the Go race detector in the server", "Answers are compared with the library run in the monitor's process; schedules are those the stress run produced."),
 "C24": ("trace checker of the replies on scripted chat channels, with held sends, and the Go race detector in the bot", "The Discord client is replaced by a stand-in; replies are compared with the library run in the monitor's process."),
 "C25": ("fault injection: scripted HTTP responses with a reference model of the dictionary", "Trusts the harness's tone table."),
 "C26": ("output monitor of the program's runs", "Output is compared with the library run in the monitor's process."),
 "C27": ("fault injection and compile-and-compare monitor of the generated file", "The generator runs unchanged behind a proxy that plays the dictionary server; its file is compiled over the repository's and the words it holds are compared with those sent. Trusts the Go compiler."),
 "C28": ("document monitor of the page's script in a stand-in browser, with answers delivered in any order", "The script runs in node against a small document; its requests go to the real server. Layout and style sheets are not observed."),
 "C29": ("reference-model monitor of dumps, traversals and stripped links", "Dumps are compared with an independent renderer by reflection, traversals with an independent list of children."),
}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
import sys
extra = os.path.join(here, "tools", "manifest_extra.json")
if os.path.exists(extra):
    T.update({k: tuple(v) for k, v in json.load(open(extra)).items()})
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T:
        checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json", "technique": "runtime monitoring: " + T[i][0], "level": "exploration",
            "level_note": T[i][1] + " Nothing is claimed beyond the executions observed."})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "hooks": {"guard": "none", "enable": "no hooks: the monitors observe through the exported API, the commands' inputs and outputs, and a stand-in chat module", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
