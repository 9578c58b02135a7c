#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed checks below (every other property is not applicable)."""
import json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = 'path-sensitive abstract interpretation of LLVM IR (relational dataflow with loop fixpoints)'
BASE = ('Decided on the LLVM IR compiled from the current sources on every run; nothing of /repo is executed and no solver is used. '
        'Trusted: clang/opt as front end, the interpreter in engine/ and the specification table in checks/. ')
C = {
 'J01': (AI, 'Every path of one scanner call from an arbitrary point of a text of any length (loops generalised), against the JSON token grammar stepped by the bytes the code looks at. The text is a complete JSON object or array, or a chunk of one that ends between two tokens.'),
 'J02': (AI, 'Exact summaries of the copying helpers for any text and range, the text of every token the scanner can return, and the text of every match of the serial automaton.'),
 'J03': (AI, 'Every path through one step of the serial automaton, for every token kind, nesting context and query position, is compared with a reference transition. Assumes nesting within the fixed stack capacity and token kinds that well-formed JSON can produce in that context.'),
 'J04': (AI, 'Element index updates of the serial automaton on every path of one step, compared with a reference transition.'),
 'J05': (AI, 'Every path of the serial automaton that applies an index range is compared with the half-open test.'),
 'J06': (AI, 'Every record appended on every path of one serial step is compared with a reference transition.'),
 'J07': (AI, 'Every return of the lookup functions, for a table of any size; string comparison is treated as an uninterpreted exact comparison.'),
 'J08': ('path-sensitive abstract interpretation of the C++ construction code (LLVM IR, analysis-only stand-in for the standard library)', 'Every path of up to three steps of every kind with arbitrary names and numbers; the rules handed to the automaton construction and the index ranges of the compiled query are compared with a reference.'),
 'J10': ('path-sensitive abstract interpretation of the C++ construction code (LLVM IR, analysis-only stand-in for the standard library)', 'The same paths with an arbitrary automaton, for every kind of accepting position; size, table, names, roles, ranges, filter expressions and condition positions of the compiled query are compared with a reference.'),
 'J11': (AI, 'Every operator on every kind of operand value, nested operators and name tables; texts and numbers stay symbolic, each path result is compared with the reference value. Expressions with up to two operators, numbers as real numbers without NaN.'),
 'J12': ('analysis of the generated scanner and LALR automata: product of the scanner with a reference automaton, grammar derivations with the semantic effect of every rule summarised from its action code', 'Every text of any length for token recognition (all reachable pairs of automaton states). Every path of up to three steps and every filter of up to three binary operators, with not and parentheses, through the LALR tables. Line breaks, index lists and script brackets are not looked at.'),
 'J13': (AI, 'Every sequence of up to three records, from an arbitrary filter state with none, one or several open elements and any number of undecided candidates, compared with a reference; the release loop is generalised. The value of the filter expression itself is an input (J11); list capacities are not covered (J23).'),
 'J14': ('inclusion-based points-to and side-effect analysis of everything a worker thread reaches, and typestate of the start-await-merge-release sequence over all paths', 'Side effects for any input; the start-await-merge-release sequence for 1 to 16 chunks and every set of failing thread starts up to 5 chunks.'),
 'J16': (AI, 'combine and everything it calls is interpreted on the IR for every enumerated shape of what the workers hand over (unmatched symbols, records of the position itself and of deeper ones, index ranges, units evaluated again, levels left open, up to three later chunks); counters, positions, texts and the query automaton are symbolic; nesting, positions, indices, open matches and results on every path are compared with the serial rule.'),
 'J15': (AI, 'Every token kind in every nesting context of a worker (outermost level of its chunk to three levels inside, first or later chunk, several tracked positions that coincide, split or die, with and without learned positions), and short token sequences across unit borders, on every path of executeWorkerAutomaton and its callees, compared with the serial rule. Tracked positions are bounded to at most three per level.'),
 'J17': (AI, 'Every path of the loading and splitting functions with their loops generalised, for input of any size and content and any number of cores. Assumes input sizes within int, as the interface has it; partitionFile, which nothing calls, is not covered.'),
 'J18': (AI + '; typestate of the state handed from portion to portion', 'Every history of up to three input portions through the interface functions, with evaluation and filtering replaced by stand-ins that look at all state they are given; every pair of consecutive tokens of the serial automaton evaluated in one and in two calls.'),
 'J19': ('ownership and typestate analysis of allocations over all paths (abstract interpretation of LLVM IR)', 'Every history of up to three input portions through the interface functions; every path of one serial step, of short record sequences of filtering, of filter evaluation, of joining property paths, of loading and splitting. Workers and merging only as far as they own automata, lists and chunks.'),
 'J20': (AI, 'Insertion and lookup for a constraint table of any content; what the serial automaton hands to them per step.'),
 'J21': (AI, 'Push, pop, top and merge for any stack content and any depth.'),
}
PLANNED = {}
NA = {
 'J09': 'Equivalence of the constructed automaton with the rule set quantifies over every regular rule set and every key sequence; the construction is a worklist over run-time sets whose result no per-path summary bounds, and evaluating it on sample rules would be testing. What goes into it and what is made of it are decided as J08 and J10, the lookup in its result as J07.',
 'J22': 'Equality of two whole runs over all documents, schedules and chunkings quantifies over unbounded histories; no sound static argument in reach relates the speculative parallel run to the serial one. Its per-step clauses are stated and decided separately (J04, J05, J14, J15, J16).',
 'J23': 'The tree uses fixed-size tables throughout and bounds on document and query sizes are run-time quantities; the property is false as it stands in general and its repair is a redesign, so no static rule can show it. The stack part is decided as J21.',
 'J24': 'The end-to-end JSONPath semantics quantifies over all paths and documents; only its per-stage clauses (J01-J13) are in reach of static analysis.',
}
checks = []
for k in sorted(C):
    t, n = C[k]
    checks.append(dict(property=k, quick_cmd='python3 check.py %s' % k, thorough_cmd='python3 check.py %s --tier thorough' % k,
                       evidence_file='evidence/%s.json' % k, technique=t, level='other', level_note=BASE + n))
na = []
for l in open(os.path.join(D, 'properties.jsonl')):
    i = json.loads(l)['id']
    if i not in C:
        na.append(dict(property=i, reason=NA.get(i, 'No check has been built for it yet.')))
m = dict(version=1, setup_cmd='python3 check.py --selftest', checks=checks, not_applicable=na,
         notes='All checks are static: clang -S -emit-llvm of the current /repo sources into a temporary directory, then dataflow over the IR in Python.')
json.dump(m, open(os.path.join(D, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
