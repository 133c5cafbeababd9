#!/usr/bin/env python3
"""Writes MANIFEST.json. CLAIMED: properties with a check."""
import json
CLAIMED = {
 'C22': 'Lock discipline proved for every scope, node, and length: guarded fields are touched only under their own lock, no lock is taken twice, all are released (an operation at a time; that this excludes races is the usual argument, not proved); concurrent histories executed natively (bounded, real scheduler).',
 'C21': 'Binding of arguments and defaults, and the calls of stored functions, stored queries and lambdas, proved for any arguments and any set of defaults; stored queries, functions and lambdas in queries executed natively against a reference (bounded).',
 'C17': 'Every coercion (integers, floats, booleans, strings, lists, single rows, dicts), required and undeclared names and names of its own proved for every value; that the field written is the one declared, and calls through queries, executed natively against a reference (bounded).',
 'C01': 'All operator dispatchers proved for every pair of operand values, list concatenation for any length; callers assumed only through the recorded interface assumptions.',
 'C02': 'Less, greater and equal proved for every pair of built-in scalars and timestamps, the operator nodes for every operand; lists and dicts compared natively against a reference up to depth 2 (bounded).',
 'C03': 'Truth dispatcher proved for every value; AND, OR, NOT proved for chains of any length including which operands are evaluated; whole expressions executed natively against a reference (bounded).',
 'C04': 'Subscript node and the lookup in lists, strings and dicts proved for every value and index or bound; whole queries executed natively (bounded).',
 'C05': 'Operator node, membership (lists, strings, dicts) and the matching dispatcher proved for every pair of operands; what a regular expression matches is an assumed contract of the standard library, executed natively (bounded).',
 'C06': 'Extension dispatch, registration and environment copies proved for every operator, any number of extensions and any function or plugin table; whole histories of registrations over several environments executed natively (bounded).',
 'C07': 'Resolve, AppendVars and Copy proved for every binding stack; whole histories and queries executed natively (bounded).',
 'C08': 'Close, AddDestructor, Copy and the parent-child bookkeeping proved for any number of destructors and children; whole histories executed natively (bounded).',
 'C09': 'Depth counter and overflow test proved for every scope; deep derivation chains and recursive queries executed natively (bounded).',
 'C10': 'Row pipeline, LIMIT, FROM and statement relays proved for any number of rows and any point of cancellation (goroutines taken in sequential order); whole queries executed natively against a reference (bounded).',
 'C11': 'Less, Swap and the sorter proved for any number of rows, and what ORDER BY feeds it; that sort.Sort sorts is an assumed contract of the standard library; whole queries executed natively (bounded).',
 'C12': 'What is fed to the grouper, its keys and the aggregator contexts proved; the binning loop itself is only executed natively against a reference (bounded).',
 'C13': 'One step of every aggregate proved for any state and item, given the extracted arguments; whole queries executed natively against a reference (bounded).',
 'C14': 'Lazy row reads, additions and materialization proved for any number of columns; whole queries executed natively (bounded).',
 'C15': 'Decoding of every quoted literal (any length and content), verbatim triple quoting, freedom from panics and back-quoted identifiers proved; literals, triple-quoted texts and identifiers inside queries, where the lexer delimits them, executed natively (bounded).',
 'C16': 'The error reporter proved free of panics for every text and every position inside it or at its end, the end position of a token proved exact; Parse, MultiParse proved to hand every error of the parser library on (assumed: its positions lie within the text); broken texts and token positions also through the public API within a sample.',
 'C18': 'range, if, the list plugins and iteration over dicts, lists and single values proved for every argument (any number of rows and any point of cancellation), given the extracted arguments; chain, foreach and flatten executed natively against a reference (bounded).',
 'C19': 'Proved for any number of rows, any limit, any point of cancellation and any firing of the timer, for an encoder that succeeds; rows of the query are an assumed channel; whole queries executed natively (bounded).',
 'C20': 'Literals, symbols and parameter lists proved to show nothing of earlier evaluations, for every node and scope; the list node proved; whole expressions evaluated repeatedly from several scopes executed natively (bounded).',
}
NA = {
 'C24': 'The meaning of the printed text is given by the participle grammar, which works by reflection over struct tags: no contract on functions of /repo expresses that the text parses back, and the formatter itself is a visitor over every node type writing to a buffer; a proof would need a verified model of the parser library.',
 'C23': 'Liveness of goroutines over schedules: contracts on sequential function bodies cannot express that every goroutine eventually ends.',
}
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": [],
     "notes": "check.sh builds the verifier gver (Go) if needed and proves the contracts in /verif/contracts on /repo's current source."}
for p in props:
    i = p['id']
    if i in CLAIMED:
        m['checks'].append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "contract-based deductive verification: Go contracts discharged on the SSA of the real code with z3/cvc5; native contract execution for failing inputs",
            "level": "proof", "level_note": CLAIMED[i]})
    else:
        m['not_applicable'].append({"property": i, "reason": NA.get(i, "No check has been built for this property yet.")})
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
