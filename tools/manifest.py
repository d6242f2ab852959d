#!/usr/bin/env python3
"""Writes MANIFEST.json from this table. Run in /verif."""
import json

T = {
'C01': ('bounded exhaustive enumeration of sources on the instrumented implementation, with step counting',
        'Every source within the bounds is run on the real code; termination is decided by counting calls and loop iterations against a linear bound. Trusts the instrumentation and that the standard library takes bounded time per call.'),
'C02': ('explicit-state reference model (lexer+grammar) checked against the parser on every source within bounds',
        'Tree equality with an independent model for every enumerated well-formed source; assumes characters outside the alphabets behave like a member of their class.'),
'C03': ('explicit-state reference model deciding well-formedness, checked on every source within bounds',
        'Accept/reject equality with an independent model; inputs whose status the documentation leaves open are excluded.'),
'C04': ('explicit-state model of string contents, checked on every string within bounds',
        'Element-by-element equality with the model for every enumerated string.'),
'C05': ('explicit-state token model, checked on every source and byte string within bounds',
        'Coverage/order/EOF invariants on every byte string within bounds and token equality with the model on lexically valid ones.'),
'C06': ('exhaustive exploration of two- and three-step histories of one scanner',
        'Every pair and triple of uses within bounds is run on the real scanner and compared with a fresh one.'),
'C07': ('explicit-state model of positions, checked on every well-formed source within bounds',
        'Every position in every tree within bounds equals that of the model, also behind other files in a file set.'),
'C08': ('explicit-state reference model of the first malformed declaration, checked on every source within bounds',
        'Error lists and recovered trees of every malformed source within bounds satisfy the relation with the model.'),
'C09': ('exhaustive enumeration of the spellings of documents against model and implementation',
        'Every spelling within the bounds gives the tree of the plain spelling.'),
'C10': ('exhaustive enumeration of sources x all 32 parser modes',
        'Cross-mode agreement for every source within bounds and every mode.'),
'C11': ('explicit-state model of comment attachment, checked on every source within bounds',
        'Comment groups and what they document equal the model for every source within bounds.'),
'C12': ('exhaustive enumeration of URLs x places through parser, resolver and renderer',
        'Every URL within bounds survives in every place where one can stand.'),
'C13': ('explicit-state word model of author lists, checked on every list within bounds',
        'Splitting equals the model for every list within bounds.'),
'C14': ('explicit-state word model of names, checked on every name within bounds',
        'Name parts equal the model for every name within bounds.'),
'C15': ('exhaustive enumeration of documents resolved and compared with their trees and the model',
        'One faithful result per entry for every document within bounds.'),
'C16': ('exhaustive exploration of resolver lists, option splits, failures and call histories',
        'All histories within bounds are run on the real Biber; the log of calls equals the model.'),
'C17': ('exhaustive exploration of values x sequences of resolvers against a text model',
        'Every value within bounds after every prefix of every resolver sequence equals the model.'),
'C18': ('exhaustive enumeration of expression trees and of every failing write',
        'Text equals the model and every failing write surfaces, for every tree and every write position within bounds.'),
'C19': ('exhaustive exploration of trees x renderer answers x failing writes',
        'Calls and output equal the model for all answer sequences with at most two deviations.'),
'C20': ('exhaustive exploration of trees x walker answers against a traversal model',
        'Calls and results equal the model for all answer sequences with at most two deviations.'),
'C21': ('fault enumeration: every split of a source into reads and every failing read',
        'All reader behaviours within bounds give the same tree, or the error of the read.'),
'C22': ('fault enumeration: every list of good, malformed and unreadable files within bounds',
        'The package and its error equal the model for every list within bounds.'),
'C23': ('systematic exploration of thread interleavings of the instrumented implementation under a controlled scheduler',
        'All schedules with one preemption at any statement for all pairs of operations, with two preemptions for some; the race detector covers what one-at-a-time execution cannot see.'),
'C24': ('exhaustive exploration of sequences of operations in one process against fresh processes',
        'All sequences within the bounds give the results of fresh processes.'),
'C25': ('explicit-state exploration of scopes as maps, each trace replayed on the implementation',
        'All histories within bounds agree with a map model.'),
'C26': ('exhaustive enumeration of expressions and constructor arguments against the parser and a structure model',
        'String equality coincides with structural equality for all pairs within bounds.'),
'C27': ('exhaustive enumeration of accents x characters against Unicode composition tables',
        'Complete over all accents and all Unicode characters as single letters.'),
'C28': ('explicit-state reference model of the extents of nodes, checked on every source within bounds',
        'Every end of every node in every tree within bounds equals that of the model.'),
'C29': ('explicit-state trace checking: every trace is read back against the token sequence of the scanner and the tree',
        'Traces of all sources within bounds are complete, ordered, balanced and located; all pairs of operations print nothing.'),
'C30': ('exhaustive enumeration of complete finite domains',
        'Complete over all token numbers near the defined ones, all Unicode characters, all node types and constants.'),
}
NA = {}
TH = set(T)

props = [json.loads(l) for l in open('properties.jsonl') if l.strip()]
checks = []
for p in props:
    i = p['id']
    if i in NA:
        continue
    t, n = T[i]
    c = {'property': i, 'quick_cmd': f'./check.sh {i}', 'thorough_cmd': f'VERIF_TIER=thorough ./check.sh {i}',
         'evidence_file': f'evidence/{i}.json', 'technique': 'model checking: ' + t, 'level': 'model_checking', 'level_note': n}
    checks.append(c)
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
     'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
     'notes': 'No hooks in /repo: C01 and C23 instrument a scratch copy of the sources (harness/cmd/instr). See DESIGN.md.'}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
