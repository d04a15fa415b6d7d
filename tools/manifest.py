#!/usr/bin/env python3
"""Writes MANIFEST.json: every check the harness lists, and the properties left out."""
import json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
props = [json.loads(l)['id'] for l in open('properties.jsonl')]
PBT = 'property-based testing'
T = {
 'C01': ('exploration', 'differential against an independent reference parser, on generated, mutated and enumerated texts'),
 'C02': ('exploration', 'differential against the reference renderer on generated documents and accepted soups'),
 'C03': ('exploration', 'round trip (render, parse, compare, transform both) on generated documents and accepted soups'),
 'C04': ('exploration', 'robustness search over arbitrary texts, options, programs and malformed user streams'),
 'C05': ('exploration', 'differential against the reference parser\'s positions, with coordinates recomputed from the text'),
 'C06': ('exploration', 'differential against the reference parser with limits, around the limits'),
 'C07': ('exploration', 'metamorphic relation from_file = from_str over generated files, with injected read and decode faults'),
 'C08': ('exploration', 'model-based: all routes of text into documents against an independent encoder'),
 'C09': ('exploration', 'differential against an independent identifier rule, every character at every position on every route'),
 'C10': ('exploration', 'differential against a tree-based matcher over generated elements and selectors'),
 'C11': ('exploration', 'model-based differential: generated and exhaustively enumerated documents and builders against a tree model'),
 'C12': ('exploration', 'model-based differential: generated and exhaustively enumerated documents and builders against a tree model'),
 'C13': ('exploration', 'model-based differential: generated and exhaustively enumerated documents and builders against a tree model'),
 'C14': ('exploration', 'model-based differential: generated and exhaustively enumerated documents and contents against a tree model'),
 'C15': ('exploration', 'model-based differential: generated and exhaustively enumerated documents and contents against a tree model'),
 'C16': ('exploration', 'model-based differential over generated and enumerated attribute lists and operation sequences'),
 'C17': ('exploration', 'model-based differential over generated and enumerated class and id attributes'),
 'C18': ('exploration', 'model-based differential over generated and enumerated repetitions, with instrumented iterators'),
 'C19': ('exploration', 'metamorphic (wrapped = direct) and model-based differential with counted builder calls'),
 'C20': ('exploration', 'metamorphic (one chain = separate transforms) and model-based differential over the complete API'),
 'C21': ('fault_enumeration', 'fault injection at every place of generated programs, judged by the tree model'),
 'C22': ('exploration', 'round trip of transform results over generated programs'),
 'C23': ('exploration', 'stateful model-based testing of histories over a pool of shared templates'),
 'C24': ('exploration', 'model-based differential over all content kinds in all operations'),
 'C25': ('exploration', 'pairwise comparison of values from all construction routes against content equality'),
 'C26': ('exploration', 'differential between created and parsed elements, and against the tree model'),
 'C27': ('exploration', 'generated errors with unmistakable data; message predicates and discrimination of neighbours'),
 'C28': ('exploration', 'generated large inputs, compared with the tree model or with closed forms'),
 'C30': ('exploration', 'instrumented builders, iterators and streams over generated programs with injected failures; invariant on the time of their calls'),
 'C31': ('fault_enumeration', 'generated templates and errors rendered into writers failing at every call; prefix invariant'),
 'C32': ('exploration', 'model-based testing with stateful selectors: questions and results of a walk over the tree'),
 'C33': ('exploration', 'repetition of generated work (metamorphic: n times as once) with a counting allocator, and a count of open files'),
 'C29': ('exploration', 'generated well-typed and ill-typed client programs, judged by the compiler against a typing model'),
}
NOTE = {
 'default': 'Search over generated inputs from fixed seeds, no proof; trusts the reference implementation in harness/src (written from the documentation, sharing no code or design with the library) and the generators\' reach shown in the evidence.',
 'C21': 'Each generated program is run with the failure at every one of its places; the programs themselves are sampled, and all small documents x contexts x failures are enumerated. Trusts the tree model for what is reached.',
 'C27': 'Judges messages by the data and role words they contain, not by their exact wording.',
 'C28': 'Sizes up to a few hundred thousand; above that memory of the sandbox sets the bound. A stack overflow is seen by the supervising process and traced to its case.',
 'C29': 'Compiles generated client programs with the installed rustc; trusts the typing model written from the documentation of Api and ElementStream.',
}
import re
built = set()
for f in ['harness/src/checks/' + f for f in os.listdir('harness/src/checks')] + ['types/src/types.rs']:
    built |= set(re.findall(r'(?:id: |check\(\s*)"(C\d+)"', open(f).read()))
checks, out = [], []
for p in props:
    if p not in built:
        out.append({'property': p, 'reason': 'not built yet'})
        continue
    level, how = T[p]
    checks.append({
        'property': p,
        'quick_cmd': './check.sh ' + p,
        'thorough_cmd': './check.sh ' + p,
        'technique': PBT + ': ' + how,
        'level': level,
        'level_note': NOTE.get(p, NOTE['default']),
    })
m = {
    'version': 1,
    'setup_cmd': 'cd harness && CARGO_TARGET_DIR=/verif/target CARGO_NET_OFFLINE=true cargo build -q --release --offline && cd ../types && CARGO_TARGET_DIR=/verif/target CARGO_NET_OFFLINE=true cargo build -q --release --offline',
    'checks': checks,
    'not_applicable': out,
    'notes': 'No hooks: everything is decided through the public API. check.sh rebuilds the harness against /repo on every run.',
}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks;', [o['property'] for o in out])
