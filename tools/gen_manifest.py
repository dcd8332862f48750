#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = 'TLA+ state machine; TLC explores it exhaustively within small constants and its behaviours are replayed in the real code; ' \
     'recorded runs of the real code are validated against it (Trace.tla)'
T = {
    'C01': 'TLA+ (TLC): round-trip and write-back laws (Laws.tla) over recorded and TLC-generated behaviours',
    'C02': MC, 'C03': MC, 'C04': MC, 'C05': MC + '; every cut of the input', 'C06': MC + '; every refusal point of the stream',
    'C07': MC, 'C08': MC, 'C09': MC, 'C10': MC, 'C11': MC, 'C12': MC, 'C13': MC + '; largest allocation recorded', 'C14': MC, 'C15': MC,
    'C16': 'TLA+ (TLC): access policy of the specification (Static.tla) against what the compiler grants for every field of every schema',
    'C17': 'TLA+ (TLC): well-formedness of the specification (Static.tla) against the compiler on generated well- and ill-formed schemas',
    'C18': 'TLA+ (TLC): equality law (Laws.tla) over the same session on every stream kind and in constant evaluation',
    'C19': 'TLA+ (TLC): framing and independence laws (Laws.tla) over multi-call sessions; trace validation',
    'C20': MC + '; implementation under AddressSanitizer and UBSan',
}
NOTE = 'Bounded: the schemas of harness/catalogue.py (or sampled from it), all values/cuts/refusal points within the small constants of MC.tla, ' \
       'random larger values beyond. Trusts TLC, g++-14, and the harness that reads and assigns fields through operator[].'
checks = []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    id = json.loads(line)['id']
    checks.append({'property': id, 'quick_cmd': 'python3 check.py %s quick' % id, 'thorough_cmd': 'python3 check.py %s thorough' % id,
                   'evidence_file': 'evidence/%s.json' % id, 'technique': T[id], 'level': 'model_checking', 'level_note': NOTE})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': [],
     'notes': 'No hooks in /repo. Checks build from /repo/include (and single_header when it is not the amalgamation of include). '
              'VERIF_BUDGET sets the seconds a thorough run may spend.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
