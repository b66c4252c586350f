#!/usr/bin/env python3
"""Writes MANIFEST.json from the plan: every property with a plan is claimed."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'bin'))
from plan import PROPERTIES

ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
LEX = ("TLC checks the invariants of the character-level tokenizer specification on every input of bounded alphabets and lengths, and every terminal "
       "state is replayed on the real tokenizer and compared token by token; long random inputs are predicted by the same specification. "
       "Exhaustive within the bounds, sampled beyond them; trusts TLC, the harness and the standard library's decimal parsing.")
NOTES = {
    'L10': "TLC enumerates every legal client call sequence up to the bound on several sources and each is replayed on the real tokenizer; histories recorded from "
           "the real tokenizer on random sources are validated against the specification. Trusts TLC and the harness.",
    'L11': "The specification's character classes, printed by TLC at every point where one of them changes, are compared with the real tokenizer at every code point in twelve contexts: complete.",
    'U': "TLC enumerates every bounded history of typed accessor calls over objects with every JSON type, checks that untouched fields stay, and each history is replayed on real JSON objects.",
    'P': "TLC explores the parser specification (a pushdown machine over tokens) for all bounded programs and for grammar-generated larger ones; every behaviour is replayed on the real parser and trees, errors and locations are compared.",
    'E': "TLC prints the specification's tables and descriptions of bounded programs; each is imported by the real ESTree reader and compared with the real parser.",
}
checks = []
for i in ids:
    if i not in PROPERTIES:
        continue
    checks.append({
        'property': i, 'quick_cmd': 'bin/check %s quick' % i, 'thorough_cmd': 'bin/check %s thorough' % i,
        'technique': PROPERTIES[i].get('technique', 'TLA+ specification checked with TLC; behaviours replayed on the real code'),
        'level': 'model_checking', 'level_note': NOTES.get(i) or NOTES.get(i[0]) or LEX,
    })
m = {
    'version': 1, 'setup_cmd': 'bash bin/setup', 'checks': checks,
    'not_applicable': [{'property': i, 'reason': 'the specification and its binding to the code for this property are still being built'} for i in ids if i not in PROPERTIES],
    'notes': 'The specification is in spec/ (TLA+, checked with TLC); the harnesses binding it to the code are in harness/. No hooks in /repo are needed: everything goes through public APIs.',
}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write('\n')
