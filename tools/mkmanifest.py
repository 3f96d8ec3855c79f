#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from contracts/props.map (what is claimed, with level) and tools/levels.txt."""
import json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
claimed = {}
for l in open(V + '/contracts/props.map'):
    l = l.split('#')[0].strip()
    if not l: continue
    k, rest = l.split(':', 1)
    m = re.search(r'level=(\S+)', rest)
    claimed.setdefault(k, m[1] if m else 'proof')
notes = {}; na = {}
for l in open(V + '/tools/levels.txt'):
    l = l.strip()
    if not l or l[0] == '#': continue
    k, _, t = l.partition(': ')
    if k.endswith('!'): na[k[:-1]] = t
    else: notes[k] = t
T = {'proof': 'contract-based deductive verification of the real Go code (govc conditions, z3/cvc5)',
     'other': 'contract-based deductive verification of part of the functions; bounded runs of the real code for the rest',
     'exploration': 'bounded runs of the real code standing in for contracts out of reach, with contracts on the parts within reach'}
GEN = {'proof': 'Every obligation of the listed functions and of every contract they rely on is discharged on each run, for all inputs, from /repo\'s current source; assumptions in contracts/assumptions.txt and in the evidence. Concrete runs of the real code accompany the proof only to replay violations and are labelled bounded.',
       'other': 'Part of the property is discharged as contracts for all inputs; the rest is a bounded stand-in on the real code (labelled bounded, never counted as proved).',
       'exploration': 'Mostly a bounded stand-in on the real code (labelled bounded, never counted as proved), with contracts discharged for the parts within the verifier\'s reach.'}
checks, nap = [], []
for p in props:
    i = p['id']
    if i in claimed:
        lv = claimed[i]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': T[lv], 'level': lv, 'level_note': (notes.get(i, '') + ' ' + GEN[lv]).strip()})
    else:
        nap.append({'property': i, 'reason': na.get(i, 'contracts for these functions are not written yet, so nothing is claimed')})
json.dump({'version': 1, 'setup_cmd': 'mkdir -p bin && cd govc && GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod go build -o ../bin/govc .',
           'checks': checks, 'not_applicable': nap,
           'notes': 'govc (in /verif/govc) generates verification conditions from the typed AST of /repo\'s current source and the contracts in /verif/contracts; nothing in /repo is annotated, so there are no hooks.'},
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(nap), 'not')
