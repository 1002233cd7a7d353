#!/usr/bin/env python3-vt
"""regenerate MANIFEST.json from properties.jsonl and the unit modules"""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
props = [json.loads(x) for x in open(ROOT + '/properties.jsonl')]
checks, na = [], []
NA = {'C21': 'contracts could express the mapping, but each mapping function handles over a hundred independent optional fields in one body and the executor forks at every branch '
             'without merging paths, so the obligations cannot be generated; merging was not built, and nothing is claimed'}
for p in props:
    i = p['id']
    try:
        m = importlib.import_module('e57v.units.' + i.lower())
    except ModuleNotFoundError:
        na.append({'property': i, 'reason': NA.get(i, 'no contracts have been written for the functions behind this property; nothing is claimed')})
        continue
    bounded = all(u.bounded for u in m.UNITS) if m.UNITS else True
    checks.append({'property': i, 'quick_cmd': 'python3-vt check.py ' + i, 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % i,
                   'evidence_file': 'evidence/%s.json' % i,
                   'technique': getattr(m, 'TECHNIQUE', 'deductive verification: contracts and loop invariants over LLVM IR compiled from the real functions, discharged by z3'),
                   'level': 'proof' if not bounded else 'exploration',
                   'level_note': getattr(m, 'NOTE', 'obligations are regenerated from /repo on every run; the native run beside them is a bounded cross-check and supplies failing inputs'),
                   'theorems': ['%s: %s' % (u.name, ' '.join((u.statement or u.fn.__doc__ or '').split())) for u in m.UNITS if not u.bounded][:40]})
json.dump({'version': 1, 'setup_cmd': 'python3-vt -m e57v.build',
           'hooks': {'guard': 'none', 'enable': 'no hooks: the checks compile /repo as it is', 'source_commits': []},
           'checks': checks, 'not_applicable': na,
           'notes': 'DESIGN.md describes the verifier, the trusted base and every assumption; known_findings.json lists defects found.'},
          open(ROOT + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
