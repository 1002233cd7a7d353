#!/usr/bin/env python3
"""fixed.py <property> <commit> <what> <input>: record a repaired defect in known_findings.json"""
import json, sys
p = __file__.rsplit('/', 2)[0] + '/known_findings.json'
k = json.load(open(p))
k.append(dict(zip(('property', 'status', 'commit', 'what', 'input'), (sys.argv[1], 'fixed') + tuple(sys.argv[2:5]))))
json.dump(k, open(p, 'w'), indent=1)
