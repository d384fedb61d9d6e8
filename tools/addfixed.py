#!/usr/bin/env python3
"""addfixed.py PROPERTY COMMIT TEXT: records a repaired defect in known_findings.json."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'known_findings.json')
j = json.load(open(p))
j['fixed'].append('fixed: property=%s %s %s' % tuple(sys.argv[1:4]))
open(p, 'w').write(json.dumps(j, indent=1) + '\n')
