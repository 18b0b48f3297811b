#!/usr/bin/env python3
import sys, os, json
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, R)
import claims
ids = [json.loads(l)['id'] for l in open(os.path.join(R, 'properties.jsonl'))]
out = dict(version=1, setup_cmd='python3-vt -c "import z3" && /opt/venv/bin/python -c "import numpy"', checks=[], not_applicable=[])
for i in ids:
    c = claims.CLAIMS.get(i)
    if c is None:
        out['not_applicable'].append(dict(property=i, reason=claims.NA[i])); continue
    out['checks'].append(dict(property=i, quick_cmd='python3-vt check.py %s --tier quick' % i, thorough_cmd='python3-vt check.py %s --tier thorough' % i,
                              technique=c.get('technique', claims.TECH[c['level']]), level=c['level'], level_note=c['note'] or claims.NOTE[c['level']]))
out['notes'] = claims.NOTES
json.dump(out, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
