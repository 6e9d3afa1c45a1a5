#!/usr/bin/env python3
# Records repairs: fixed.py PROPERTY COMMIT... appends "fixed" entries to known_findings.json (never used by the checks).
import json, subprocess, sys, os
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'known_findings.json')
d = json.load(open(p))
L = d if isinstance(d, list) else d['findings']
for c in sys.argv[2:]:
    s = subprocess.check_output(['git', '-C', '/repo', 'log', '-1', '--format=%h %s', c], text=True).strip()
    h, msg = s.split(' ', 1)
    if any(x.get('commit') == h for x in L): continue
    L.append({'status': 'fixed', 'property': sys.argv[1], 'commit': h, 'what': 'fixed: property=%s %s %s' % (sys.argv[1], h, msg.replace('fix: ', ''))})
open(p, 'w').write('[\n' + ',\n'.join(' ' + json.dumps(x) for x in L) + '\n]\n')
