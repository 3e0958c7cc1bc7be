#!/usr/bin/env python3
"""fixed.py PID TEXT: record /repo's HEAD commit as the repair of a defect."""
import json, subprocess, sys, re
p = '/verif/known_findings.json'
d = json.load(open(p))
h = subprocess.check_output(['git', '-C', '/repo', 'log', '-1', '--format=%h']).decode().strip()
d['fixed'].append('fixed: property=%s %s %s' % (sys.argv[1], h, sys.argv[2]))
open(p, 'w').write(json.dumps(d, indent=1) + '\n')
p = '/verif/DESIGN.md'
t = open(p).read()
t = re.sub(r'(?m)^\d+ defects were found', '%d defects were found' % len(d['fixed']), t)
open(p, 'w').write(t)
