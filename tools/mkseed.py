#!/usr/bin/env python3
"""mkseed.py ID FILE PROPERTY 'needs' 'breaks' < edits: builds seeded/ID/patch.diff from
(old, new) replacement pairs given as a Python list on stdin."""
import difflib, json, os, sys
sid, fname, prop, needs, breaks = sys.argv[1:6]
edits = eval(sys.stdin.read())
d = '/verif/seeded/' + sid
os.makedirs(d, exist_ok=True)
out = ''
files = {}
for e in edits:
    f, old, new = e if len(e) == 3 else (fname,) + tuple(e)
    if f not in files:
        files[f] = [open('/repo/' + f).read()] * 2
    assert files[f][1].count(old) == 1, (f, files[f][1].count(old), old)
    files[f][1] = files[f][1].replace(old, new)
for f, (a, b) in files.items():
    out += 'diff --git a/%s b/%s\n' % (f, f) + ''.join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), 'a/' + f, 'b/' + f))
open(d + '/patch.diff', 'w').write(out)
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
