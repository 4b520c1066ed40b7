#!/usr/bin/env python3
"""mkpatch.py out.diff file old new [file old new ...] : make a patch against /repo HEAD without touching it."""
import sys, difflib
out = sys.argv[1]; a = sys.argv[2:]; files = {}
for i in range(0, len(a), 3):
    f, o, n = a[i:i + 3]
    s = files.setdefault(f, [open('/repo/' + f).read()] * 2)
    assert s[1].count(o) == 1, (f, o, s[1].count(o))
    files[f] = [s[0], s[1].replace(o, n)]
with open(out, 'w') as w:
    for f, (x, y) in files.items():
        w.write(f'diff --git a/{f} b/{f}\n' + ''.join(difflib.unified_diff(x.splitlines(1), y.splitlines(1), 'a/' + f, 'b/' + f)))
