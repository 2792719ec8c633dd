#!/usr/bin/env python3
"""Runs every contract natively on random inputs (development aid: on the unchanged tree nothing may fail)."""
import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import driver as D, replay as R
import glob
secs = 2
for f in sorted(glob.glob(D.VERIF + '/contracts/P*.cpp')):
    if len(sys.argv) > 1 and not re.search(sys.argv[1], f):
        continue
    exe = R.build(f)
    for h in D.parse_directives(f)['harness']:
        hit, st = (R.search(exe, h, [], 1, secs, lambda n: True)) if exe else (None, ['no executable'])
        ran = sum(int(l.split()[1]) for l in st if len(l.split()) > 1 and l.split()[1].isdigit())
        print('%-45s %s' % (h, ('FAIL %s %s %s' % (hit['obligation'], hit['detail'], str(hit['inputs'])[:900])) if hit else 'samples %d' % ran), flush=True)
