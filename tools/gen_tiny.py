#!/usr/bin/env python3
# Generates data/tiny/<n>.vfst: weighted spellers that accept exactly one word each ("aaa", "bbb", ...).
# Run once with a pristine voikkovfstc; the outputs are committed and never regenerated by a check.
import subprocess, os, sys
VC = sys.argv[1]
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'data', 'tiny')
os.makedirs(OUT, exist_ok=True)
al = 'abcdefghijklmnopqrst'
for i, c in enumerate(al):
    txt = ''.join('%d\t%d\t%s\t%s\t0.5\n' % (k, k + 1, c, c) for k in range(3)) + '3\t0.5\n'
    subprocess.run([VC, '-w', 'prob', '-f', 'le', '-o', os.path.join(OUT, '%d.vfst' % i)], input=txt.encode(), check=True, stdout=subprocess.DEVNULL)
