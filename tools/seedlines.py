#!/usr/bin/env python3
"""Which seeded changes remove a line that one of our own commits in /repo added (those do not count)?"""
import subprocess, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = subprocess.check_output(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], text=True).split()[0]
for s in sorted(os.listdir(H + '/seeded')):
    f, old, bad, n = None, 0, 0, 0
    for l in open('%s/seeded/%s/patch.diff' % (H, s), newline=''):
        if l.startswith('--- a/'): f = l[6:].strip()
        elif l.startswith('@@'): old = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-') and not l.startswith('---'):
            b = subprocess.check_output(['git', '-C', '/repo', 'blame', '-s', '-l', '-L', '%d,%d' % (old, old), 'HEAD', '--', f], text=True)
            n += 1
            bad += not b.lstrip('^').startswith(base[:30])
            old += 1
        elif l.startswith(' '): old += 1
    print(s, 'removed', n, 'of ours', bad, '' if not bad and n else '<<<')
