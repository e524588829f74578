#!/usr/bin/env python3
"""List planted bugs none of whose removed/changed lines is a line of the original repository (they would not count)."""
import os, re, subprocess, sys
BASE = '2e58008'
root = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
for b in sorted(os.listdir(root)):
    diff = open(os.path.join(root, b, 'patch.diff')).read()
    f = None; ok = 0; bad = 0
    for l in diff.splitlines():
        if l.startswith('--- a/'):
            f = l[6:]
            orig = subprocess.run(['git', '-C', '/repo', 'show', BASE + ':' + f], stdout=subprocess.PIPE, text=True).stdout.splitlines()
        elif l.startswith('-') and not l.startswith('---'):
            if l[1:] in orig: ok += 1
            else: bad += 1
    if bad or not ok:
        print(b, 'original', ok, 'added by fixes', bad)
