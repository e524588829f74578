#!/usr/bin/env python3
"""sanity check of the toolchain: every module of the specification parses, the library imports"""
import os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
spec = os.path.join(HERE, 'spec')
bad = 0
for m in sorted(os.listdir(spec)):
    if m.endswith('.tla'):
        p = subprocess.run(['java', '-cp', JAR, 'tla2sany.SANY', m], cwd=spec, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode or 'Fatal' in p.stdout or '*** Errors' in p.stdout:
            print(p.stdout[-2000:])
            bad = 1
print('setup', 'failed' if bad else 'ok')
sys.exit(bad)
