#!/usr/bin/env python3
"""sweep.py [--seed N] [--all] [ID...]: run each planted bug's check against a scratch copy of /repo with the bug in it.
--all: run every check against each bug."""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, 'seeded')
args = sys.argv[1:]
seed = '1'
if '--seed' in args:
    i = args.index('--seed'); seed = args[i + 1]; del args[i:i + 2]
every = '--all' in args
args = [a for a in args if a != '--all']
ids = args or sorted(os.listdir(SEED))
PROPS = [json.loads(x)['id'] for x in open(os.path.join(HERE, 'properties.jsonl'))]


def one(i):
    d = tempfile.mkdtemp(prefix='sweep_')
    try:
        r = os.path.join(d, 'repo')
        shutil.copytree('/repo', r, symlinks=True)
        subprocess.run(['git', 'apply', os.path.join(SEED, i, 'patch.diff')], cwd=r, check=True)
        own = json.load(open(os.path.join(SEED, i, 'meta.json')))['property']
        res = []
        for prop in (PROPS if every else [own]):
            p = subprocess.run(['python3', os.path.join(HERE, 'check.py'), prop, '--seed', seed, '--repo', r, '--out', d], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            hit = p.returncode == 1 and ('VIOLATION property=%s ' % prop) in p.stdout
            first = next((x.strip() for x in p.stdout.splitlines() if x.startswith('  {')), '')
            if every:
                if p.returncode:
                    res.append(prop + ('' if hit else '(rc %d)' % p.returncode))
            else:
                res.append('%s %s' % ('CAUGHT' if hit else 'MISSED rc=%d' % p.returncode, first[:220] if hit else p.stdout[-300:]))
        return '%-14s %s  %s' % (i, own, ' '.join(res))
    finally:
        shutil.rmtree(d, ignore_errors=True)


with cf.ThreadPoolExecutor(3) as ex:
    for m in ex.map(one, ids):
        print(m, flush=True)
        if not every:
            f = os.path.join(HERE, 'tools', 'caught.json')
            c = json.load(open(f)) if os.path.exists(f) else {}
            c.setdefault(m.split()[0], {})[seed] = m.split()[2] == 'CAUGHT'
            json.dump(c, open(f, 'w'), indent=0, sort_keys=True)
