#!/usr/bin/env python3
"""plant.py BUGS.py [ID...]: turn bug descriptions into seeded/<id>/ after confirming each in a scratch copy of /repo.

BUGS.py defines BUGS, a list of dicts: id, property, edits [(file, old, new)], needs, breaks, demo (python source, asserts).
A bug is kept when the patch applies, the existing tests pass with it, the demo passes without it and fails with it.
"""
import concurrent.futures as cf, json, os, runpy, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, 'seeded')
STABLE = json.load(open('/opt/vp/BASELINE.json'))


def sh(cmd, cwd, timeout=900):
    p = subprocess.run(['bash', '-c', '. /opt/vp/env.sh; ' + cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def one(b):
    d = tempfile.mkdtemp(prefix='plant_')
    try:
        r = os.path.join(d, 'repo')
        shutil.copytree('/repo', r, symlinks=True)
        for f, old, new in b['edits']:
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(old) != 1:
                return b['id'], 'edit matches %d times in %s' % (s.count(old), f)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=r, stdout=subprocess.PIPE, text=True).stdout
        out = os.path.join(d, 'seed')
        os.makedirs(out)
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        open(os.path.join(out, 'demo.py'), 'w').write("import sys, os\nsys.path.insert(0, os.getcwd())\n" + b['demo'].lstrip('\n'))
        open(os.path.join(out, 'demo.sh'), 'w').write('#!/bin/bash\n# run with cwd /repo\n. /opt/vp/env.sh\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        rc0, o0 = sh('bash %s/demo.sh' % out, '/repo', 300)
        if rc0:
            return b['id'], 'demo fails on the unchanged tree\n' + o0[-1500:]
        rc1, o1 = sh('bash %s/demo.sh' % out, r, 300)
        if rc1 == 0:
            return b['id'], 'demo passes with the patch'
        rc2, o2 = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 oranssi/tests 2>&1 | tail -15', r)
        names = {x.split('::')[-1] for x in STABLE['stable']}
        bad = [x.split('::')[-1].split(' ')[0] for x in o2.splitlines() if x.startswith('FAILED')]
        if ' passed' not in o2 or ' error' in o2 or any(x in names for x in bad):
            return b['id'], 'tests fail: ' + o2[-400:]
        dst = os.path.join(SEED, b['id'])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        return b['id'], 'kept; demo says: ' + (o1.strip().splitlines() or ['exit %d' % rc1])[-1][:150] + ' | ' + o2.strip().splitlines()[-1]
    finally:
        shutil.rmtree(d, ignore_errors=True)


bugs = runpy.run_path(sys.argv[1])['BUGS']
want = sys.argv[2:]
with cf.ThreadPoolExecutor(6) as ex:
    for i, msg in ex.map(one, [b for b in bugs if not want or b['id'] in want]):
        print(i, '->', msg, flush=True)
