#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--keep]

Runs the library in /repo (harness/), validates the recorded traces with TLC against the specification in spec/, model-checks the
design, writes evidence/<PROPERTY>.json.  Exit 0: property held on everything explored.  Exit 1 and a VIOLATION line: it is broken.
Exit 2: the machinery itself failed.
"""
import argparse, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
sys.path.insert(0, HERE)
from plan import PLAN  # noqa: E402


class Machinery(Exception):
    pass


def tlc(module, cfg, work, env=None, workers=4, timeout=840, extra=(), heap='3g'):
    """run TLC in a scratch folder; returns (rc, output)"""
    d = tempfile.mkdtemp(prefix='tlc_', dir=work)
    with open(os.path.join(d, module + '.cfg'), 'w') as f:
        f.write(cfg)
    for n in os.listdir(SPEC):
        if n.endswith('.tla'):
            os.symlink(os.path.join(SPEC, n), os.path.join(d, n))
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xmx' + heap, '-Xss64m', '-cp', JAR, 'tlc2.TLC', '-metadir', os.path.join(d, 'states'),
           '-noGenerateSpecTE', '-workers', str(workers), '-config', module + '.cfg'] + list(extra) + [module + '.tla']
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as ex:
        out = ex.stdout or ''
        if isinstance(out, bytes):
            out = out.decode(errors='replace')
        return 124, out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def counts(out):
    m = None
    for m in re.finditer(r'(\d+) states generated, (\d+) distinct states found', out):
        pass
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


def trace_job(group, path, job, work):
    """validate one trace file; returns dict"""
    traces = [json.loads(x) for x in open(path)]
    cfg = ''.join('CONSTANT %s = %s\n' % kv for kv in job.get('const', {}).items()) + \
          'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n' + job.get('cfg', '')
    rc, out = tlc(job['module'], cfg, work, env=dict(TRACE=path), workers=job.get('workers', 4), timeout=job.get('timeout', 840),
                  heap=job.get('heap', '3g'))
    gen, dist = counts(out)
    expect = sum(len(t['ev']) + 1 for t in traces)
    if rc != 0 and re.search(r'(Attempted to|was not in the domain|In evaluation, the identifier|not a (function|record|sequence|tuple)|non-existent field|Overflow when computing)', out) \
            and ('evaluat' in out or 'Overflow' in out) and 'SELFTEST' not in out:
        # a recorded value has a shape no behaviour of the specification has
        m = re.search(r'\blix = (\d+)', out)
        mt = re.findall(r'\btix = (\d+)', out)
        ml = re.findall(r'\blix = (\d+)', out)
        t, l = (int(mt[-1]), int(ml[-1]) + 1) if mt and ml else (1, 1)
        if not traces[t - 1]['id'].startswith('SELFTEST'):
            return dict(group=group, traces=traces, fails=[dict(t=t, l=min(l, len(traces[t - 1]['ev'])), c=['ill-formed'])], gen=gen, dist=dist, out=out,
                        module=job['module'])
    if rc != 0 or dist != expect:
        raise Machinery('TLC on %s (%s): exit %s, %d distinct states, expected %d\n%s' % (job['module'], group, rc, dist, expect, out[-3000:]))
    fails = []
    for m in re.finditer(r'"?@FAIL@(\{.*\})"?', out):
        s = m.group(1)
        try:
            d = json.loads(s)
        except ValueError:
            d = json.loads(s.encode().decode('unicode_escape'))
        fails.append(d)
    fails.sort(key=lambda d: (d['t'], d['l']))
    return dict(group=group, traces=traces, fails=fails, gen=gen, dist=dist, out=out, module=job['module'])


def mc_job(job, work, tier):
    cfg = job['cfg'] if isinstance(job['cfg'], str) else job['cfg'][tier]
    rc, out = tlc(job['module'], cfg, work, workers=job.get('workers', 4), timeout=job.get('timeout', 840), extra=job.get('extra', ()),
                  heap=job.get('heap', '4g'), env=job.get('env'))
    gen, dist = counts(out)
    if job.get('expect'):
        # a deliberately broken variant of the design: TLC has to find the violation
        rc = 0 if rc == 12 and 'Invariant %s is violated' % job['expect'] in out else 99
    return dict(module=job['module'], rc=rc, out=out, gen=gen, dist=dist, name=job.get('name', job['module']))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--repo', default='/repo', help='development only: a scratch copy with a planted bug')
    ap.add_argument('--out', default=HERE, help='development only: where evidence and replays go')
    a = ap.parse_args()
    pid, tier, seed = a.property, a.tier, a.seed
    plan = PLAN[pid]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='verif_%s_' % pid)
    global REPO, OUT
    REPO, OUT = a.repo, a.out
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    rep_dir = os.path.join(OUT, 'replays', pid)
    shutil.rmtree(rep_dir, ignore_errors=True)
    try:
        code = run(pid, plan, tier, seed, work, rep_dir, t0)
    except Machinery as e:
        print('MACHINERY-ERROR property=%s: %s' % (pid, e))
        code = 2
    finally:
        if a.keep:
            print('kept', work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def harness(pid, work, seed, tier, cases, shards):
    """run the library: `shards' processes side by side, each drawing its own inputs; their traces are put together"""
    with cf.ThreadPoolExecutor(shards) as ex:
        parts = list(ex.map(lambda k: harness1(pid, work, seed, tier, cases, k), range(shards)))
    tr = os.path.join(work, 'traces')
    os.makedirs(tr, exist_ok=True)
    tot = dict(crash='', traces={}, events={})
    for d in parts:
        hj = json.load(open(os.path.join(d, 'harness.json')))
        tot['crash'] = tot['crash'] or hj['crash']
        for k in ('traces', 'events'):
            for g, v in hj[k].items():
                tot[k][g] = tot[k].get(g, 0) + v
        for g in hj['traces']:
            with open(os.path.join(tr, g + '.ndjson'), 'a') as f, open(os.path.join(d, g + '.ndjson')) as h:
                shutil.copyfileobj(h, f)
    with open(os.path.join(tr, 'harness.json'), 'w') as f:
        json.dump(tot, f)
    return tr


def harness1(pid, work, seed, tier, cases, shard):
    env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    tr = os.path.join(work, 'traces%d' % shard)
    os.makedirs(tr, exist_ok=True)
    env['VERIF_SHARD'] = str(shard)
    env['VERIF_CASES'] = cases
    env['VERIF_REPO'] = REPO
    env['VERIF_SCRATCH'] = os.path.join(work, 'scratch%d' % shard)
    os.makedirs(env['VERIF_SCRATCH'], exist_ok=True)
    cmd = '. /opt/vp/env.sh; exec /opt/venv/bin/python -W ignore %s %s %s %d %s' % (os.path.join(HERE, 'harness', 'run.py'), pid, tr, seed, tier)
    limit = 780 if tier == 'quick' else 3000
    try:
        p = subprocess.run(['bash', '-c', cmd], env=env, cwd=env['VERIF_SCRATCH'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit, text=True)
    except subprocess.TimeoutExpired:
        raise Machinery('harness timed out')
    if p.returncode != 0:
        raise Machinery('harness failed\n' + p.stdout[-3000:])
    return tr


def run(pid, plan, tier, seed, work, rep_dir, t0):
    pool = cf.ThreadPoolExecutor(8)
    # 1. design model checks run beside everything else
    mcs = [pool.submit(mc_job, j, work, tier) for j in plan.get('mc', ()) if tier == 'thorough' or not j.get('thorough_only')]
    # 2. scenarios generated from the specification
    cases = os.path.join(work, 'cases')
    os.makedirs(cases, exist_ok=True)
    gens = []
    for j in plan.get('gen', ()):
        cfg = j['cfg'] if isinstance(j['cfg'], str) else j['cfg'][tier]
        path = os.path.join(cases, j['name'] + '.ndjson')
        extra = j.get('extra', ())
        if isinstance(extra, dict):
            extra = extra[tier]
        if j.get('simulate'):
            extra = list(extra) + ['-seed', str(seed)]
        rc, out = tlc(j['module'], cfg, work, workers=1, extra=extra, env=dict(CASES=path))
        lines = [m.group(1) for m in re.finditer(r'^"?@CASE@(.*?)"?$', out, re.M)]
        if lines:
            with open(path, 'w') as f:
                for s in lines:
                    try:
                        json.loads(s)
                    except ValueError:
                        s = s.encode().decode('unicode_escape')
                        json.loads(s)
                    f.write(s + '\n')
        if rc != 0 or not os.path.exists(path):
            raise Machinery('scenario generation %s failed (%s)\n%s' % (j['module'], rc, out[-3000:]))
        gen, dist = counts(out)
        gens.append(dict(name=j['name'], gen=gen, dist=dist, cases=sum(1 for _ in open(path))))
    # 3. run the library
    trdir = harness(pid, work, seed, tier, cases, plan.get('shards', 1))
    hj = json.load(open(os.path.join(trdir, 'harness.json')))
    if hj['crash']:
        os.makedirs(rep_dir, exist_ok=True)
        path = os.path.join(rep_dir, 'violation.json')
        with open(path, 'w') as f:
            json.dump([dict(item='library failed outside a recorded call', traceback=hj['crash'], seed=seed, tier=tier)], f)
        print(hj['crash'])
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    # 4. validate what it did
    jobs = []
    for g in sorted(hj['traces']):
        key = next((k for k in plan['trace'] if re.fullmatch(k, g)), None)
        if key is None:
            raise Machinery('no trace specification for group ' + g)
        job = plan['trace'][key]
        job = job(g) if callable(job) else job
        jobs.append(pool.submit(trace_job, g, os.path.join(trdir, g + '.ndjson'), job, work))
    res = [j.result() for j in jobs]
    mres = [m.result() for m in mcs]
    # 5. verdict
    known = load_known(pid)
    viol, nknown = [], []
    selftest = [0, 0]
    for r in res:
        bad = {}
        for f in r['fails']:
            bad.setdefault(f['t'], []).append(f)
        for ti, tr in enumerate(r['traces'], 1):
            if tr['id'].startswith('SELFTEST'):
                selftest[0] += 1
                if ti in bad:
                    selftest[1] += 1
                continue
            for f in bad.get(ti, []):
                ev = tr['ev'][f['l'] - 1]
                item = dict(group=r['group'], trace=tr['id'], line=f['l'], clauses=f['c'], action=ev.get('a'), err=ev.get('err', ''))
                k = next((k for k in known if all(re.search(str(v), str(item.get(kk, ''))) for kk, v in k['match'].items())), None)
                if k:
                    nknown.append((k, item))
                else:
                    viol.append((item, tr))
    for m in mres:
        if m['rc'] != 0:
            # the design model does not read /repo: a failure here is one of the machinery, not of the code
            raise Machinery('model check %s: exit %s\n%s' % (m['name'], m['rc'], m['out'][-3000:]))
    if selftest[0] != selftest[1] and not viol:
        raise Machinery('binding self-test: only %d of %d corrupted traces were rejected' % (selftest[1], selftest[0]))
    nev = sum(len(t['ev']) for r in res for t in r['traces'] if not t['id'].startswith('SELFTEST'))
    ntr = sum(hj['traces'].values()) - selftest[0]
    samples = []
    for r in res:
        for tr in r['traces'][:2]:
            samples.append(dict(group=r['group'], id=tr['id'], events=len(tr['ev']), first=shorten(tr['ev'][0])))
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking',
              coverage=dict(states=sum(r['dist'] for r in res) + sum(m['dist'] for m in mres) + sum(g['dist'] for g in gens),
                            transitions=sum(r['gen'] for r in res) + sum(m['gen'] for m in mres) + sum(g['gen'] for g in gens),
                            traces_validated_against_impl=ntr, samples=samples[:8], recorded_steps=nev,
                            trace_groups={r['group']: dict(traces=len(r['traces']), distinct_states=r['dist']) for r in res},
                            design_models={m['name']: dict(distinct_states=m['dist'], generated=m['gen']) for m in mres},
                            generated_scenarios={g['name']: g['cases'] for g in gens},
                            corrupted_traces_rejected='%d of %d' % (selftest[1], selftest[0])),
              assumptions=plan.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(viol))
    with open(os.path.join(OUT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in {json.dumps(k['match'], sort_keys=True): k for k, _ in nknown}.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    if viol:
        os.makedirs(rep_dir, exist_ok=True)
        path = os.path.join(rep_dir, 'violation.json')
        with open(path, 'w') as f:
            json.dump([dict(item=i, trace=t, seed=seed, tier=tier) for i, t in viol[:20]], f)
        for i, _ in viol[:10]:
            print('  %s' % json.dumps(i))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    print('OK property=%s: %d traces, %d steps, %d states, %.1fs' % (pid, ntr, nev, ev['coverage']['states'], time.time() - t0))
    return 0


def shorten(ev):
    s = json.dumps(ev)
    return s if len(s) < 400 else s[:400] + '...'


def load_known(pid):
    path = os.path.join(HERE, 'known-findings.json')
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path)).get('findings', []) if k['property'] == pid]


main()
