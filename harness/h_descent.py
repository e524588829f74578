"""Drivers for the parameter-shift optimizer (trace spec: TraceDescent)."""
from lib import *
from oranssi import optimizers
from h_static import ONE, TWO, THREE, NPAR
from pennylane import numpy as pnp

FIXED1 = [g for g in ONE if g not in NPAR]
FIXED2 = [g for g in TWO if g not in NPAR]
PAR1 = ['RX', 'RY', 'RZ', 'PhaseShift', 'Rot', 'U3']
PAR2 = ['CRX', 'CRY', 'CRZ', 'ControlledPhaseShift']


def shapes(kind, v):
    """the flat list of values as the caller hands it over"""
    k = len(v)
    if kind == 'list':
        return list(v)
    if kind == 'tensor':
        return pnp.array(v, requires_grad=True)
    if kind == 'array':
        return np.array(v)
    if kind == 'matrix':
        return pnp.array(v, requires_grad=True).reshape((2, k // 2))
    if kind == 'nested':
        return [list(v[:k // 2]), list(v[k // 2:])]
    raise KeyError(kind)


def at(kind, params, i, k):
    """the i-th value inside the structure"""
    if kind in ('list', 'tensor', 'array'):
        return params[i]
    if kind == 'matrix':
        return params[i // (k // 2)][i % (k // 2)]
    if kind == 'nested':
        return params[0][i] if i < k // 2 else params[1][i - k // 2]


def flat(x):
    if isinstance(x, (list, tuple)):
        return [b for a in x for b in flat(a)]
    a = np.asarray(x)
    if a.dtype == object:
        return [b for y in a.ravel().tolist() for b in flat(y)] if a.ndim else flat(a.item())
    return [float(y) for y in a.ravel().tolist()] if a.ndim else [float(a)]


class ParCirc:
    def __init__(self, rng, n, ngates, kind, k=None):
        self.n, self.kind = n, kind
        self.k = k + k % 2 * (kind in ('matrix', 'nested')) if k else rng.choice([2, 4]) if kind in ('matrix', 'nested') else rng.randint(1, 4)
        wide = rng.choice([3, 3, 5])    # parameters need not lie within one period
        self.values = [round(rng.uniform(-wide, wide), 5) for _ in range(self.k)]
        if rng.random() < 0.3:          # zeros, equal values, quarter turns
            for j in range(self.k):
                if rng.random() < 0.5:
                    self.values[j] = rng.choice([0.0, 0.0, self.values[0], round(math.pi / 2, 5), round(-math.pi, 5), 1.0])
        self.gates, self.calls = [], []
        for j in range(ngates):
            pool = PAR1 * 3 + ['PauliRot', 'MultiRZ'] * 2 + FIXED1 + (PAR2 * 2 + FIXED2 if n > 1 else []) + (THREE if n > 2 else [])
            nm = rng.choice(pool) if j else rng.choice(['RX', 'RY'])
            k = 1 if nm in ONE else 2 if nm in TWO else 3 if nm in THREE else rng.randint(1, n)
            ws = rng.sample(range(n), k)
            inv = rng.random() < 0.2 and j > 0
            args, ps = [], []
            for _ in range(NPAR.get(nm, 0)):
                if rng.random() < 0.2:
                    c = round(rng.uniform(-3, 3), 5)
                    args.append((0, 1, c))
                else:
                    args.append((1 + rng.randrange(self.k), rng.choice([1, 1, 1, 2, -1, 0.5, -0.5, 1.5]), 0.0))
                ps.append(0)
            g = dict(g=nm, ws=ws, ps=ps, inv=inv, args=[dict(i=a[0], f=int(2 * a[1]), c=fx(a[2])) for a in args])
            extra = None
            if nm == 'PauliRot':
                g['w'] = [rng.randint(0, 3) for _ in ws]
                if not any(g['w']):
                    g['w'][0] = rng.randint(1, 3)
                extra = ''.join(LET[a] for a in g['w'])
            self.gates.append(g)
            self.calls.append((nm, args, ws, inv, extra))

    def circuit(self, params, **kwargs):
        for nm, args, ws, inv, extra in self.calls:
            a = [c if not i else f * at(self.kind, params, i - 1, self.k) for i, f, c in args]
            wires = ws[0] if len(ws) == 1 else list(ws)
            if nm == 'PauliRot':
                op = qml.PauliRot(a[0], extra, wires=list(ws))
            elif nm == 'MultiRZ':
                op = qml.MultiRZ(a[0], wires=list(ws))
            else:
                op = getattr(qml, nm)(*a, wires=wires)
            if inv:
                op.inv()


def run(rng, n, ngates, kind, nsteps, nobs, ret, eta=None, steep=0, turns=0, k=None):
    c = ParCirc(rng, n, ngates, kind, k)
    off = 8 * math.pi * turns      # whole turns for every factor; the specification is told the rest
    obs = some_obs(rng, n, nobs, nobs)
    if steep:
        # the same observables several times over: steps overshoot and the cost goes up and down
        obs = obs[:2] * steep
    # derivatives have to stay within the numbers of the specification
    lip = max(sum(abs(f) for _, args, _, _, _ in c.calls for i, f, _ in args if i == j + 1) for j in range(c.k))
    while len(obs) > 1 and lip * len(obs) > 9:
        obs = obs[:-1]
    eta = rng.choice([0.0, 0.03, 0.1, 0.1, 0.37, 1.0]) if eta is None else eta
    if 'p' not in ret:
        # the specification has to follow the parameters on its own: keep rounding errors from growing
        eta, nsteps = min(eta, 0.1), min(nsteps, 2)
    kw = dict(nsteps=nsteps, eta=eta, tol=0.0)
    if 's' in ret:
        kw['return_state'] = True
    if 'p' in ret:
        kw['return_params'] = True
    v, err = call(optimizers.parameter_shift_optimizer, c.circuit, shapes(kind, [x + off for x in c.values] if turns else c.values), [o.q for o in obs], dev(n), **kw)
    base = dict(a='start', theta=fxl(c.values), gates=c.gates, obs=[o.spec() for o in obs], eta=fx(eta))
    if err:
        return [dict(base, err=err)]
    evs = []

    def entry(k):
        costs = v if not ret else v[0]
        d = dict(cost=fx(costs[k]), st=[], par=[])
        pos = 1
        if 's' in ret:
            d['st'] = bloch(v[pos][k], n)
            pos += 1
        if 'p' in ret:
            d['par'] = fxl([x - off for x in flat(v[pos][k])])
        return d
    evs.append(event(base, lambda: entry(0)))
    try:
        m = len(v if not ret else v[0])
    except Exception as e:
        return [dict(base, err='Unreadable result: %s' % e)]
    if any(e['err'] for e in evs):
        return evs
    # every history must have an entry for each cost
    evs.append(event(dict(a='lens', n=m), lambda: dict(nst=len(v[1]) if 's' in ret else -1, npar=len(v[-1]) if 'p' in ret else -1)))
    if evs[-1]['err'] or any(x not in (-1, m) for x in (evs[-1]['nst'], evs[-1]['npar'])):
        return evs
    for k in range(1, m):
        evs.append(event(dict(a='step'), lambda: entry(k)))
        if evs[-1]['err'] or any(abs(x) > 9 * SCALE for x in evs[-1]['par']):    # the specification's numbers end at 21
            break
    return evs


def c21(out, rng, tier):
    big = tier == 'thorough'
    kinds = ['list', 'nested', 'tensor', 'array', 'matrix', 'nested', 'list']   # ragged lists fail inside autograd under PyPy
    for n, reps, steps in ((1, 24, 5), (2, 40, 4), (3, 10, 3)):
        for i in range(reps * (5 if big else 1)):
            kind = kinds[i % len(kinds)]
            ret = ['sp', 'p', 's', ''][(i // len(kinds) + i) % 4]
            evs = run(rng, n, rng.randint(1, 6), kind, rng.randint(1, steps), rng.randint(1, 3), ret, turns=(9, -40)[i % 2] if i % 6 in (2, 5) else 0)
            out.add('descent_n%d' % n, 'descent n=%d #%d %s %s' % (n, i, kind, ret), evs)
    for n, reps in ((1, 8), (2, 8)):
        for i in range(reps * (5 if big else 1)):
            kind = kinds[i % len(kinds)]
            ret = ['sp', 'p'][i % 2]
            evs = run(rng, n, rng.randint(1, 4), kind, rng.randint(5, 10), rng.randint(1, 2), ret, eta=rng.choice([1.0, 0.8, 0.6]), steep=rng.choice([2, 3, 4]))
            out.add('descent_n%d' % n, 'steep descent n=%d #%d %s %s' % (n, i, kind, ret), evs)
    for i in range(16 if big else 8):       # many parameters: five, six, ... and once many more; small ones and ones many turns away
        n, kind = 1 + i % 2, kinds[rng.randrange(len(kinds))] if i > 4 else ['list', 'tensor', 'array'][i % 3]
        k = [5, 5, rng.randint(6, 9), 6, 7, 8, rng.randint(10, 16), 5][i % 8]
        evs = run(rng, n, k + 3, kind, 2, rng.randint(1, 2), ['sp', 'p'][rng.randrange(2)], eta=rng.choice([0.1, 0.5, 1.0]), k=k, turns=(-40, 0)[i % 2])
        out.add('descent_n%d' % n, 'many parameters n=%d k=%d %s' % (n, k, kind), evs)
    for i in range(8 if big else 2):        # long runs
        n, kind = 1 + i % 2, kinds[rng.randrange(len(kinds))]
        evs = run(rng, n, rng.randint(2, 4), kind, 40 if n == 1 else 25, rng.randint(1, 2), ['sp', 'p'][rng.randrange(2)], eta=rng.choice([0.1, 0.3, 0.03]))
        out.add('descent_n%d' % n, 'long descent n=%d #%d' % (n, i), evs)


SELFTEST = {'*': dict(start=[('cost', bump), ('st', lambda v, rng: bump(v, rng) if v else None)], step=[('cost', bump), ('par', lambda v, rng: bump(v, rng) if v else None)],
                      lens=[('nst', lambda v, rng: 99)])}
