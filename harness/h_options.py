"""Drivers for option validation (trace spec: TraceOptions)."""
from lib import *
import sympy as sp
from oranssi import opt_tools, optimizers, pauli
from h_static import cases

SIMPLE = {'nan': float('nan'), 'inf': float('inf'), 'ninf': float('-inf'), 'none': None, 'emptylist': [], 'dict': {}, 'complex': 0.5 + 0.1j,
          'third': 1 / 3, 'third64': np.float64(1 / 3), 'tiny': 1e-12, 'belowone': float(np.nextafter(1.0, 0.0)), 'aboveone': float(np.nextafter(1.0, 2.0)), 'negzero': -0.0,
          'least': 5e-324, 'belowzero': -5e-324, 'belowzero64': np.float64(-5e-324), 'huge': 1e300}


def value(x):
    k = x['k']
    if k == 'float':
        return x['v'] / 1e6
    if k == 'np64':
        return np.float64(x['v'] / 1e6)
    if k in ('int', 'bool', 'str'):
        return x[dict(int='v', bool='b', str='s')[k]]
    if k == 'words':
        return list(x['w'])
    if k == 'np128':
        return np.complex128(0.5 - 1j)
    if k == 'symbol':
        return sp.Symbol('a')
    if k == 'product':
        return 2 * sp.Symbol('a')
    if k == 'power':
        return sp.Symbol('a') ** 2
    v = SIMPLE[k]
    return type(v)() if isinstance(v, (list, dict)) else v


OBS = lambda n: [qml.PauliX(0), qml.PauliZ(n - 1), qml.PauliY(0)]
LAYER = {'local1': lambda d, o, k: opt_tools.LocalLieAlgebraLayer(d, o, k.pop('locality', 1), **k),
         'local2': lambda d, o, k: opt_tools.LocalLieAlgebraLayer(d, o, k.pop('locality', 2), **k),
         'custom': lambda d, o, k: opt_tools.CustomDirectionLieAlgebraLayer(d, o, k.pop('directions', None), **k),
         'stochastic': lambda d, o, k: opt_tools.StochasticLieAlgebraLayer(d, o, **k),
         'squared': lambda d, o, k: opt_tools.SquaredLieAlgebraLayer(d, o, **k),
         'adapt': lambda d, o, k: opt_tools.AdaptVQELayer(d, o, **k),
         'su8': lambda d, o, k: opt_tools.SU8_AlgebraLayer(d, o, **k),
         'zassenhaus': lambda d, o, k: opt_tools.ZassenhausLayer(d, o, **k),
         'zassenhaus2': lambda d, o, k: opt_tools.ZassenhausLayerV2(d, o, **k)}


class Counting(opt_tools.LocalLieAlgebraLayer):
    calls = 0

    def __call__(self, *a, **k):
        type(self).calls += 1
        return super().__call__(*a, **k)


def run_layer(c):
    kw = {s['o']: value(s['x']) for s in c['set']}
    n = kw.pop('size', 3 if c['t'] in ('su8', 'zassenhaus') else 2)
    d = dev(n)
    obs = OBS(n)
    U = np.asarray(rot_matrix([1] * n, 0.7) @ rot_matrix([2] * n, 0.4))
    np.random.seed(3)
    random.seed(3)
    ran = False
    layer, err = call(LAYER[c['t']], d, obs, dict(kw), limit=60)
    if not err:
        if c['t'] == 'adapt':
            r, err = call(layer, U, params=[], optimizer=optimizers.parameter_shift_optimizer, nsteps=1, limit=60)
        else:
            r, err = call(layer, U, limit=60)
        ran = not err
    return bool(err), ran, err


def run_optimizer(c):
    kw = {}
    circ = 'nothing' if c['t'] == 'ps' else 'state'
    layers = 'layerlist'
    for s in c['set']:
        if s['o'] == 'circuit':
            circ = s['x']['k']
        elif s['o'] == 'layers':
            layers = s['x']
        else:
            kw[s['o']] = value(s['x'])
    if 'return_perturbations' in kw:
        # asking for perturbations needs perturbations
        kw.setdefault('perturbation' if c['t'] == 'exact' else 'perturb', True)
        if kw['return_perturbations'] is True and kw.get('perturbation') is False:
            return None
    kw.setdefault('nsteps', 1)
    if type(kw['nsteps']) is int and kw['nsteps'] > 1000:
        kw.setdefault('tol', 1e6)       # so that the run ends early
    n = 2
    d = dev(n)
    obs = OBS(n)

    def body(params, **kwargs):
        qml.RX(params[0], wires=0)
        qml.RY(params[1], wires=1)
        qml.CNOT(wires=[0, 1])
        if circ == 'state':
            return qml.state()
        if circ == 'expval':
            return qml.expval(qml.PauliZ(0))
        if circ == 'probs':
            return qml.probs(wires=[0])

    params = [0.4, -1.1]
    Counting.calls = 0
    before = d.num_executions
    np.random.seed(5)
    if c['t'] == 'ps':
        r, err = call(optimizers.parameter_shift_optimizer, body, params, obs, d, limit=60, **kw)
        ran = d.num_executions - before > len(obs) + 2
    elif c['t'] == 'exact':
        r, err = call(optimizers.exact_lie_optimizer, body, params, obs, d, limit=60, **kw)
        ran = d.num_executions - before > len(obs) + 2
    else:
        one = Counting(d, obs, 1)
        if layers == 'layerlist':
            arg = [one]
        else:
            arg = {'layerlist': [one], 'layertuple': (one,), 'onelayer': one, 'layerclasses': [Counting], 'mixedlist': [one, 'layer'],
                   'callables': [lambda U, **k: U]}.get(layers['k'])
            if arg is None:
                arg = value(layers)
        r, err = call(optimizers.approximate_lie_optimizer, body, params, obs, d, arg, limit=60, **kw)
        ran = Counting.calls > 0
    return bool(err), ran, err


def run_pauli(c):
    if c['t'] == 'monomial':
        # letters with and without identities, which are not to make a difference
        res = [call(pauli.PauliMonomial, [pauli.Pauli(s, f(i, s)) for i, s in enumerate(c['sites'])])[1]
               for f in (lambda i, s: 1 + (i + s) % 3, lambda i, s: (i + s) % 4, lambda i, s: 3 * (i % 2))]
        if len(set(bool(e) for e in res)) > 1:
            return None, False, 'acceptance depends on the letters: %s' % res
        return bool(res[0]), False, res[0]
    kw = {s['o']: value(s['x']) for s in c['set']}
    args = dict(alpha=kw.get('site', 1), gamma=kw.get('letter', 'X'))
    if 'coeff' in kw:
        args['coeff'] = kw['coeff']
    r, err = call(pauli.Pauli, **args)
    return bool(err), False, err


def c14(out, rng, tier):
    allc = cases('options')
    single = [c for c in allc if len(c.get('set', ())) < 2]
    single += [c for c in allc if len(c.get('set', ())) == 2 and c['t'] == 'pauli']
    pairs = [c for c in allc if len(c.get('set', ())) == 2 and c['t'] != 'pauli']
    rng.shuffle(pairs)
    todo = single + (pairs if tier == 'thorough' else pairs[:700])
    by = {}
    for i, c in enumerate(todo):
        if c['t'] in ('pauli', 'monomial'):
            r = run_pauli(c)
        elif c['t'] in LAYER:
            r = run_layer(c)
        else:
            r = run_optimizer(c)
        if r is None:
            continue
        refused, ran, why = r
        if why.startswith('Timeout') or refused is None:
            by.setdefault(c['t'], []).append(dict(c, a='option', err=why))
            continue
        by.setdefault(c['t'], []).append(dict(c, a='option', refused=refused, ran=ran, why=why[:120], err=''))
    good = pauli.Pauli(0, 'X')
    mono = pauli.PauliMonomial([good])
    for t, cls, args in (('notpaulis', pauli.PauliMonomial, [['X'], [good, 'Y'], [mono], [None], [1.0], [('X', 0)]]),
                         ('notmonomials', pauli.PauliSum, [['X'], [good], [mono, good], [None], [mono, 1.0]])):
        for a in args:
            r, err = call(cls, a)
            by.setdefault(t, []).append(dict(a='option', t=t, refused=bool(err), ran=False, err=''))
    for t, evs in sorted(by.items()):
        for i, e in enumerate(evs):
            what = ' '.join('%s=%s' % (s['o'], {k: v for k, v in s['x'].items() if k != 'k'} or s['x']['k']) for s in e.get('set', ())) or str(e.get('sites', i))
            out.add('options', '%s %s' % (t, what), [e])


SELFTEST = {'*': dict(option=[('refused', swap_false)])}
