"""Drivers for whole optimizer runs (trace specs: TraceRun, TraceHist)."""
from lib import *
from oranssi import opt_tools, optimizers
from h_layers import gate_circuit, make_layer, spec_obs, tfim
from h_static import cases

NONE = -1


def ftol(tol):
    if tol is None:
        return NONE
    return LIM if tol > 19 else fx(tol)


def ry(t):
    return np.array([[math.cos(t / 2), -math.sin(t / 2)], [math.sin(t / 2), math.cos(t / 2)]], dtype=complex)


class Scripted(opt_tools.LieLayer):
    """a layer that moves the first qubit to prescribed values of <Z>, and remembers how it was called"""

    def __init__(self, device, observables, nqubits, script, log, ident):
        super().__init__(device, observables, nqubits)
        self.script, self.log, self.ident = script, log, ident
        self.su_state = 'su4'
        self.trotterize = False

    def __call__(self, circuit_unitary, *args, **kwargs):
        c = self.script[len(self.log) + 1]
        U = np.array(circuit_unitary)
        out = np.kron(ry(math.acos(c)), np.eye(U.shape[0] // 2))
        self.log.append((self.ident, U, out))
        return out

    def get_lie_algebra_directions(self, circuit_unitary):
        return {'X': 0.1}

    def __repr__(self):
        return 'scripted'


class ScriptedSq(opt_tools.SquaredLieAlgebraLayer):
    def setup(self, script, log, ident):
        self.script, self.log, self.ident = script, log, ident
        self.su_state = 'su8'

    def __call__(self, circuit_unitary, *args, **kwargs):
        c = self.script[len(self.log) + 1]
        U = np.array(circuit_unitary)
        out = np.kron(ry(math.acos(c)), np.eye(U.shape[0] // 2))
        self.log.append((self.ident, U, out))
        if kwargs.get('commute', False):
            return out, [('X', 0, 0.25)]
        return out


def start_circuit(n, c):
    def circuit(params, **kwargs):
        qml.RY(math.acos(c), wires=0)
        return qml.state()
    return circuit


def dist(A, B):
    """largest entry of A B^-1 - 1"""
    V = np.asarray(A) @ np.asarray(B).conj().T
    return fx(min(15.0, float(np.max(np.abs(V - np.eye(V.shape[0]))))))


def scripted_run(rng, n, script, nl, **kw):
    """run the approximate optimizer on scripted costs"""
    log = []
    d = dev(n)
    obs = [qml.PauliZ(0)]
    layers = [Scripted(d, obs, n, script, log, i + 1) for i in range(nl)]
    v, err = call(optimizers.approximate_lie_optimizer, start_circuit(n, script[0]), [], obs, d, layers, **kw)
    return v, err, log


def approx_trace(rng, script, nsteps, tol, perturb, n=1, want_pert=True, eta=0.5):
    np.random.seed(rng.randrange(2 ** 31))
    kw = dict(nsteps=nsteps, tol=tol, perturb=perturb, eta=eta)
    if want_pert:
        kw['return_perturbations'] = True
    script = list(script) + [script[-1] * 0.97 for _ in range(nsteps + 2)]
    v, err, log = scripted_run(rng, n, script, rng.choice([1, 2, 3]), **kw)
    base = dict(a='run', kind='approx', nsteps=nsteps, tol=ftol(tol), perturb=perturb, pknown=want_pert)
    return run_events(base, v, err, log, want_pert)


def run_events(base, v, err, log, want_pert, final=None, unit=1.0):
    """unit: costs are told to the specification in this unit (the rule is the same in every unit)"""
    if err:
        return [dict(base, err=err, cost=0, pert=[])]
    try:
        costs, pert = (v if want_pert else (v, []))
        costs = [fx(float(c) / unit) for c in costs]
        pert = [int(p) for p in pert]
        if not costs:
            raise Bad('no costs')
        evs = [dict(base, err='', cost=costs[0], pert=pert)]
        for k in range(1, len(costs)):
            d = NONE
            if log is not None and 2 <= k <= len(log):
                d = dist(log[k - 1][1], log[k - 2][2])
            evs.append(dict(a='step', err='', cost=costs[k], dist=d))
        evs.append(dict(a='end', err='', pert=pert, dist=NONE if final is None else final))
        return evs
    except Exception as e:
        return [dict(base, err='Unreadable result, %s: %s' % (type(e).__name__, e), cost=0, pert=[])]


def scaled(out, rng, reps):
    """the same landscapes in other units: observables multiplied by a small or a large factor, step sizes and tolerances to match"""
    for i in range(reps):
        s = [2e-5, 1e-6, 3e-4, 1e4, 1e-8][i % 5]
        f = max(1.0, s ** -0.5)     # step sizes end at 1: small units are made up for by a steep parameter
        a, b, t = rng.uniform(0.4, 2.7), rng.uniform(0.2, 1.2), rng.uniform(0.3, 1.2)
        h = s * np.array([[math.cos(b), math.sin(b)], [math.sin(b), -math.cos(b)]], dtype=complex)
        ob = [qml.Hermitian(h, wires=0)]

        def body(params, **kwargs):
            qml.RX(f * params[0], wires=0)
            qml.RZ(t, wires=0)

        def circuit(params, **kwargs):
            qml.RY(a, wires=0)
            qml.RZ(t, wires=0)
            return qml.state()
        nsteps, eta = rng.choice([8, 12]), rng.choice([0.3, 0.6, 0.9])
        for kind in ('ps', 'exact') if s > 1 else ('ps',):
            def go(tol):
                if kind == 'ps':
                    return call(optimizers.parameter_shift_optimizer, body, qml.numpy.array([a / f], requires_grad=True), ob, dev(1), nsteps=nsteps, eta=eta / s / f ** 2, tol=tol)
                return call(optimizers.exact_lie_optimizer, circuit, [], ob, dev(1), nsteps=nsteps, eta=eta / s, tol=tol)
            ref, err = go(0.0)
            tols = [0.0]
            if not err:
                ds = [abs(float(ref[k + 1]) - float(ref[k])) for k in range(len(ref) - 1)]
                if len(ds) > 4:
                    tols += [x * ds[rng.randrange(3, len(ds))] for x in (0.9, 1.1)]
            for tol in tols:
                v, err = go(float(tol))
                base = dict(a='run', kind=kind, nsteps=nsteps, tol=ftol(float(tol) / s), perturb=False, pknown=False)
                out.add('run', 'in units of %g, %s #%d tol=%s' % (s, kind, i, tol), run_events(base, v, err, None, False, unit=s))
        # no making up: the costs fall in relatively tiny steps
        f, eta = 1.0, rng.choice([0.1, 0.5, 1.0])
        if s < 1:
            for kind in ('ps', 'exact'):
                nsteps = 12
                if kind == 'ps':
                    v, err = call(optimizers.parameter_shift_optimizer, body, qml.numpy.array([a], requires_grad=True), ob, dev(1), nsteps=nsteps, eta=eta, tol=0.0)
                else:
                    v, err = call(optimizers.exact_lie_optimizer, circuit, [], ob, dev(1), nsteps=nsteps, eta=eta, tol=0.0)
                base = dict(a='run', kind=kind, nsteps=nsteps, tol=0, perturb=False, pknown=False)
                out.add('run', 'in units of %g, creeping, %s #%d' % (s, kind, i), run_events(base, v, err, None, False, unit=s))


def c12(out, rng, tier):
    big = tier == 'thorough'
    cs = cases('scripts')
    rng.shuffle(cs)
    for i, case in enumerate(cs[:900 if big else 220]):
        script = [x / SCALE for x in case['costs']]
        n = 1 if i % 10 else 2
        perturb = i % 3 == 0
        nsteps = rng.choice([len(script) - 1, len(script) - 1, rng.randint(1, 14)])
        tol = rng.choice([0.01, 0.01, 0.01, 0.01, None, 0.0, 0.7, float('inf')])
        out.add('run', 'scripted #%d nsteps=%d tol=%s perturb=%s' % (i, nsteps, tol, perturb),
                approx_trace(rng, script, nsteps, tol, perturb, n=n, want_pert=rng.random() < 0.8, eta=rng.choice([0.5, 1.0, 0.1])))
    # long runs that are kicked again and again: every kick is small
    for i in range(8 if big else 3):
        out.add('run', 'scripted, many kicks #%d' % i, approx_trace(rng, [0.3] * 2, 45, float('inf'), True, n=1 + i % 2, eta=1.0))
        n = 1 + i % 2
        o = rand_word_obs(rng, n)
        circuit, U0 = gate_circuit(rng, n, 3)
        np.random.seed(rng.randrange(2 ** 31))
        v, err = call(optimizers.exact_lie_optimizer, circuit, [], [o.q], dev(n), nsteps=45, eta=1.0, tol=float('inf'), perturbation=True,
                      return_state=True, return_unitary=True, return_perturbations=True)
        base = dict(a='run', kind='exact', nsteps=45, tol=ftol(float('inf')), perturb=True, pknown=True)
        try:
            if err:
                raise Bad(err)
            fin = max(abs(x - y) for x, y in zip(bloch(v[1][-1], n), bloch_u(v[3], n)))
            evs = run_events(base, (v[0], v[2]), '', None, True, final=fin if fin > 100 else NONE)
        except Exception as e:
            evs = [dict(base, err='Unreadable result, %s: %s' % (type(e).__name__, e), cost=0, pert=[])]
        out.add('run', 'exact, many kicks #%d' % i, evs)
    # long runs: the rule is to apply late, if at all
    for i in range(24 if big else 8):
        late = rng.randint(14, 50)
        # ups and downs; values five steps apart agree from the late step on
        script = [rng.choice([-0.8, -0.5, -0.1, 0.2, 0.6, 0.9]) + 0.02 * (k % 5) for k in range(late)]
        for k in range(5, late):
            while abs(script[k] - script[k - 5]) < 0.05:
                script[k] = rng.choice([-0.8, -0.5, -0.1, 0.2, 0.6, 0.9])
        script += [0.3 + 0.001 * (k % 5) for k in range(5)] * 6
        nsteps = rng.choice([late - 1, late + 7, late + 15])
        out.add('run', 'scripted, late #%d' % i, approx_trace(rng, script, nsteps, 0.01, i % 2 == 0, n=1, eta=0.5))
    for i in range(16 if big else 6):
        n = 1
        o = [Obs(word_obs([a], [0]), [(pos_of([a]), 1.0)]) for a in rng.sample([1, 2, 3], rng.choice([1, 1, 2]))]
        circuit, U0 = gate_circuit(rng, n, 4)
        eta, nsteps = rng.choice([0.02, 0.05, 0.1]), rng.choice([35, 50])
        ref, err = call(optimizers.exact_lie_optimizer, circuit, [], [x.q for x in o], dev(n), nsteps=nsteps, eta=eta, tol=0.0)
        if err:
            out.add('run', 'exact, late #%d' % i, [dict(a='run', kind='exact', nsteps=nsteps, tol=0, perturb=False, pknown=False, err=err, cost=0, pert=[])])
            continue
        ds = [abs(float(ref[k + 1]) - float(ref[k])) for k in range(len(ref) - 1)]
        for late in rng.sample(range(12, max(len(ds), 16)), 3):
            tol = max(0.0, ds[min(late, len(ds) - 1)] * rng.choice([0.97, 1.03]))
            v, err = call(optimizers.exact_lie_optimizer, circuit, [], [x.q for x in o], dev(n), nsteps=nsteps, eta=eta, tol=float(tol))
            out.add('run', 'exact, late #%d tol=%s' % (i, tol), run_events(dict(a='run', kind='exact', nsteps=nsteps, tol=ftol(float(tol)), perturb=False, pknown=False), v, err, None, False))

        def body(params, **kwargs):
            qml.RX(params[0], wires=0)
            qml.RY(params[1], wires=0)
        x0, eta = [rng.uniform(-2, 2) for _ in range(2)], rng.choice([0.02, 0.05])
        mk = lambda: qml.numpy.array(x0, requires_grad=True)  # noqa
        ref, err = call(optimizers.parameter_shift_optimizer, body, mk(), [qml.PauliZ(0)], dev(n), nsteps=nsteps, eta=eta, tol=0.0)
        if err:
            continue
        ds = [abs(float(ref[k + 1]) - float(ref[k])) for k in range(len(ref) - 1)]
        tol = max(0.0, ds[min(rng.randint(12, 33), len(ds) - 1)] * rng.choice([0.97, 1.03]))
        v, err = call(optimizers.parameter_shift_optimizer, body, mk(), [qml.PauliZ(0)], dev(n), nsteps=nsteps, eta=eta, tol=float(tol))
        out.add('run', 'parameter shift, late #%d tol=%s' % (i, tol), run_events(dict(a='run', kind='ps', nsteps=nsteps, tol=ftol(float(tol)), perturb=False, pknown=False), v, err, None, False))
    # the approximate optimizer on real layers
    for i in range(24 if big else 8):
        n = rng.choice([1, 2, 2])
        obs = some_obs(rng, n, 1, 2)
        circuit, _ = gate_circuit(rng, n, rng.choice([0, 3]))
        kinds = ['local', 'squared', 'custom'] if n > 1 else ['local', 'squared']
        perturb = i % 2 == 0
        tol = rng.choice([1e-2, 1e-3, 1e-1])
        nsteps = rng.choice([8, 12, 20])
        np.random.seed(rng.randrange(2 ** 31))
        eta = rng.choice([0.5, 1.0])

        def go():
            layers = [make_layer(k, n, [o.q for o in obs], eta=eta) for k in rng.sample(kinds, rng.randint(1, 2))]
            return optimizers.approximate_lie_optimizer(circuit, [], [o.q for o in obs], dev(n), layers, nsteps=nsteps, tol=tol, eta=eta,
                                                        perturb=perturb, return_perturbations=True)
        v, err = call(go)
        base = dict(a='run', kind='approx', nsteps=nsteps, tol=ftol(tol), perturb=perturb, pknown=True)
        out.add('run', 'approximate, layers #%d perturb=%s' % (i, perturb), run_events(base, v, err, None, True))
    # the exact optimizer: tolerances placed between the observed differences
    for i in range(40 if big else 12):
        n = rng.choice([1, 2, 2, 3])
        obs = some_obs(rng, n, 1, 3)
        circuit, U0 = gate_circuit(rng, n, rng.choice([0, 0, 3, 4]))
        if i % 5 == 4 and n == 1:
            obs = [Obs(qml.PauliZ(0), [(pos_of([3]), 1.0)])]
            circuit, U0 = gate_circuit(rng, n, 0)      # starts on a maximum: nothing moves unless kicked
        eta = rng.choice([1.0, 0.5, 0.9])
        nsteps = rng.choice([4, 5, 6, 9, 14])
        if i % 4 == 3:  # observables pulling in turn in different directions: the cost goes up and down
            eta, nsteps, n = 1.0, 14, 1
            obs = [Obs(word_obs([a], [0]), [(pos_of([a]), 1.0)]) for a in rng.sample([1, 2, 3, 1, 2, 3], rng.randint(3, 5))]
            circuit, U0 = gate_circuit(rng, n, 4)
        qobs = [o.q for o in obs]
        ref, err = call(optimizers.exact_lie_optimizer, circuit, [], qobs, dev(n), nsteps=nsteps, eta=eta, tol=0.0)
        tols = [0.0, rng.choice([1e-3, 0.2]), float('inf')]
        if not err:
            ds = [abs(float(ref[k + 1]) - float(ref[k])) for k in range(len(ref) - 1)]
            if len(ds) > 5:
                tols.append(1.02 * ds[rng.randrange(4, len(ds))])
                tols.append(0.98 * ds[rng.randrange(4, len(ds))])
        for tol in tols:
            for perturb in (False, True):
                np.random.seed(rng.randrange(2 ** 31))
                kw = dict(nsteps=nsteps, eta=eta, tol=float(tol), perturbation=perturb, return_state=True, return_unitary=True)
                if perturb:
                    kw['return_perturbations'] = True
                v, err = call(optimizers.exact_lie_optimizer, circuit, [], qobs, dev(n), **kw)
                base = dict(a='run', kind='exact', nsteps=nsteps, tol=ftol(float(tol)), perturb=perturb, pknown=perturb)
                if err:
                    out.add('run', 'exact #%d' % i, [dict(base, err=err, cost=0, pert=[])])
                    continue
                try:
                    costs, states, rest = v[0], v[1], v[2:]
                    pert, U = (rest if perturb else ([], rest[0]))
                    # the state after the last step against the returned unitary; compared as projectors
                    a, b = bloch(states[-1], n), bloch_u(U, n)
                    fin = max(abs(x - y) for x, y in zip(a, b))
                    # a real random kick can leave a state's phase or a one-dimensional subspace alone: only nearness is then known
                    final = fin if not (perturb and fin <= 100) else NONE
                    evs = run_events(base, (costs, pert), '', None, True, final=final)
                except Exception as e:
                    evs = [dict(base, err='Unreadable result, %s: %s' % (type(e).__name__, e), cost=0, pert=[])]
                out.add('run', 'exact #%d tol=%s perturb=%s nsteps=%d' % (i, tol, perturb, nsteps), evs)
    # the parameter-shift optimizer
    scaled(out, rng, 24 if big else 10)
    for i in range(24 if big else 8):
        n = rng.choice([1, 2])
        m = rng.randint(1, 3)
        ws = [rng.randrange(n) for _ in range(m)]
        ax = [rng.choice([qml.RX, qml.RY, qml.RZ]) for _ in range(m)]

        def circuit(params, **kwargs):
            for k in range(m):
                ax[k](params[k], wires=ws[k])
            if n > 1:
                qml.CNOT(wires=[0, 1])
        x0 = [rng.uniform(-2, 2) for _ in range(m)]
        obs = [o.q for o in some_obs(rng, n, 1, 2)]
        eta = rng.choice([0.0, 0.1, 0.5, 1.0])
        steep = i % 2 == 1
        if steep:       # steps that overshoot: the cost goes up and down
            obs = obs[:1] * rng.randint(3, 5)
            eta = 1.0
        nsteps = rng.choice([3, 4, 5, 8]) if not steep else 12
        mk = lambda: qml.numpy.array(x0, requires_grad=True)  # noqa
        ref, err = call(optimizers.parameter_shift_optimizer, circuit, mk(), obs, dev(n), nsteps=nsteps, eta=eta, tol=0.0)
        tols = [0.0, 1e-3, float('inf')]
        if not err:
            ds = [abs(float(ref[k + 1]) - float(ref[k])) for k in range(len(ref) - 1)]
            if len(ds) > 3:
                tols += [1.02 * ds[rng.randrange(3, len(ds))], 0.98 * ds[rng.randrange(3, len(ds))]]
        for tol in tols if not steep else [1e-9, 1e-3, 0.3]:
            v, err = call(optimizers.parameter_shift_optimizer, circuit, mk(), obs, dev(n), nsteps=nsteps, eta=eta, tol=float(tol))
            base = dict(a='run', kind='ps', nsteps=nsteps, tol=ftol(float(tol)), perturb=False, pknown=False)
            out.add('run', 'parameter shift #%d tol=%s nsteps=%d' % (i, tol, nsteps), run_events(base, v, err, None, False))


# ---------------------------------------------------------------- C13
def kind_of(x, n, steps):
    """recognise a result by its contents"""
    try:
        if isinstance(x, np.ndarray) and x.shape == (2 ** n, 2 ** n) and x.dtype.kind == 'c':
            return 'unitary'
        x = list(x)
        e = x[0]
        if isinstance(e, str):
            return 'zass'
        if isinstance(e, dict):
            return 'omega'
        if isinstance(e, (int, np.integer)) and not isinstance(e, bool) and all(isinstance(y, (int, np.integer)) for y in x) and len(x) <= steps:
            return 'pert'
        if isinstance(e, (list, tuple)) and e and isinstance(e[0], tuple):
            return 'gates'
        a = np.asarray(e)
        if a.shape == (2 ** n, 2 ** n) and a.dtype.kind == 'c':
            return 'unitaries'
        if a.shape == (2 ** n,) and a.dtype.kind == 'c':
            return 'state'
        if a.shape == () and a.dtype.kind in 'fc' and len(x) == steps + 1:
            return 'cost'
        if a.ndim >= 1 and a.dtype.kind == 'f':
            return 'params'
    except Exception:
        pass
    return 'unknown'


def tuples(out, rng):
    flags = ['return_state', 'return_omegas', 'return_unitary', 'return_gates', 'return_perturbations', 'return_zassenhaus']
    names = ['state', 'omega', 'unitaries', 'gates', 'pert', 'zass']
    evs = []
    steps = 11
    script = [0.3] * 30
    for combo in it.product([False, True], repeat=6):
        log = []
        n = 2
        d = dev(n)
        obs = [qml.PauliZ(0)]

        def go():
            lay = ScriptedSq(d, obs)
            lay.setup(script, log, 1)
            kw = {f: b for f, b in zip(flags, combo) if b or rng.random() < 0.5}
            return optimizers.approximate_lie_optimizer(start_circuit(n, 0.3), [], obs, d, [lay], nsteps=steps, tol=0.01, perturb=True, commute=True, **kw)
        v, err = call(go)
        evs.append(tuple_event('approx', v, err, [x for x, b in zip(names, combo) if b], n, steps))
    for combo in it.product([False, True], repeat=3):
        n = 2
        circuit, _ = gate_circuit(rng, n, 2)
        kw = {f: b for f, b in zip(['return_state', 'return_perturbations', 'return_unitary'], combo) if b or rng.random() < 0.5}
        v, err = call(optimizers.exact_lie_optimizer, circuit, [], [qml.PauliZ(0) @ qml.PauliZ(1)], dev(n), nsteps=6, tol=float('inf'), perturbation=True, **kw)
        evs.append(tuple_event('exact', v, err, [x for x, b in zip(['state', 'pert', 'unitary'], combo) if b], n, 6))
    for combo in it.product([False, True], repeat=2):
        n = 1

        def circuit(params, **kwargs):
            qml.RX(params[0], wires=0)
            qml.RY(params[1], wires=0)
            qml.RX(params[2], wires=0)
        kw = {f: b for f, b in zip(['return_state', 'return_params'], combo) if b or rng.random() < 0.5}
        v, err = call(optimizers.parameter_shift_optimizer, circuit, qml.numpy.array([0.4, 1.2, 0.3], requires_grad=True), [qml.PauliZ(0)], dev(n), nsteps=3, **kw)
        evs.append(tuple_event('ps', v, err, [x for x, b in zip(['state', 'params'], combo) if b], n, 3))
    out.add('run', 'result order', evs)


def tuple_event(kind, v, err, wanted, n, steps):
    base = dict(a='tuple', kind=kind, wanted=wanted)
    if err:
        return dict(base, err=err)
    if isinstance(v, tuple):
        return dict(base, err='', plain=False, kinds=[kind_of(x, n, steps) for x in v])
    return dict(base, err='', plain=kind_of(v, n, steps) == 'cost', kinds=[])


def lens(ncost, **kw):
    d = dict(a='lens', err='', ncost=ncost, nstate=NONE, nun=NONE, nomega=NONE, ngates=NONE, nzass=NONE, nparams=NONE, steps=NONE)
    d.update(kw)
    return d


def entry(k, cost, r=(), st=(), un=(), lay=0, rin=(), du=NONE, ds=NONE, din=NONE):
    return dict(a='entry', err='', k=k, cost=cost, r=list(r), st=list(st), un=list(un), lay=lay, rin=list(rin), du=du, ds=ds, din=din)


def gap(A, B, phase=False):
    """largest entry of A - B, as it is or up to a global phase"""
    A, B = np.asarray(A), np.asarray(B)
    if A.shape != B.shape:
        raise Bad('shapes %r and %r' % (A.shape, B.shape))
    if phase:
        k = np.unravel_index(int(np.argmax(np.abs(B))), B.shape)
        A = A * np.exp(-1j * np.angle(A[k])) * np.exp(1j * np.angle(B[k]))
    return fx(min(15.0, float(np.max(np.abs(A - B)))))


def full_entry(k, n, cost, U0, log, st=None, un=None, kicks=False):
    """entry k of the histories against what the layers were seen to do"""
    U = U0 if k == 0 else log[k - 1][2]
    return entry(k, fx(cost), r=bloch_u(U, n), st=bloch(st[k], n) if st is not None else (), un=bloch_u(un[k], n) if un is not None else (),
                 lay=log[k - 1][0] if k else 0, rin=bloch_u(log[k - 1][1], n) if k and not kicks else (),
                 du=NONE if un is None else gap(un[k], U, phase=k == 0),
                 ds=NONE if st is None else gap(st[k], np.asarray(un[k])[:, 0]) if un is not None else gap(st[k], U[:, 0], phase=k == 0),
                 din=NONE if k == 0 or kicks else gap(log[k - 1][1], U0 if k == 1 else log[k - 2][2], phase=k == 1))


def safe(base, build):
    try:
        return build()
    except Exception as e:
        return [dict(base, err='Unreadable result, %s: %s' % (type(e).__name__, str(e)[:200]))]


class Spy:
    """wraps a layer's __call__ and remembers what went in and out"""

    def __init__(self, log):
        self.log = log

    def watch(self, layer, ident):
        cls = type(layer)
        log = self.log

        class Watched(cls):
            def __call__(self, circuit_unitary, *a, **k):
                U = np.array(circuit_unitary)
                res = cls.__call__(self, circuit_unitary, *a, **k)
                out = res[0] if isinstance(res, tuple) else res
                log.append((ident, U, np.array(out)))
                return res
        Watched.__name__ = cls.__name__
        layer.__class__ = Watched
        return layer


def c13(out, rng, tier):
    big = tier == 'thorough'
    m = 4 if big else 1
    tuples(out, rng)
    # approximate optimizer, all kinds of layers, watched
    for n, reps in ((1, 3), (2, 10), (3, 5)):
        for i in range(reps * m):
            obs = some_obs(rng, n, 1, 3, herm=0.3)
            circuit, U0 = gate_circuit(rng, n, rng.choice([0, 2, 5]))
            pool = ['local', 'squared', 'stochastic'] + (['custom', 'scripted'] if n > 1 else ['scripted']) + (['su8', 'zassenhaus'] if n == 3 else [])
            ks = [rng.choice(pool) for _ in range(rng.randint(1, 4))]
            steps = rng.choice([1, 2, 3, 5, 6, 7]) if n < 3 else rng.choice([3, 4, 5])
            pat = list(range(len(ks)))      # the layers in the order they are listed; the same one may be listed again
            if i % 2:
                pat.insert(rng.randrange(len(pat) + 1), rng.choice(pat))
                steps = max(steps, len(pat) + 1)
            log = []
            np.random.seed(rng.randrange(2 ** 31))
            flags = dict(return_state=rng.random() < 0.7, return_unitary=rng.random() < 0.7, return_omegas=rng.random() < 0.3 and 'scripted' not in ks)
            tol = rng.choice([None, 1e-3, 0.0])
            layers_given = []

            def go():
                spy = Spy(log)
                script = [0.1 * ((7 * j) % 10 - 5) for j in range(60)]
                for j, k in enumerate(ks):
                    if k == 'scripted':
                        layers_given.append(Scripted(dev(n), [o.q for o in obs], n, script, log, j + 1))
                    else:
                        layers_given.append(spy.watch(make_layer(k, n, [o.q for o in obs], eta=0.5), j + 1))
                return optimizers.approximate_lie_optimizer(circuit, [], [o.q for o in obs], dev(n), [layers_given[j] for j in pat], nsteps=steps, tol=tol, **flags)
            v, err = call(go)
            base = dict(a='run', obs=spec_obs(obs), pat=[j + 1 for j in pat])
            if err:
                evs = [dict(base, err=err)]
            else:
                def build():
                    w = list(v) if isinstance(v, tuple) else [v]
                    costs = list(w.pop(0))
                    st = w.pop(0) if flags['return_state'] else None
                    om = w.pop(0) if flags['return_omegas'] else None
                    un = w.pop(0) if flags['return_unitary'] else None
                    if w:
                        raise Bad('more results than requested')
                    evs = [dict(base, err='')]
                    for k in range(len(costs)):
                        evs.append(full_entry(k, n, costs[k], U0, log, st, un))
                    evs.append(lens(len(costs), nstate=NONE if st is None else len(st), nun=NONE if un is None else len(un),
                                    nomega=NONE if om is None else len(om), steps=len(log)))
                    return evs
                evs = safe(base, build)
            out.add('hist_n%d' % n, 'approximate n=%d #%d %s %s steps=%d %s' % (n, i, ks, pat, steps, flags), evs)
    # longer runs on real layers, with and without kicks
    for i in range(6 * m):
        n = 1 + i % 2
        obs = some_obs(rng, n, 1, 3, herm=0.3)
        circuit, U0 = gate_circuit(rng, n, rng.choice([0, 4]))
        perturb = i % 3 != 0
        steps = rng.choice([11, 13, 17]) if i else 60
        log, given = [], []
        np.random.seed(rng.randrange(2 ** 31))

        def go():
            spy = Spy(log)
            for j in range(rng.randint(1, 3)):
                given.append(spy.watch(make_layer(rng.choice(['local', 'squared', 'stochastic']), n, [o.q for o in obs], eta=0.8), j + 1))
            return optimizers.approximate_lie_optimizer(circuit, [], [o.q for o in obs], dev(n), given, nsteps=steps, tol=rng.choice([1e-3, 0.5, 5.0]),
                                                        eta=rng.choice([0.3, 1.0]), perturb=perturb, return_state=True, return_unitary=True)
        v, err = call(go)
        base = dict(a='run', obs=spec_obs(obs), pat=[j + 1 for j in range(len(given))])

        def build():
            costs, st, un = v
            evs = [dict(base, err='')]
            for k in range(len(costs)):
                evs.append(full_entry(k, n, costs[k], U0, log, st, un, kicks=perturb))
            evs.append(lens(len(costs), nstate=len(st), nun=len(un), steps=len(log)))
            return evs
        out.add('hist_n%d' % n, 'long run n=%d #%d steps=%d perturb=%s' % (n, i, steps, perturb), [dict(base, err=err)] if err else safe(base, build))
    # longer scripted runs: many layers, early stop, perturbation
    for i in range(10 * m):
        n = 1
        nl = rng.choice([1, 2, 3, 4, 5, 7])
        steps = rng.choice([9, 10, 11, 13, 16]) if i else 36
        script = [0.1 * ((3 * j) % 10 - 4.5) for j in range(60)] if rng.random() < 0.5 else [0.3] * 10 + [0.1 * (j % 5) for j in range(60)]
        perturb = i % 3 == 0
        v, err, log = scripted_run(rng, n, script, nl, nsteps=steps, tol=1e-3, return_state=True, return_unitary=True, perturb=perturb)
        base = dict(a='run', obs=[[[pos_of([3]), SCALE]]], pat=[j + 1 for j in range(nl)])
        if err:
            evs = [dict(base, err=err)]
        else:
            def build():
                costs, st, un = v
                evs = [dict(base, err='')]
                U0 = ry(math.acos(script[0]))
                for k in range(len(costs)):
                    evs.append(full_entry(k, n, costs[k], U0, log, st, un, kicks=perturb))
                evs.append(lens(len(costs), nstate=len(st), nun=len(un), steps=len(log)))
                return evs
            evs = safe(base, build)
        out.add('hist_n1', 'scripted #%d layers=%d steps=%d' % (i, nl, steps), evs)
    # exact optimizer
    for n, reps in ((1, 3), (2, 5), (3, 2)):
        for i in range(reps * m):
            obs = some_obs(rng, n, 1, 3)
            circuit, U0 = gate_circuit(rng, n, rng.choice([0, 2, 5]))
            steps = rng.choice([1, 3, 6, 8]) if n < 3 else 4
            steps = 40 if n == 1 and i == 0 else steps
            perturb = rng.random() < 0.4
            np.random.seed(rng.randrange(2 ** 31))
            kw = dict(eta=rng.choice([0.1, 0.7]), tol=rng.choice([0.0, 1e-2]), return_state=True, return_unitary=True, perturbation=perturb)
            v, err = call(optimizers.exact_lie_optimizer, circuit, [], [o.q for o in obs], dev(n), nsteps=steps, **kw)
            # shorter runs show the unitaries in between
            mid = {}
            for k in range(1, 0 if err or perturb else len(v[0]) - 1):
                w, err = call(optimizers.exact_lie_optimizer, circuit, [], [o.q for o in obs], dev(n), nsteps=k, **kw)
                if err:
                    break
                mid[k] = w[2]
            base = dict(a='run', obs=spec_obs(obs), pat=[1])
            if err:
                evs = [dict(base, err=err)]
            else:
                def build():
                    costs, st, U = v
                    evs = [dict(base, err='')]
                    for k in range(len(costs)):
                        last = k == len(costs) - 1 and not perturb
                        evs.append(entry(k, fx(costs[k]), r=bloch_u(U0, n) if k == 0 else bloch_u(U, n) if last else bloch_u(mid[k], n) if k in mid else (),
                                         st=bloch(st[k], n), ds=gap(st[k], np.asarray(U)[:, 0]) if last and k else NONE))
                    evs.append(lens(len(costs), nstate=len(st)))
                    return evs
                evs = safe(base, build)
            out.add('hist_n%d' % n, 'exact n=%d #%d steps=%d perturb=%s' % (n, i, steps, perturb), evs)
    # commuting mode: one gate list per step; Zassenhaus: one phase per step
    for i in range(3 * m):
        n = 2
        obs = tfim(n, 1.0)
        circuit, U0 = gate_circuit(rng, n, 3)
        steps = rng.choice([2, 3])
        v, err = call(lambda: optimizers.approximate_lie_optimizer(circuit, [], [o.q for o in obs], dev(n), [make_layer('squared', n, [o.q for o in obs])],
                                                                   nsteps=steps, tol=None, commute=True, return_gates=True, return_state=True, return_unitary=True))
        base = dict(a='run', obs=spec_obs(obs), pat=[1])

        def build():
            costs, st, un, gates = v
            evs = [dict(base, err='')]
            for k in range(len(costs)):
                evs.append(entry(k, fx(costs[k]), r=bloch_u(U0, n) if k == 0 else (), st=bloch(st[k], n), un=bloch_u(un[k], n)))
            evs.append(lens(len(costs), nstate=len(st), nun=len(un), ngates=len(gates), steps=steps))
            return evs
        out.add('hist_n2', 'commuting #%d' % i, [dict(base, err=err)] if err else safe(base, build))
    for i in range(2 * m):
        n = 3
        obs = tfim(n, 1.0)
        circuit, U0 = gate_circuit(rng, n, 3)
        steps = rng.choice([3, 4])
        v, err = call(lambda: optimizers.approximate_lie_optimizer(circuit, [], [o.q for o in obs], dev(n), [make_layer('zassenhaus', n, [o.q for o in obs])],
                                                                   nsteps=steps, tol=None, return_zassenhaus=True, return_unitary=True))
        base = dict(a='run', obs=spec_obs(obs), pat=[1])

        def build():
            costs, un, za = v
            evs = [dict(base, err='')]
            for k in range(len(costs)):
                evs.append(entry(k, fx(costs[k]), r=bloch_u(un[k], n)))
            evs.append(lens(len(costs), nun=len(un), nzass=len(za), steps=steps))
            return evs
        out.add('hist_n3', 'zassenhaus #%d' % i, [dict(base, err=err)] if err else safe(base, build))


SELFTEST = {'*': dict(step=[('dist', ctx(lambda v, rng, tr: None if v == NONE or v > 100 or tr['ev'][0].get('perturb') else 5000000))],
                      end=[('pert', ctx(lambda v, rng, tr: list(v) + [0] if tr['ev'][0].get('pknown') else None))],
                      tuple=[('kinds', lambda v, rng: [v[1], v[0]] + v[2:] if len(v) > 1 else None), ('plain', swap_false)],
                      entry=[('cost', bump), ('du', lambda v, rng: 100000 if v != NONE else None), ('st', lambda v, rng: bump(v, rng) if v else None), ('lay', lambda v, rng: v + 9 if v else None)],
                      lens=[('nstate', lambda v, rng: v + 1 if v != NONE else None)])}
