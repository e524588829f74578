"""Drivers for the layer and step properties (trace spec: TraceLayers)."""
from lib import *
import scipy.linalg
from oranssi import opt_tools, optimizers, circuit_tools


def eta_of(rng):
    return rng.choice([0.0, 1.0, 0.1, 0.5, round(rng.uniform(0.01, 0.99), 4), round(rng.uniform(0.01, 0.99), 4)])


def spec_obs(obs):
    return [o.spec() for o in obs]


def group(n):
    return 'layers_n%d' % n


# ---------------------------------------------------------------- C08
def c08(out, rng, tier):
    big = tier == 'thorough'
    plan = []
    for n, reps in ((1, 5), (2, 10), (3, 9 if not big else 40), (4, 3 if not big else 12), (5, 1 if not big else 3)):
        for i in range(reps * (1 if not big else 2)):
            plan.append(('local', n, i))
            if n != 4:
                plan.append(('custom', n, i))
    for kind, n, i in plan:
        eta = eta_of(rng)
        trot = rng.random() < 0.5
        herm = 0.3
        obs = some_obs(rng, n, 1, 1 if n == 5 else 2 if n == 4 else 3, herm=herm if n < 5 else 0.0, many=0.15 if n < 3 else 0.0)
        if n < 4 and rng.random() < 0.25:
            # heavy observables: steps of more than a radian
            obs = heavy(rng, n, rng.randint(1, 2))
            eta = rng.choice([1.0, 1.0, 0.9])
        kw = dict(eta=eta, trotterize=trot, unitary_error_check=rng.random() < 0.4)
        if kind == 'local':
            k = (2 if n == 4 and i < 2 else rng.choice([1, 2])) if n % 2 == 0 else 1
            names = dirnames(k)
            sel = None
            if rng.random() < 0.6:
                sel = rng.sample(names, rng.randint(1, len(names)))
                if rng.random() < 0.3:
                    sel += [rng.choice(sel) for _ in range(rng.randint(1, 2))]      # named twice
                kw['directions'] = sel
            if k == 2 and (n == 4 or rng.random() < 0.3):
                kw['stride'] = rng.choice([0, 1]) if n < 4 else i % 2
            base = dict(a='local', k=k, trot=trot, dirs=[letters(d) for d in (sel if sel is not None else names)])
            make = lambda: opt_tools.LocalLieAlgebraLayer(dev(n), [o.q for o in obs], k, **kw)  # noqa
        else:
            names = dirnames(1) + (dirnames(2) if n > 1 else [])
            sel = None
            if n == 5 or rng.random() < 0.75:
                sel = rng.sample(names, rng.randint(1, min(6, len(names)) if n < 5 else 2))
                if rng.random() < 0.3:
                    sel += [rng.choice(sel) for _ in range(rng.randint(1, 2))]
            base = dict(a='custom', trot=trot, dirs=[letters(d) for d in (sel if sel is not None else names)])
            make = lambda: opt_tools.CustomDirectionLieAlgebraLayer(dev(n), [o.q for o in obs], sel, **kw)  # noqa
        base['obs'] = spec_obs(obs)
        layer, err = call(make)
        evs = []
        if err:
            evs.append(dict(base, err=err))
        else:
            U = rand_unitary(rng, n)
            for step in range(4 if n < 3 else 3):
                if step == 2 and rng.random() < 0.5:
                    eta = eta_of(rng)
                    layer.set_eta(eta)
                U0 = np.array(U)
                # options of the surrounding run must not matter
                extra = rng.choice([{}, dict(eta=0.77, nsteps=3)])
                U1, err = call(layer, U, **extra)
                ev = dict(base, eta=fx(eta))
                if err:
                    evs.append(dict(ev, err=err))
                    break
                evs.append(event(ev, lambda: dict(r=bloch_u(U0, n), r1=bloch_u(U1, n), **probes(U0, U1, n))))
                if evs[-1]['err']:
                    break
                U = onward(rng, U, U1, n, stay=0.3)
        out.add(group(n), '%s n=%d #%d %s' % (kind, n, i, kw), evs)


# ---------------------------------------------------------------- C06
LAYERS = ['local', 'custom', 'stochastic', 'squared', 'adapt', 'su8', 'zassenhaus']


def make_layer(kind, n, qobs, **kw):
    d = dev(n)
    if kind == 'local':
        return opt_tools.LocalLieAlgebraLayer(d, qobs, 1, **kw)
    if kind == 'local2':
        return opt_tools.LocalLieAlgebraLayer(d, qobs, 2, **kw)
    if kind == 'custom':
        return opt_tools.CustomDirectionLieAlgebraLayer(d, qobs, None, **kw)
    cls = dict(stochastic='StochasticLieAlgebraLayer', squared='SquaredLieAlgebraLayer', adapt='AdaptVQELayer',
               su8='SU8_AlgebraLayer', zassenhaus='ZassenhausLayer', zassenhaus2='ZassenhausLayerV2')[kind]
    return getattr(opt_tools, cls)(d, qobs, **kw)


def twin(rng, kind, n, odds=0.35, **kw):
    """another layer of the same class, used in between: what it does must not matter. Returns the function that uses it."""
    if rng.random() > odds:
        return lambda: None
    st = np.random.get_state()
    other, err = call(make_layer, kind, n, [rand_word_obs(rng, n).q, rand_word_obs(rng, n).q], **kw)
    np.random.set_state(st)

    def poke():
        if err:
            return
        st = np.random.get_state()
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                if kind == 'adapt':
                    other(rand_unitary(rng, n), params=poke.params, optimizer=stub)
                else:
                    other(rand_unitary(rng, n))
            except Exception:
                pass
        np.random.set_state(st)
    poke.params = []

    def stub(circuit, params, *a, **k):
        poke.params = [[0.3 for _ in p] for p in params]
        return [0.0, 0.0], [np.array(params), np.array(poke.params)]
    return poke


def grad_fields(dct, n):
    keys = set(str(k) for k in dct.keys())
    want = [''.join(LET[a] for a in word_of(n, k)) for k in range(4 ** n)]
    if keys != set(want) or len(dct) != len(want):
        return dict(keys=False, g=[0] * 4 ** n)
    return dict(keys=True, g=[fx(dct[w]) for w in want])


def gate_circuit(rng, n, ngates, state=True, size=3.0):
    """random circuit function plus its unitary (composed here, independently); small size: close to the identity"""
    gates = []
    for _ in range(ngates):
        w = word_of(n, rng.randrange(1, 4 ** n))
        sites = [q for q in range(n) if w[q]]
        rng.shuffle(sites)
        gates.append((w, sites, rng.uniform(-size, size)))
    shift = (rng.randrange(n), rng.uniform(-size, size)) if ngates else None      # so that the determinant is not one

    def circuit(params, **kwargs):
        if shift:
            qml.PhaseShift(shift[1], wires=shift[0])
        for w, sites, t in gates:
            qml.PauliRot(t, ''.join(LET[w[s]] for s in sites), wires=sites)
        if state:
            return qml.state()

    U = np.eye(2 ** n, dtype=complex)
    if shift:
        U = rot_matrix(lift([3], [shift[0]], n), shift[1]) * np.exp(0.5j * shift[1])
    for w, sites, t in gates:
        U = rot_matrix(w, t) @ U
    return circuit, U


def c06(out, rng, tier):
    big = tier == 'thorough'
    # the function itself
    for n in (1, 2, 3, 4, 5):
        for i in range((10, 12, 10, 3, 1)[n - 1] * (4 if big else 1)):
            obs = some_obs(rng, n, 1, 4, herm=0.35)
            U = rand_unitary(rng, n)
            base = dict(a='grad', obs=spec_obs(obs))
            evs = []
            for j in range(1 if n >= 4 else 2 if n == 3 else 3):
                v, err = call(circuit_tools.get_all_su_n_directions, U, [o.q for o in obs], dev(n))
                evs.append(dict(base, err=err) if err else event(base, lambda: dict(grad_fields(v, n), r=bloch_u(U, n))))
                U = onward(rng, U, U, n, stay=0.0)
            out.add(group(n), 'function n=%d #%d' % (n, i), evs)
    # every layer, also after it was used
    for n in (1, 2, 3):
        for kind in LAYERS + (['local2', 'zassenhaus2'] if n == 2 else []):
            if n < 3 and kind in ('su8', 'zassenhaus') or n < 2 and kind == 'adapt':
                continue
            for rep in range(3 if big else 1):
                obs = some_obs(rng, n, 1, 3, herm=0.3)
                evs = []
                layer, err = call(make_layer, kind, n, [o.q for o in obs], eta=0.3)
                base = dict(a='grad', obs=spec_obs(obs))
                if err:
                    evs.append(dict(base, err=err))
                else:
                    U = rand_unitary(rng, n)
                    for j in range(4 if n < 3 else 3):
                        v, err = call(layer.get_lie_algebra_directions, U)
                        evs.append(dict(base, err=err) if err else
                                   event(base, lambda: dict(grad_fields(v, n), r=bloch_u(U, n))))
                        U1 = U
                        if kind != 'adapt' and j == 0:
                            U1, err = call(layer, U)
                            U1 = U if err else U1
                        U = onward(rng, U, U1, n, stay=0.3 if j == 0 else 0.0)
                out.add(group(n), 'layer %s n=%d' % (kind, n), evs)
    # gradients requested from a run: one per step, at the unitary after the step
    for n, kinds in ((2, ['local', 'squared', 'stochastic', 'custom']), (3, ['su8', 'zassenhaus'])):
        kicked = kinds if big else rng.sample(kinds, 2)
        for rep in range(4 if big else 1):
            for ks in [[k] for k in kinds] + [kinds[:2]]:
                obs = rand_obs(rng, n, 2)
                circuit, _ = gate_circuit(rng, n, 5)
                steps = rng.randint(2, 4)
                kick = n == 2 and len(ks) == 1 and ks[0] in kicked
                opts = dict(tol=None)
                if kick:                    # long enough to be perturbed on the way
                    steps = 12
                    opts = dict(tol=5.0, perturb=True, eta=1.0)

                def run():
                    layers = [make_layer(k, n, [o.q for o in obs], eta=0.4) for k in ks]
                    np.random.seed(rng.randrange(10 ** 6))
                    return optimizers.approximate_lie_optimizer(circuit, [], [o.q for o in obs], dev(n), layers, nsteps=steps,
                                                                return_omegas=True, return_unitary=True, **opts)
                v, err = call(run)
                base = dict(a='grad', obs=spec_obs(obs))
                evs = []
                if err:
                    evs.append(dict(base, err=err))
                else:
                    try:
                        _, om, us = v
                        okshape = len(om) == steps and len(us) == steps + 1
                    except Exception:
                        okshape = False
                    if not okshape:
                        evs.append(dict(base, err='run did not return one gradient per step'))
                    else:
                        for k in range(steps):
                            evs.append(event(base, lambda: dict(grad_fields(om[k], n), r=bloch_u(us[k + 1], n))))
                out.add(group(n), 'run %s n=%d' % (ks, n), evs)


# ---------------------------------------------------------------- C07
def c07(out, rng, tier):
    big = tier == 'thorough'
    for n, reps in ((1, 14), (2, 18), (3, 8), (4, 1)):
        for i in range(reps * (4 if big else 1)):
            single = rng.random() < 0.4
            nobs = 1 if single else rng.randint(6, 9) if n < 3 and rng.random() < 0.1 else rng.randint(1, 4)
            obs = []
            for _ in range(nobs):
                if rng.random() < 0.25:
                    herm = [o for o in obs if isinstance(o.q, qml.Hermitian)]
                    obs.append(rand_involution(rng, n, [int(w) for w in rng.choice(herm).q.wires] if herm and rng.random() < 0.7 else None))
                elif obs and rng.random() < 0.1:
                    obs.append(rng.choice(obs))
                elif rng.random() < 0.15:
                    q = rng.randrange(n)
                    obs.append(Obs(qml.Hadamard(q), [(pos_of(lift([1], [q], n)), math.sqrt(.5)), (pos_of(lift([3], [q], n)), math.sqrt(.5))]))
                else:
                    obs.append(rand_word_obs(rng, n))
            eta = eta_of(rng)
            steps = rng.choice([1, 2, 3, 6]) if n < 3 else rng.choice([1, 2, 3])
            if n == 4:
                obs, steps = obs[:2], rng.choice([1, 2])
            if i < 2 and n < 3:
                obs, steps, eta = obs[:2], 60 if n == 1 else 30, rng.choice([0.01, 0.02, 0.05, 0.3, 1.0])
            circuit, U0 = gate_circuit(rng, n, rng.choice([0, 1, 4, 6]), size=rng.choice([3.0, 3.0, 3.0, 0.05, 1e-2, 1e-3]))
            def exact(m, **kw):
                return call(optimizers.exact_lie_optimizer, circuit, [], [o.q for o in obs], dev(n), nsteps=m, eta=eta, tol=0.0, **kw)
            r, err = exact(steps, return_state=True, return_unitary=True)
            before = U0
            if steps > 1 and not err:
                before, err = exact(steps - 1, return_unitary=True)
                before = before if err else before[1]
            base = dict(a='exact', obs=spec_obs(obs), eta=fx(eta))
            evs = []
            if err:
                evs.append(dict(base, err=err))
            else:
                try:
                    costs, states, after = r
                    ok = len(costs) == len(states) and len(costs) >= 2
                except Exception:
                    ok = False
                if not ok:
                    evs.append(dict(base, err='costs and states do not belong together'))
                else:
                    for k in range(len(costs) - 1):
                        evs.append(event(base, lambda: dict(r=bloch(states[k], n) if k else bloch_u(U0, n), r1=bloch(states[k + 1], n),
                                                            c0=fx(costs[k]), c1=fx(costs[k + 1]),
                                                            **(probes(before, after, n) if k == steps - 1 else NOPROBE))))
            out.add(group(n), 'exact n=%d #%d eta=%s steps=%d' % (n, i, eta, steps), evs)
    # the shift rule itself, for pure and mixed states
    for n, reps in ((1, 6), (2, 6), (3, 4)):
        for i in range(reps * (4 if big else 1)):
            ob = rand_word_obs(rng, n)
            O = ob.matrix(n)
            k = rng.randint(1, 3)
            ps = [rng.random() for _ in range(k)]
            rho = np.zeros((2 ** n, 2 ** n), dtype=complex)
            for p in ps:
                U = rand_unitary(rng, n, 'generic')
                rho = rho + p / sum(ps) * np.outer(U[:, 0], U[:, 0].conj())
            gate = lambda t: math.cos(t / 2) * np.eye(2 ** n) - 1j * math.sin(t / 2) * O  # noqa
            H, err = call(circuit_tools.param_shift_comm, rho, gate)
            base = dict(a='comm', obs=[ob.spec()])

            def fields():
                cs = pauli_coeffs(H, n)
                return dict(hc=[fx(c.real * 2 ** n) for c in cs], herm=bool(max(abs(c.imag) for c in cs) < 1e-9),
                            r=[fx((c * 2 ** n).real) for c in pauli_coeffs(rho, n)])
            out.add(group(n), 'shift rule n=%d #%d' % (n, i), [dict(base, err=err) if err else event(base, fields)])


# ---------------------------------------------------------------- C09
def line_trace(rng, n, kind, steps, obs, U, kw, restart=0.0):
    su = [True, True, False] if kind == 'squared' else [kw.get('add_su2', True), kw.get('add_su4', True), True]
    base = dict(a='line', obs=spec_obs(obs), su=su, mem=kind == 'squared')
    layer, err = call(make_layer, kind, n, [o.q for o in obs], **kw)
    if err:
        return [dict(base, err=err)]
    evs = []
    poke = twin(rng, kind, n, **kw)
    for k in range(steps):
        poke()
        U0 = np.array(U)
        U1, err = call(layer, U)
        if err:
            evs.append(dict(base, err=err))
            break
        evs.append(event(base, lambda: dict(r=bloch_u(U0, n), r1=bloch_u(U1, n), v=sparse_v(step_v(U0, U1), n))))
        if evs[-1]['err']:
            break
        U = onward(rng, U, U1, n, stay=1 - restart)
    return evs


def weighted(rng, n, count):
    """observables with very different weights, so that second-best directions differ from the best"""
    out = []
    for _ in range(count):
        k = rng.randint(1, min(2, n))
        sites = rng.sample(range(n), k)
        ls = [rng.randint(1, 3) for _ in sites]
        c = round(rng.uniform(-0.9, 0.9), 5)
        m = c * pauli_matrix(ls)
        out.append(Obs(qml.Hermitian(m, wires=sites), [(pos_of(lift(ls, sites, n)), c)]))
    return out


def heavy(rng, n, count):
    out = []
    for _ in range(count):
        sites = rng.sample(range(n), rng.randint(1, min(2, n)))
        ls = [rng.randint(1, 3) for _ in sites]
        c = rng.choice([-1, 1]) * round(rng.uniform(2, 3.5), 4)
        out.append(Obs(qml.Hermitian(c * pauli_matrix(ls), wires=sites), [(pos_of(lift(ls, sites, n)), c)]))
    return out


def tfim(n, g):
    obs = [Obs(word_obs([3, 3], [i, (i + 1) % n]), [(pos_of(lift([3, 3], [i, (i + 1) % n], n)), 1.0)]) for i in range(n if n > 2 else n - 1)]
    obs += [Obs(word_obs([1], [i]), [(pos_of(lift([1], [i], n)), 1.0)]) for i in range(n)]
    return obs


def c09(out, rng, tier):
    big = tier == 'thorough'
    m = 4 if big else 1
    for n, reps in ((1, 3), (2, 8), (3, 8), (4, 1), (5, 1)):
        for i in range(reps * m):
            sty = rng.choice(['word', 'herm', 'weighted', 'tfim'])
            obs = (some_obs(rng, n, 1, 4, many=0.4) if sty == 'word' else rand_obs(rng, n, 2, herm=1.0) if sty == 'herm'
                   else weighted(rng, n, 4) if sty == 'weighted' else tfim(n, 1.0))
            U = rand_unitary(rng, n)
            out.add(group(n), 'squared n=%d %s #%d' % (n, sty, i),
                    line_trace(rng, n, 'squared', (5, 5, 5, 3, 2)[n - 1], obs, U, dict(eta=eta_of(rng)), restart=rng.choice([0.0, 0.5])))
    for n, reps in ((3, 6), (4, 1), (5, 1)):
        for i in range(reps * m):
            sty = rng.choice(['word', 'herm', 'weighted', 'tfim'])
            obs = (some_obs(rng, n, 1, 4, many=0.4) if sty == 'word' else rand_obs(rng, n, 2, herm=1.0) if sty == 'herm'
                   else weighted(rng, n, 4) if sty == 'weighted' else tfim(n, 1.0))
            kw = dict(eta=eta_of(rng))
            if rng.random() < 0.5:
                kw.update(add_su2=rng.random() < 0.5, add_su4=rng.random() < 0.5)
            U = rand_unitary(rng, n)
            out.add(group(n), 'su8 n=%d %s #%d %s' % (n, sty, i, kw), line_trace(rng, n, 'su8', (4, 2, 1)[n - 3], obs, U, kw, restart=rng.choice([0.0, 0.5, 0.7])))
    # the line search itself, along arbitrary words
    for n, reps in ((1, 8), (2, 12), (3, 6)):
        for i in range(reps * m):
            obs = some_obs(rng, n, 1, 3, herm=0.4)
            w = word_of(n, rng.randrange(1, 4 ** n))
            U = rand_unitary(rng, n)
            if i % 3 == 0:
                # exactly on a maximum, a minimum or a plateau of the line
                obs = some_obs(rng, n, 1, 2)
                U = rand_unitary(rng, n, rng.choice(['identity', 'clifford']))
                if i % 2 == 0 and n < 3:
                    q = rng.randrange(n)
                    obs = [Obs(word_obs([3], [q]), [(pos_of(lift([3], [q], n)), 1.0)])]
                    U = np.eye(2 ** n, dtype=complex)
                    w = lift([rng.randint(1, 2)], [q], n)
            base = dict(a='roto', obs=spec_obs(obs), p=pos_of(w))
            def search():
                return opt_tools.rotosolve(pauli_matrix(w), [o.q for o in obs], qml.QNode(circuit_tools.circuit_observable_from_unitary, dev(n)), U,
                                           sum(1 for a in w if a))
            v, err = call(search)
            if i % 3 == 1 and not err:
                # close to the optimum, or to the opposite of it
                U = rot_matrix(w, rng.choice([0, 0, math.pi]) + rng.choice([-1, 1]) * rng.choice([1e-2, 1e-3, 1e-4, 3e-5])) @ np.asarray(v[0])
                v, err = call(search)
            if err:
                ev = dict(base, err=err)
            else:
                ev = event(base, lambda: dict(r=bloch_u(U, n), r1=bloch_u(v[0], n), v=sparse_v(step_v(U, v[0]), n), th=fx(v[1])))
            out.add(group(n), 'rotosolve n=%d #%d %s' % (n, i, w), [ev])


# ---------------------------------------------------------------- C17
def drawn(alg, v, n):
    """the draw, and whether the operator filed for it is the named word on the drawn qubits"""
    d, qs = letters(str(v[0])), [int(q) for q in v[1]]
    emb = True
    m = next((x for k, x in getattr(alg, 'full_paulis', {}).items() if str(k[0]) == str(v[0]) and [int(q) for q in k[1:]] == qs), None)
    if m is not None and len(d) == len(qs) and len(set(qs)) == len(qs) and max(qs) < n:
        w = pauli_matrix(lift(d, qs, n))
        emb = np.shape(m) == w.shape and bool(np.max(np.abs(m - w)) < 1e-9)
    return dict(d=d, qs=qs, embedded=emb)


class Spy:
    """records the draws of a layer's sampler, whatever the attribute holding it is called"""

    def __init__(self, layer):
        self.seen, self.on = [], False
        for x in list(vars(layer).values()):
            draw = getattr(x, 'get_random_direction_and_qubits', None)
            if draw is not None:
                def spied(*a, _draw=draw, **kw):
                    v = _draw(*a, **kw)
                    self.seen.append(v)
                    return v
                try:
                    x.get_random_direction_and_qubits = spied
                    self.on = True
                except AttributeError:
                    pass

    def last(self, layer, k=1):
        """the draw used by the last call of the layer, or None if it cannot be told"""
        d, q = getattr(layer, 'current_direction', None), getattr(layer, 'current_qubits', None)
        if d is not None and q is not None:
            return d, q
        if self.on and len(self.seen) == k:
            return self.seen[-1]
        return None


def c17(out, rng, tier):
    big = tier == 'thorough'
    for n in (1, 2, 3, 4, 5, 6, 7, 8):
        for su2 in (True, False):
            if not su2 and n % 2:
                continue
            if n == 1 and not su2:
                continue
            for rep in range(8 if big else 3 if n < 6 else 1):
                np.random.seed(rng.randrange(2 ** 31))
                alg, err = call(opt_tools.AlgebraSU4, n, add_su2=su2)
                base = dict(a='draw', su2=su2)
                evs = []
                if err:
                    evs.append(dict(base, err=err))
                else:
                    for k in range(200 if big else 60):
                        v, err = call(alg.get_random_direction_and_qubits)
                        if err:
                            evs.append(dict(base, err=err))
                            break
                        evs.append(event(base, lambda: drawn(alg, v, n)))
                        if evs[-1]['err']:
                            break
                out.add('sampler_n%d' % n, 'sampler n=%d su2=%s #%d' % (n, su2, rep), evs)
    for n, reps, steps in ((1, 2, 8), (2, 4, 14), (3, 4, 16), (4, 1, 10), (5, 1, 6)):
        for rep in range(reps * (3 if big else 1)):
            obs = some_obs(rng, n, 1, 3, herm=0.5)
            eta = rng.choice([1.0, 0.5, 0.9])
            np.random.seed(rng.randrange(2 ** 31))
            kw = dict(eta=eta, unitary_error_check=rng.random() < 0.3)
            layer, err = call(make_layer, 'stochastic', n, [o.q for o in obs], **kw)
            base = dict(a='stoch', su2=True, obs=spec_obs(obs), eta=fx(eta))
            evs = []
            U = rand_unitary(rng, n, rng.choice(['generic', 'generic', 'near']) if rep else 'generic')
            spy = None
            if err:
                evs.append(dict(base, err=err))
            else:
                spy = Spy(layer)
                poke = twin(rng, 'stochastic', n, **kw)
            for k in range(0 if err else steps):
                poke()
                U0 = np.array(U)
                # options of the surrounding run must not matter
                U1, err = call(layer, U, **rng.choice([{}, dict(eta=0.77, nsteps=3, tol=0.2)]))
                if err:
                    evs.append(dict(base, err=err))
                    break

                def fields():
                    vs = sparse_v(step_v(U0, U1), n)
                    dq = spy.last(layer, k + 1)
                    if dq is None:     # the draw is not exposed: take it from the rotation, if there is a clear one
                        seen = [x for x in vs if x[0] != 1]
                        if not seen or max(abs(x[1]) + abs(x[2]) for x in seen) < 1000:
                            return None
                        w = word_of(n, max(seen, key=lambda x: abs(x[1]) + abs(x[2]))[0] - 1)
                        q = [i for i in range(n) if w[i]]
                        d = ''.join(LET[w[i]] for i in q)
                    else:
                        d, q = dq
                    return dict(d=letters(str(d)), qs=[int(x) for x in q], v=vs, r=bloch_u(U0, n), r1=bloch_u(U1, n))
                if fields() is None:
                    break
                evs.append(event(base, fields))
                if evs[-1]['err']:
                    break
                U = onward(rng, U, U1, n, stay=0.7)
            out.add(group(n), 'stochastic n=%d #%d' % (n, rep), evs)


# ---------------------------------------------------------------- C18
def zass_events(rng, n, obs, kw, U, steps, via_run=False):
    ratio = list(kw.get('ratio', (1, 1)))
    eta = kw.get('eta', 0.1)
    base = dict(a='zass', obs=spec_obs(obs), ratio=ratio, eta=fx(eta))
    evs = []
    if via_run:
        circuit, U0 = gate_circuit(rng, n, 6)
        v, err = call(lambda: optimizers.approximate_lie_optimizer(circuit, [], [o.q for o in obs], dev(n),
                                                                   [make_layer('zassenhaus', n, [o.q for o in obs], **kw)],
                                                                   nsteps=steps, tol=None, return_unitary=True, return_zassenhaus=True))
        if err:
            return [dict(base, err=err)]
        try:
            _, us, zs = v
            assert len(us) == steps + 1 and len(zs) == steps
        except Exception:
            return [dict(base, err='run did not return one phase per step')]
        pairs = [(us[k], us[k + 1], str(zs[k])) for k in range(steps)]
    else:
        layer, err = call(make_layer, 'zassenhaus', n, [o.q for o in obs], **kw)
        if err:
            return [dict(base, err=err)]
        pairs = []
        poke = twin(rng, 'zassenhaus', n, **kw)
        for k in range(steps):
            poke()
            ph = str(getattr(layer, 'su_state', ''))
            U0 = np.array(U)
            U1, err = call(layer, U)
            if err:
                pairs.append((None, err, ''))
                break
            pairs.append((U0, np.array(U1), ph))
            U = onward(rng, U, U1, n, stay=0.75)
    th = 0.0   # angle of the last visible rotation in the line-search phase; a witness, checked by the spec
    cnt, phase = 0, 'su4'
    for U0, U1, ph in pairs:
        if U0 is None:
            evs.append(dict(base, err=U1))
            break

        def fields():
            V = step_v(U0, U1)
            vs = sparse_v(V, n)
            cs = pauli_coeffs(V, n)
            k = max(range(1, 4 ** n), key=lambda j: abs(cs[j]))
            a, b = cs[0], cs[k]
            c = abs(a) ** 2 - abs(b) ** 2
            s = 2 * (a.imag * b.real - a.real * b.imag)
            ang = math.atan2(s, c)                       # (-pi, pi]
            x = 0.0
            tha = th
            if phase == 'su4':
                # the angle of exp(-i th/2 P), read off the matrix; principal range [-3 pi/2, pi/2]
                tha = 2 * math.atan2(-b.imag, a.real)
                if abs(a.imag) > 1e-6 or abs(b.real) > 1e-6 or not -1.5 * math.pi - 1e-6 <= tha <= math.pi / 2 + 1e-6:
                    tha = ang if ang <= math.pi / 2 + 1e-9 else ang - 2 * math.pi
            else:
                x = z_witness(vs, obs, n, bloch_f(U0, n), eta, th)
            return dict(phase=ph, v=vs, th=fx(tha), x=fx(max(-19, min(19, x))), r=bloch_u(U0, n), r1=bloch_u(U1, n), _th=tha)
        ev = event(base, fields)
        if '_th' in ev:
            if phase == 'su4':
                th = ev['_th']
            del ev['_th']
        evs.append(ev)
        if ev['err']:
            break
        cnt += 1
        if cnt >= (ratio[0] if phase == 'su4' else ratio[1]):
            phase, cnt = ('su8' if phase == 'su4' else 'su4'), 0
    return evs


def bloch_f(U, n):
    return [x / SCALE for x in bloch_u(U, n)]


def z_witness(vs, obs, n, r, eta, th):
    """candidate angle x with x * th = -+ eta * gradient / dim; the spec checks it.  The gate a is not known here, so solve from V:
    exp(-i x B) has cos 2x, sin 2x visible; take the representative whose product with th is consistent for some previous gate."""
    if abs(th) < 1e-9:
        return 0.0
    rot = [v for v in vs if v[0] != 1]
    ident = [v for v in vs if v[0] == 1]
    if len(rot) != 1:
        b = 0j
    else:
        b = complex(rot[0][1], rot[0][2]) / SCALE
    a = complex(ident[0][1], ident[0][2]) / SCALE if ident else 0j
    c = abs(a) ** 2 - abs(b) ** 2
    s = 2 * (a.imag * b.real - a.real * b.imag)
    x0 = math.atan2(s, c) / 2                            # mod pi
    # possible right-hand sides: any three-qubit word gradient
    best, bx = None, x0
    words = [word_of(n, k) for k in range(4 ** n)]
    for k, w in enumerate(words):
        if sum(1 for q in w if q) != 3:
            continue
        g = grad_f(r, k, obs, n)
        for sg in (1, -1):
            want = sg * eta * g / 2 ** n / th
            m = round((want - x0) / math.pi)
            d = abs(x0 + m * math.pi - want)
            if best is None or d < best - 1e-12:
                best, bx = d, want
    return bx


def grad_f(r, k, obs, n):
    w = word_of(n, k)
    tot = 0.0
    for o in obs:
        for p, c in o.terms:
            v = word_of(n, p - 1)
            ph, pr = 0, []
            for x, y in zip(w, v):
                if x and y and x != y:
                    ph += 1 if (x, y) in ((1, 2), (2, 3), (3, 1)) else 3
                    pr.append(6 - x - y)
                else:
                    pr.append(0 if x == y else x or y)
            ph %= 4
            if ph in (1, 3):
                tot += 2 * (1 if ph == 1 else -1) * c * r[pos_of(pr) - 1]
    return tot


def flat_world(rng):
    """three qubits; no two-qubit direction has a slope (but for rounding), the observable is low along all of them, a three-qubit
    direction has a slope"""
    V = np.eye(8, dtype=complex)
    turned = rng.random() < 0.7
    if turned:
        for q in range(3):
            for a in (3, 2, 3):
                V = rot_matrix(lift([a], [q], 3), rng.uniform(-3, 3)) @ V
    U = V @ rot_matrix([rng.choice([1, 2]) for _ in range(3)], rng.uniform(1.7, 4.5) if rng.random() < 0.8 else rng.uniform(0.1, 1.4))
    if rng.random() < 0.5:
        size = 10.0 ** -rng.randint(9, 15)
        for _ in range(6):
            U = rot_matrix(word_of(3, rng.randrange(1, 64)), rng.uniform(-size, size)) @ U
    if not turned:
        return [Obs(word_obs([3, 3, 3], [0, 1, 2]), [(64, 1.0)])], U
    M = V @ pauli_matrix([3, 3, 3]) @ V.conj().T
    M = (M + M.conj().T) / 2
    return [Obs(qml.Hermitian(M, wires=[0, 1, 2]), [(k + 1, float(np.trace(pauli_matrix(word_of(3, k)) @ M).real / 8)) for k in range(64)
                                                    if sum(1 for a in word_of(3, k) if a) == 3])], U


def c18(out, rng, tier):
    big = tier == 'thorough'
    ratios = [(1, 1), (2, 1), (1, 2), (3, 2), (2, 3), (1, 4)]
    for n, reps in ((3, 9), (4, 1)):
        for i in range(reps * (4 if big else 1)):
            sty = rng.choice(['tfim', 'word', 'single', 'herm'])
            obs = (tfim(n, 1) if sty == 'tfim' else rand_obs(rng, n, 3) if sty == 'word' else
                   rand_obs(rng, n, 1, maxw=2) if sty == 'single' else rand_obs(rng, n, 2, herm=1.0))
            kw = dict(eta=rng.choice([0.1, 0.5, 1.0, 0.33]))
            if i % 4 != 3:
                kw['ratio'] = ratios[i % len(ratios)] if not big else rng.choice(ratios)
            run = i % 3 == 1
            U = rand_unitary(rng, n)
            if n == 3 and i % 4 == 2:
                obs, U = flat_world(rng)
                run = False
            if n == 3 and i in (7, 8):
                kw['ratio'] = ((6, 1), (1, 7), (5, 5), (8, 2))[rng.randrange(4)]
            steps = (2 * sum(kw.get('ratio', (1, 1))) + 1) if n == 3 else 4
            out.add(group(n), 'zassenhaus n=%d %s #%d %s run=%s' % (n, sty, i, kw, run), zass_events(rng, n, obs, kw, U, steps, run))


# ---------------------------------------------------------------- C10
class StubOptimizer:
    """stands for the parameter optimizer: records the circuit it is given and returns scripted parameters"""

    def __init__(self, rng, n, nprobe=2, length=3):
        self.rng, self.n, self.calls, self.nprobe, self.length = rng, n, [], nprobe, length

    def __call__(self, circuit, params, observables, device=None, **kw):
        rng = self.rng

        def like(p):
            return [like(x) for x in p] if isinstance(p, (list, tuple, np.ndarray)) else round(rng.uniform(-1, 1) * rng.choice([3, 3, 3, 3, 9, 9, 0.01, 1e-3, 0]), 6)
        probes = []
        for _ in range(self.nprobe):
            ps = like(params)
            probes.append((ps, circuit_unitary(circuit, ps, self.n)))
        hist = [np.array(params)] + [np.array(like(params)) for _ in range(self.length)]
        self.calls.append(dict(handed=as_list(params), probes=probes, last=as_list(hist[-1]), kw=dict(kw)))
        return [0.0] * len(hist), hist


def as_list(p):
    if isinstance(p, (list, tuple, np.ndarray)):
        return [as_list(x) for x in p]
    return float(p)


def circuit_unitary(circuit, params, n):
    """unitary of a gate circuit, composed by the harness from the recorded tape"""
    with qml.tape.QuantumTape() as tape:
        circuit(params)
    U = np.eye(2 ** n, dtype=complex)
    for op in tape.operations:
        U = embed(np.asarray(op.matrix), [int(w) for w in op.wires], n) @ U
    return U


def embed(m, wires, n):
    k = len(wires)
    out = np.zeros((2 ** n, 2 ** n), dtype=complex)
    for x in range(2 ** n):
        sx = 0
        for w in wires:
            sx = 2 * sx + ((x >> (n - 1 - w)) & 1)
        for sy in range(2 ** k):
            y = x
            for j, w in enumerate(wires):
                bit = (sy >> (k - 1 - j)) & 1
                mask = 1 << (n - 1 - w)
                y = (y | mask) if bit else (y & ~mask)
            out[y, x] = m[sy, sx]
    return out


def ising(n, ring=True):
    es = [(i, (i + 1) % n) for i in range(n if ring and n > 2 else n - 1)]
    return [Obs(word_obs([3, 3], e), [(pos_of(lift([3, 3], e, n)), 1.0)]) for e in es]


def gates_fields(gates):
    res = []
    for (key, x) in gates:
        res.append(dict(d=letters(str(key[0])), q=[int(k) for k in key[1:]], x=fx(x)))
    return res


def c10(out, rng, tier):
    big = tier == 'thorough'
    for n, reps in ((1, 2), (2, 8), (3, 10), (4, 3), (5, 1)):
        for i in range(reps * (4 if big else 1)):
            sty = rng.choice(['tfim', 'ising', 'word', 'herm'])
            obs = (tfim(n, 1) if sty == 'tfim' else ising(n) if sty == 'ising' and n > 1 else
                   rand_obs(rng, n, 2, herm=1.0) if sty == 'herm' else rand_obs(rng, n, 3))
            # symmetric starts give many equally steep directions
            start = rng.choice(['sym', 'sym', 'rand'])
            U = np.eye(2 ** n, dtype=complex)
            if start == 'sym':
                for a in (2, 3, 1):
                    t = rng.uniform(-2, 2)
                    for q in range(n):
                        U = rot_matrix(lift([a], [q], n), t) @ U
            else:
                U = rand_unitary(rng, n)
            layer, err = call(make_layer, 'squared', n, [o.q for o in obs], eta=0.2)
            base = dict(a='commute', obs=spec_obs(obs))
            evs = []
            if err:
                evs.append(dict(base, err=err))
            for k in range(0 if err else 3 if n < 5 else 1):
                if k == 1 and rng.random() < 0.4:
                    # an ordinary greedy step in between
                    lb = dict(a='line', obs=spec_obs(obs), su=[True, True, False], mem=True)
                    U0 = np.array(U)
                    U1, err = call(layer, U)
                    if err:
                        evs.append(dict(lb, err=err))
                        break
                    evs.append(event(lb, lambda: dict(r=bloch_u(U0, n), r1=bloch_u(U1, n), v=sparse_v(step_v(U0, U1), n))))
                    if evs[-1]['err']:
                        break
                    U = U1
                stub = StubOptimizer(rng, n, length=rng.randint(1, 3))
                U0 = np.array(U)
                v, err = call(layer, U, commute=True, optimizer=stub)
                if err:
                    evs.append(dict(base, err=err))
                    break

                def fields():
                    U1, gates = v
                    if len(stub.calls) != 1:
                        raise Bad('the parameter optimizer was called %d times' % len(stub.calls))
                    c = stub.calls[0]
                    return dict(r=bloch_u(U0, n), r1=bloch_u(U1, n), gates=gates_fields(gates), np=len(c['handed']), last=fxl(c['last']),
                                **probes(U0, U1, n, 4), probe=[dict(x=fxl(ps), r=bloch_u(Up, n)) for ps, Up in c['probes']])
                evs.append(event(base, fields))
                if evs[-1]['err']:
                    break
                U = v[0]
            out.add(group(n), 'commute n=%d %s %s #%d' % (n, sty, start, i), evs)
    # a run in this mode, with the real optimizer
    for n, sty in ((2, 'ising'), (2, 'word')) + (((3, 'ising'), (3, 'tfim'), (2, 'tfim')) if big else ()):
        obs = ising(n) if sty == 'ising' else tfim(n, 1) if sty == 'tfim' else rand_obs(rng, n, 2)
        circuit, U0 = gate_circuit(rng, n, 4)
        steps = 2
        v, err = call(lambda: optimizers.approximate_lie_optimizer(circuit, [], [o.q for o in obs], dev(n),
                                                                   [make_layer('squared', n, [o.q for o in obs])], nsteps=steps, tol=None,
                                                                   commute=True, return_gates=True, return_unitary=True))
        base = dict(a='commute', obs=spec_obs(obs))
        evs = []
        if err:
            evs.append(dict(base, err=err))
        else:
            try:
                _, us, gs = v
                assert len(us) == steps + 1 and len(gs) == steps
            except Exception:
                evs.append(dict(base, err='run did not return one gate list per step'))
            else:
                for k in range(steps):
                    def fields():
                        g = gates_fields(gs[k])
                        return dict(r=bloch_u(us[k], n), r1=bloch_u(us[k + 1], n), gates=g, np=len(g), last=[x['x'] for x in g], probe=[], **probes(us[k], us[k + 1], n))
                    evs.append(event(base, fields))
        out.add(group(n), 'commute run n=%d %s' % (n, sty), evs)


# ---------------------------------------------------------------- C11
def c11(out, rng, tier):
    big = tier == 'thorough'
    for n, reps in ((2, 6), (3, 6), (4, 1), (5, 1)):
        for i in range(reps * (4 if big else 1)):
            sty = rng.choice(['tfim', 'word', 'herm', 'ising'])
            obs = (tfim(n, 1) if sty == 'tfim' else ising(n) if sty == 'ising' else
                   rand_obs(rng, n, 2, herm=1.0) if sty == 'herm' else rand_obs(rng, n, 3))
            layer, err = call(make_layer, 'adapt', n, [o.q for o in obs])
            base = dict(a='adapt', obs=spec_obs(obs))
            evs = []
            if err:
                evs.append(dict(base, err=err))
            U = np.eye(2 ** n, dtype=complex)
            for q in range(n):
                U = embed(np.array([[1, 1], [1, -1]]) / math.sqrt(2), [q], n) @ U
            HAD = np.array(U)
            if rng.random() < 0.5:
                U = rand_unitary(rng, n, 'generic')
            params = []
            poke = twin(rng, 'adapt', n)
            for k in range(0 if err else (8 if n == 2 and i % 3 == 2 else 4 if n < 4 else 2)):
                poke()
                stub = StubOptimizer(rng, n, length=rng.randint(1, 3))
                U0 = np.array(U)
                pin = as_list(params)
                v, err = call(layer, U, optimizer=stub, params=params)
                if err:
                    evs.append(dict(base, err=err))
                    break

                def fields():
                    U1, ps = v
                    if len(stub.calls) != 1:
                        raise Bad('the parameter optimizer was called %d times' % len(stub.calls))
                    c = stub.calls[0]
                    return dict(r=bloch_u(U0, n), r1=bloch_u(U1, n), **probes(HAD, U1, n, 4), pin=[fxl(x) for x in pin], handed=[fxl(x) for x in c['handed']],
                                out=[fxl(x) for x in as_list(ps)], last=[fxl(x) for x in c['last']],
                                probe=[dict(x=[fxl(y) for y in ps2], r=bloch_u(Up, n)) for ps2, Up in c['probes']])
                evs.append(event(base, fields))
                if evs[-1]['err']:
                    break
                U, params = v
            out.add(group(n), 'adapt n=%d %s #%d' % (n, sty, i), evs)


# ---------------------------------------------------------------- C19
def unit_event(U, n, lim=100):
    def f():
        re, im = rows(U, n)
        return dict(re=re, im=im, uerr=uerr(U))
    return event(dict(a='unit', lim=lim), f)


@contextlib.contextmanager
def inexact_expm(rng, n, size):
    """matrix exponentials with an error: the unitary R comes out as R P with P positive, whose closest unitary is R"""
    real = scipy.linalg.expm
    seeds = np.random.RandomState(rng.randrange(2 ** 31))

    def expm(A, *a, **kw):
        R = real(A, *a, **kw)
        if np.shape(R) != (2 ** n, 2 ** n):
            return R
        X = seeds.randn(2 ** n, 2 ** n) + 1j * seeds.randn(2 ** n, 2 ** n)
        X = X + X.conj().T
        return R @ real(size * X / np.max(np.abs(np.linalg.eigvalsh(X))))
    scipy.linalg.expm = expm
    try:
        yield
    finally:
        scipy.linalg.expm = real


def c19(out, rng, tier):
    big = tier == 'thorough'
    m = 3 if big else 1
    for n in (1, 2, 3):
        kinds = ['local', 'custom', 'stochastic', 'squared'] + (['local2', 'zassenhaus2'] if n == 2 else []) + (['su8', 'zassenhaus'] if n == 3 else [])
        for kind in kinds:
            for rep in range(2 * m):
                obs = some_obs(rng, n, 1, 3, herm=0.3)
                kw = dict(eta=eta_of(rng), unitary_error_check=bool(rep % 2))
                if kind in ('local', 'custom', 'local2'):
                    kw['trotterize'] = rng.random() < 0.5
                evs = []
                U = rand_unitary(rng, n)
                seed = rng.randrange(10 ** 6)
                layers = []
                for chk in (kw['unitary_error_check'], not kw['unitary_error_check']):
                    ly, err = call(make_layer, kind, n, [o.q for o in obs], **dict(kw, unitary_error_check=chk))
                    if err:
                        evs.append(dict(a='unit', err=err))
                    layers.append(ly)
                if not evs:
                    for k in range(4):
                        np.random.seed(seed + k)
                        U1, err = call(layers[0], U)
                        np.random.seed(seed + k)
                        U2, err2 = call(layers[1], U)
                        if err or err2:
                            evs.append(dict(a='unit', err=err or err2))
                            break
                        evs.append(unit_event(U1, n))
                        if evs[-1]['err']:
                            break
                        evs.append(event(dict(a='same', what='error-check-changes-step'), lambda: dict(r=bloch_u(U1, n), r1=bloch_u(U2, n))))
                        if evs[-1]['err']:
                            break
                        U = U1
                out.add(group(n), 'layer %s n=%d %s' % (kind, n, kw), evs)
    # many calls of one layer
    for i, (kind, n) in enumerate([('stochastic', 2), ('local', 1), ('squared', 2), ('custom', 2), ('local2', 2), ('su8', 3), ('zassenhaus', 3)]):
        obs = some_obs(rng, n, 1, 2)
        layer, err = call(make_layer, kind, n, [o.q for o in obs], eta=eta_of(rng), unitary_error_check=rng.random() < 0.3)
        evs = [dict(a='unit', err=err)] if err else []
        U = rand_unitary(rng, n)
        np.random.seed(rng.randrange(2 ** 31))
        for k in range(0 if err else (70 if kind in ('stochastic', 'local') else 40) * (3 if big else 1)):
            U, err = call(layer, U)
            if err:
                evs.append(dict(a='unit', err=err))
                break
            if k % 4 == 3:
                evs.append(unit_event(U, n))
        out.add(group(n), 'many calls %s n=%d' % (kind, n), evs)
    # steps that are not unitary, because the matrix exponential is not accurate: the closest unitary is the exact one
    for n in (1, 2, 3):
        for kind in ['local', 'custom', 'stochastic'] + (['local2'] if n == 2 else []):
            for size in (1.0, 0.1, 0.01, 1e-3, 1e-5) if n < 3 or big else (0.03, 1e-3):
                obs = some_obs(rng, n, 1, 2)
                eta = rng.choice([1.0, 0.5])
                kw = dict(eta=eta, unitary_error_check=True)
                base = dict(obs=spec_obs(obs), eta=fx(eta))
                trot = kw['trotterize'] = rng.random() < 0.5
                if kind in ('local', 'local2'):
                    base.update(a='local', k=1 if kind == 'local' else 2, trot=trot, dirs=[letters(d) for d in dirnames(1 if kind == 'local' else 2)])
                elif kind == 'custom':
                    sel = rng.sample(dirnames(1) + (dirnames(2) if n > 1 else []), 3)
                    base.update(a='custom', trot=trot, dirs=[letters(d) for d in sel])
                else:
                    base.update(a='stoch', su2=True)
                if kind == 'custom':
                    layer, err = call(lambda: opt_tools.CustomDirectionLieAlgebraLayer(dev(n), [o.q for o in obs], sel, **kw))
                else:
                    layer, err = call(make_layer, kind, n, [o.q for o in obs], **kw)
                evs = []
                np.random.seed(rng.randrange(2 ** 31))
                U = rand_unitary(rng, n, 'generic')
                if err:
                    evs.append(dict(base, err=err))
                spy = None if err else Spy(layer)
                for k in range(0 if err else 2):
                    with inexact_expm(rng, n, size):
                        U1, err = call(layer, U)
                    if err:
                        evs.append(dict(base, err=err))
                        break
                    evs.append(unit_event(U1, n, lim=1000))
                    if kind == 'stochastic':
                        dq = spy.last(layer, k + 1)
                        if dq is None:
                            break
                        f = lambda: dict(d=letters(str(dq[0])), qs=[int(x) for x in dq[1]],  # noqa
                                         v=sparse_v(step_v(U, U1), n), r=bloch_u(U, n), r1=bloch_u(U1, n))
                    else:
                        f = lambda: dict(r=bloch_u(U, n), r1=bloch_u(U1, n), **probes(U, U1, n))  # noqa
                    evs.append(event(base, f))
                    if evs[-1]['err'] or evs[-2]['err']:
                        break
                    U = U1
                out.add(group(n), 'projected step %s n=%d size=%s' % (kind, n, size), evs)
    # the check and the projection themselves
    for n in (1, 2, 3):
        for rep in range(4 * m):
            ly, err = call(make_layer, 'local', n, [rand_word_obs(rng, n).q], unitary_error_check=True)
            if err:
                out.add(group(n), 'projection n=%d' % n, [dict(a='unit', err=err)])
                continue
            U = rand_unitary(rng, n, 'generic')
            M = U + [0.3, 0.05, 1e-4, 1e-6][rep % 4] * (rand_unitary(rng, n, 'generic') + 1j * rand_unitary(rng, n, 'generic'))
            P, err = call(ly._project_onto_unitary, M) if hasattr(ly, '_project_onto_unitary') else (None, 'skip')
            evs = []
            if err != 'skip':
                if err:
                    evs.append(dict(a='unit', err=err))
                else:
                    def f():
                        re, im = rows(P, n)
                        pol = np.asarray(P).conj().T @ M
                        pre, pim = rows(pol, n)
                        ev = np.linalg.eigvalsh((pol + pol.conj().T) / 2)
                        return dict(lim=100, re=re, im=im, uerr=uerr(P), pre=pre, pim=pim, mineig=fx(float(min(ev))))
                    evs.append(event(dict(a='polar'), f))
            if hasattr(ly, '_is_unitary'):
                for X in (U, M):
                    w, err = call(ly._is_unitary, X)
                    evs.append(dict(a='isunit', err=err) if err else event(dict(a='isunit', err=''), lambda: dict(says=bool(w), uerr=uerr(X))))
            out.add(group(n), 'projection n=%d #%d' % (n, rep), evs)
    # optimizers, perturbations included
    for n in (1, 2, 3):
        for rep in range(2 * m):
            obs = some_obs(rng, n, 1, 3)
            circuit, _ = gate_circuit(rng, n, 5)
            np.random.seed(rng.randrange(10 ** 6))
            v, err = call(optimizers.exact_lie_optimizer, circuit, [], [o.q for o in obs], dev(n), nsteps=12, tol=0.5, eta=0.7,
                          perturbation=True, return_perturbations=True, return_unitary=True)
            out.add(group(n), 'exact run n=%d' % n, [dict(a='unit', err=err) if err else unit_event(v[2], n)])
            v, err = call(lambda: optimizers.approximate_lie_optimizer(circuit, [], [o.q for o in obs], dev(n),
                                                                       [make_layer('local', n, [o.q for o in obs], eta=0.5),
                                                                        make_layer('squared', n, [o.q for o in obs])], nsteps=14, tol=0.5,
                                                                       perturb=True, return_perturbations=True, return_unitary=True))
            out.add(group(n), 'approximate run n=%d' % n,
                    [dict(a='unit', err=err)] if err else [unit_event(u, n) for u in v[1][-5:]])


def bump_angle(v, rng):
    return [x + 100000 for x in v] if v else None


def wrong_draw(v, rng):
    """the same draw, repeated twice on one qubit / with an unknown letter"""
    return [v[0], v[0], v[0]]


SELFTEST = {'*': dict(grad=[('g', bump), ('keys', swap_false)], local=[('r1', bump), ('q1', bump)], custom=[('r1', bump), ('q1', bump)],
                      exact=[('r1', bump), ('c1', bump), ('q1', bump)], comm=[('hc', bump), ('herm', swap_false)], line=[('r1', bump)],
                      roto=[('r1', bump), ('th', bump)], draw=[('embedded', swap_false), ('qs', wrong_draw)], stoch=[('r1', bump)],
                      zass=[('phase', lambda v, rng: {'su4': 'su8', 'su8': 'su4'}.get(v))],
                      commute=[('r1', bump), ('q1', bump), ('last', bump_angle)], adapt=[('r1', bump), ('q1', bump)],
                      unit=[('uerr', bump)], isunit=[('says', swap_false)], polar=[('mineig', lambda v, rng: -100000)], same=[('r1', bump)])}
