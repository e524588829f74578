"""Drivers for the symbolic Zassenhaus layer (trace spec: TraceBch)."""
from lib import *
from oranssi import opt_tools, optimizers
from h_static import images, bump_img
from h_layers import spec_obs


def fit_angles(V, n):
    """angles at which the circuit of the layer would be V, were it of that form; the specification decides whether it is"""
    M = np.asarray(V, dtype=complex)
    step = 2 ** (n - 2)
    M = M[::step, ::step]           # the first two qubits, the others in state zero
    h = np.array([[1, 1], [1, -1]]) / math.sqrt(2)
    W = M @ np.kron(h, h)
    c = -2 * cmath.phase(W[0, 0]) if abs(W[0, 0]) > 1e-12 else 0.0
    u = cmath.exp(0.5j * c)
    base = (u * W[0, 0]).real
    a = 2 * math.atan2((1j / u * W[2, 0]).real, base)
    b = 2 * math.atan2((1j / u * W[1, 0]).real, base)
    return [a, b, c]


def c28(out, rng, tier):
    big = tier == 'thorough'
    for n, reps in ((2, 26), (3, 5)):
        for i in range(reps * (4 if big else 1)):
            obs = rand_obs(rng, n, rng.choice([1, 1, 2, 2, 3]), maxw=2)
            eta = rng.choice([0.0, 0.1, 0.25, 0.3, round(rng.uniform(0.01, 0.3), 3)] + ([0.5] if len(obs) == 1 else []))
            base = dict(a='fit', obs=spec_obs(obs), eta=fx(eta))
            layer, err = call(lambda: opt_tools.ZassenhausLayerV2(dev(n), [o.q for o in obs], eta=eta, **rng.choice([{}, dict(trotterize=True), dict(unitary_error_check=True)])))
            evs = []
            if err:
                evs.append(dict(base, err=err))
            U = rand_unitary(rng, n)
            for k in range(0 if err else 3):
                U0 = np.array(U)
                V, err = call(layer, U)
                evs.append(dict(base, err=err) if err else
                           event(base, lambda: dict(r=bloch_u(U0, n), img=images(V, n), x=fxl(fit_angles(V, n)))))
                if evs[-1]['err']:
                    break
                U = V if k % 2 == 0 else rand_unitary(rng, n)
            out.add('bch_n%d' % n, 'n=%d #%d eta=%s' % (n, i, eta), evs)


def shift(v, rng):
    v = list(v)
    v[rng.randrange(3)] += 10 ** 7
    return v


SELFTEST = {'*': dict(fit=[('img', bump_img), ('x', shift)])}
