"""Drivers for the directions layers report (trace spec: TraceReport)."""
from lib import *
from oranssi import opt_tools, optimizers
from h_layers import make_layer, tfim

KINDS = [('local', (1, 2, 3, 4)), ('local2', (2, 4)), ('custom', (1, 2, 3)), ('stochastic', (1, 2, 3)), ('squared', (1, 2, 3)), ('adapt', (2, 3)), ('su8', (3,)), ('zassenhaus', (3,)), ('zassenhaus2', (2, 3))]
W1 = ['X', 'Y', 'Z']
W2 = [a + b for a in W1 for b in W1]


def letters(w):
    return [LET.index(c) for c in w]


def entry(d):
    return dict(w=letters(d), q=[]) if isinstance(d, str) else dict(w=letters(d[0]), q=[int(q) for q in d[1:]])


def reported(layer, kind):
    rep = layer.get_lie_algebra_directions_strings()
    lists = rep if kind.startswith('zassenhaus') else [rep]
    text = repr(layer)
    shown = [] if kind.startswith('zassenhaus') else [letters(w.strip()) for w in text.split('->')[1].split(',')]
    return dict(rep=[[entry(d) for d in ds] for ds in lists], shown=shown)


def short(circuit, params, observables, device, **kw):
    return optimizers.parameter_shift_optimizer(circuit, params, observables, device, nsteps=1, return_params=True)


def c27(out, rng, tier):
    for i in range(6 if tier == 'quick' else 15):
        for kind, sizes in KINDS:
            n = rng.choice(sizes)
            obs = [o.q for o in (tfim(n, 1.0) if kind == 'zassenhaus' else rand_obs(rng, n, rng.choice([1, 2])))]
            pool = dict(local=W1, local2=W2, custom=W1 + W2 if n > 1 else W1).get(kind)
            sel = None
            if pool and i % 3:
                sel = [rng.choice(pool) for _ in range(rng.choice([1, 2, 3, 5]))]
            kw = {} if sel is None or kind == 'custom' else dict(directions=list(sel))
            su2 = su4 = True
            if kind == 'su8' and i:
                su2, su4 = rng.random() < .5, rng.random() < .5
                kw.update(add_su2=su2, add_su4=su4)
            kw.update(rng.choice([{}, {}, dict(trotterize=True), dict(unitary_error_check=True), dict(eta=0.5)]))
            base = dict(a='report', kind=kind, n=n, sel=[letters(w) for w in sel or []], su2=su2, su4=su4)

            def build():
                if kind == 'custom':
                    return opt_tools.CustomDirectionLieAlgebraLayer(dev(n), obs, None if sel is None else list(sel), **kw)
                return make_layer(kind, n, obs, **kw)
            layer, err = call(build)
            evs, params = [], []
            U = rand_unitary(rng, n)
            for k in range(4):
                if not err and k:
                    for _ in range(1 if kind in ('adapt', 'zassenhaus2') else 9 if kind == 'stochastic' else 4):
                        if kind == 'adapt':
                            v, err = call(lambda: layer(U, params=params, optimizer=short))
                            U, params = v or (U, params)
                        else:
                            V, err = call(lambda: layer(U))
                            U = V if V is None or np.ndim(V) == 2 else V[0]
                        if err:
                            break
                    if k == 2:
                        call(build)          # another layer of the same kind
                if err:
                    evs.append(dict(base, err=err))
                    break
                r, err = call(reported, layer, kind)
                evs.append(dict(base, err=err, **(r or {})))
            out.add('report', '%s n=%d sel=%s' % (kind, n, sel), evs)


def drop(v, rng):
    v = [list(x) for x in v]
    v[rng.randrange(len(v))].pop()
    return v


def swap(v, rng):
    return list(v)[1:] + [[1, 2, 3, 1]]


SELFTEST = {'*': dict(report=[('rep', drop), ('shown', swap)])}
