"""Drivers for the commutator graphs of experiments_paper/algebra_graphs.py (trace spec: TraceClosure)."""
from lib import *
import importlib.util
from oranssi.pauli import Pauli, PauliMonomial


def module():
    import matplotlib
    matplotlib.use('Agg')
    spec = importlib.util.spec_from_file_location('algebra_graphs', os.path.join(REPO, 'experiments_paper', 'algebra_graphs.py'))
    m = importlib.util.module_from_spec(spec)
    with quiet(60):
        spec.loader.exec_module(m)
    return m


def node(m):
    c = complex(m.coeff)
    return dict(w=[int(p.gamma) for p in m.monomial], re=c.imag == 0)


def snap(ms):
    return [([(p.alpha, p.gamma, complex(p.coeff)) for p in m.monomial], complex(m.coeff)) for m in ms]


def c26(out, rng, tier):
    ag = module()

    def words():
        A, B = ag.SU4_to_SU8_algebra()
        return dict(A=[node(m) for m in A], B=[node(m) for m in B], ones=all(complex(m.coeff) == 1 for m in A + B) and
                    all([p.alpha for p in m.monomial] == [0, 1, 2] for m in A + B))
    v, err = call(words)
    out.add('closure', 'words', [dict(a='words', err=err, **(v or {}))])
    allw = [w for w in it.product(range(4), repeat=3)]
    few = lambda k: [rng.choice(allw[1:]) for _ in range(k)]

    def build(ws, coeffs=None):
        return [PauliMonomial([Pauli(i, a, **({} if i or not coeffs else dict(coeff=coeffs[j]))) for i, a in enumerate(w)]) for j, w in enumerate(ws)]

    def run(a, ws, coeffs=None):
        ms = build(ws, coeffs)
        before, gen = snap(ms), [node(m) for m in ms]
        g, err = call(ag.generate_product_algebra_graph if a == 'graph' else ag.generate_product_algebra_digraph, ms, limit=200)
        base = dict(a=a)
        if err:
            return dict(base, err=err)

        def fields():
            ns = list(g.nodes)
            d = dict(gen=gen, nodes=[node(n) for n in ns], same=snap(ms) == before)
            d['edges'] = [[node(x), node(y)] for x, y in g.edges()]
            if a != 'graph':
                d['depth'] = [int(g.nodes[n]['depth']) for n in ns]
            return d
        return event(base, fields)
    A = [w for w in allw if w[2] == 0 and w[0] and w[1]]
    B = [w for w in allw if w[0] == 0 and w[1] and w[2]]
    # the catalogues of both pairs together, as in the paper, and parts of them
    rel = rng.choice([A + B, B + A])
    out.add('closure', 'paper graph', [run('graph', rel)])
    out.add('closure', 'paper digraph', [run('digraph', rel)])
    for i in range(3):
        ws = rng.sample(rel, rng.randint(4, 12))
        out.add('closure', 'part %d %s' % (i, ws), [run('graph', ws)])
        out.add('closure', 'part %d %s' % (i, ws), [run('digraph', ws)])
    for i in range(14 if tier == 'quick' else 60):
        ws = [rng.choice(A), rng.choice(B)] if i % 2 else few(rng.choice([1, 2, 2, 3]))
        if i % 5 == 4:
            ws = ws + [ws[0]]
        cs = [rng.choice([1.0, -1.0, 2.0, 1j, -0.5j]) for _ in ws] if i % 3 == 2 else None
        out.add('closure', 'graph #%d %s' % (i, ws), [run('graph', ws, cs)])
        out.add('closure', 'digraph #%d %s' % (i, ws), [run('digraph', ws, cs)])
    for ws in ([(1, 0, 0)], [(0, 0, 0)], [(0, 0, 0), (1, 2, 3)], [(1, 0, 0), (3, 0, 0)], [(1, 1, 0), (0, 3, 0), (0, 1, 1)], [(3, 3, 0), (0, 3, 3), (1, 0, 0), (0, 1, 0)]):
        out.add('closure', 'chosen %s' % (ws,), [run('graph', ws), run('digraph', ws)])


SELFTEST = {'*': dict(graph=[('nodes', lambda v, rng: v[:-1]), ('edges', lambda v, rng: v[:-1] if v else None)],
                      digraph=[('depth', lambda v, rng: v[:-1] + [v[-1] + 1]), ('edges', lambda v, rng: [v[0][::-1]] * len(v) if v else None)], words=[('A', lambda v, rng: v[:-1])])}
