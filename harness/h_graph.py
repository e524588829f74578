"""Drivers for the edge-colouring heuristic and the commuting-set helper (trace spec: TraceGraph)."""
from lib import *
import networkx as nx
from oranssi import circuit_tools, edge_coloring


def all_graphs(n):
    pairs = list(it.combinations(range(n), 2))
    for m in range(1, 2 ** len(pairs)):
        yield [p for i, p in enumerate(pairs) if m >> i & 1]


def named():
    yield 'petersen', list(nx.petersen_graph().edges())
    yield 'K5', list(nx.complete_graph(5).edges())
    yield 'K6', list(nx.complete_graph(6).edges())
    yield 'K7', list(nx.complete_graph(7).edges())
    yield 'K33', list(nx.complete_bipartite_graph(3, 3).edges())
    for k in (3, 5, 6, 7, 9):
        yield 'C%d' % k, list(nx.cycle_graph(k).edges())
    yield 'P6', list(nx.path_graph(6).edges())
    yield 'star7', list(nx.star_graph(7).edges())
    yield 'wheel6', list(nx.wheel_graph(6).edges())
    yield 'grid', [(3 * a[0] + a[1], 3 * b[0] + b[1]) for a, b in nx.grid_2d_graph(3, 3).edges()]


def maxdeg(es):
    d = {}
    for e in es:
        for u in e:
            d[u] = d.get(u, 0) + 1
    return max(d.values()) if d else 0


def seed_library(rng):
    """every random source a heuristic may draw from"""
    s = rng.randrange(2 ** 31)
    random.seed(s)
    np.random.seed(s)


def digest(g):
    """everything but the colours"""
    return (sorted((repr(u), sorted((repr(k), repr(v)) for k, v in d.items())) for u, d in g.nodes(data=True)),
            sorted((sorted((repr(u), repr(v))), sorted((repr(k), repr(x)) for k, x in d.items() if k != 'color')) for u, v, d in g.edges(data=True)),
            sorted((repr(k), repr(v)) for k, v in g.graph.items()), type(g).__name__)


def color_event(rng, es, D, lim, style='plain', tag='', isolated=0):
    """style: how the graph object is built"""
    nodes = sorted({u for e in es for u in e} | set(range(100, 100 + isolated)))
    name = {u: u for u in nodes}
    if style == 'names':
        name = {u: 'q%d' % u for u in nodes}
    if style == 'tuples':
        name = {u: (u, 'a') for u in nodes}
    g = nx.Graph()
    g.graph['label'] = tag
    order = list(nodes)
    rng.shuffle(order)
    g.add_nodes_from(name[u] for u in order)
    back = {v: k for k, v in name.items()}
    for e in es:
        u, v = e if rng.random() < 0.5 else e[::-1]
        g.add_edge(name[u], name[v])
    if style == 'attrs':
        for u in g:
            g.nodes[u]['pos'] = (u, 1)
        for u, v in g.edges():
            g.edges[u, v]['weight'] = rng.randrange(max(D, 1))
    if style == 'oldcolors':
        for u, v in g.edges():
            g.edges[u, v]['color'] = rng.choice([0, 1, 5, -1, None])
    if style == 'nodecolors':
        for u in g:
            g.nodes[u]['color'] = rng.randrange(4)
    before = digest(g)
    seed_library(rng)
    base = dict(a='color', edges=[list(e) for e in es], D=D, style=style, lim=list(lim))
    ok, err = call(edge_coloring.applyHeuristic, g, D, lim[0], lim[1], limit=20)
    if err:
        return dict(base, err=err)

    def build():
        cols = []
        for u, v, d in g.edges(data=True):
            c = d['color']
            if isinstance(c, bool) or c is None or int(c) != c:
                raise Bad('colour %r' % (c,))
            cols.append([back[u], back[v], int(c)])
        if not isinstance(ok, (bool, np.bool_)):
            raise Bad('verdict %r is not a boolean' % (ok,))
        return dict(cols=cols, ok=bool(ok), same=digest(g) == before)
    return event(base, build)


STYLES = ['plain', 'plain', 'plain', 'names', 'tuples', 'attrs', 'oldcolors', 'nodecolors']
LIMITS = [(0, 0), (1, 0), (0, 1), (2, 2), (5, 3), (50, 50), (10, 10)]


def c15(out, rng, tier):
    big = tier == 'thorough'
    for n in range(2, 6 if not big else 7):
        graphs = list(all_graphs(n)) if n < 6 else [[p for p in it.combinations(range(6), 2) if rng.random() < rng.choice([0.3, 0.6, 0.9])] for _ in range(4000)]
        for es in graphs:
            if not es:
                continue
            d = maxdeg(es)
            evs = []
            for D in (sorted({d, d + 1, 2 * d - 1, 2 * d}) if n < 5 or big else [d, rng.choice([d + 1, 2 * d - 1, 2 * d - 1, 2 * d])]):
                evs.append(color_event(rng, es, D, rng.choice(LIMITS), rng.choice(STYLES), 'g'))
            out.add('graph', 'all n=%d %s' % (n, es), evs)
    for tag, es in named():
        d = maxdeg(es)
        evs = []
        for D in (d, d, d + 1, 2 * d - 1, 2 * d + 1):
            for lim in ((0, 0), (3, 2), (50, 50)) if not big else LIMITS:
                evs.append(color_event(rng, es, D, lim, rng.choice(STYLES), tag, isolated=rng.choice([0, 2])))
        out.add('graph', tag, evs)
    for i in range(400 if big else 60):
        n = rng.randint(6, 14)
        p = rng.choice([0.15, 0.3, 0.5, 0.9])
        es = [e for e in it.combinations(range(n), 2) if rng.random() < p]
        if not es:
            continue
        rng.shuffle(es)
        d = maxdeg(es)
        evs = [color_event(rng, es, D, rng.choice(LIMITS), rng.choice(STYLES), 'r') for D in (d, d + 1, 2 * d - 1)]
        out.add('graph', 'random %d' % i, evs)
    # larger graphs: cycles, trees, lattices, complete graphs and random ones
    for i in range(40 if big else 10):
        n = rng.choice([18, 24, 30, 40])
        es = [[(j, (j + 1) % n) for j in range(n)], [(rng.randrange(j), j) for j in range(1, n)],
              [(5 * r + c, 5 * r + c + 1) for r in range(n // 5) for c in range(4)] + [(5 * r + c, 5 * r + c + 5) for r in range(n // 5 - 1) for c in range(5)],
              list(it.combinations(range(9), 2)), [e for e in it.combinations(range(n), 2) if rng.random() < 3 / n]][i % 5]
        if es:
            d = maxdeg(es)
            out.add('graph', 'large %d' % i, [color_event(rng, es, D, rng.choice(LIMITS), rng.choice(STYLES), 'l') for D in (d, d + 1, 2 * d - 1)])
    # no edges at all
    out.add('graph', 'empty', [color_event(rng, [], D, (2, 2), 'plain', 'e', isolated=k) for D in (1, 2) for k in (0, 3)])


def commute_event(rng, es, kind):
    seed_library(rng)
    # how the qubits are called does not matter
    way = rng.choice(['as is', 'as is', 'strings', 'large', 'pairs'])
    name = {u: dict(strings='q%d' % (u * 7 % 41), large=10 ** 6 + 7919 * u, pairs=('row', u)).get(way, u) for e in es for u in e}
    back = {v: k for k, v in name.items()}
    int = lambda x: back[x]  # noqa
    arg = [kind(e) if way == 'as is' else tuple(name[u] for u in e) for e in es]
    ref = [tuple(int(x) for x in e) for e in arg]
    base = dict(a='commute', edges=[list(e) for e in ref])
    res, err = call(circuit_tools.get_commuting_set, arg, limit=30)
    if err:
        return dict(base, err=err)

    def build():
        r = [list(int(x) for x in e) for e in res]
        return dict(res=r, same=[tuple(int(x) for x in e) for e in arg] == ref and all(type(e) is type(arg[0]) for e in res))
    return event(base, build)


def c16(out, rng, tier):
    big = tier == 'thorough'

    def orient(es, mode):
        es = [tuple(e) for e in es]
        if mode == 'mixed':
            es = [e if rng.random() < 0.5 else e[::-1] for e in es]
        elif mode == 'down':
            es = [e[::-1] for e in es]
        if mode != 'sorted':
            rng.shuffle(es)
        return es
    for n in range(2, 6 if not big else 7):
        graphs = list(all_graphs(n)) if n < 6 else [[p for p in it.combinations(range(6), 2) if rng.random() < rng.choice([0.3, 0.6, 0.9])] for _ in range(3000)]
        for es in graphs:
            if not es:
                continue
            evs = [commute_event(rng, orient(es, m), tuple) for m in ('sorted', 'mixed', 'down')]
            out.add('graph', 'all n=%d %s' % (n, es), evs)
    for tag, es in named():
        out.add('graph', tag, [commute_event(rng, orient(es, 'mixed'), tuple) for _ in range(6)])
    for i in range(300 if big else 80):
        n = rng.randint(4, 14)
        labels = rng.sample(range(40), n)
        es = [e for e in it.combinations(labels, 2) if rng.random() < rng.choice([0.1, 0.3, 0.7])]
        if not es:
            continue
        out.add('graph', 'random %d' % i, [commute_event(rng, orient(es, 'mixed'), rng.choice([tuple, tuple, lambda e: tuple(np.int64(x) for x in e)])) for _ in range(3)])
    # long lists of edges that hardly overlap: a matching with a few more edges, a long path, pieces of a lattice
    for i in range(60 if big else 20):
        q = rng.sample(range(40), 40)
        es = [(q[2 * j], q[2 * j + 1]) for j in range(20)]
        if i % 4 == 1:
            es = [(q[j], q[j + 1]) for j in range(39) if rng.random() < 0.9]
        elif i % 4 == 2:
            es = [(5 * r + c, 5 * r + c + 1) for r in range(8) for c in range(4)] + [(5 * r + c, 5 * r + c + 5) for r in range(7) for c in range(5)]
        elif i % 4 == 3:
            es = [(0, j) for j in range(1, rng.choice([13, 25, 40]))]
        have = {tuple(sorted(e)) for e in es}
        for _ in range(rng.choice([1, 1, 2, 5, 12])):
            e = tuple(rng.sample(range(40), 2))
            if tuple(sorted(e)) not in have:
                have.add(tuple(sorted(e)))
                es.insert(rng.choice([0, len(es), rng.randint(0, len(es))]), e)
        out.add('graph', 'long list %d' % i, [commute_event(rng, orient(es, 'mixed') if rng.random() < 0.5 else es, tuple) for _ in range(2)])
    # disjoint lists, single qubits (as for one-qubit directions), the empty list
    for i in range(40):
        q = rng.sample(range(20), 12)
        k = rng.randint(1, 6)
        out.add('graph', 'disjoint %d' % i, [commute_event(rng, [(q[2 * j], q[2 * j + 1]) for j in range(k)], tuple),
                                             commute_event(rng, [(q[j],) for j in range(k)], tuple)])
    out.add('graph', 'nothing', [commute_event(rng, [], tuple)])


SELFTEST = {'*': dict(color=[('ok', swap_false), ('same', swap_false), ('cols', lambda v, rng: v[:-1] + [v[-1][:2] + [v[-1][2] + 100]] if v else None)],
                      commute=[('res', lambda v, rng: [] if v else None), ('same', swap_false)])}
