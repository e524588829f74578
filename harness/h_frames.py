"""Drivers for inputs, earlier results and repeatability (trace spec: TraceFrames)."""
import os
os.environ['MPLBACKEND'] = 'Agg'
from lib import *
import hashlib
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import networkx as nx
from oranssi import circuit_tools, optimizers, opt_tools, pauli, plot_utils, utils, edge_coloring
from h_layers import make_layer, tfim, ising


def canon(x, rnd=None):
    """contents of an object as a string"""
    if isinstance(x, np.ndarray):
        a = np.asarray(x)
        if a.dtype == object:
            return 'O%s[%s]' % (a.shape, ','.join(canon(y, rnd) for y in a.ravel().tolist()))
        if rnd is not None and a.dtype.kind in 'fc':
            a = np.round(a, rnd) + 0.0
        return 'A%s%s[%s]' % (a.shape, a.dtype.kind, ','.join(repr(complex(y)) if a.dtype.kind == 'c' else repr(y) for y in a.ravel().tolist()))
    if isinstance(x, (list, tuple)):
        return ('L' if isinstance(x, list) else 'T') + '[' + ','.join(canon(y, rnd) for y in x) + ']'
    if isinstance(x, dict):
        return 'D{' + ','.join(sorted(canon(k, rnd) + ':' + canon(v, rnd) for k, v in x.items())) + '}'
    if isinstance(x, (bool, int, str, type(None))):
        return repr(x)
    if isinstance(x, (float, complex, np.floating, np.complexfloating, np.integer, np.bool_)):
        z = complex(x)
        if rnd is not None:
            z = complex(round(z.real, rnd) + 0.0, round(z.imag, rnd) + 0.0)
        return repr(z)
    if isinstance(x, pauli.Pauli):
        return 'P(%s,%s,%s)' % (x.alpha, x.gamma, canon(x.coeff) if isinstance(x.coeff, (complex, float, np.number)) else repr(x.coeff))
    if isinstance(x, pauli.PauliMonomial):
        return 'M(%s,%s)' % (canon(list(x.monomial)), canon(x.coeff) if isinstance(x.coeff, (complex, float, np.number)) else repr(x.coeff))
    if isinstance(x, pauli.PauliSum):
        return 'S(%s)' % canon(list(x.pauli_sum))
    if isinstance(x, qml.operation.Tensor):
        return 'X(%s)' % ','.join(canon(o) for o in x.obs)
    if isinstance(x, qml.operation.Operation) or isinstance(x, qml.operation.Observable):
        # return_type is set by PennyLane's own expval() and is not part of the contents
        return 'Q(%s,%s,%s)' % (x.name, list(x.wires), canon(list(x.data)))
    if isinstance(x, qml.wires.Wires):
        return 'W%s' % (x.tolist(),)
    if isinstance(x, (opt_tools.LieLayer, qml.Device)):
        return 'id%d' % id(x)
    return 'id%d:%s' % (id(x), type(x).__name__)


def digest(x, rnd=None):
    return hashlib.sha1(canon(x, rnd).encode()).hexdigest()[:16]


class World:
    def __init__(self):
        self.held = {}
        self.ev = []

    def hold(self, **objs):
        self.held.update(objs)
        self.ev.append(dict(a='hold', objs=self.seen(), err=''))

    def seen(self):
        return [[k, digest(v)] for k, v in sorted(self.held.items())]

    def do(self, name, fn, *args, **kw):
        v, err = call(fn, *args, **kw)
        if err:
            self.ev.append(dict(a='call', name=name, err=err))
            return None
        # contents as returned
        val = digest(v)
        self.ev.append(dict(a='call', name=name, val=val, objs=self.seen(), err=''))
        self.held[name] = v
        return v

    def seeded(self, key, seed, fn):
        np.random.seed(seed)
        random.seed(seed)
        v, err = call(fn)
        if err:
            self.ev.append(dict(a='seeded', key=key, err=err))
            return
        self.ev.append(dict(a='seeded', key=key, val=digest(v, 8), objs=self.seen(), err=''))


LAYERS = [('local', 2, {}), ('local', 3, dict(trotterize=True, directions=['X', 'Z'])), ('local2', 2, {}), ('local2', 2, dict(trotterize=True, directions=['XX', 'YZ'])),
          ('custom', 2, {}), ('custom', 3, dict(trotterize=True)), ('stochastic', 2, {}), ('stochastic', 3, {}), ('squared', 2, {}), ('squared', 3, {}), ('su8', 3, {}),
          ('zassenhaus', 3, {}), ('zassenhaus', 3, dict(ratio=(2, 1))), ('local', 2, dict(unitary_error_check=True)), ('squared', 3, dict(unitary_error_check=True)), ('zassenhaus2', 2, {})]


def mutable_circuit(n):
    def circuit(params, **kwargs):
        for q in range(n):
            qml.RX(params[0], wires=q)
            qml.RY(params[1 + q % 2], wires=q)
        for q in range(n - 1):
            qml.CNOT(wires=[q, q + 1])
        return qml.state()

    def nothing(params, **kwargs):
        for q in range(n):
            qml.RX(params[0], wires=q)
            qml.RY(params[1 + q % 2], wires=q)
        for q in range(n - 1):
            qml.CNOT(wires=[q, q + 1])
    return circuit, nothing


def obs_list(rng, n, count=None):
    return [o.q for o in rand_obs(rng, n, count or rng.randint(1, 3), herm=0.15)]


def layer_world(rng, kind, n, kw, steps):
    w = World()
    obs = obs_list(rng, n) if kind != 'zassenhaus' else [o.q for o in tfim(n, 1.0)]
    dirs = kw.get('directions')
    kw = dict(kw)
    if dirs is not None:
        kw['directions'] = list(dirs)
    U = rand_unitary(rng, n, 'generic')
    w.hold(U=U, obs=obs, dirs=kw.get('directions'))
    np.random.seed(rng.randrange(2 ** 31))
    layer, err = call(make_layer, kind, n, obs, **kw)
    if err:
        w.ev.append(dict(a='call', name='new', err=err))
        return w
    cur = U
    for k in range(steps):
        cur = w.do('U%d' % (k + 1), layer, cur)
        if cur is None:
            return w
        g = w.do('grad%d' % k, layer.get_lie_algebra_directions, cur)
    # a second layer of the same kind works on an earlier result
    layer2, err = call(make_layer, kind, n, obs, **kw)
    if not err:
        w.do('V', layer2, U)
        w.do('V2', layer, w.held['V'])
    return w


def run_world(rng, i):
    """optimizer runs one after the other on the same inputs and the same layers"""
    w = World()
    n = 3 if i % 3 == 2 else 2
    circ, nothing = mutable_circuit(n)
    d = dev(n)
    obs = [o.q for o in tfim(n, 0.7)] if i % 2 else obs_list(rng, n)
    params = [[0.3, -0.7, 1.1], np.array([0.4, 0.9, -0.2])][i % 2]
    qobs = list(obs)
    kinds = [['local'], ['stochastic', 'squared'], ['squared'], ['custom', 'local'], ['adapt'], ['local2' if n == 2 else 'su8']][i % 6]
    layers = [make_layer(k, n, obs) for k in kinds]
    w.hold(params=params, obs=obs, obscopy=qobs, layers=layers)
    full = dict(return_state=True, return_omegas=True, return_unitary=True, return_gates=True)
    if kinds == ['adapt']:
        start = []
        w.hold(start=start, obs=obs, params=params, layers=layers)
        plus = lambda p, **k: (([qml.Hadamard(wires=q) for q in range(n)]), qml.state())[1]
        w.do('run1', optimizers.approximate_lie_optimizer, plus, start, obs, d, layers, nsteps=2, **full)
        w.do('run2', optimizers.approximate_lie_optimizer, plus, start, obs, d, [make_layer('adapt', n, obs)], nsteps=2, **full)
    else:
        w.do('run1', optimizers.approximate_lie_optimizer, circ, params, obs, d, layers, nsteps=3, perturb=True, return_perturbations=True, **full)
        w.do('run2', optimizers.approximate_lie_optimizer, circ, params, obs, d, layers, nsteps=4, **full)
    w.do('exact', optimizers.exact_lie_optimizer, circ, params, obs, d, nsteps=6, return_state=True, perturbation=True, return_perturbations=True, return_unitary=True)
    w.do('ps', optimizers.parameter_shift_optimizer, nothing, params, [o for o in obs if not isinstance(o, qml.Hermitian)] or [qml.PauliZ(0)], d, nsteps=3, return_state=True,
         return_params=True)
    w.do('cost', optimizers.approximate_lie_optimizer, circ, params, obs, d, [make_layer('local', n, obs)], nsteps=2)
    return w


def helper_world(rng):
    w = World()
    n = 3
    obs = obs_list(rng, n, 3)
    U = rand_unitary(rng, n, 'generic')
    A = np.array([[1, 2j], [3, 4]], dtype=complex)
    M4 = rand_unitary(rng, 2, 'generic')
    psi = U[:, 0]
    rho = np.outer(psi, psi.conj())
    co = [0.5, -1.0, 2.0]
    edges = [(0, 1), (1, 2), (0, 2), (3, 4)]
    dis = [(0, 1), (2, 3)]
    wires = [2, 0]
    us = [rand_unitary(rng, 2) for _ in range(2)]
    obs2 = [qml.PauliZ(0) @ qml.PauliX(1)]
    circ, _ = mutable_circuit(n)
    params = [0.1, 0.2, 0.3]
    r1 = np.array([[0.7, 0.1j], [-0.1j, 0.3]])
    p1 = pauli.PauliMonomial([pauli.Pauli(0, 'X', 0.5), pauli.Pauli(2, 'Z', 1j)])
    p2 = pauli.PauliMonomial([pauli.Pauli(0, 'Y', 2.0), pauli.Pauli(1, 'Z', -1.0)])
    lp = [pauli.Pauli(3, 'X', 0.25), pauli.Pauli(1, 'Y')]
    p3 = pauli.PauliMonomial([pauli.Pauli(0, 'Z', 2.0), pauli.Pauli(2, 'Y', -1.0)])
    s1, s2 = pauli.PauliSum([p1]), pauli.PauliSum([p3, p1])
    names = ['XX', 'YZ']
    w.hold(obs=obs, U=U, A=A, M4=M4, rho=rho, co=co, edges=edges, dis=dis, wires=wires, us=us, obs2=obs2, params=params, r1=r1, p1=p1, p2=p2, lp=lp, s1=s1, s2=s2, p3=p3, names=names)
    d = dev(n)
    w.do('full', circuit_tools.get_full_operator, A, [1], n)
    w.do('full2', circuit_tools.get_full_operator, M4, wires, n)
    w.do('full3', circuit_tools.get_full_operator, U, [0, 1, 2], n)
    w.do('ham', circuit_tools.get_hamiltonian_matrix, n, obs, co)
    w.do('ham2', circuit_tools.get_hamiltonian_matrix, n, obs)
    w.do('comm', circuit_tools.param_shift_comm, rho, lambda t: rot_matrix([1, 0, 3], t))
    w.do('ops', circuit_tools.get_ops_from_qnode, circ, params, d)
    w.do('dirs', circuit_tools.get_all_su_n_directions, U, obs, d)
    w.do('set', circuit_tools.get_commuting_set, edges)
    w.do('set2', circuit_tools.get_commuting_set, dis)
    w.do('norm', utils.operator_2_norm, U)
    w.do('su2', utils.get_su_2_operators, True, True)
    w.do('su4', utils.get_su_4_operators, False, True)
    w.do('su8', utils.get_su_n_operators, 8, False, True)
    w.do('state', qml.QNode(circuit_tools.circuit_state_from_unitary, d), unitary=U)
    w.do('value', qml.QNode(circuit_tools.circuit_observable_from_unitary, d), unitary=U, observable=obs[0])
    w.do('angles', plot_utils.state_to_spherical, r1)
    w.do('rho', plot_utils.spherical_to_state, 0.3, 1.1)
    plt.close('all')
    w.do('plot', lambda: [len(plot_utils.plot_su8_directions_individually(us, obs2, dev(2)))])
    plt.close('all')
    w.do('mono', pauli.PauliMonomial, lp)
    w.do('prod', lambda: p1 * p2)
    w.do('commute', lambda: p1.commutes_with(p2))
    w.do('sum', lambda: s1 + s2)
    w.do('diff', lambda: s1 - s2)
    w.do('prod2', lambda: s1 * s2)
    alg = opt_tools.AlgebraSU4(3, add_su2=True)
    w.do('cat', alg.get_all_directions_and_qubits)
    w.do('cat2', opt_tools.AlgebraSU8(3, add_su2=True, add_su4=True).get_all_directions_and_qubits)
    # once more: results handed out before must not be reused
    w.do('su2b', utils.get_su_2_operators, True, True)
    w.do('full2b', circuit_tools.get_full_operator, M4, wires, n)
    w.do('dirsb', circuit_tools.get_all_su_n_directions, rand_unitary(rng, n), obs, d)
    return w


def writable_world(rng):
    """what was handed out can be changed by the caller without changing what is handed out next"""
    w = World()
    w.hold(nothing=None)
    for name, fn in (('su2', lambda: utils.get_su_2_operators(True, True)), ('su4', lambda: utils.get_su_4_operators(True, True)), ('su8', lambda: utils.get_su_n_operators(8, False, True))):
        w.seeded(name, 1, fn)
        v, err = call(fn)
        if not err:
            v[0][1] *= 0
            v[1][0] = '?'
            v[0].pop()
        w.seeded(name, 1, fn)
    for name, fn in (('full', lambda: circuit_tools.get_full_operator(np.array([[0, 1], [1, 0]], dtype=complex), [1], 3)),
                     ('fullall', lambda: circuit_tools.get_full_operator(np.eye(4, dtype=complex), [0, 1], 2)),
                     ('dirs', lambda: circuit_tools.get_all_su_n_directions(np.eye(4, dtype=complex), [qml.PauliX(0)], dev(2)))):
        w.seeded(name, 1, fn)
        v, err = call(fn)
        if not err:
            if isinstance(v, dict):
                v.clear()
            else:
                v *= 0
        w.seeded(name, 1, fn)
    return w


def repeat_world(rng, i):
    """the same seeded run before and after other runs"""
    w = World()
    n = 2 + i % 2
    circ, nothing = mutable_circuit(n)
    obs = [o.q for o in tfim(n, 0.9)]
    params = [0.3, -0.7, 1.1]
    w.hold(params=params, obs=obs)
    full = dict(return_state=True, return_omegas=True, return_unitary=True, return_gates=True)
    menu = [('stochastic', dict(nsteps=5)), ('stochastic', dict(nsteps=12, tol=2.5, perturb=True, return_perturbations=True)), ('squared', dict(nsteps=3)),
            ('local', dict(nsteps=12, tol=5.0, perturb=True, return_perturbations=True)), ('custom', dict(nsteps=2)), ('commute', dict(nsteps=2)), ('adapt', dict(nsteps=2)),
            ('exact', dict(nsteps=7, tol=5.0, perturbation=True, return_perturbations=True)), ('ps', dict(nsteps=2))]
    if n == 3:
        menu += [('su8', dict(nsteps=2)), ('zassenhaus', dict(nsteps=4, return_zassenhaus=True))]

    def one(kind, kw):
        d = dev(n)
        if kind == 'exact':
            return optimizers.exact_lie_optimizer(circ, params, obs, d, return_state=True, return_unitary=True, **kw)
        if kind == 'ps':
            return optimizers.parameter_shift_optimizer(nothing, params, obs, d, return_state=True, return_params=True, **kw)
        if kind == 'commute':
            o2 = [o.q for o in ising(n)]
            plus = lambda p, **k: (([qml.Hadamard(wires=q) for q in range(n)]), qml.RY(0.4, wires=0), qml.state())[2]
            return optimizers.approximate_lie_optimizer(plus, [], o2, d, [make_layer('squared', n, o2)], commute=True, return_gates=True, return_unitary=True, **kw)
        if kind == 'adapt':
            plus = lambda p, **k: (([qml.Hadamard(wires=q) for q in range(n)]), qml.state())[1]
            return optimizers.approximate_lie_optimizer(plus, [], obs, d, [make_layer('adapt', n, obs)], return_unitary=True, **kw)
        return optimizers.approximate_lie_optimizer(circ, params, obs, d, [make_layer(kind, n, obs)], **full, **kw)
    picks = [menu[(3 * i + j) % len(menu)] for j in range(3)]
    s = rng.randrange(2 ** 31)
    for kind, kw in picks + picks[::-1]:
        w.seeded('%s %s' % (kind, sorted(kw.items())), s, lambda: one(kind, kw))
    # random graphs and directions
    def colour():
        g = nx.Graph([(0, 1), (1, 2), (2, 0), (2, 3), (3, 4), (4, 2)])
        ok = edge_coloring.applyHeuristic(g, 4, 5, 5)
        return [ok, sorted((min(u, v), max(u, v), dd['color']) for u, v, dd in g.edges(data=True))]

    def draw():
        alg = opt_tools.AlgebraSU4(3, add_su2=True)
        return [str(alg.get_random_direction_and_qubits()[0]) for _ in range(6)]
    for name, fn in (('colour', colour), ('draw', draw), ('draw', draw), ('colour', colour)):
        w.seeded(name, s, fn)
    return w


def c20(out, rng, tier):
    big = tier == 'thorough'
    m = 5 if big else 1
    for rep in range(m):
        for i, (kind, n, kw) in enumerate(LAYERS):
            out.add('frames', 'layer %s n=%d %s #%d' % (kind, n, sorted(kw), rep), layer_world(rng, kind, n, kw, 3).ev)
        for i in range(6):
            out.add('frames', 'runs #%d.%d' % (rep, i), run_world(rng, i).ev)
        for i in range(2):
            out.add('frames', 'helpers #%d.%d' % (rep, i), helper_world(rng).ev)
        out.add('frames', 'handed out #%d' % rep, writable_world(rng).ev)
        for i in range(8):
            out.add('frames', 'repeat #%d.%d' % (rep, i), repeat_world(rng, i + 8 * rep).ev)


def spoil(v, rng):
    v = [list(x) for x in v]
    if not v:
        return None
    v[rng.randrange(len(v))][1] = 'other'
    return v


def second(v, rng, tr):
    return 'other'


SELFTEST = {'*': dict(call=[('objs', spoil)], seeded=[('objs', spoil)])}
