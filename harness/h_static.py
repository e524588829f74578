"""Drivers for embeddings, bases, catalogues and circuits (trace specs: TraceEmbed, TraceCircuit)."""
from lib import *
from oranssi import circuit_tools, utils, opt_tools


def cases(name):
    with open(os.path.join(os.environ['VERIF_CASES'], name + '.ndjson')) as f:
        return [json.loads(x) for x in f]


def int_entry(x, unit=1.0):
    v = float(x) * unit
    if not math.isfinite(v):
        raise Bad('entry is not finite')
    r = int(round(v))
    if abs(v - r) > 1e-6 * max(1, abs(v)):
        raise Bad('entry %r where an integer is expected' % (x,))
    return r


def int_rows(M, unit=1.0, exact=True):
    M = np.asarray(M)
    f = (lambda x: int_entry(x, unit)) if exact else (lambda x: int(round(float(x) * unit)))
    return [[f(z.real) for z in r] for r in M.astype(complex)], [[f(z.imag) for z in r] for r in M.astype(complex)]


def rand_int_matrix(rng, d, lim=9):
    return np.array([[complex(rng.randint(-lim, lim), rng.randint(-lim, lim)) for _ in range(d)] for _ in range(d)])


def herm_int(rng, d, lim=4):
    a = np.array([[complex(rng.randint(-lim, lim), rng.randint(-lim, lim)) for _ in range(d)] for _ in range(d)])
    return a + a.conj().T


def structured(rng, d):
    """matrices with a shape that a shortcut might exploit"""
    kind = rng.choice(['diagonal', 'diagonal', 'permutation', 'single', 'identity', 'upper', 'hermitian', 'real', 'imaginary', 'zero', 'anti', 'symmetric', 'block'])
    m = rand_int_matrix(rng, d)
    if kind == 'diagonal':
        return np.diag(np.diag(m))
    if kind == 'permutation':
        p = list(range(d))
        rng.shuffle(p)
        return np.array([[complex(p[i] == j) for j in range(d)] for i in range(d)])
    if kind == 'single':
        m = np.zeros((d, d), dtype=complex)
        m[rng.randrange(d), rng.randrange(d)] = complex(rng.randint(1, 5), rng.randint(-5, 5))
        return m
    if kind == 'identity':
        return rng.choice([1, 2, -1, 1j]) * np.eye(d, dtype=complex)
    if kind == 'upper':
        return np.triu(m)
    if kind == 'hermitian':
        return m + m.conj().T
    if kind == 'real':
        return m.real.copy()
    if kind == 'imaginary':
        return 1j * m.real
    if kind == 'zero':
        return np.zeros((d, d), dtype=complex)
    if kind == 'anti':
        return np.diag(np.diag(m))[::-1].copy()
    if kind == 'symmetric':
        return m + m.T
    h = max(1, d // 2)
    m[:h, h:] = 0
    m[h:, :h] = 0
    return m


FORMS = [tuple, list, lambda ws: qml.wires.Wires(list(ws)), lambda ws: np.array(ws)]


def c01(out, rng, tier):
    big = tier == 'thorough'
    reps = 3 if big else 1
    todo = [c for c in cases('embed') if c['n'] < 5 or big or rng.random() > 0.85]
    # larger registers: every shape of wire list (rising, falling, neighbouring, spread out, mixed)
    for n, cnt in ((6, 10 * reps), (7, 3 * reps), (8, 1)):
        for _ in range(cnt):
            k = rng.choice([1, 2, 2, 3, 3, 4])
            s = rng.randrange(n - k + 1)
            ws = rng.choice([list(range(s, s + k)), list(range(s, s + k))[::-1], sorted(rng.sample(range(n), k)), sorted(rng.sample(range(n), k))[::-1], rng.sample(range(n), k)])
            todo.append(dict(n=n, ws=ws))
    for case in todo:
        n, ws = case['n'], case['ws']
        evs = []
        for rep in range(2 * reps if n < 4 else reps if n < 5 else 1):
            m = rand_int_matrix(rng, 2 ** len(ws))
            if rep % 2 or n >= 4 and rng.random() < 0.4:
                m = structured(rng, 2 ** len(ws))
            elif rng.random() < 0.2:
                m = m.real.astype(int)
            m0 = np.array(m)
            if rng.random() < 0.2:
                m = np.asfortranarray(m)
            form = rng.choice(FORMS)
            v, err = call(circuit_tools.get_full_operator, m, form(ws), n)
            re, im = int_rows(m0)
            base = dict(a='embed', n=n, ws=ws, re=re, im=im)

            def fields():
                mat(v, n)
                fre, fim = int_rows(v)
                return dict(fre=fre, fim=fim)
            evs.append(dict(base, err=err) if err else event(base, fields))
        out.add('embed_n%d' % n, 'embed n=%d wires=%s' % (n, ws), evs)
    # Hamiltonians
    for n, cnt in ((1, 6), (2, 10), (3, 12), (4, 8)):
        for i in range(cnt * reps):
            obs, spec = [], []
            for _ in range(rng.choice([0, 1, 2, 3, 4])):
                kind = rng.random()
                if kind < 0.35:
                    k = rng.randint(1, min(3, n))
                    ws = rng.sample(range(n), k)
                    m = herm_int(rng, 2 ** k)
                    o = qml.Hermitian(m, wires=ws)
                    re, im = int_rows(m, 10 ** 6)
                    sp = [dict(ws=ws, re=re, im=im)]
                else:
                    k = rng.randint(1, min(4, n))
                    ws = rng.sample(range(n), k)
                    names = [rng.choice('XYZXYZXYZI') for _ in ws]
                    if rng.random() < 0.2:
                        names[0] = 'H'
                    cls = dict(X=qml.PauliX, Y=qml.PauliY, Z=qml.PauliZ, I=qml.Identity, H=qml.Hadamard)
                    o = cls[names[0]](ws[0])
                    for nm, w in zip(names[1:], ws[1:]):
                        o = o @ cls[nm](w)
                    sp = [dict(ws=[w], name=nm) for nm, w in zip(names, ws)]
                obs.append(o)
                spec.append(sp)
            form = rng.choice(['none', 'list', 'array', 'tuple', 'ints'])
            cs = [rng.choice([-8, -3, -1, 0, 1, 2, 4, 6, 12]) for _ in obs]
            if form == 'none':
                cs = [4 for _ in obs]
                coeffs = None
            elif form == 'ints':
                cs = [4 * rng.randint(-3, 3) for _ in obs]
                coeffs = [c // 4 for c in cs]
            else:
                coeffs = [c / 4 for c in cs]
                coeffs = dict(list=list, array=np.array, tuple=tuple)[form](coeffs)
            v, err = call(circuit_tools.get_hamiltonian_matrix, n, obs, coeffs) if form != 'none' or rng.random() < .5 else \
                call(circuit_tools.get_hamiltonian_matrix, n, obs)
            base = dict(a='ham', n=n, obs=spec, coeffs=cs)

            def fields():
                mat(v, n)
                fre, fim = int_rows(v, 10 ** 6, exact=False)
                return dict(fre=fre, fim=fim)
            out.add('embed_n%d' % n, 'hamiltonian n=%d #%d coeffs=%s' % (n, i, form), [dict(base, err=err) if err else event(base, fields)])
    # norms: entries in eighths
    evs = []
    for i in range(30 * reps):
        d = rng.choice([1, 2, 3, 4, 8])
        lim = {1: 24, 2: 8, 3: 6, 4: 5, 8: 2}[d]
        m = rand_int_matrix(rng, d, lim) / 8
        if rng.random() < 0.3:
            m = m.real
        v, err = call(utils.operator_2_norm, np.array(m))
        re, im = int_rows(m, 8)
        base = dict(a='norm', re=re, im=im)
        evs.append(dict(base, err=err) if err else event(base, lambda: dict(norm=fx(v))))
    out.add('embed_n1', 'norms', evs)
    # refusals
    evs = []
    for n in (1, 2, 3, 4):
        for k in (1, 2, 3):
            for _ in range(4):
                m = rand_int_matrix(rng, 2 ** k)
                bad = rng.choice(['high', 'size', 'negative', 'size2'])
                ws = rng.sample(range(n), min(k, n))
                if bad == 'high':
                    ws = ws[:k]
                    while len(ws) < k:
                        ws.append(n + len(ws))
                    ws[rng.randrange(k)] = n + rng.randint(0, 2)
                elif bad == 'negative':
                    ws = list(range(k))
                    ws[rng.randrange(k)] = -rng.randint(1, n)
                    n2 = max(n, k)
                elif bad == 'size':
                    if k > n:
                        continue
                    m = rand_int_matrix(rng, 2 ** (k + 1))
                else:
                    m = rand_int_matrix(rng, 2 ** k + 1)
                nn = max(n, k) if bad == 'negative' else n
                v, err = call(circuit_tools.get_full_operator, m, rng.choice([tuple, list])(ws), nn)
                evs.append(dict(a='refuse', what='%s n=%d k=%d wires=%s' % (bad, nn, k, ws), refused=bool(err) and not err.startswith('Timeout'), err=''))
    out.add('embed_n1', 'refusals', evs)


# ---------------------------------------------------------------- C03
def perm_form(M):
    """[[y, phase] for each x] of a matrix with one non-zero entry i^phase per column, or a marker that no word matches"""
    M = np.asarray(M)
    if M.ndim != 2 or M.shape[0] != M.shape[1]:
        raise Bad('operator of shape %r' % (M.shape,))
    res = []
    for x in range(M.shape[1]):
        col = [complex(z) for z in M[:, x]]
        nz = [y for y, z in enumerate(col) if abs(z) > 1e-9]
        if len(nz) != 1:
            return [[-1, -1]] * M.shape[1]
        z = col[nz[0]]
        ph = next((k for k, w in enumerate((1, 1j, -1, -1j)) if abs(z - w) < 1e-9), -1)
        res.append([nz[0], ph])
    return res


def c03(out, rng, tier):
    fns = [('su2', 1, lambda **k: utils.get_su_2_operators(**k)), ('su4', 2, lambda **k: utils.get_su_4_operators(**k))]
    fns += [('su_n', n, (lambda d: lambda **k: utils.get_su_n_operators(d, **k))(2 ** n)) for n in (1, 2, 3, 4, 5)]
    for name, n, fn in fns:
        for ident in (False, True):
            for style in ('named', 'plain', 'default'):
                if n > 4 and tier != 'thorough' and (ident or style == 'default'):
                    continue
                kw = dict(identity=ident) if (ident or style != 'default') else {}
                base = dict(a='basis', n=n, identity=ident)
                named, err = call(fn, return_names=True, **kw)
                ops = None
                if not err:
                    ops = named[0] if style == 'named' else None
                    if style != 'named':
                        ops, err = call(fn, **dict(kw, **({'return_names': False} if style == 'plain' else {})))
                ev = dict(base, err=err) if err else event(base, lambda: dict(names=[letters(str(s)) for s in named[1]], ops=[perm_form(o) for o in ops]))
                out.add('embed_n1', 'basis %s n=%d identity=%s %s' % (name, n, ident, style), [ev])
    top = 6 if tier == 'thorough' else 5
    cats = [('AlgebraSU2', n, {}, [True, False, False]) for n in range(1, top + 1)]
    cats += [('AlgebraSU4', n, dict(add_su2=b), [b, True, False]) for n in range(1, top) for b in (True, False) if n > 1 or b]
    cats += [('AlgebraSU4', n, {}, [False, True, False]) for n in (2, 3)]
    cats += [('AlgebraSU8', n, dict(add_su2=a, add_su4=b), [a, b, True]) for n in (3, 4, 5)[:3 if tier == 'thorough' else 2] for a in (True, False) for b in (True, False)]
    cats += [('AlgebraSU8', 3, {}, [False, False, True])]
    if tier != 'thorough':
        cats += [('AlgebraSU2', 7, {}, [True, False, False]), ('AlgebraSU4', rng.choice([6, 7]), dict(add_su2=True), [True, True, False]), ('AlgebraSU8', 5, dict(add_su2=True, add_su4=True), [True, True, True])]
    for cls, n, kw, su in cats:
        base = dict(a='catalogue', n=n, su=su)

        def build():
            alg = getattr(opt_tools, cls)(n, **kw)
            alg.get_all_directions_and_qubits()
            return alg

        def fields():
            ent = []
            for k, op in alg.full_paulis.items():
                mat(op, n)
                ent.append(dict(d=letters(str(k[0])), q=[int(q) for q in k[1:]], op=perm_form(op)))
            return dict(dirs=[letters(str(d)) for d in alg.directions], entries=ent)
        alg, err = call(build)
        evs = [dict(base, err=err) if err else event(base, fields)]
        if not err and cls == 'AlgebraSU4' and n in (2, 3):
            # building it again changes nothing
            _, err = call(alg.get_all_directions_and_qubits)
            evs.append(dict(base, err=err) if err else event(base, fields))
        out.add('embed_n1', 'catalogue %s n=%d %s' % (cls, n, kw), evs)
    # operators that random draws add to a catalogue
    for i in range(20 if tier == 'thorough' else 6):
        n = 2 + i % 3
        base = dict(a='drawn', n=n)
        full = i % 2 == 0

        def draw():
            alg = opt_tools.AlgebraSU4(n, add_su2=True)
            if full:
                alg.get_all_directions_and_qubits()
            return alg, [alg.get_random_direction_and_qubits() for _ in range(60)]
        np.random.seed(rng.randrange(2 ** 31))
        v, err = call(draw)

        def fields():
            alg, got = v
            return dict(drawn=[dict(d=letters(str(d)), q=[int(x) for x in q]) for d, q in got],
                        entries=[dict(d=letters(str(k[0])), q=[int(q) for q in k[1:]], op=perm_form(mat(op, n))) for k, op in alg.full_paulis.items()])
        out.add('embed_n1', 'drawn n=%d #%d' % (n, i), [dict(base, err=err) if err else event(base, fields)])


def break_rows(v, rng):
    v = [list(r) for r in v]
    i, j = rng.randrange(len(v)), rng.randrange(len(v[0]))
    v[i][j] += 5000
    return v


def break_ops(v, rng):
    i = rng.randrange(len(v))
    v[i] = [[y, (p + 2) % 4] for y, p in v[i]]
    return v


def swap_names(v, rng):
    return [v[1], v[0]] + v[2:]


def drop_entry(v, rng):
    return v[:-1]


SELFTEST = {'*': dict(embed=[('fre', break_rows), ('fim', break_rows)], ham=[('fre', break_rows)], norm=[('norm', bump)],
                      refuse=[('refused', swap_false)], basis=[('ops', break_ops), ('names', swap_names)], catalogue=[('entries', drop_entry)])}


# ---------------------------------------------------------------- C02
ONE = ['RX', 'RY', 'RZ', 'PhaseShift', 'U1', 'PauliX', 'PauliY', 'PauliZ', 'S', 'T', 'SX', 'Hadamard', 'Rot', 'U3']
TWO = ['CNOT', 'CY', 'CZ', 'SWAP', 'CRX', 'CRY', 'CRZ', 'ControlledPhaseShift']
THREE = ['Toffoli', 'CSWAP']
NPAR = dict(RX=1, RY=1, RZ=1, PhaseShift=1, U1=1, Rot=3, U3=3, CRX=1, CRY=1, CRZ=1, ControlledPhaseShift=1, PauliRot=1, MultiRZ=1)
INVERTIBLE = True


class Circ:
    """random circuit: gates with literal angles or angles taken from the parameters"""

    def __init__(self, rng, n, ngates, pstyle=None, names=None, size=3.0, turns=0):
        self.n = n
        self.off = 4 * math.pi * turns      # whole turns: all gates are unchanged by them
        self.gates = []      # spec form
        self.calls = []      # (cls, args as ('lit', x) / ('par', index path), wires, inv, extra)
        self.pstyle = pstyle or rng.choice(['list', 'array', 'nested'])
        self.values = [rand_angle(rng, size) for _ in range(rng.randint(1, 6))]
        for _ in range(ngates):
            pool = ONE + (TWO if n > 1 else []) + (THREE if n > 2 else []) + ['PauliRot', 'MultiRZ', 'QubitUnitary']
            nm = rng.choice(names or pool)
            k = 1 if nm in ONE else 2 if nm in TWO else 3 if nm in THREE else rng.randint(1, n)
            ws = rng.sample(range(n), k)
            inv = rng.random() < 0.25
            ps, args = [], []
            for _ in range(NPAR.get(nm, 0)):
                if rng.random() < 0.5:
                    x = rand_angle(rng, size)
                    args.append(('lit', x))
                else:
                    i = rng.randrange(len(self.values))
                    x = self.values[i]
                    args.append(('par', i))
                ps.append(fx(x))
            g = dict(g=nm, ws=ws, ps=ps, inv=inv)
            extra = None
            if nm == 'PauliRot':
                g['w'] = [rng.randint(0, 3) for _ in ws]
                if not any(g['w']):
                    g['w'][0] = 1
                extra = ''.join(LET[a] for a in g['w'])
            if nm == 'QubitUnitary':
                rots = []
                U = np.eye(2 ** k, dtype=complex)
                for _ in range(rng.randint(1, 4)):
                    w = word_of(k, rng.randrange(1, 4 ** k))
                    x = round(rng.uniform(-size, size), 7)
                    rots.append(dict(w=w, t=fx(x)))
                    U = rot_matrix(w, x) @ U
                g['rots'] = rots
                extra = U
            self.gates.append(g)
            self.calls.append((nm, args, ws, inv, extra))
            if rng.random() < 0.25:
                # the same gate again, perhaps the other way round, perhaps by a slightly different angle
                ws2 = list(ws)
                if rng.random() < 0.6:
                    rng.shuffle(ws2)
                args2, ps2 = [], []
                for kind, x in args:
                    if kind == 'lit':
                        x = round(x + rng.choice([0, 0.003, -0.0007]) * size / 3, 7)
                    args2.append((kind, x))
                    ps2.append(fx(x if kind == 'lit' else self.values[x]))
                inv2 = inv if rng.random() < 0.7 else not inv
                self.gates.append(dict(g, ws=ws2, ps=ps2, inv=inv2))
                self.calls.append((nm, args2, ws2, inv2, extra))

    def params(self):
        v = [x + self.off for x in self.values] if self.off else self.values
        if self.pstyle == 'array':
            return np.array(v)
        if self.pstyle == 'nested':
            h = len(v) // 2
            return [list(v[:h]), list(v[h:])]
        return list(v)

    def emit(self, params):
        v = params
        if self.pstyle == 'nested':
            v = list(params[0]) + list(params[1])
        for nm, args, ws, inv, extra in self.calls:
            a = [x + self.off if kind == 'lit' else v[x] for kind, x in args]
            wires = ws[0] if len(ws) == 1 else list(ws)
            if nm == 'PauliRot':
                op = qml.PauliRot(a[0], extra, wires=list(ws))
            elif nm == 'MultiRZ':
                op = qml.MultiRZ(a[0], wires=list(ws))
            elif nm == 'QubitUnitary':
                op = qml.QubitUnitary(extra, wires=list(ws))
            else:
                op = getattr(qml, nm)(*a, wires=wires)
            if inv:
                op.inv()

    def circuit(self, ret):
        def f(params, **kwargs):
            self.emit(params)
            if ret == 'state':
                return qml.state()
            return qml.expval(ret)
        return f


def images(U, n):
    """Pauli vectors of U X_q U^-1 and U Z_q U^-1"""
    U = np.array(mat(U, n))
    res = []
    for a in (1, 3):
        for q in range(n):
            A = U @ pauli_matrix(lift([a], [q], n)) @ U.conj().T
            res.append([fx(c) for c in pauli_coeffs(A, n)])
    return res


def c02(out, rng, tier):
    from oranssi import optimizers
    big = tier == 'thorough'
    m = 4 if big else 1
    for n, reps in ((1, 14), (2, 26), (3, 14), (4, 2)):
        for i in range(reps * m):
            ng = (rng.choice([0, 1, 1, 2, 4, 8]) if i % 5 not in (1, 3) else rng.choice([1, 2, 4, 8])) if n < 4 else 5
            c = Circ(rng, n, ng, size=rng.choice([3.0, 3.0, 3.0, 1e-2]), turns=(77, -160, 1, -2)[i // 5 % 4] if i % 5 in (1, 3) else 0)
            ret = rng.choice(['state', qml.PauliZ(0), qml.PauliX(n - 1)])
            base = dict(a='extract', gates=c.gates)
            v, err = call(circuit_tools.get_ops_from_qnode, c.circuit(ret), c.params(), dev(n))

            def fields():
                ops, wires = v
                if len(ops) != len(wires):
                    raise Bad('%d gates, %d wire lists' % (len(ops), len(wires)))
                U = np.eye(2 ** n, dtype=complex)
                for op, w in zip(ops, wires):
                    U = circuit_tools.get_full_operator(op, w, n) @ U
                return dict(wires=[[int(x) for x in w] for w in wires], img=images(U, n))
            evs = [dict(base, err=err) if err else event(base, fields)]
            # the unitary an optimizer run starts from
            if i % 4 == 0 and n < 4:
                base2 = dict(a='initial', gates=c.gates)
                obs = [qml.PauliZ(0)]
                v2, err2 = call(lambda: optimizers.approximate_lie_optimizer(
                    c.circuit('state'), c.params(), obs, dev(n), [opt_tools.LocalLieAlgebraLayer(dev(n), obs, 1)], nsteps=1, return_unitary=True))
                evs.append(dict(base2, err=err2) if err2 else event(base2, lambda: dict(img=images(v2[1][0], n))))
            out.add('circuit_n%d' % n, 'extract n=%d #%d %s' % (n, i, [g['g'] for g in c.gates]), evs)
    # every gate once, plain and inverse
    for nm in ONE + TWO + THREE + ['PauliRot', 'MultiRZ', 'QubitUnitary']:
        for rep in range(1 * m):
            n = 3 if nm in THREE else 2
            c = Circ(rng, n, 2, names=[nm])
            c.gates[0]['inv'], c.gates[1]['inv'] = True, False
            c.calls = [x[:3] + (g['inv'],) + x[4:] for x, g in zip(c.calls, c.gates)]
            base = dict(a='extract', gates=c.gates)
            v, err = call(circuit_tools.get_ops_from_qnode, c.circuit('state'), c.params(), dev(n))

            def fields():
                ops, wires = v
                U = np.eye(2 ** n, dtype=complex)
                for op, w in zip(ops, wires):
                    U = circuit_tools.get_full_operator(op, w, n) @ U
                return dict(wires=[[int(x) for x in w] for w in wires], img=images(U, n))
            out.add('circuit_n%d' % n, 'gate %s and its inverse' % nm, [dict(base, err=err) if err else event(base, fields)])
    # every gate on several wires twice in a row: as it is, and with its wires the other way round
    for nm in TWO + THREE + ['PauliRot', 'MultiRZ', 'QubitUnitary']:
        for turn in (0, 1):
            n = 3 if nm in THREE else 2
            c = Circ(rng, n, 1, names=[nm])
            while len(c.gates[0]['ws']) < 2:
                c = Circ(rng, n, 1, names=[nm])
            g, x = dict(c.gates[0]), c.calls[0]
            if turn:
                g['ws'] = g['ws'][::-1] if nm not in THREE else g['ws'][1:] + g['ws'][:1]
            c.gates = [c.gates[0], g]
            c.calls = [x, x[:2] + (g['ws'],) + x[3:]]
            base = dict(a='extract', gates=c.gates)
            v, err = call(circuit_tools.get_ops_from_qnode, c.circuit('state'), c.params(), dev(n))

            def fields():
                ops, wires = v
                U = np.eye(2 ** n, dtype=complex)
                for op, w in zip(ops, wires):
                    U = circuit_tools.get_full_operator(op, w, n) @ U
                return dict(wires=[[int(x) for x in w] for w in wires], img=images(U, n))
            out.add('circuit_n%d' % n, 'gate %s twice turn=%d' % (nm, turn), [dict(base, err=err) if err else event(base, fields)])
    # the unitary fed back: state and expectation values
    for n, reps in ((1, 8), (2, 12), (3, 8)):
        for i in range(reps * m):
            c = Circ(rng, n, rng.choice([0, 1, 3, 6]), names=['PauliRot'], size=rng.choice([3.0, 3.0, 1e-3, 1e-4]))
            U = np.eye(2 ** n, dtype=complex)
            for g, (nm, args, ws, inv, extra) in zip(c.gates, c.calls):
                t = args[0][1] if args[0][0] == 'lit' else c.values[args[0][1]]
                U = rot_matrix(lift(g['w'], ws, n), -t if inv else t) @ U
            base = dict(a='state', gates=c.gates)
            v, err = call(lambda: qml.QNode(circuit_tools.circuit_state_from_unitary, dev(n))(unitary=U))
            evs = [dict(base, err=err) if err else event(base, lambda: dict(r=bloch(v, n)))]
            for o in rand_obs(rng, n, 3, herm=0.4):
                base = dict(a='expval', gates=c.gates, obs=o.spec())
                v, err = call(lambda: qml.QNode(circuit_tools.circuit_observable_from_unitary, dev(n))(unitary=U, observable=o.q))
                evs.append(dict(base, err=err) if err else event(base, lambda: dict(v=fx(v))))
            # one QNode used for several unitaries
            qn = qml.QNode(circuit_tools.circuit_state_from_unitary, dev(n))
            call(lambda: qn(unitary=np.eye(2 ** n, dtype=complex)))
            v2, err = call(lambda: qn(unitary=U))
            base = dict(a='state', gates=c.gates)
            evs.append(dict(base, err=err) if err else event(base, lambda: dict(r=bloch(v2, n))))
            out.add('circuit_n%d' % n, 'feedback n=%d #%d' % (n, i), evs)


def bump_img(v, rng):
    v = [list(x) for x in v]
    i = rng.randrange(len(v))
    j = rng.randrange(1, len(v[i]))
    v[i][j] += 100000
    return v


SELFTEST['*'].update(extract=[('img', bump_img)], initial=[('img', bump_img)], state=[('r', bump)],
                     expval=[('v', bump)])
