"""Drivers for the symbolic Pauli algebra (trace spec: TracePauli)."""
from lib import *
from oranssi import pauli
from oranssi.pauli import Pauli, PauliMonomial, PauliSum
import sympy as sp

X, Y = sp.Symbol('x', real=True), sp.Symbol('y', real=True)
VAL = {X: 2, Y: 3}


def cases(name):
    with open(os.path.join(os.environ['VERIF_CASES'], name + '.ndjson')) as f:
        return [json.loads(x) for x in f]


UNIT = [1.0]        # every monomial made by `new' carries this factor


def gauss(c, deg=0):
    if hasattr(c, 'subs'):
        c = complex(c.subs(VAL))
    c = complex(c) / UNIT[0] ** deg
    if not (math.isfinite(c.real) and math.isfinite(c.imag)):
        raise Bad('coefficient is not finite')
    r = [int(round(c.real)), int(round(c.imag))]
    if abs(c.real - r[0]) > 1e-6 or abs(c.imag - r[1]) > 1e-6:
        raise Bad('coefficient %r is not the expected Gaussian integer' % (c,))
    return r


def view(m, deg=0):
    return dict(t=[[int(p.alpha), int(p.gamma)] for p in m.monomial], c=gauss(m.coeff, deg))


def views(s, deg=0):
    return [view(m, deg) for m in s.pauli_sum]


def gauss_raw(c):
    return complex(c.subs(VAL)) if hasattr(c, 'subs') else complex(c)


def parse(text, deg):
    """coefficient (nothing when it is left out) and factors of a printed monomial"""
    head, star, tail = text.rpartition(' * ')
    fs = tail.split(' ')
    got = [re.fullmatch(r'S\((\d+),(\d)\)', f) for f in fs]
    if not all(got):
        raise Bad('cannot read %r' % text)
    return dict(c=[gauss(complex(head), deg)] if star else [], t=[[int(g.group(1)), int(g.group(2))] for g in got])


def parse_tex(text, deg):
    f = r'(?:I_\{(\d+)\}|\\sigma_\{(\d+)\}\^\{([XYZ])\})'
    g = re.fullmatch(r'(?:([^\s\\I]+) )?(%s(?: %s)*)' % (f, f), text)
    if not g:
        raise Bad('cannot read %r' % text)
    return dict(c=[gauss(complex(g.group(1)), deg)] if g.group(1) else [],
                t=[[int(a or b), LET.index(c) if c else 0] for a, b, c in re.findall(f, g.group(2))])


def plain(p):
    if p['c']:
        raise Bad('a coefficient nobody asked for')
    return p['t']


class Machine:
    def __init__(self, rng, sym=False):
        self.m, self.s, self.rng, self.sym = [], [], rng, sym
        self.dm, self.ds = [], []       # degree of each register in the unit

    def coef(self, c):
        z = complex(c[0], c[1])
        if self.sym:
            if c == [2, 0]:
                return X
            if c == [-3, 0]:
                return -Y
            if c == [0, -2]:
                return -1j * X
        if c[1] == 0 and self.rng.random() < 0.6:
            return float(c[0])
        return z

    def run(self, o):
        k = o['op']
        if k == 'new':
            ps = [Pauli(s, (LET[a] if self.rng.random() < 0.5 else a), coeff=self.coef(c)) if c != [1, 0] or self.rng.random() < 0.5 else
                  Pauli(s, LET[a]) for s, a, c in zip(o['sites'], o['ls'], o['cs'])]
            if UNIT[0] != 1.0:
                j = self.rng.randrange(len(ps))
                ps[j] = Pauli(ps[j].alpha, ps[j].gamma, coeff=UNIT[0] * ps[j].coeff)
            self.m.append(PauliMonomial(ps))
            self.dm.append(1)
        elif k == 'mul':
            self.m.append(self.m[o['i'] - 1] * self.m[o['j'] - 1])
            self.dm.append(self.dm[o['i'] - 1] + self.dm[o['j'] - 1])
        elif k == 'comm':
            self.m.append(self.m[o['i'] - 1].commutator(self.m[o['j'] - 1]))
            self.dm.append(self.dm[o['i'] - 1] + self.dm[o['j'] - 1])
        elif k == 'conj':
            return dict(ret=self.m[o['i'] - 1].conj())
        elif k == 'commutes':
            return dict(ans=bool(self.m[o['i'] - 1].commutes_with(self.m[o['j'] - 1])))
        elif k == 'lt':
            return dict(ans=bool(self.m[o['i'] - 1] < self.m[o['j'] - 1]))
        elif k == 'export':
            e = self.m[o['i'] - 1].to_oranssi()
            return dict(label=letters(e[0]), lsites=[int(x) for x in e[1:]])
        elif k == 'eq':
            x, y = self.m[o['i'] - 1], self.m[o['j'] - 1]
            try:
                ans, ne, refused = bool(x == y), bool(x != y), False
            except AssertionError:
                ans, ne, refused = False, False, True
            return dict(ans=ans, ne=ne, refused=refused, samehash=hash(x) == hash(y))
        elif k == 'feq':
            x, y = self.m[o['i'] - 1][o['a'] - 1], self.m[o['j'] - 1][o['b'] - 1]
            return dict(ans=bool(x == y), ne=bool(x != y), samehash=hash(x) == hash(y), size=len({x, y}))
        elif k == 'set':
            held = {self.m[i - 1] for i in o['is']}
            return dict(size=len(held), members=[x in held for x in self.m])
        elif k == 'print':
            x, d = self.m[o['i'] - 1], self.dm[o['i'] - 1]
            text = [repr, str, lambda v: '%s' % (v,), lambda v: '{}'.format(v)][self.rng.randrange(4)](x)
            return dict(text=parse(text, d), bare=plain(parse(x.__repr__(coeff=False), d)), unit=UNIT[0] != 1.0)
        elif k == 'tex':
            x, d = self.m[o['i'] - 1], self.dm[o['i'] - 1]
            return dict(text=parse_tex(x.tex(), d), bare=plain(parse_tex(x.tex(coeff=False), d)))
        elif k == 'items':
            x = self.m[o['i'] - 1]
            n = len(x)
            return dict(len=n, items=[[int(x[a].alpha), int(x[a].gamma)] for a in range(n)])
        elif k == 'sum':
            self.s.append(PauliSum([self.m[i - 1] for i in o['is']]))
            self.ds.append(self.dm[o['is'][0] - 1])
        elif k == 'add':
            self.s.append(self.s[o['i'] - 1] + self.s[o['j'] - 1])
            self.ds.append(self.ds[o['i'] - 1])
        elif k == 'sub':
            self.s.append(self.s[o['i'] - 1] - self.s[o['j'] - 1])
            self.ds.append(self.ds[o['i'] - 1])
        elif k == 'smul':
            self.s.append(self.s[o['i'] - 1] * self.s[o['j'] - 1])
            self.ds.append(self.ds[o['i'] - 1] + self.ds[o['j'] - 1])
        elif k == 'scale':
            c = o['c']
            v = complex(*c) if c[1] or self.rng.random() < 0.4 else (c[0] if self.rng.random() < 0.5 else float(c[0]))
            self.s[o['i'] - 1].scalar_mul(v)
        return {}


def homogeneous(prog, unit):
    """the steps of a program that keep every sum of one degree in the unit, and compare only monomials of equal degree"""
    dm, ds, keep = [], [], []
    for o in prog:
        k = o['op']
        if k == 'new':
            dm.append(1)
        elif k in ('mul', 'comm'):
            dm.append(dm[o['i'] - 1] + dm[o['j'] - 1])
        elif k == 'sum':
            if len({dm[i - 1] for i in o['is']}) > 1 or unit ** dm[o['is'][0] - 1] < 1e-6:
                return keep
            ds.append(dm[o['is'][0] - 1])
        elif k in ('add', 'sub'):
            if ds[o['i'] - 1] != ds[o['j'] - 1]:
                return keep
            ds.append(ds[o['i'] - 1])
        elif k == 'smul':
            return keep         # products of small numbers may be taken for zero
        elif k == 'lt' and dm[o['i'] - 1] != dm[o['j'] - 1]:
            continue
        keep.append(o)
    return keep


HIGH = [0, 1, 2, 3, 7, 8, 9, 10, 11, 15, 16, 19, 20, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 255, 256, 257, 999, 1000, 1024, 9999, 65536]


def relabel(rng, prog):
    """the same program on other qubits, in the same order"""
    used = sorted({s for o in prog for s in o.get('sites', ())})
    if not used:
        return prog
    start = rng.randrange(len(HIGH) - len(used) + 1)
    new = sorted(rng.sample(HIGH, len(used))) if rng.random() < 0.5 else HIGH[start:start + len(used)]
    to = dict(zip(used, new))
    return [dict(o, sites=[to[s] for s in o['sites']]) if 'sites' in o else o for o in prog]


def execute(rng, prog, sym=False, dump='all', unit=1.0):
    """dump: 'all' registers after every step, or only the newest one ('last')"""
    if rng.random() < 0.4:
        prog = relabel(rng, prog)
    UNIT[0] = unit
    if unit != 1.0:
        prog = homogeneous(prog, unit)
    mc = Machine(rng, sym)
    evs = []
    for step, o in enumerate(prog):
        v, err = call(mc.run, o)
        base = dict(a=o['op'], o=o)
        if err:
            evs.append(dict(base, err=err))
            break

        def fields():
            d = {k: x for k, x in v.items() if k != 'ret'}
            if 'ret' in v and complex(gauss_raw(v['ret'].coeff)) != complex(gauss_raw(mc.m[o['i'] - 1].coeff)):
                raise Bad('conj returned something else than the conjugated monomial')
            full = dump == 'all' or step == len(prog) - 1
            d['m'] = [[view(x, mc.dm[i])] if full or i >= len(mc.m) - 1 else [] for i, x in enumerate(mc.m)]
            d['s'] = [[views(x, mc.ds[i])] for i, x in enumerate(mc.s)]
            return d
        evs.append(event(base, fields))
        if evs[-1]['err']:
            break
    return evs


CS = [[1, 0], [-1, 0], [2, 0], [0, 1], [0, -2], [1, 1], [-3, 0]]


def wide(rng, k):
    """a monomial of k factors: few identities, sites not necessarily consecutive"""
    sites = rng.sample(range(k + rng.choice([0, 0, 1, 3])), k)
    return dict(op='new', sites=sites, ls=[rng.choice([0, 1, 1, 2, 2, 3, 3]) for _ in range(k)], cs=[rng.choice(CS)] + [[1, 0]] * (k - 1))


def vary(rng, o, changes):
    """the same monomial with another coefficient and a few other letters"""
    ls = list(o['ls'])
    for j in rng.sample(range(len(ls)), min(changes, len(ls))):
        ls[j] = rng.choice([a for a in range(4) if a != ls[j]])
    order = rng.sample(range(len(ls)), len(ls))
    return dict(op='new', sites=[o['sites'][j] for j in order], ls=[ls[j] for j in order], cs=[[1, 0]] * (len(ls) - 1) + [rng.choice(CS)])


def wides(rng, tier, ops):
    for i in range(250 if tier == 'thorough' else 60):
        k = rng.choice([3, 4, 5, 5, 6, 7, 8, 10, 12])
        a = wide(rng, k)
        prog = [a, vary(rng, a, 0), vary(rng, a, 1), vary(rng, a, 2), vary(rng, a, 3), wide(rng, k), wide(rng, rng.choice([1, 2, k]))]
        n = 7
        for _ in range(12):
            o = rng.choice(ops)
            x, y = rng.randint(1, 7), rng.randint(1, 7)
            if o == 'feq':
                prog.append(dict(op=o, i=x, j=y, a=1, b=1))
            elif o == 'set':
                prog.append(dict(op=o, **{'is': [1, 2, 3, 4, 5, 6]}))
            elif o in ('print', 'tex', 'items', 'export', 'conj'):
                prog.append(dict(op=o, i=x))
            else:
                prog.append(dict(op=o, i=x, j=y))
            n += o in ('mul', 'comm')
        if 'set' in ops:
            prog = [p for p in prog if p['op'] != 'set' or all(len(prog[j]['ls']) == k for j in range(6))]
            if len(prog[6]['ls']) != k:
                prog[6] = wide(rng, k)
        yield i, prog


def c04(out, rng, tier):
    for i, prog in wides(rng, tier, ['mul', 'comm', 'commutes', 'commutes', 'commutes', 'lt', 'export', 'conj']):
        out.add('pauli', 'wide #%d' % i, execute(rng, prog))
    for i, case in enumerate(cases('mono')):
        sym = i % 5 == 0
        # symbols have no size, so programs with symbolic coefficients do not compare monomials
        out.add('pauli', 'program #%d' % i, execute(rng, [o for o in case['prog'] if not (sym and o['op'] == 'lt')], sym=sym,
                                                    unit=1.0 if sym else (1.0, 1.0, 0.125, 1e-4, 1e-6)[i % 5]))
    # the whole multiplication, commutator, commutation and order tables on two sites
    words = [[a, b] for a in range(4) for b in range(4)]
    cs = [[1, 0], [-1, 0], [2, 0], [0, 1], [0, -2], [1, 1], [-3, 0]]
    pairs = [(v, w) for v in words for w in words]
    if tier == 'quick':
        pairs = pairs
    for v, w in pairs:
        s1 = rng.choice([[0, 1], [1, 0]])
        s2 = rng.choice([[0, 1], [1, 0], [0, 1], [1, 2]])
        prog = [dict(op='new', sites=s1, ls=v, cs=[rng.choice(cs), [1, 0]]), dict(op='new', sites=s2, ls=w, cs=[[1, 0], rng.choice(cs)])]
        prog += [dict(op=o, i=1, j=2) for o in ('mul', 'comm', 'commutes', 'lt')] + [dict(op='lt', i=2, j=1), dict(op='comm', i=1, j=4)]
        out.add('pauli', 'pair %s %s' % (v, w), execute(rng, prog))
    if tier == 'thorough':
        words3 = list(it.product(range(4), repeat=3))
        for v in words3:
            prog = [dict(op='new', sites=[0, 1, 2], ls=list(v), cs=[rng.choice(cs), [1, 0], [1, 0]])]
            for k, w in enumerate(words3):
                prog += [dict(op='new', sites=[0, 1, 2], ls=list(w), cs=[[1, 0], [1, 0], rng.choice(cs)]),
                         dict(op='mul', i=1, j=2 + 3 * k), dict(op='comm', i=2 + 3 * k, j=1), dict(op='commutes', i=1, j=2 + 3 * k)]
            out.add('pauli', 'table %s' % (v,), execute(rng, prog, dump='last'))


def c05(out, rng, tier):
    # many terms, on many sites, with coefficients of very different size
    for i in range(150 if tier == 'thorough' else 40):
        k = rng.choice([1, 2, 3, 5, 6])
        big = rng.choice([1, 1, 10 ** 3, 10 ** 5, 10 ** 7])
        base = [dict(wide(rng, k), cs=[[1, 0]] * k) for _ in range(rng.choice([1, 2, 6]))]
        prog = []
        for j in range(rng.choice([4, 8, 14, 20])):
            w = rng.choice(base)
            c = rng.choice([[1, 0], [-1, 0], [0, 1], [big, 0], [-big + 1, 0], [-big, 0], [1, big], [0, -big]])
            prog.append(dict(w, cs=[c] + [[1, 0]] * (k - 1)))
        n = len(prog)
        prog += [dict(op='sum', **{'is': [rng.randint(1, n) for _ in range(rng.choice([2, 5, n]))]}) for _ in range(3)]
        prog += [dict(op=rng.choice(['add', 'sub']), i=rng.randint(1, 3), j=rng.randint(1, 3)) for _ in range(3)]
        out.add('pauli', 'terms #%d' % i, execute(rng, prog))
    for i, case in enumerate(cases('sum')):
        out.add('pauli', 'program #%d' % i, execute(rng, case['prog'], unit=(1.0, 1.0, 1.0, 1e-5, 0.125)[i % 5]))
    # sums of monomials on different sites
    cs = [[1, 0], [-1, 0], [2, 0], [0, 1], [1, -1], [-1, 1], [0, -1]]
    for i in range(200 if tier == 'thorough' else 50):
        k = rng.choice([1, 2])
        prog = [dict(op='new', sites=rng.sample(range(4), k), ls=[rng.randint(1, 3) for _ in range(k)], cs=[rng.choice(cs)] + [[1, 0]] * (k - 1)) for _ in range(4)]
        # repeated words with coefficients of every kind
        w = prog[0]
        prog += [dict(w, cs=[rng.choice(cs)] + [[1, 0]] * (k - 1)) for _ in range(3)]
        prog += [dict(op='sum', **{'is': [rng.randint(1, 7) for _ in range(rng.randint(1, 5))]}) for _ in range(3)]
        for _ in range(8):
            o = rng.choice(['add', 'sub', 'add', 'sub', 'scale'])
            ns = sum(1 for p in prog if p['op'] in ('sum', 'add', 'sub'))
            if o == 'scale':
                prog.append(dict(op='scale', i=rng.randint(1, ns), c=rng.choice(cs)))
            else:
                prog.append(dict(op=o, i=rng.randint(1, ns), j=rng.randint(1, ns)))
        out.add('pauli', 'sites #%d' % i, execute(rng, prog, unit=(1.0, 1e-5, 0.125, 1e-4, 1000.0)[i % 5]))


def c25(out, rng, tier):
    for i, prog in wides(rng, tier, ['eq', 'eq', 'eq', 'feq', 'set', 'print', 'tex', 'items']):
        out.add('pauli', 'wide #%d' % i, execute(rng, prog, unit=(1.0, 1.0, 2.0 ** -18)[i % 3]))
    for i, case in enumerate(cases('cmp')):
        out.add('pauli', 'program #%d' % i, execute(rng, case['prog'], unit=(1.0, 2.0 ** -18, 1.0, 2.0 ** -30)[i % 4]))
    # every pair of two-site words, with coefficients of every kind
    cs = [[1, 0], [-1, 0], [2, 0], [0, 1], [0, -2], [1, 1], [-3, 0]]
    words = [[a, b] for a in range(4) for b in range(4)]
    for v in words:
        prog = [dict(op='new', sites=rng.choice([[0, 1], [1, 0]]), ls=v, cs=[rng.choice(cs), [1, 0]])]
        prog[0]['ls'] = v if prog[0]['sites'] == [0, 1] else v[::-1]
        for k, w in enumerate(words):
            prog += [dict(op='new', sites=[0, 1] if rng.random() < 0.9 else [0, 2], ls=w, cs=[[1, 0], rng.choice(cs)]), dict(op='eq', i=1, j=k + 2), dict(op='eq', i=k + 2, j=1),
                     dict(op='feq', i=1, j=k + 2, a=rng.randint(1, 2), b=rng.randint(1, 2))]
        prog += [dict(op='set', **{'is': list(range(1, 18))}), dict(op='print', i=1), dict(op='tex', i=1)]
        out.add('pauli', 'word %s' % (v,), execute(rng, prog))


def break_c(v, rng):
    v = json.loads(json.dumps(v))
    c = v[-1][0]['c'] if v and v[-1] else None
    if c is None:
        return None
    c[0] += 1
    return v


def break_s(v, rng):
    v = json.loads(json.dumps(v))
    if not v or not v[-1] or not v[-1][0]:
        return None
    v[-1][0][0]['c'][1] += 1
    return v


SELFTEST = {'*': dict(mul=[('m', break_c)], comm=[('m', break_c)], conj=[('m', break_c)], commutes=[('ans', swap_false)], lt=[('ans', swap_false)],
                      export=[('lsites', lambda v, rng: v + [9])], add=[('s', break_s)], sub=[('s', break_s)], smul=[('s', break_s)], scale=[('s', break_s)],
                      feq=[('ans', swap_false)], items=[('len', lambda v, rng: v + 1)], set=[('size', lambda v, rng: v + 1)],
                      print=[('text', lambda v, rng: dict(v, t=v['t'] + [[99, 1]]))], tex=[('text', lambda v, rng: dict(v, c=[[77, 0]]))])}
