"""Shared harness code: runs the library in /repo, projects what it does onto the state of the
TLA+ specification (Pauli vectors in fixed point), and writes traces.

Nothing here decides a property: verdicts come from TLC.  The only judgement made in Python is
"this call raised / did not return", which is recorded in the `err' field of the event.
"""
import cmath
import contextlib
import io
import itertools as it
import json
import math
import os
import random
import re
import signal
import sys
import traceback
import warnings

warnings.filterwarnings('ignore')
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

import numpy as np  # noqa: E402
import pennylane as qml  # noqa: E402

SCALE = 10 ** 8
LIM = 2 * 10 ** 9
LET = 'IXYZ'


class Bad(Exception):
    """A value the library returned has the wrong shape or is not a finite number."""


def fx(x):
    x = complex(x)
    if abs(x.imag) > 1e-7 * max(1.0, abs(x.real)):
        raise Bad('complex value where a real one is expected: %r' % (x,))
    x = x.real
    if x != x or x in (float('inf'), float('-inf')):
        raise Bad('not a finite number: %r' % (x,))
    v = int(round(x * SCALE))
    return max(-LIM, min(LIM, v))


def fxl(xs):
    return [fx(x) for x in xs]


# ------------------------------------------------------------------ Pauli words
def word_of(n, k):
    return [(k // 4 ** (n - 1 - q)) % 4 for q in range(n)]


def pos_of(word):
    k = 0
    for d in word:
        k = 4 * k + d
    return k + 1


def lift(letters, sites, n):
    w = [0] * n
    for a, s in zip(letters, sites):
        w[s] = a
    return w


_ACT = {}


def actions(n):
    """for every word k a list over basis states x of (y, phase): P|x> = phase |y>"""
    if n not in _ACT:
        res = []
        for k in range(4 ** n):
            w = word_of(n, k)
            row = []
            for x in range(2 ** n):
                y, ph = x, 1
                for q in range(n):
                    bit = (x >> (n - 1 - q)) & 1
                    m = 1 << (n - 1 - q)
                    if w[q] == 1:
                        y ^= m
                    elif w[q] == 2:
                        y ^= m
                        ph = ph * (1j if bit == 0 else -1j)
                    elif w[q] == 3:
                        ph = ph * (1 if bit == 0 else -1)
                row.append((y, complex(ph)))
            res.append(row)
        _ACT[n] = res
    return _ACT[n]


def pauli_matrix(word):
    n = len(word)
    m = np.zeros((2 ** n, 2 ** n), dtype=complex)
    for x, (y, ph) in enumerate(actions(n)[pos_of(word) - 1]):
        m[y, x] = ph
    return m


def mat(U, n):
    U = np.asarray(U)
    if U.shape != (2 ** n, 2 ** n):
        raise Bad('matrix of shape %r, expected %r' % (U.shape, (2 ** n, 2 ** n)))
    M = [[complex(U[i, j]) for j in range(2 ** n)] for i in range(2 ** n)]
    for row in M:
        for z in row:
            if not (math.isfinite(z.real) and math.isfinite(z.imag)):
                raise Bad('matrix entry is not finite')
    return M


def vec(psi, n):
    psi = np.asarray(psi)
    if psi.shape != (2 ** n,):
        raise Bad('state of shape %r, expected %r' % (psi.shape, (2 ** n,)))
    v = [complex(z) for z in psi]
    for z in v:
        if not (math.isfinite(z.real) and math.isfinite(z.imag)):
            raise Bad('amplitude is not finite')
    return v


def bloch(psi, n):
    """Pauli vector of a state vector"""
    v = vec(psi, n)
    out = []
    for row in actions(n):
        s = 0j
        for x, (y, ph) in enumerate(row):
            s += v[y].conjugate() * ph * v[x]
        out.append(fx(s.real))
    return out


def bloch_u(U, n):
    """Pauli vector of U|0..0>"""
    M = mat(U, n)
    return bloch(np.array([row[0] for row in M]), n)


PROBE = random.Random(4711)


def probes(U0, U1, n, limit=3):
    """images of one random input state under two unitaries: the first column does not show all of a matrix"""
    if n > limit:
        return dict(q0=[], q1=[])
    x = np.array([complex(PROBE.gauss(0, 1), PROBE.gauss(0, 1)) for _ in range(2 ** n)])
    x = x / math.sqrt(float(np.sum(np.abs(x) ** 2)))
    return dict(q0=bloch(np.array(mat(U0, n)) @ x, n), q1=bloch(np.array(mat(U1, n)) @ x, n))


NOPROBE = dict(q0=[], q1=[])


def pauli_coeffs(V, n):
    """coefficients tr(P V)/2^n for every word"""
    M = mat(V, n)
    out = []
    d = 2 ** n
    for row in actions(n):
        s = 0j
        for x, (y, ph) in enumerate(row):
            # tr(P V) = sum_{x} <x| P V |x> ; P = sum |y><x| ph  -> sum ph V[x, y]
            s += ph * M[x][y]
        out.append(s / d)
    return out


def sparse_v(V, n, eps=1e-6):
    cs = pauli_coeffs(V, n)
    return [[k + 1, fx(c.real), fx(c.imag)] for k, c in enumerate(cs) if abs(c) > eps]


def step_v(U0, U1):
    return np.asarray(U1) @ np.asarray(U0).conj().T


def uerr(U):
    U = np.asarray(U)
    e = float(np.max(np.abs(U @ U.conj().T - np.eye(U.shape[0]))))
    return int(min(1e9, round(e * 1e10))) if math.isfinite(e) else 10 ** 9


def rows(U, n):
    M = mat(U, n)
    return ([[fx(z.real) for z in r] for r in M], [[fx(z.imag) for z in r] for r in M])


# ------------------------------------------------------------------ observables
OPS = {1: qml.PauliX, 2: qml.PauliY, 3: qml.PauliZ, 0: qml.Identity}
_SQ = {k: None for k in range(4)}


def letter_matrix(a):
    return pauli_matrix([a])


def word_obs(letters, sites):
    """PennyLane observable for letters on sites, in that order"""
    ob = OPS[letters[0]](int(sites[0]))
    for a, s in zip(letters[1:], sites[1:]):
        ob = ob @ OPS[a](int(s))
    return ob


class Obs:
    """an observable: PennyLane object + spec terms [[pos, coeff], ...]"""

    def __init__(self, qobs, terms):
        self.q, self.terms = qobs, terms

    def spec(self):
        return [[p, fx(c)] for p, c in self.terms]

    def matrix(self, n):
        m = np.zeros((2 ** n, 2 ** n), dtype=complex)
        for p, c in self.terms:
            m = m + c * pauli_matrix(word_of(n, p - 1))
        return m


def rand_word_obs(rng, n, maxw=3, shuffle=True):
    k = rng.randint(1, min(maxw, n))
    sites = rng.sample(range(n), k)
    if not shuffle:
        sites.sort()
    letters = [rng.randint(1, 3) for _ in sites]
    return Obs(word_obs(letters, sites), [(pos_of(lift(letters, sites, n)), 1.0)])


def rand_herm_obs(rng, n):
    """a Hermitian observable on one or two wires, in either order"""
    k = rng.randint(1, min(2, n))
    sites = rng.sample(range(n), k)
    m = np.zeros((2 ** k, 2 ** k), dtype=complex)
    terms = []
    for idx in rng.sample(range(4 ** k), 3):
        c = round(rng.uniform(-0.7, 0.7), 6)
        w = word_of(k, idx)
        m = m + c * pauli_matrix(w)
        terms.append((pos_of(lift(w, sites, n)), c))
    return Obs(qml.Hermitian(m, wires=sites), terms)


def rand_obs(rng, n, count, herm=0.0, maxw=3):
    out = []
    for _ in range(count):
        if rng.random() < herm:
            out.append(rand_herm_obs(rng, n))
        else:
            out.append(rand_word_obs(rng, n, maxw))
    return out


def rand_involution(rng, n, sites=None):
    """cos(t) A + sin(t) B for two anticommuting words A, B on one or two wires, given as a matrix"""
    sites = sites or rng.sample(range(n), rng.randint(1, min(2, n)))
    k = len(sites)
    while True:
        a, b = word_of(k, rng.randrange(1, 4 ** k)), word_of(k, rng.randrange(1, 4 ** k))
        if sum(1 for x, y in zip(a, b) if x and y and x != y) % 2:
            break
    t = rng.uniform(-3, 3)
    m = math.cos(t) * pauli_matrix(a) + math.sin(t) * pauli_matrix(b)
    return Obs(qml.Hermitian(m, wires=sites), [(pos_of(lift(a, sites, n)), math.cos(t)), (pos_of(lift(b, sites, n)), math.sin(t))])


def some_obs(rng, n, lo, hi, herm=0.0, maxw=3, many=0.15):
    """between lo and hi observables, now and then up to nine; some of them repeated, on the same wires as another, with
    identity factors, or as Hadamard"""
    lots = rng.random() < many
    count = rng.randint(6, 9) if lots else rng.randint(lo, hi)
    if lots:
        herm = min(herm, 0.2)
    out = []
    for _ in range(count):
        x = rng.random()
        if out and x < 0.08:
            out.append(rng.choice(out))
        elif x < 0.08 + 0.3 * herm:
            o = rand_involution(rng, n)
            out.append(o)
            if len(out) < count and rng.random() < 0.5:
                out.append(rand_involution(rng, n, [int(w) for w in o.q.wires]))
        elif x < 0.14 + 0.3 * herm and n > 1:
            k = rng.randint(2, n)
            sites = sorted(rng.sample(range(n), k))        # PennyLane itself miscalculates identity factors on unsorted wires
            ls = [rng.randint(1, 3)] + [rng.choice([0, 0, 1, 2, 3]) for _ in sites[1:]]
            ls = [0] + ls[:-1] if rng.random() < 0.5 else ls
            out.append(Obs(word_obs(ls, sites), [(pos_of(lift(ls, sites, n)), 1.0)]))
        elif x < 0.18 + 0.3 * herm:
            q = rng.randrange(n)
            out.append(Obs(qml.Hadamard(q), [(pos_of(lift([1], [q], n)), math.sqrt(.5)), (pos_of(lift([3], [q], n)), math.sqrt(.5))]))
        else:
            out += rand_obs(rng, n, 1, herm, maxw)
    return out[:max(count, 1)]


def rand_angle(rng, size=3.0):
    """mostly uniform; also tiny, zero, and at multiples of a quarter turn"""
    x = rng.random()
    if x < 0.07:
        return 0.0
    if x < 0.17:
        return round(rng.choice([-1, 1]) * rng.choice([1e-2, 1e-3, 1e-4, 3e-5]) * rng.uniform(0.5, 1), 7)
    if x < 0.27:
        return round(rng.choice([-4, -3, -2, -1, 1, 2, 3, 4, 6, 8]) * math.pi / 2, 7)
    return round(rng.uniform(-size, size), 7)


# ------------------------------------------------------------------ unitaries
def rot_matrix(word, t):
    """exp(-i t/2 P)"""
    P = pauli_matrix(word)
    return math.cos(t / 2) * np.eye(P.shape[0], dtype=complex) - 1j * math.sin(t / 2) * P


def rand_unitary(rng, n, kind=None):
    """random unitary: generic (product of Pauli rotations), Clifford, product, or identity"""
    kind = kind or rng.choice(['generic', 'generic', 'generic', 'clifford', 'product', 'identity', 'near'])
    U = np.eye(2 ** n, dtype=complex)
    if kind == 'near':
        # close to a critical point: all gradients are small
        U = rand_unitary(rng, n, rng.choice(['identity', 'clifford']))
        size = rng.choice([1e-2, 1e-3, 1e-4])
        for _ in range(3):
            U = rot_matrix(word_of(n, rng.randrange(1, 4 ** n)), rng.uniform(-size, size)) @ U
        return U
    if kind == 'identity':
        return U
    if kind == 'product':
        for q in range(n):
            for a in (1, 3, 2):
                U = rot_matrix(lift([a], [q], n), rng.uniform(-3, 3)) @ U
        return U
    for _ in range(5 * n + 3):
        w = word_of(n, rng.randrange(1, 4 ** n))
        t = rng.choice([1, 2, 3]) * math.pi / 2 if kind == 'clifford' else rng.uniform(-3, 3)
        U = rot_matrix(w, t) @ U
    return U


def nudge(rng, U, n, size=None):
    """a unitary close to U"""
    size = size or rng.choice([1e-3, 3e-4, 1e-4])
    V = np.array(U)
    for _ in range(2):
        V = rot_matrix(word_of(n, rng.randrange(1, 4 ** n)), rng.choice([-1, 1]) * rng.uniform(0.5, 1) * size) @ V
    return V


def onward(rng, U, U1, n, stay=0.6):
    """the unitary handed to the next call: mostly what the last one returned; also the same array again, one very close to
    it, the same array object with other contents, or something new"""
    x = rng.random()
    if x < stay:
        return U1
    x = (x - stay) / (1 - stay)
    if x < 0.25:
        return U
    if x < 0.5:
        return nudge(rng, U, n)
    if x < 0.75:
        V = np.array(U)
        V[...] = rand_unitary(rng, n)
        try:
            U[...] = V
        except Exception:      # not writable
            return V
        return U
    return rand_unitary(rng, n)


# ------------------------------------------------------------------ running library code
class Timeout(Exception):
    pass


def _alarm(signum, frame):
    raise Timeout('did not return in time')


signal.signal(signal.SIGALRM, _alarm)


@contextlib.contextmanager
def quiet(limit=120):
    out, err = sys.stdout, sys.stderr
    sys.stdout = io.StringIO()
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        sys.stdout, sys.stderr = out, err


class Enough(Exception):
    """too many calls did not return: stop exploring, what was recorded is enough"""


TIMEOUTS = [0]


def call(fn, *a, limit=120, **k):
    """(value, '') or (None, 'ExcType: message')"""
    if TIMEOUTS[0] >= 3:
        raise Enough()
    try:
        with quiet(limit if not TIMEOUTS[0] else min(limit, 20)):
            return fn(*a, **k), ''
    except Timeout as e:
        TIMEOUTS[0] += 1
        return None, 'Timeout: %s' % e
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:  # noqa
        return None, '%s: %s' % (type(e).__name__, str(e)[:200])


def event(base, build):
    """Complete an event from a successful call: build() computes the fields from what the library returned; a
    value of the wrong shape or a non-finite number becomes the err field."""
    ev = dict(base)
    ev['err'] = ''
    try:
        ev.update(build())
    except Bad as e:
        return dict(base, err='Bad: %s' % e)
    except Exception as e:  # what came back could not even be read as the documented kind of value
        return dict(base, err='Unreadable result, %s: %s' % (type(e).__name__, str(e)[:200]))
    return ev


class Out:
    """collects traces per group (one TLC run per group) and writes them"""

    def __init__(self, outdir):
        self.dir = outdir
        self.groups = {}

    def add(self, group, tid, events):
        if events:
            self.groups.setdefault(group, []).append({'id': tid, 'ev': events})

    def corrupt(self, group, tid, ev, rng=None, seen=()):
        """binding self-test: a trace that the specification must reject"""
        self.groups.setdefault(group, []).append({'id': 'SELFTEST ' + tid, 'ev': ev})

    def selftest(self, rng, table, per=1):
        """for every action in the table, copies of recorded traces with one recorded number changed.
        table: action -> list of (field, how)"""
        for g in sorted(self.groups):
            done = {}
            trs = [t for t in self.groups[g] if not t['id'].startswith('SELFTEST')]
            rng.shuffle(trs)
            for tr in trs:
                for i, ev in enumerate(tr['ev']):
                    for field, how in table.get(ev.get('a'), ()):
                        if done.get((ev['a'], field), 0) >= per or ev.get('err') or field not in ev:
                            continue
                        bad = json.loads(json.dumps(ev))
                        new = how(bad[field], rng, tr) if getattr(how, 'ctx', False) else how(bad[field], rng)
                        if new is None:
                            continue
                        bad[field] = new
                        done[(ev['a'], field)] = done.get((ev['a'], field), 0) + 1
                        self.groups[g].append({'id': 'SELFTEST %s of %s' % (field, tr['id']), 'ev': tr['ev'][:i] + [bad]})

    def write(self):
        for g, trs in self.groups.items():
            with open(os.path.join(self.dir, g + '.ndjson'), 'w') as f:
                for tr in trs:
                    f.write(json.dumps(tr) + '\n')


def dev(n):
    return qml.device('default.qubit', wires=n)


LETTERS = {'I': 0, 'X': 1, 'Y': 2, 'Z': 3}


def letters(s):
    return [LETTERS[c] for c in s]


def dirnames(k):
    return [''.join(p) for p in it.product('XYZ', repeat=k)]


def bump(v, rng):
    """change one number of a recorded vector by 1e-3"""
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + 100000
    v = list(v)
    if not v or not all(isinstance(x, int) for x in v):
        return None
    k = rng.randrange(1, len(v)) if len(v) > 1 else 0
    v[k] += 100000 if v[k] < 0 else -100000
    return v


def ctx(fn):
    fn.ctx = True
    return fn


def swap_false(v, rng):
    return not v
