"""Drivers for Bloch angles and direction plots (trace specs: TraceBlochAngles, TracePlots)."""
import os
os.environ['MPLBACKEND'] = 'Agg'
from lib import *
import re
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from oranssi import plot_utils
from h_static import cases

FULL = 2 * math.pi


def parts(rho):
    M = mat(rho, 2) if False else [[complex(np.asarray(rho)[i][j]) for j in range(2)] for i in range(2)]
    if np.asarray(rho).shape != (2, 2):
        raise Bad('shape %r' % (np.asarray(rho).shape,))
    herm = max(abs(M[i][j] - M[j][i].conjugate()) for i in range(2) for j in range(2)) < 1e-12
    tr = M[0][0] + M[1][1]
    return fx(tr), [fx((M[0][1] + M[1][0]).real), fx((1j * (M[0][1] - M[1][0])).real), fx((M[0][0] - M[1][1]).real)], herm


def state_event(phi, theta):
    base = dict(a='state', phi=fx(phi), theta=fx(theta))
    v, err = call(plot_utils.spherical_to_state, phi, theta)

    def build():
        tr, vec_, herm = parts(v)
        return dict(tr=tr, vec=vec_, herm=bool(herm))
    return dict(base, err=err) if err else event(base, build)


def rho_of(x, y, z):
    return 0.5 * np.array([[1 + z, x - 1j * y], [x + 1j * y, 1 - z]])


def angles_event(rho, pure, trueVec=None):
    base = dict(a='angles', pure=pure)
    v, err = call(plot_utils.state_to_spherical, rho)

    def build():
        phi, theta = v
        return dict(phi=fx(float(phi)), theta=fx(float(theta)), vec=parts(rho)[1])
    return dict(base, err=err) if err else event(base, build)


def c22(out, rng, tier):
    big = tier == 'thorough'
    for i, c in enumerate(cases('angles')):
        phi, theta = c['phi'] / SCALE, c['theta'] / SCALE
        evs = [state_event(phi, theta)]
        # the matrix written down independently of the library
        st, ct = math.sin(theta), math.cos(theta)
        evs.append(angles_event(rho_of(st * math.cos(phi), st * math.sin(phi), ct), True))
        r, err = call(plot_utils.spherical_to_state, phi, theta)
        if not err:
            evs.append(angles_event(r, True))
        out.add('angles', 'grid phi=%d theta=%d' % (c['phi'], c['theta']), evs)
    for i in range(2000 if big else 300):
        kind = i % 4
        if kind == 0:
            phi, theta = rng.uniform(-12, 12), rng.uniform(-12, 12)
            out.add('angles', 'free %d' % i, [state_event(phi, theta)])
        elif kind == 1:
            z = rng.choice([rng.uniform(-1, 1), 1 - 10 ** rng.uniform(-16, -3), -1 + 10 ** rng.uniform(-16, -3)])
            phi = rng.uniform(0, FULL)
            s = math.sqrt(max(0, 1 - z * z))
            psi = np.array([math.sqrt((1 + z) / 2), cmath.exp(1j * phi) * math.sqrt(max(0, (1 - z) / 2))]) * cmath.exp(1j * rng.uniform(0, 6))
            out.add('angles', 'pure %d' % i, [angles_event(np.outer(psi, psi.conj()), True)])
        elif kind == 2:
            r = rng.uniform(0, 1)
            v = np.array([rng.gauss(0, 1) for _ in range(3)])
            v = v / np.linalg.norm(v) * r
            out.add('angles', 'mixed %d' % i, [angles_event(rho_of(*[float(x) for x in v]), False)])
        else:
            # the six axis states and near misses with rounding noise, and phi just around the full turn
            ax = rng.choice([(0, 0, 1), (0, 0, -1), (1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0)])
            rho = rho_of(*[a + rng.choice([0, 1e-16, -1e-16, 3e-16] + ([1e-12, -1e-12] if a == 0 else [])) for a in ax])
            out.add('angles', 'axis %d %s' % (i, ax), [angles_event(rho, True)])
    m = rho_of(0.3, 0.1, 0.2)
    for i, (f, bad) in enumerate([(0.0, True), (0.5, True), (0.9, True), (0.999, True), (1.001, True), (1.1, True), (2.0, True), (-1.0, True), (1 + 0.01j, True), (1j, True),
                                  (0.999 + 0.0j, True), (1.0, False), (1 + 1e-12, False), (1 - 1e-12, False)]):
        for rho in (m, rho_of(0, 0, 1), rho_of(0, 0, -1), rho_of(1, 0, 0)):
            v, err = call(plot_utils.state_to_spherical, f * rho)
            out.add('angles', 'trace %s' % f, [dict(a='refuse', bad=bad, refused=bool(err), err='')])
    for rho in (np.zeros((2, 2)), np.eye(2), np.array([[float('nan'), 0], [0, 1.0]])):
        v, err = call(plot_utils.state_to_spherical, rho)
        out.add('angles', 'trace of %s' % rho.tolist(), [dict(a='refuse', bad=True, refused=bool(err), err='')])


def curves(n):
    """all labelled curves of all open figures"""
    words, sums, zero = [], [], []
    for num in plt.get_fignums():
        for ax in plt.figure(num).get_axes():
            for line in ax.get_lines():
                lab = line.get_label()
                x, y = [float(a) for a in line.get_xdata()], [float(a) for a in line.get_ydata()]
                if x != [float(k) for k in range(len(y))]:
                    raise Bad('abscissa of %s is %s' % (lab, x))
                m = re.search(r'\((\d+)\)', lab)
                if len(lab) == n and set(lab) <= set('IXYZ'):
                    words.append(dict(p=pos_of(letters(lab)), y=fxl(y)))
                elif m and 'SU' in lab:
                    w = int(m.group(1)).bit_length() - 1
                    if 2 ** w != int(m.group(1)):
                        raise Bad('label ' + lab)
                    sums.append(dict(w=w, y=fxl(y)))
                elif 'Min' in lab:
                    zero.append(fxl(y))
    return words, sums, zero


PLOTS = {2: [('plot_su8_directions_individually', False, True, False), ('plot_su8_directions', True, True, True)],
         4: [('plot_su16_directions', True, False, True), ('plot_su16_directions_separate', True, True, False)]}


def c23(out, rng, tier):
    big = tier == 'thorough'
    for n, reps in ((2, 40 if big else 15), (4, 12 if big else 4)):
        for i in range(reps):
            fn, withn, ww, ws = PLOTS[n][i % 2]
            steps = rng.randint(1, 4 if n == 2 else 3)
            kind = rng.choice([None, 'near', 'generic', 'clifford', 'product']) if i % 4 > 1 else ['near', None][i // 4 % 2]
            us = [rand_unitary(rng, n, kind) for _ in range(steps)]
            if i % 5 == 4 and steps > 1:
                # some components vanish in some steps only
                us[0] = rand_unitary(rng, n, 'identity')
            if i % 5 == 2:
                # components that cancel, repeat, or begin and end at zero
                U = rand_unitary(rng, n, 'generic')
                seq = [U, np.conj(U), U, rand_unitary(rng, n, 'identity')]
                us = rng.choice([seq[:2], seq[1:3], [U, U], [seq[3], U, seq[1]], [U, seq[1], seq[3]], [seq[3], U, seq[3]]])
            obs = some_obs(rng, n, 1, 3, herm=0.2)
            base = dict(a='plot', rs=[bloch_u(U, n) for U in us], obs=[o.spec() for o in obs], wantwords=ww, wantsums=ws)
            plt.close('all')
            args = (us, [o.q for o in obs], dev(n))
            v, err = call(getattr(plot_utils, fn), *(((n,) + args) if withn else args))

            def build():
                w, s, z = curves(n)
                return dict(words=w, sums=s, zero=z)
            out.add('plots_n%d' % n, '%s #%d' % (fn, i), [dict(base, err=err) if err else event(base, build)])
            plt.close('all')


def bump_curve(v, rng):
    if not v:
        return None
    v = json.loads(json.dumps(v))
    c = rng.choice(v)
    c['y'][rng.randrange(len(c['y']))] += 100000
    return v


SELFTEST = {'C22': dict(state=[('vec', bump)], angles=[('theta', bump)], refuse=[('refused', swap_false)]),
            'C23': dict(plot=[('words', bump_curve), ('sums', bump_curve), ('sums', lambda v, rng: v[:-1] if v else None)])}
