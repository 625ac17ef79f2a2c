"""C13 pendulum and hanging formulas invert the physics of the rig."""
import numpy as np
from uncertainties import ufloat

from bicycleparameters import com, inertia
from vp import gen, measure, world

TECHNIQUE = ('runtime monitor: simulated rig (potential and kinetic energy '
             'of a known body) as oracle, least-squares optimality of '
             'inconsistent sets')
LEVEL_NOTE = ('Periods observed come from an energy model of the hung body '
              '(some from direct numerical integration of the pendulum); '
              'overdetermined sets are judged by the normal equations.')
RULE = ('random rigid bodies over four decades of mass and size, hung in 3 '
        'to 12 orientations, consistent and perturbed; random lines through '
        'a point and perturbed lines; plain and uncertain values; distinct '
        'by the body')


def nom(x):
    return np.array([world.nominal(v) for v in np.ravel(x)], float)


def pendulums(mon, rng, i):
    g = float(rng.choice([9.81, rng.uniform(1, 20)]))
    m, size = gen.logu(rng, 1e-2, 1e3), gen.logu(rng, 1e-2, 1e1)
    I = m * (size * rng.uniform(.1, 1))**2
    l = size * gen.logu(rng, .1, 10)
    mon.note(m=m, I=I, l=l, g=g)
    mon.sig(m, I, l)
    # from the curvature of the potential m g l (1 - cos q) and the kinetic
    # energy (I + m l^2) qd^2 / 2
    T = 2 * np.pi / np.sqrt(m * g * l / (I + m * l**2))
    got = mon.call('compound', inertia.compound_pendulum_inertia, m, g, l, T)
    tol = 1e-12 * (I + m * l**2)
    mon.close(got, I, 'compound', rtol=0, atol=10 * tol)
    u = mon.call('compound-uncertain', inertia.compound_pendulum_inertia,
                 ufloat(m, m * .01), g, ufloat(l, l * .01),
                 ufloat(T, T * .01))
    mon.close(world.nominal(u), I, 'compound:uncertain', rtol=0,
              atol=10 * tol)
    # the torsional pendulum calibrated by a rod
    k = gen.logu(rng, 1e-3, 1e3)
    rod = gen.logu(rng, 1e-3, 1e2)
    Tr = 2 * np.pi * np.sqrt(rod / k)
    ks = mon.call('stiffness', inertia.torsional_pendulum_stiffness, rod, Tr)
    mon.close(ks, k, 'stiffness', rtol=1e-12)
    mon.close(mon.call('torsional', inertia.tor_inertia, ks,
                       2 * np.pi * np.sqrt(I / k)), I, 'torsional',
              rtol=1e-12)
    mon.close(world.nominal(mon.call(
        'torsional-uncertain', inertia.tor_inertia, ufloat(k, .1 * k),
        ufloat(2 * np.pi * np.sqrt(I / k), .01))), I, 'torsional:uncertain',
        rtol=1e-12)
    if i % 10 == 0:
        # direct integration of the swinging body from a tiny amplitude
        from scipy.integrate import solve_ivp

        def f(t, x):
            return [x[1], -m * g * l * np.sin(x[0]) / (I + m * l**2)]

        def cross(t, x):
            return x[0]
        cross.direction = 1
        s = solve_ivp(f, (0, 2.2 * T), [1e-4, 0.], events=cross, rtol=1e-10,
                      atol=1e-14)
        t = s.t_events[0]
        if len(t) >= 2:
            Tn = t[1] - t[0]
            mon.close(inertia.compound_pendulum_inertia(m, g, l, Tn), I,
                      'compound:simulated', rtol=0,
                      atol=1e-6 * (I + m * l**2))
            mon.count('integrated')


def tensors(mon, rng, i):
    """In-plane inertia from moments about three or more axes."""
    m = gen.logu(rng, 1e-2, 1e3)
    xx, xz, yy, zz = gen.planar_inertia(rng, m, gen.logu(rng, 1e-2, 1e1))
    n = int(rng.integers(3, 13))
    beta = np.radians(measure.orientations(rng, n)) * rng.choice([-1, 1])
    d = np.array([np.cos(beta), -np.sin(beta)]).T
    I = np.array([[xx, xz], [xz, zz]])
    J = np.einsum('ni,ij,nj->n', d, I, d)
    noise = i % 2 == 1 and n > 3
    if noise:
        J = J * (1 + .05 * rng.normal(size=n))
    mon.note(I=I, beta=beta, J=J)
    mon.sig(J)
    J0, b0 = J.copy(), beta.copy()
    sc = np.abs(I).max()
    A = np.array([d[:, 0]**2, 2 * d[:, 0] * d[:, 1], d[:, 1]**2]).T
    got = nom(mon.call('tensor', inertia.inertia_components, J, beta))
    mon.check(np.array_equal(J, J0) and np.array_equal(beta, b0),
              'tensor:input-unchanged')
    mon.check(got.shape == (3,), 'tensor:shape')
    if noise:
        # normal equations of the least squares problem
        mon.close(A.T @ (A @ got - J), np.zeros(3), 'tensor:least-squares',
                  rtol=0, atol=1e-9 * sc * n)
        best = np.sum((A @ got - J)**2)
        for _ in range(3):
            other = got + rng.normal(size=3) * sc * 10**rng.uniform(-4, -1)
            mon.check(np.sum((A @ other - J)**2) >= best * (1 - 1e-9),
                      'tensor:optimal')
        mon.count('overdetermined')
    else:
        mon.close(got, [xx, xz, zz], 'tensor:exact', rtol=0, atol=1e-9 * sc)
        o = rng.permutation(n)
        mon.close(nom(inertia.inertia_components(J[o], beta[o])), got,
                  'tensor:order', rtol=0, atol=1e-9 * sc)
        # rotating the frame of the orientations rotates the tensor
        t = float(rng.uniform(-3, 3))
        R = np.array([[np.cos(t), np.sin(t)], [-np.sin(t), np.cos(t)]])
        K = R @ I @ R.T
        mon.close(nom(inertia.inertia_components(J, beta + t)),
                  [K[0, 0], K[0, 1], K[1, 1]], 'tensor:frame', rtol=0,
                  atol=1e-9 * sc)
    uJ = np.array([ufloat(x, .01 * x) for x in J])
    ub = np.array([ufloat(x, .001) for x in beta])
    u = mon.call('tensor-uncertain', inertia.inertia_components, uJ, ub)
    mon.close(nom(u), got, 'tensor:uncertain', rtol=0, atol=1e-8 * sc)


def lines(mon, rng, i):
    """Mass centre from lines through it."""
    c = rng.normal(size=2) * gen.logu(rng, 1e-2, 1e2)
    n = int(rng.integers(9, 17) if rng.random() < .15 else
            rng.integers(3, 9))
    ang = np.radians(measure.orientations(rng, n))
    slopes = np.tan(ang)
    if i % 4 >= 2:
        # some of them hang at nearly the same angle
        q, w = rng.choice(n, 2, replace=False)
        slopes[q] = slopes[w] + rng.choice([-1, 1]) * 10**rng.uniform(-2.5,
                                                                      -.7)
    steep = np.abs(slopes) > 1e4
    if steep.any():
        # no two of them with the same slope
        slopes = np.where(steep, np.sign(slopes) *
                          1e4 * (1 + np.arange(n) / n), slopes)
    upright = i % 8 == 4
    if upright:
        # one of them hangs with its line nearly vertical
        n = min(n, 8)
        slopes = np.tan(np.radians(np.linspace(-60, 60, n) +
                                   rng.uniform(-3, 3, n)))
        slopes[rng.integers(n)] = rng.choice([-1, 1]) * gen.logu(rng, 1e2,
                                                                 1e4)
    b = c[1] - slopes * c[0]
    noise = i % 2
    if noise:
        b = b + .01 * rng.normal(size=n)
    mon.note(slopes=slopes, intercepts=b)
    mon.sig(slopes)
    pts = [((b[q] - b[p]) / (slopes[p] - slopes[q]),) * 1
           for p in range(n) for q in range(p)]
    xs = np.array([x[0] for x in pts])
    ys = np.array([slopes[p] * x + b[p] for x, (p, q) in zip(
        xs, [(p, q) for p in range(n) for q in range(p)])])
    want = np.array([xs.mean(), ys.mean()])
    # round-off of the intersections of nearly parallel lines
    gap = min(abs(slopes[p] - slopes[q]) for p in range(n) for q in range(p))
    sc = (np.abs(b).max() + np.abs(xs).max() + np.abs(ys).max()) * (
        1 + np.abs(slopes).max()**2) / min(gap, 1.)
    tol = dict(rtol=0, atol=1e-13 * sc + 1e-9)
    if upright:
        tol = dict(rtol=0, atol=1e-6 * np.abs(c).max())
    for kind in ('list', 'array', 'uncertain'):
        s_, b_ = slopes, b
        if kind == 'list':
            s_, b_ = list(slopes), list(b)
        elif kind == 'uncertain':
            s_ = [ufloat(x, .001) for x in slopes]
            b_ = [ufloat(x, .001) for x in b]
        k0 = (list(s_), list(b_))
        x, y = mon.call('centre', com.center_of_mass, s_, b_)
        mon.check((list(s_), list(b_)) == k0, 'centre:input-unchanged')
        got = nom([x, y])
        if upright or tol['atol'] < .01:
            mon.close(got, want, 'centre:mean-of-intersections' if noise else
                      'centre:exact', kind, **tol)
            if not noise:
                mon.close(got, c, 'centre:known', kind, **tol)
            mon.count('judged')


def hang(mon, rng, i):
    """Lines found by hanging each part of a known bicycle."""
    split = bool(i % 2)
    p, parts, refpt = measure.bicycle(rng, split)
    n = {q: int(rng.integers(7, 14) if rng.random() < .1 else
                rng.integers(3, 7)) for q in 'BHGS'}
    mp = measure.measure(rng, p, parts, refpt, 'angle', n)
    par = {k: p[k] for k in ('lam', 'rR', 'rF', 'w', 'c')}
    if i % 3 == 0:
        mp = measure.uncertain(rng, mp)
    keys = list(mp)
    rng.shuffle(keys)
    mp = {str(k): mp[str(k)] for k in keys}
    mon.note(mp=mp, par=par)
    mon.sig(mp['mB'])
    s, b, t = mon.call('lines', com.part_com_lines, mp, par, split)
    todo = {'B', 'G', 'S'} if split else {'B', 'H'}
    mon.check(set(s) == set(b) == set(t) == todo, 'lines:parts')
    for q in todo:
        mon.check(len(s[q]) == len(b[q]) == len(t[q]) == n[q],
                  'lines:number')
        cm = parts[q][1]
        for j in range(n[q]):
            sl, ic, be = nom([s[q][j], b[q][j], t[q][j]])
            mon.close((sl * cm[0] + ic - cm[2]) / np.hypot(1, sl), 0.,
                      'lines:through-mass-centre', atol=1e-10)
            al = world.nominal(mp['alpha%s%d' % (q, j + 1)])
            mon.close(np.tan(be - (p['lam'] - np.radians(al))), 0.,
                      'lines:in-order', atol=1e-9)
            mon.close(np.arctan(sl) + np.arctan(np.tan(be)), 0.,
                      'lines:slope', atol=1e-9)
    if not split:
        return
    # one line through the single-orientation function
    l1, l2 = p['_l1'], p['_l2']
    q = str(rng.choice(['B', 'G', 'S']))
    j = int(rng.integers(1, n[q] + 1))
    m, ic, be = mon.call('line', com.com_line, mp['alpha%s%d' % (q, j)],
                         mp['a%s%d' % (q, j)], par, q, l1, l2)
    mon.close(nom([m, be]), nom([s[q][j - 1], t[q][j - 1]]), 'line:same',
              rtol=1e-9)


GROUPS = [('pendulums', 720, 57600, pendulums), ('tensors', 720, 57600, tensors),
          ('lines', 720, 57600, lines), ('hang', 360, 28800, hang)]
MINIMUM = {'overdetermined': 15, 'judged': 80, 'integrated': 3}
