"""C07 the leaning rider model reduces to the rigid rider bicycle."""
import numpy as np

from bicycleparameters.models import MooreRiderLean2012Model
from bicycleparameters.parameter_sets import MooreRiderLean2012ParameterSet
from vp import gen, models, ref

TECHNIQUE = ('runtime monitor: full 12-state reference model of rolling rigid '
             'bodies, lean-locked reduction against the Whipple model')
LEVEL_NOTE = ('Every state and input matrix entry observed on generated '
              'bicycles agrees with a reference derived from rigid body '
              'dynamics; parameter ranges are those of the generators.')
RULE = ('random Whipple bicycles (four profiles) re-expressed in the leaning '
        'rider parameterisation with a random rider hinge, plus perturbed '
        'measured ones; scalar and array valued speed, gravity, stiffness '
        'and damping; distinct by parameters')
ASSUMPTIONS = ['the hinge is d4 below the rear wheel centre along the '
               'vertical, l5/l6 and the inertia of the rider are expressed '
               'in the level (not steer axis aligned) frame',
               'steer axis tilts up to 0.8 rad and wheel radii that differ '
               'by less than 0.35 wheelbase: the pitch solver of dtk, an '
               'external package, can jump to another root beyond that']

POS = [3, 5, 7]
RATE = [8, 10, 11]


def from_whipple(rng):
    """A leaning rider bicycle together with its four-body description."""
    while True:
        q = gen.whipple_par(rng, rng.choice(['ordinary', 'wide', 'aligned',
                                             'equalwheels']))
        if abs(q['lam']) < .8 and abs(q['rR'] - q['rF']) < .35 * q['w']:
            break
    q.pop('_profile')
    lam, w, c, rR, rF = (q[k] for k in ('lam', 'w', 'c', 'rR', 'rF'))
    cl, sl = np.cos(lam), np.sin(lam)
    p = {'d1': (w + c) * cl - rR * sl, 'd3': rF * sl - c * cl,
         'd2': w * sl + (rR - rF) * cl, 'rr': rR, 'rf': rF}
    R = np.array([[cl, 0, sl], [0, 1, 0], [-sl, 0, cl]])  # columns c1, c2, c3
    for b, n, o, l in (('B', 'c', np.array([0, 0, -rR]), ('l1', 'l2')),
                       ('H', 'e', np.array([w, 0, -rF]), ('l3', 'l4'))):
        r = R.T @ (np.array([q['x' + b], 0, q['z' + b]]) - o)
        p[l[0]], p[l[1]] = r[0], r[2]
        I = R.T @ np.array([[q['I%sxx' % b], 0, q['I%sxz' % b]],
                            [0, q['I%syy' % b], 0],
                            [q['I%sxz' % b], 0, q['I%szz' % b]]]) @ R
        p['m' + n] = q['m' + b]
        p['i%s11' % n], p['i%s22' % n] = I[0, 0], I[1, 1]
        p['i%s31' % n], p['i%s33' % n] = I[0, 2], I[2, 2]
    for b, n in (('R', 'd'), ('F', 'f')):
        p['m' + n] = q['m' + b]
        p['i%s11' % n], p['i%s22' % n] = q['I%sxx' % b], q['I%syy' % b]
    p['mg'] = gen.logu(rng, 2., 100.)
    a, b, y, z = gen.planar_inertia(rng, p['mg'], .5)
    p['ig11'], p['ig31'], p['ig22'], p['ig33'] = a, b, y, z
    p['d4'] = float(rng.uniform(-1.2, .2))
    p['l5'], p['l6'] = float(rng.normal() * .3), float(rng.normal() * .4)
    p['k9'] = float(rng.choice([0., gen.logu(rng, 1., 1e3)]))
    p['c9'] = float(rng.choice([0., gen.logu(rng, .1, 1e2)]))
    p['g'], p['v'] = q['g'], q['v']
    return {k: float(v) for k, v in p.items()}


def geometry(p):
    """Steer axis tilt, wheelbase and trail of the leaning rider bicycle."""
    # the front wheel centre is at height rf:
    #   d2 cos(lam) - (d1 + d3) sin(lam) = rr - rf
    a, b = p['d1'] + p['d3'], p['d2']
    h = np.hypot(a, b)
    lam = np.arccos((p['rr'] - p['rf']) / h) - np.arctan2(a, b)
    # two solutions; the bicycle's wheels are in front of each other
    best = []
    for s in (1, -1):
        lam = s * np.arccos((p['rr'] - p['rf']) / h) - np.arctan2(a, b)
        lam = (lam + np.pi) % (2 * np.pi) - np.pi
        w = a * np.cos(lam) + b * np.sin(lam)
        best.append((w, lam))
    w, lam = max(best)
    c = (p['rr'] * np.tan(lam) + p['d1'] / np.cos(lam)) - w
    return lam, w, c


def rigid(p, with_rider=True):
    """The Whipple parameters of the bicycle with the rider locked."""
    lam, w, c = geometry(p)
    cl, sl = np.cos(lam), np.sin(lam)
    c1, c3 = np.array([cl, 0, -sl]), np.array([sl, 0, cl])
    R = np.column_stack([c1, [0, 1, 0], c3])

    def T(b):
        return np.array([[p['i%s11' % b], 0, p['i%s31' % b]],
                         [0, p['i%s22' % b], 0],
                         [p['i%s31' % b], 0, p['i%s33' % b]]])
    Ro, Fo = np.array([0, 0, -p['rr']]), np.array([w, 0, -p['rf']])
    C = (p['mc'], Ro + p['l1'] * c1 + p['l2'] * c3, R @ T('c') @ R.T)
    E = (p['me'], Fo + p['l3'] * c1 + p['l4'] * c3, R @ T('e') @ R.T)
    G = (p['mg'], Ro + np.array([p['l5'], 0, p['d4'] + p['l6']]), T('g'))
    m, com, I = ref.combine([C, G])
    _, mh, xh = None, E[0], E[1]
    return dict(w=w, c=c, lam=lam, g=p['g'], v=p['v'], rR=p['rr'], rF=p['rf'],
                mR=p['md'], mF=p['mf'], IRxx=p['id11'], IRyy=p['id22'],
                IFxx=p['if11'], IFyy=p['if22'], mB=m, xB=com[0], zB=com[2],
                IBxx=I[0, 0], IByy=I[1, 1], IBzz=I[2, 2], IBxz=I[0, 2],
                mH=mh, xH=xh[0], zH=xh[2], IHxx=E[2][0, 0], IHyy=E[2][1, 1],
                IHzz=E[2][2, 2], IHxz=E[2][0, 2])


def reference(p):
    """M, C, K (3x3: roll, steer, lean) and the kinematic rows."""
    q = rigid(p)
    lam, w, c, v, g = q['lam'], q['w'], q['c'], p['v'], p['g']
    M2, C1, K0, K2 = ref.whipple(q)
    mu, nu = c * np.cos(lam) / w, np.cos(lam) / w
    mg, l5, l6 = p['mg'], p['l5'], p['l6']
    zG = -p['rr'] + p['d4'] + l6
    roll = p['ig11'] + mg * l6 * zG        # lean against roll
    yaw = p['ig31'] - mg * l6 * l5         # lean against yaw
    M, C, K = np.zeros((3, 3)), np.zeros((3, 3)), np.zeros((3, 3))
    M[:2, :2], C[:2, :2] = M2, v * C1
    K[:2, :2] = g * K0 + v**2 * K2
    M[2, 2] = p['ig11'] + mg * l6**2
    M[0, 2] = M[2, 0] = roll
    M[1, 2] = M[2, 1] = mu * yaw
    K[0, 2] = K[2, 0] = g * mg * l6
    K[2, 2] = g * mg * l6 + p['k9']
    K[2, 1] = -mg * l6 * v**2 * nu
    C[2, 1] = yaw * v * nu - mg * l6 * v * mu
    C[2, 2] = p['c9']
    A = np.zeros((12, 12))
    A[0, 9] = -p['rr']
    A[1, 2] = v
    A[2, 5], A[2, 10] = v * nu, mu
    A[3, 8] = A[4, 9] = A[5, 10] = A[7, 11] = 1.
    A[6, 9] = p['rr'] / p['rf']
    Mi = np.linalg.inv(M)
    A[np.ix_(RATE, POS)] = -Mi @ K
    A[np.ix_(RATE, RATE)] = -Mi @ C
    B = np.zeros((12, 3))
    B[RATE] = Mi
    return A, B, M, C, K


def observe(mon, p, A, B, key):
    Ar, Br, M, C, K = reference(p)
    q = rigid(p)
    cond = np.linalg.cond(M)
    if not mon.check(A.shape == (12, 12) and B.shape == (12, 3),
                     key + ':shape'):
        return
    tol = 1e-9 + 1e-14 * cond
    dyn = np.ix_(RATE, range(12))
    s = np.abs(Ar[dyn]).max()
    sc = np.abs(np.linalg.inv(M)).max() * max(np.abs(K).max(),
                                               np.abs(C).max(), 1.)
    mon.close(A[dyn], Ar[dyn], key + ':dynamics', rtol=tol, atol=tol * sc)
    mon.close(B[RATE], Br[RATE], key + ':inverse-inertia', rtol=tol,
              atol=tol * np.abs(Br).max())
    kin = np.setdiff1d(np.arange(12), RATE)
    mon.close(A[kin], Ar[kin], key + ':kinematics', rtol=1e-9,
              atol=1e-9 * (1 + abs(p['v'])))
    mon.close(B[kin], Br[kin], key + ':input-kinematics', atol=1e-12)
    # consequences stated by the property, on what was returned
    Bi = B[RATE]
    mon.close(Bi, Bi.T, key + ':symmetric', rtol=tol,
              atol=tol * np.abs(Bi).max())
    mon.check(np.linalg.eigvalsh((Bi + Bi.T) / 2).min() > 0,
              key + ':positive-definite')
    mon.close(A[9], np.zeros(12), key + ':speed-unaffected', atol=1e-9)
    # lean locked: Whipple
    Mo = np.linalg.inv(Bi)
    Ko, Co = -Mo @ A[np.ix_(RATE, POS)], -Mo @ A[np.ix_(RATE, RATE)]
    W, C1, K0, K2 = ref.whipple(q)
    for n, o, r in (('M', Mo[:2, :2], W), ('C', Co[:2, :2], p['v'] * C1),
                    ('K', Ko[:2, :2], p['g'] * K0 + p['v']**2 * K2)):
        mon.close(o, r, key + ':locked-' + n, rtol=1e-7 + 1e-13 * cond,
                  atol=(1e-9 + 1e-13 * cond) * max(np.abs(Ko).max(),
                                                   np.abs(Co).max(),
                                                   np.abs(Mo).max()))
    mon.sig(p)


def one(mon, rng, i):
    p = gen.riderlean_par(rng) if i % 3 == 0 else from_whipple(rng)
    mon.note(par=p)
    m = mon.call('model', models.build, 'riderlean', p)
    A, B = mon.call('state-space', m.form_state_space_matrices)
    observe(mon, p, A, B, 'scalar')
    # the order in which a user lists the parameters does not matter
    keys = list(p)
    rng.shuffle(keys)
    m2 = MooreRiderLean2012Model(MooreRiderLean2012ParameterSet(
        {k: p[k] for k in keys}))
    A2, B2 = m2.form_state_space_matrices()
    mon.close(A2, A, 'order:A', rtol=1e-12, atol=1e-300)
    mon.close(B2, B, 'order:B', rtol=1e-12, atol=1e-300)


def sweep(mon, rng, i):
    """Array valued speed, gravity, lean stiffness/damping and others."""
    p = gen.riderlean_par(rng) if i % 3 == 0 else from_whipple(rng)
    m = models.build('riderlean', p)
    n = int(rng.integers(1, 5))
    over = {}
    for k in rng.choice(['v', 'g', 'k9', 'c9', 'mg', 'l5', 'l6', 'd4', 'ig11',
                         'mc', 'id22'], size=int(rng.integers(1, 4)),
                        replace=False):
        base = p[k] if p[k] else 5.
        over[str(k)] = base * rng.uniform(.9, 1.4, n)
    mon.note(par=p, overrides=over)
    A, B = mon.call('state-space', m.form_state_space_matrices, **over)
    if not mon.check(A.shape == (n, 12, 12), 'array:shape'):
        return
    for j in range(n):
        pj = dict(p, **{k: float(a[j]) for k, a in over.items()})
        observe(mon, pj, A[j], B[j], 'array')


def locked_model(mon, rng, i):
    """The library's own Whipple model at the combined parameters."""
    p = from_whipple(rng)
    q = {k: float(x) for k, x in rigid(p).items()}
    mon.note(par=p)
    v = float(rng.uniform(0, 10))
    lean = models.build('riderlean', p)
    rig = models.build('whipple', q)
    A, B = mon.call('state-space', lean.form_state_space_matrices, v=v)
    Aw, Bw = mon.call('whipple', rig.form_state_space_matrices, v=v)
    Mo = np.linalg.inv(B[RATE])
    cond = np.linalg.cond(Mo)
    K = -Mo @ A[np.ix_(RATE, POS)]
    C = -Mo @ A[np.ix_(RATE, RATE)]
    Al = np.hstack([-np.linalg.solve(Mo[:2, :2], K[:2, :2]),
                    -np.linalg.solve(Mo[:2, :2], C[:2, :2])])
    mon.close(Al, Aw[2:], 'library-locked', rtol=1e-6,
              atol=(1e-8 + 1e-13 * cond) * np.abs(Aw[2:]).max())
    mon.sig(p)


GROUPS = [('one', 1200, 36000, one), ('sweep', 450, 13500, sweep),
          ('locked', 600, 18000, locked_model)]
MINIMUM = {'scalar:dynamics': 200, 'array:dynamics': 100,
           'scalar:locked-M': 200, 'library-locked': 100}
