"""Measurements an ideal experimenter would take of a known bicycle.

Written from the documented measurement procedure (docs/data.rst, Moore 2012):
wheel roll-out, head angle or perpendicular distances, hanging the parts from
a pendulum axis, torsional and compound pendulum periods.
"""
import numpy as np
from . import gen, ref

PI = np.pi


def frame_lengths(p):
    """(a, b, c): rear offset, fork offset, distance along the steer axis."""
    s, c = np.sin(p['lam']), np.cos(p['lam'])
    axis = np.array([s, 0., c])
    normal = np.array([c, 0., -s])        # forward, normal to the axis
    P = np.array([p['w'] + p['c'], 0., 0.])
    rear = np.array([0., 0., -p['rR']])
    front = np.array([p['w'], 0., -p['rF']])
    a = (P - rear) @ normal               # rear centre behind the axis
    b = (front - P) @ normal              # front centre ahead of the axis
    return a, b, (front - rear) @ axis


def bicycle(rng, split=False, vertical=False):
    """A bicycle with a front assembly of one or two (G, S) bodies; returns
    (whipple parameters, {part: (m, com, I)}, handlebar reference point)."""
    while True:
        p = gen.whipple_par(rng, 'ordinary')
        p.pop('_profile')
        if rng.random() < .3:
            p['lam'] = float(rng.uniform(-.3, .9))
            p['c'] = float(rng.uniform(-.2, .3))
        if vertical:
            p['lam'] = 0.0
        a, b, c = frame_lengths(p)
        if a > .1 and c > .1:
            break
    bs = ref.bodies(p)
    parts = {'B': bs['B'], 'R': bs['R'], 'F': bs['F']}
    refpt = None
    if split:
        for q in 'GS':
            m = gen.logu(rng, .3, 5.)
            com = np.array([rng.uniform(.5, 1.1) * p['w'], 0.,
                            -rng.uniform(.3, 1.1)])
            xx, xz, yy, zz = gen.planar_inertia(rng, m, .3)
            parts[q] = (m, com, np.array([[xx, 0, xz], [0, yy, 0],
                                          [xz, 0, zz]]))
        mH, cH, IH = ref.combine([parts['G'], parts['S']])
        p.update(mH=mH, xH=cH[0], zH=cH[2], IHxx=IH[0, 0], IHxz=IH[0, 2],
                 IHyy=IH[1, 1], IHzz=IH[2, 2])
        parts['H'] = (mH, cH, IH)
        # handlebar reference point by distances normal to and along the axis
        s, c = np.sin(p['lam']), np.cos(p['lam'])
        l1, l2 = rng.uniform(-.15, .15), rng.uniform(.3, .8)
        refpt = (np.array([p['w'], 0., -p['rF']]) +
                 l1 * np.array([c, 0, -s]) - l2 * np.array([s, 0, c]))
        p['_l1'], p['_l2'] = l1, l2
    else:
        parts['H'] = bs['H']
    return p, parts, refpt


def orientations(rng, n):
    """Hanging angles in degrees, spread enough to determine the body."""
    base = rng.uniform(0, 180)
    step = 180. / n
    al = base + step * (np.arange(n) + rng.uniform(-.2, .2, n))
    al = al + 180 * rng.integers(0, 2, n)
    rng.shuffle(al)
    return np.mod(al, 360.)


def distances(rng, p, method):
    s, c = np.sin(p['lam']), np.cos(p['lam'])
    a, b, cc = frame_lengths(p)
    mp = {}
    if method == 'angle':
        mp['w'] = p['w']
        mp['gamma'] = 90. - np.degrees(p['lam'])
        mp['f'] = b
    else:
        d1, d2, d3, d4 = rng.uniform(.005, .05, 4)
        h2, h3, h4, h5 = rng.uniform(.0, .4, 4)
        mp.update(d1=d1, d2=d2, d3=d3, d4=d4, h2=h2, h3=h3)
        # heights are taken to the tops: centre = top - radius
        mp['h1'] = a + (h3 - d1 / 2) - h2 + d2 / 2
        mp['h5'] = h5
        mp['h4'] = b + (h5 - d4 / 2) + d3 / 2
        # with the fork reversed both centres are on the same side
        mp['d'] = np.sqrt(cc**2 + (a - b)**2) - (d2 + d3) / 2
    for x in 'RF':
        n = int(rng.integers(1, 16))
        mp['n' + x] = float(n)
        mp['d' + x] = 2 * PI * p['r' + x] * n
    return {k: float(v) for k, v in mp.items()}


def compound(m, I, l, g):
    return 2 * PI * np.sqrt((I + m * l**2) / (m * g * l))


def torsional(I, k):
    return 2 * PI * np.sqrt(I / k)


def measure(rng, p, parts, refpt, method='angle', n=3, flywheel=None):
    """The complete measured parameter dictionary."""
    mp = distances(rng, p, method)
    g = p['g']
    mp['g'] = g
    # calibration rod
    mp['lP'], mp['mP'] = rng.uniform(.3, 2.), rng.uniform(.5, 10.)
    mp['dP'] = rng.uniform(.005, .06)
    Irod = mp['mP'] / 12. * (3 * (mp['dP'] / 2)**2 + mp['lP']**2)
    k = gen.logu(rng, .5, 20.)
    mp['TtP1'] = torsional(Irod, k)
    centre = {'B': np.array([0., 0., -p['rR']]),
              'H': np.array([p['w'], 0., -p['rF']]),
              'S': np.array([p['w'], 0., -p['rF']])}
    if refpt is not None:
        centre['G'] = refpt
        r5, r6 = rng.uniform(.003, .02, 2)
        h6 = rng.uniform(0, .3)
        l1, l2 = p['_l1'], p['_l2']
        mp.update(d5=2 * r5, d6=2 * r6, h6=h6,
                  h7=l1 + h6 - r5 + r6, l=np.hypot(l1, l2) + r5 + r6)
    todo = ['B'] + (['G', 'S'] if refpt is not None else ['H'])
    counts = {}
    for q in todo:
        m, com, I = parts[q]
        mp['m' + q] = m
        nq = n if np.isscalar(n) else n[q]
        counts[q] = nq
        for j, al in enumerate(orientations(rng, nq)):
            beta = p['lam'] - np.radians(al)
            down = np.array([np.cos(beta), 0., -np.sin(beta)])
            side = np.array([np.sin(beta), 0., np.cos(beta)])
            mp['alpha%s%d' % (q, j + 1)] = al
            mp['a%s%d' % (q, j + 1)] = side @ (centre[q] - com)
            mp['Tt%s%d' % (q, j + 1)] = torsional(down @ I @ down, k)
        mp['Tc%s1' % q] = compound(m, I[1, 1],
                                   np.linalg.norm(com - centre[q]), g)
    for q in 'RF':
        m, com, I = parts[q]
        mp['m' + q] = m
        mp['l' + q] = p['r' + q] * rng.uniform(.7, .95)
        mp['Tc%s1' % q] = compound(m, I[1, 1], mp['l' + q], g)
        mp['Tt%s1' % q] = torsional(I[0, 0], k)
    if flywheel:
        # the flywheel is measured together with the front wheel
        m, xx, yy = flywheel
        mp['mD'] = m + p['mF']
        mp['TcD1'] = compound(mp['mD'], yy + p['IFyy'], mp['lF'], g)
        mp['TtD1'] = torsional(xx + p['IFxx'], k)
    return {q: float(v) for q, v in mp.items()}


def uncertain(rng, mp, rel=None, skip=()):
    """Attach independent standard deviations to the measurements."""
    from uncertainties import ufloat
    out = {}
    for k, v in mp.items():
        if k[:1] == 'n' or k in skip or rng.random() < .1:
            out[k] = v
        else:
            r = rel or gen.logu(rng, 1e-6, 1e-3)
            out[k] = ufloat(v, max(abs(v), 1e-3) * r)
    return out
