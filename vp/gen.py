"""Generators of bicycles and other inputs (independent of /repo)."""
import numpy as np
from . import again

PI = np.pi


def logu(rng, lo, hi):
    return float(np.exp(rng.uniform(np.log(lo), np.log(hi))))


def rot_y(a):
    c, s = np.cos(a), np.sin(a)
    return np.array([[c, 0., s], [0., 1., 0.], [-s, 0., c]])


def random_rotation(rng):
    q, r = np.linalg.qr(rng.normal(size=(3, 3)))
    q = q @ np.diag(np.sign(np.diag(r)))
    if np.linalg.det(q) < 0:
        q[:, 0] *= -1
    return q


def principal_moments(rng, m, size):
    """Three principal moments of a real (3D) body: from the variances of its
    mass distribution, so the triangle inequality holds strictly."""
    var = (size * rng.uniform(0.1, 1.0, 3))**2
    s = var.sum()
    return m * (s - var)


def planar_inertia(rng, m, size, kind=None):
    """(Ixx, Ixz, Iyy, Izz) of a body symmetric about the xz plane."""
    a, y, b = principal_moments(rng, m, size)
    ang = rng.uniform(-PI, PI)
    if kind == 'aligned':
        ang = 0.0
    elif kind == 'isotropic':
        b = a
    R = rot_y(ang)
    I = R @ np.diag([a, y, b]) @ R.T
    return float(I[0, 0]), float(I[0, 2]), float(I[1, 1]), float(I[2, 2])


PROFILES = ['ordinary', 'wide', 'extreme', 'aligned', 'equalwheels',
            'smallfork', 'reverse']


def whipple_par(rng, profile=None, gv=True):
    """Parameters of a random physically meaningful Whipple bicycle.  The
    profile 'skate' (wheels without inertia) is only made when asked for."""
    if profile is None:
        profile = PROFILES[rng.integers(len(PROFILES))]
    p = {}
    if profile == 'extreme':
        p['w'] = logu(rng, 0.1, 10.)
        p['lam'] = float(rng.uniform(-1.4, 1.4))
        p['c'] = float(rng.uniform(-1., 1.))
        p['rR'], p['rF'] = logu(rng, 0.02, 3.), logu(rng, 0.02, 3.)
        mm = [logu(rng, 1e-2, 1e3) for _ in range(4)]
    else:
        p['w'] = float(rng.uniform(0.7, 1.9))
        p['lam'] = float(rng.uniform(0.05, 0.7))
        p['c'] = float(rng.uniform(0.01, 0.15))
        p['rR'] = float(rng.uniform(0.15, 0.4))
        p['rF'] = float(rng.uniform(0.15, 0.4))
        mm = [logu(rng, .5, 6.), logu(rng, 5., 120.), logu(rng, 1., 8.),
              logu(rng, .5, 6.)]
    if profile == 'wide':
        p['lam'] = float(rng.uniform(-0.8, 1.2))
        p['c'] = float(rng.uniform(-0.4, 0.4))
        p['rR'] = float(rng.uniform(0.05, 0.7))
        p['rF'] = float(rng.uniform(0.05, 0.7))
    if profile == 'equalwheels':
        p['rF'] = p['rR']
        mm[3] = mm[0]
    if profile == 'reverse':
        p['c'] = -p['c']
        p['lam'] = -p['lam']
    p['mR'], p['mB'], p['mH'], p['mF'] = mm
    if profile == 'smallfork':
        p['mH'] = logu(rng, 1e-3, .1)
    w = p['w']
    p['xB'] = float(rng.uniform(-.2, 1.) * w)
    p['zB'] = float(-rng.uniform(.2, 1.3) * w)
    p['xH'] = float(rng.uniform(.3, 1.2) * w)
    p['zH'] = float(-rng.uniform(.1, 1.1) * w)
    kind = 'aligned' if profile == 'aligned' else None
    for b, size in (('B', .6), ('H', .35)):
        Ixx, Ixz, Iyy, Izz = planar_inertia(rng, p['m' + b], size * w, kind)
        p['I%sxx' % b], p['I%sxz' % b] = Ixx, Ixz
        p['I%syy' % b], p['I%szz' % b] = Iyy, Izz
    for b in 'RF':
        k2 = rng.uniform(.3, 1.)
        p['I%syy' % b] = float(p['m' + b] * p['r' + b]**2 * k2)
        p['I%sxx' % b] = float(p['I%syy' % b] * rng.uniform(.5, .8))
        if profile in ('wide', 'extreme'):     # up to barrels
            p['I%sxx' % b] = float(p['I%syy' % b] * rng.uniform(.5, 2.))
        if profile == 'skate' and rng.random() < .7:
            p['I%sxx' % b] = p['I%syy' % b] = 0.
    if profile == 'equalwheels':
        p['IFxx'], p['IFyy'] = p['IRxx'], p['IRyy']
    if gv:
        p['g'] = float(rng.choice([9.81, 9.80665, 1.62, rng.uniform(1, 25)]))
        p['v'] = float(rng.uniform(-12, 12) if rng.random() < .2
                       else rng.uniform(0, 12))
    p['_profile'] = profile
    return again.shift(p)


def pop_profile(p):
    return p.pop('_profile')


def moore2019_par(rng):
    """Parameters of a random principal-axes (rider + frame) bicycle."""
    q = whipple_par(rng, rng.choice(['ordinary', 'wide', 'equalwheels']))
    p = {k: q[k] for k in ('c', 'g', 'lam', 'rF', 'rR', 'v', 'w', 'mF', 'mR',
                           'mH', 'xH', 'zH')}
    p['mD'] = logu(rng, 2., 20.)
    p['mP'] = logu(rng, 20., 120.)
    for b, s in (('D', .5), ('H', .35), ('P', .6)):
        a, y, bb = principal_moments(rng, 1., s)
        p['k%saa' % b], p['k%syy' % b], p['k%sbb' % b] = [
            float(np.sqrt(t)) for t in (a, y, bb)]
        p['alpha' + b] = float(rng.uniform(-PI, PI))
    for b in 'FR':
        k = p['r' + b] * rng.uniform(.6, 1.)
        p['k%syy' % b] = float(k)
        p['k%saa' % b] = float(k * rng.uniform(.71, rng.choice([.9, 1.5])))
    p['xD'] = float(rng.uniform(.1, .7) * p['w'])
    p['zD'] = float(-rng.uniform(.3, .8))
    p['xP'] = float(rng.uniform(.1, .7) * p['w'])
    p['zP'] = float(-rng.uniform(.6, 1.4))
    p['lP'] = float(rng.uniform(.6, 2.))
    p['wP'] = float(rng.uniform(.2, 1.))
    return again.shift(p)


def ufloatify(rng, d, rel=1e-3, keys=None):
    from uncertainties import ufloat
    out = {}
    for k, v in d.items():
        if isinstance(v, float) and (keys is None or k in keys):
            out[k] = ufloat(v, abs(v) * rel * rng.uniform(.1, 2.) + 1e-9)
        else:
            out[k] = v
    return out


RIDERLEAN = {
    'c9': 0.0, 'd1': 0.9631492634872098, 'd2': 0.4338396131640938,
    'd3': 0.0705000000001252, 'd4': -0.6704626684911591, 'g': 9.81,
    'ic11': 2.296859222953584, 'ic22': 2.9922715238,
    'ic31': 0.01594448114273473, 'ic33': 1.5101858377464155,
    'id11': 0.0904106601579, 'id22': 0.152467620286,
    'ie11': 0.2811355367159554, 'ie22': 0.246138810935,
    'ie31': 0.0063377219110826045, 'ie33': 0.06782113764394461,
    'if11': 0.0883819364527, 'if22': 0.149389340425,
    'ig11': 2.038073562525466, 'ig22': 1.692108544034995,
    'ig31': 0.002113501449812, 'ig33': 1.100753962972129, 'k9': 0.0,
    'l1': 0.47759794513190806, 'l2': -0.1680324796714025,
    'l3': -0.07654646159268344, 'l4': -0.47166687226492093,
    'l5': 0.231223496809401, 'l6': -0.271613547251923, 'mc': 33.044,
    'md': 3.11, 'me': 3.22, 'mf': 2.02, 'mg': 48.816, 'rf': 0.34352982332,
    'rr': 0.340958858855, 'v': 1.0}


def riderlean_par(rng, spread=.25):
    """A random leaning rider bicycle around a measured one."""
    p = {}
    for k, v in RIDERLEAN.items():
        p[k] = float(v * (1 + spread * rng.uniform(-1, 1)))
    for b in 'ceg':
        p['i%s31' % b] = float(rng.uniform(-.5, .5) * np.sqrt(
            p['i%s11' % b] * p['i%s33' % b]))
    if rng.random() < .7:
        p['k9'] = logu(rng, 1., 500.)
        p['c9'] = logu(rng, .1, 100.)
    p['v'] = float(rng.uniform(0.2, 12.))
    p['g'] = float(rng.choice([9.81, rng.uniform(2, 15)]))
    return again.shift(p)


GAINS = ['kTphi_phi', 'kTphi_del', 'kTphi_phid', 'kTphi_deld',
         'kTdel_phi', 'kTdel_del', 'kTdel_phid', 'kTdel_deld']


def feedback_par(rng, **kw):
    p = whipple_par(rng, **kw)
    for k in GAINS:
        p[k] = float(rng.choice([0., rng.normal() * 10**rng.uniform(-1, 2)]))
    return p


SWEEPS = ['fine', 'constant', 'plateaus', 'falling', 'alternating', 'huge-step',
          'repeated-ends', 'finest']


def sweep(rng, base, n, style):
    """Values of a varied parameter that a cache, a tolerance or an order
    may mistake; near base."""
    b = float(base) if base else 1.
    t = np.arange(n)
    if style == 'fine':
        return b * (1 + 3e-7 * t)
    if style == 'finest':
        return b * (1 + 1e-9 * t)
    if style == 'constant':
        return np.full(n, b)
    if style == 'plateaus':
        return b * (1 + .05 * (t // 2))
    if style == 'falling':
        return b * (1.2 - .3 * t / n)
    if style == 'alternating':
        return b * (1 + .1 * (t % 2) + .02 * (t % 3))
    if style == 'huge-step':
        return b * np.where(t < n / 2, 1., 1.5)
    return b * (1 + .1 * np.minimum(t, n - 1 - t))
