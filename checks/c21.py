"""C21 frame geometry from measurements is the true geometry."""
import copy
import numpy as np
from uncertainties import ufloat

from bicycleparameters import bicycle, geometry
from vp import gen, measure, world

TECHNIQUE = ('runtime monitor: independent analytic geometry as oracle, '
             'agreement of the two measurement methods, frame relations')
LEVEL_NOTE = ('Every geometry observed is rebuilt from vectors in the plane '
              'of symmetry of a known frame; the two documented methods are '
              'applied to the same frame.')
RULE = ('random frames with tilt -0.6 to 1.2 rad, positive and negative '
        'trail, unequal wheels, vertical steer axes, random measuring '
        'conditions (table heights, axle and tube diameters, number of '
        'wheel turns), plain and uncertain values; distinct by the frame')


def frame(rng, i):
    while True:
        p = dict(w=float(rng.uniform(.5, 2.2)),
                 lam=float(rng.uniform(-.6, 1.2)),
                 c=float(rng.uniform(-.3, .4)),
                 rR=float(rng.uniform(.1, .6)), rF=float(rng.uniform(.1, .6)))
        if i % 6 == 0:
            p['lam'] = float(rng.uniform(.1, .5))
            p['c'] = float(rng.uniform(.01, .15))
        if i % 9 == 4:
            p['rF'] = p['rR']
        if i % 10 == 7:
            p['lam'] = 0.0
            p['rR'] = p['rF'] + float(rng.uniform(.05, .3))
        if i % 13 == 5:
            p['c'] = 0.0
        a, b, c = measure.frame_lengths(p)
        # the rear wheel is behind, the reversed fork fits on the table, and
        # the frame is the one with the smaller tilt of the two that the
        # three distances allow
        R = np.hypot(a + b, c)
        if a + b > .05 and c > .02 and abs(p['rF'] - p['rR']) < .95 * R and \
                abs(p['lam'] - np.arctan2(c, a + b)) < 1.4:
            return p, a, b, c


def val(x):
    return float(np.asarray(world.nominal(x)))


def methods(mon, rng, i):
    p, a, b, c = frame(rng, i)
    mon.note(par=p)
    mon.sig(p['w'], p['lam'])
    got = {}
    for method in ('angle', 'perpendicular'):
        mp = measure.distances(rng, p, method)
        kind = ['uncertain', 'plain', 'mixed'][int(rng.integers(3))]
        if kind == 'uncertain':
            mp = measure.uncertain(rng, mp)
        elif kind == 'mixed':
            mp = measure.uncertain(rng, mp, skip=set(list(mp)[::2]))
        if rng.random() < .3:
            mp['xcl'], mp['zcl'] = .3, -.4
        before = copy.copy(mp)
        r = mon.call(method, geometry.calculate_benchmark_geometry, mp, {})
        mon.check(mp == before, method + ':input-unchanged')
        for k in ('rF', 'rR'):
            mon.close(val(r[k]), p[k], method + ':radius', rtol=1e-12)
        for k in ('w', 'lam', 'c'):
            mon.close(val(r[k]), p[k], method + ':' + k, rtol=1e-8, atol=1e-9)
        mon.check(set(r) == {'rF', 'rR', 'w', 'lam', 'c'} |
                  (set(mp) & {'xcl', 'zcl'}), method + ':entries')
        mon.check(all(r[k] == mp[k] for k in ('xcl', 'zcl') if k in mp),
                  method + ':lateral-force-point')
        r2 = geometry.calculate_benchmark_geometry(mp, {'mB': 3.})
        mon.check(r2['mB'] == 3., method + ':keeps-other-parameters')
        got[method] = r
        if method == 'perpendicular':
            h = [mp['h%d' % k] for k in range(1, 6)]
            d = [mp['d%d' % k] for k in range(1, 5)] + [mp['d']]
            abc = mon.call('abc', geometry.calculate_abc_geometry, h, d)
            mon.close([val(x) for x in abc], [a, b, c], 'abc', rtol=1e-8,
                      atol=1e-9)
        mon.count(method + ':' + kind)
    lam = mon.call('lambda', bicycle.lambda_from_abc, ufloat(p['rF'], .001),
                   ufloat(p['rR'], .001), ufloat(a, .001), ufloat(b, .001),
                   ufloat(c, .001))
    mon.close(val(lam), p['lam'], 'lambda', rtol=0, atol=1e-9)
    # trail and mechanical trail
    t, mt = mon.call('trail', bicycle.trail, p['rF'], p['lam'], b)
    mon.close(t, p['c'], 'trail', rtol=1e-9, atol=1e-10)
    P = np.array([p['w'] + p['c'], 0., 0.])
    axis = np.array([np.sin(p['lam']), 0, np.cos(p['lam'])])
    contact = np.array([p['w'], 0., 0.])
    arm = np.linalg.norm(np.cross(P - contact, axis))
    mon.close(abs(mt), arm, 'mechanical-trail', rtol=1e-9, atol=1e-10)
    mon.check(mt * p['c'] >= -1e-9, 'mechanical-trail:sign')


def points(mon, rng, i):
    """Handlebar reference, distances to the steer axis, drawn points."""
    p, a, b, c = frame(rng, i)
    s, co = np.sin(p['lam']), np.cos(p['lam'])
    mon.note(par=p)
    mon.sig(p['w'], p['lam'])
    # the reference circle above the wheel, from measurements on the table
    l1, l2 = float(rng.uniform(-.3, .3)), float(rng.uniform(.05, 1.))
    r5, r6 = rng.uniform(.002, .03, 2)
    h6 = float(rng.uniform(0, .4))
    m = [l1 + h6 - r5 + r6, 2 * r5, 2 * r6, np.hypot(l1, l2) + r5 + r6]
    u = bool(rng.random() < .5)
    w = (lambda x: ufloat(x, 1e-4)) if u else float
    g1, g2 = mon.call('l1-l2', geometry.calculate_l1_l2, w(h6), w(m[0]),
                      w(m[1]), w(m[2]), w(m[3]))
    mon.close([val(g1), val(g2)], [l1, l2], 'l1-l2', rtol=1e-9, atol=1e-10)
    u1, u2 = mon.call('handlebar', geometry.fwheel_to_handlebar_ref,
                      w(p['lam']), w(l1), w(l2))
    front = np.array([p['w'], 0., -p['rF']])
    ref = front + l1 * np.array([co, 0, -s]) - l2 * np.array([s, 0, co])
    mon.close([p['w'] - val(u1), -p['rF'] - val(u2)], ref[::2], 'handlebar',
              rtol=0, atol=1e-10)
    # distance of any point in the plane to the steer axis
    P = np.array([p['w'] + p['c'], 0., 0.])
    axis = np.array([s, 0, co])
    for _ in range(3):
        q = np.array([rng.normal(), 0., rng.normal()])
        d = mon.call('distance', geometry.distance_to_steer_axis, w(p['w']),
                     w(p['c']), w(p['lam']), q)
        mon.close(val(d), np.linalg.norm(np.cross(q - P, axis)), 'distance',
                  rtol=1e-10, atol=1e-12)
        t = float(rng.normal())
        d2 = geometry.distance_to_steer_axis(p['w'], p['c'], p['lam'],
                                             q + t * axis)
        mon.close(val(d2), val(d), 'distance:along-axis', rtol=1e-9,
                  atol=1e-11)
    # drawn points
    before = dict(p)
    x, z = mon.call('drawn', geometry.fundamental_geometry_plot_data, p)
    mon.check(p == before, 'drawn:input-unchanged')
    pts = np.array([[float(xx), 0., float(zz)] for xx, zz in zip(x, z)])
    mon.check(len(pts) == 4, 'drawn:four')
    tol = dict(rtol=0, atol=1e-10)
    rear = np.array([0., 0., -p['rR']])
    mon.close(pts[0], rear, 'drawn:rear-centre', **tol)
    mon.close(pts[3], front, 'drawn:front-centre', **tol)
    for k, name, centre in ((1, 'rear', rear), (2, 'front', front)):
        foot = P + ((centre - P) @ axis) * axis
        mon.close(pts[k], foot, 'drawn:%s-foot' % name, **tol)
    mon.close(np.linalg.norm(pts[1] - pts[0]), abs(a), 'drawn:a', **tol)
    mon.close(np.linalg.norm(pts[2] - pts[1]), abs(c), 'drawn:c', **tol)
    mon.close(np.linalg.norm(pts[3] - pts[2]), abs(b), 'drawn:b', **tol)


GROUPS = [('methods', 1200, 180000, methods), ('points', 900, 135000, points)]
MINIMUM = {'perpendicular:plain': 3, 'perpendicular:uncertain': 3}
