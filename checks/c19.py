"""C19 the rider model sits on the bicycle it was configured for."""
import os
import re
import warnings
import numpy as np
import yeadon
from uncertainties import ufloat

from bicycleparameters import Bicycle, rider
from vp import gen, ref, world
from checks.c18 import CHANGED, summed

TECHNIQUE = ('runtime monitor: positions, mass and inertia of the configured '
             'human rebuilt segment by segment in the bicycle frame, '
             'residuals of hips, feet and hands against the frame')
LEVEL_NOTE = ('Every configuration observed is rebuilt by an independent '
              'human model and its contact points, mass and inertia are '
              'recomputed in the bicycle frame.')
RULE = ('the shipped riders on their bicycles with the riding posture, the '
        'frame and handlebar dimensions, the body size and the body mass '
        'varied by up to 10 % and handlebars down to a third of '
        'their width; plain and uncertain parameters; through '
        'files and through the functions; distinct by the dimensions')
ASSUMPTIONS = ['the grips are within comfortable reach of the rider',
               'yeadon computes the segments of a given configuration']

PAIRS = [('Rigid', 'Jason'), ('Browser', 'Jason'), ('Browserins', 'Jason'),
         ('Rigidcl', 'Luke'), ('Rigidcl', 'Charlie'), ('Gyro', 'Child'),
         ('Balanceassistv1', 'Jason')]
# yeadon: x to the left, y to the rear (z up); bicycle: x forward, y right
R = np.array([[0., -1., 0.], [-1., 0., 0.], [0., 0., -1.]])


def frame(mp, bp):
    """Bottom bracket and saddle in the bicycle frame."""
    bb = np.array([np.sqrt(mp['lcs']**2 - (bp['rR'] - mp['hbb'])**2), 0.,
                   -mp['hbb']])
    up = np.array([-np.cos(mp['lamst']), 0., -np.sin(mp['lamst'])])
    return bb, bb + (mp['lsp'] + mp['lst']) * up


def grip(mp, bp):
    """Right grip: distances to both hubs and half the handlebar width."""
    y = mp['whb'] / 2
    a2, b2 = mp['LhbR']**2 - y**2, mp['LhbF']**2 - y**2
    r0, f0 = np.array([0., -bp['rR']]), np.array([bp['w'], -bp['rF']])
    d = np.linalg.norm(f0 - r0)
    e = (f0 - r0) / d
    s = (a2 - b2 + d * d) / (2 * d)
    h2 = a2 - s * s
    if h2 <= 0:
        return None
    n = np.array([e[1], -e[0]])
    n = n if n[1] < 0 else -n
    p = r0 + s * e + np.sqrt(h2) * n
    return np.array([p[0], y, p[1]])


def scene(rng, i, root, strength):
    bike, name = PAIRS[i % len(PAIRS)]
    world.copy_shipped(root, bikes=[bike], riders=[name])
    rdir = os.path.join(root, 'riders', name, 'RawData')
    meas = os.path.join(rdir, name + 'YeadonMeas.txt')
    cfg = os.path.join(rdir, name + bike + 'YeadonCFG.txt')
    b = Bicycle(bike, pathToData=root)
    mp = world.nominal_dict(b.parameters['Measured'])
    bp = world.nominal_dict(b.parameters['Benchmark'])
    som = float(re.search(r'somersault\s*:\s*([-\d.e]+)',
                          open(cfg).read()).group(1))
    scale = mass = 1.
    if strength:
        for k in ('lsp', 'lst', 'lamst', 'hbb', 'lcs', 'whb', 'LhbR', 'LhbF'):
            mp[k] *= 1 + strength * rng.uniform(-.04, .04)
        if rng.uniform() < .35:
            # down to handlebars that are narrower than the shoulders
            mp['whb'] *= rng.uniform(.3, 1.)
        for k in ('rR', 'rF', 'w'):
            bp[k] *= 1 + strength * rng.uniform(-.03, .03)
        som += strength * rng.uniform(-.06, .06)
        scale = 1 + strength * rng.uniform(-.07, .07)
        mass = rng.uniform(.7, 1.4)
    txt = open(cfg).read()
    open(cfg, 'w').write(re.sub(r'somersault\s*:.*', 'somersault: %r' % som,
                                txt))
    txt = open(meas).read()
    f = float(re.search(r'measurementconversionfactor\s*:\s*([\d.e-]+)',
                        txt).group(1))
    txt = re.sub(r'measurementconversionfactor\s*:.*',
                 'measurementconversionfactor: %r' % (f * scale), txt)
    m = float(re.search(r'totalmass\s*:\s*([\d.]+)', txt).group(1))
    txt = re.sub(r'totalmass\s*:.*', 'totalmass: %.1f' % (m * mass), txt)
    open(meas, 'w').write(txt)
    return bike, name, mp, bp, som, meas, cfg, float('%.1f' % (m * mass))


def reachable(mp, bp, som, meas, cfg):
    """Feet and hands reach with slack, by the segment lengths alone."""
    h = yeadon.Human(meas, cfg)
    q = h.meas
    bb, hip = frame(mp, bp)
    foot = q['Lj5L'] + q['Lj6L'] - q['Lj3L']
    d = np.linalg.norm(bb - hip)
    if not abs(q['Lj3L'] - foot) + .02 < d < q['Lj3L'] + foot - .02:
        return False
    g = grip(mp, bp)
    if g is None:
        return False
    # the shoulders only depend on the posture that is given
    right = hip + R @ np.asarray(h.B1.pos).ravel()
    hand = q['La4L'] + q['La5L'] - q['La2L']
    d = np.linalg.norm(g - right)
    return abs(q['La2L'] - hand) + .02 < d < .97 * (q['La2L'] + hand)


def point(hip, v):
    return hip + R @ np.asarray(v, float).ravel()


def sits(mon, rng, i):
    root = os.path.join(mon.scratch, 'data')
    for k in range(60):
        strength = 0. if i < len(PAIRS) else max(1. - k / 20, .02)
        bike, name, mp, bp, som, meas, cfg, mass = scene(rng, i + k, root,
                                                         strength)
        if reachable(mp, bp, som, meas, cfg):
            break
        world.shutil.rmtree(root)
        mon.count('out-of-reach')
    else:
        raise RuntimeError('no reachable configuration found')
    through = ['files', 'function', 'on-bike'][i % 3]
    mon.note(bike=bike, rider=name, mp=mp, bp=bp, som=som, mass=mass)
    mon.sig(bike, name, mp['lsp'], som, mass)
    ump, ubp = dict(mp), dict(bp)
    if i % 2:
        ump = gen.ufloatify(rng, mp)
        ubp = gen.ufloatify(rng, bp)
    tree = None
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if through == 'files':
            d = os.path.join(root, 'bicycles', bike)
            world.shutil.rmtree(d)
            world.make_bicycle(root, bike, benchmark=ubp, measured=ump)
            b = Bicycle(bike, pathToData=root)
            tree = world.tree(root)
            before = dict(b.parameters['Benchmark'])
            mon.call('add', b.add_rider, name, reCalc=True)
            human, rp = b.human, b.riderPar['Benchmark']
            both = b.parameters['Benchmark']
        elif through == 'function':
            tree = world.tree(root)
            before = dict(ubp)
            rp, human, both = mon.call(
                'configure', rider.configure_rider,
                os.path.join(root, 'riders', name), bike, ubp, ump, False)
            mon.check(ubp == before, 'configure:input-unchanged')
        else:
            human = mon.call('on-bike', rider.rider_on_bike, ubp, ump, meas,
                             cfg, False)
            rp = None
    if tree is not None:
        mon.check(world.tree(root) == tree, 'directory-unchanged')
    # the posture, rebuilt by another human
    twin = yeadon.Human(meas, dict(human.CFG))
    mon.close(human.CFG['somersault'], som, 'posture:given', rtol=1e-12)
    for k in ('tilt', 'twist', 'PTsagittalFlexion', 'PTbending',
              'TCspinalTorsion', 'TCsagittalSpinalFlexion', 'PJ1adduction',
              'PK1abduction'):
        mon.close(human.CFG[k], 0., 'posture:upright', k, atol=1e-12)
    for s, t in zip(human.segments, twin.segments):
        mon.close(np.ravel(s.end_pos), np.ravel(t.end_pos),
                  'posture:consistent', s.label, rtol=0, atol=1e-10)
    bb, hip = frame(mp, bp)
    q = twin.meas
    for leg, side in (('J', -1), ('K', 1)):
        knee, end = (point(hip, x) for x in (getattr(twin, leg + '2').pos,
                                             getattr(twin, leg + '2').end_pos))
        L = q['Lj5L'] + q['Lj6L'] - q['Lj3L']
        foot = knee + L * (end - knee) / np.linalg.norm(end - knee)
        mon.close(foot[::2], bb[::2], 'feet', rtol=0, atol=1e-6)
        mon.check(foot[1] * side > 0, 'feet:side')
        mon.check(knee[0] > hip[0], 'knees:forward')
        top = point(hip, getattr(twin, leg + '1').pos)
        mon.close(top[::2], hip[::2], 'hips', rtol=0, atol=1e-9)
    want = grip(mp, bp)
    for arm, side in (('A', -1), ('B', 1)):
        elbow, end = (point(hip, x) for x in (getattr(twin, arm + '2').pos,
                                              getattr(twin, arm + '2').end_pos
                                              ))
        L = q['La4L'] + q['La5L'] - q['La2L']
        hand = elbow + L * (end - elbow) / np.linalg.norm(end - elbow)
        mon.close(hand, want * [1, side, 1], 'hands', rtol=0, atol=1e-5)
        # the arm bends in a vertical plane
        top = point(hip, getattr(twin, arm + '1').pos)
        axis = np.cross(elbow - top, hand - elbow)
        mon.close(axis[2], 0., 'elbows:vertical-plane', rtol=0, atol=1e-6)
        mon.close(np.linalg.norm(hand - [0, 0, -bp['rR']]), mp['LhbR'],
                  'hands:rear-hub', rtol=0, atol=1e-5)
        mon.close(np.linalg.norm(hand - [bp['w'], 0, -bp['rF']]), mp['LhbF'],
                  'hands:front-hub', rtol=0, atol=1e-5)
    mirror = np.array([1, -1, 1])
    for l, r in (('A1', 'B1'), ('A2', 'B2'), ('J1', 'K1'), ('J2', 'K2')):
        for e in ('pos', 'end_pos'):
            mon.close(point(hip, getattr(getattr(twin, l), e)) * mirror,
                      point(hip, getattr(getattr(twin, r), e)), 'symmetric',
                      l, rtol=0, atol=1e-9)
    mon.close(human.mass, mass, 'mass:total', rtol=0, atol=.0051)
    mon.count('through:' + through)
    mon.count('narrow-bar' if mp['whb'] < q['Ls4w'] else 'wide-bar')
    if rp is None:
        return
    # segment by segment
    parts = [(s.mass, point(hip, s.center_of_mass),
              R @ np.asarray(s.inertia, float) @ R.T) for s in twin.segments]
    m, c, I = ref.combine(parts)
    rp = world.nominal_dict(rp)
    mon.close(rp['mB'], m, 'rider:mass', rtol=1e-9)
    mon.close([rp['xB'], rp.get('yB', 0.), rp['zB']], c, 'rider:mass-centre',
              rtol=0, atol=1e-8)
    got = np.array([[rp['IBxx'], 0, rp['IBxz']], [0, rp['IByy'], 0],
                    [rp['IBxz'], 0, rp['IBzz']]])
    mon.close(got, I, 'rider:inertia', rtol=0, atol=1e-7 * np.abs(I).max())
    want = summed(world.nominal_dict(before), rp)
    both = world.nominal_dict(both)
    mon.close([both[k] for k in CHANGED], [want[k] for k in CHANGED],
              'combined', rtol=1e-9, atol=1e-9)
    for k, v in before.items():
        if k not in CHANGED + ('yB',):
            mon.check(both[k] == world.nominal(v), 'combined:others', k)


def vectors(mon, rng, i):
    """Points of the human model expressed in the bicycle frame."""
    mp = dict(lcs=rng.uniform(.35, .6), lsp=rng.uniform(.05, .4),
              lst=rng.uniform(.3, .7), lamst=rng.uniform(.9, 1.6))
    bp = dict(rR=rng.uniform(.15, .45))
    mp['hbb'] = bp['rR'] + rng.uniform(-.2, .2)
    mp, bp = ({k: float(v) for k, v in d.items()} for d in (mp, bp))
    mon.note(mp=mp, bp=bp)
    mon.sig(mp)
    u = [mp, {k: ufloat(v, .01) for k, v in mp.items()}][i % 2]
    ub = [bp, {k: ufloat(v, .01) for k, v in bp.items()}][(i // 2) % 2]
    u0, ub0 = dict(u), dict(ub)
    hip = frame(mp, bp)[1]
    n = 1 if i % 3 else 4
    v = rng.normal(size=(3, n))
    v0 = v.copy()
    got = np.asarray(mon.call('vector', rider.yeadon_vec_to_bicycle_vec, v, u,
                              ub))
    mon.check(np.array_equal(v, v0) and u == u0 and ub == ub0,
              'vector:input-unchanged')
    mon.close(got, hip[:, None] + R @ v, 'vector:place', rtol=0, atol=1e-12)
    # distances and handedness are kept
    o = np.asarray(rider.yeadon_vec_to_bicycle_vec(np.zeros((3, 1)), u, ub))
    mon.close(np.linalg.norm(got - o, axis=0), np.linalg.norm(v, axis=0),
              'vector:rigid', rtol=1e-10)
    e = np.asarray(rider.yeadon_vec_to_bicycle_vec(np.eye(3), u, ub)) - o
    mon.close(np.linalg.det(e), 1., 'vector:handed', rtol=1e-9)


GROUPS = [('sits', 270, 8100, sits), ('vectors', 600, 18000, vectors)]
MINIMUM = {'through:files': 8, 'through:function': 8, 'through:on-bike': 8}
