"""C20 steer assembly inertia is the physical one about the axis asked."""
import os
import numpy as np
from uncertainties import unumpy

from bicycleparameters import Bicycle
from vp import again, gen, ref, world

TECHNIQUE = ('runtime monitor: reported tensors against rigid bodies '
             'transformed one by one, conservation and monotonicity over the '
             'combinations of one bicycle, first-order propagation by '
             'finite differences')
LEVEL_NOTE = ('Every reported tensor is compared with the sum over the bodies '
              'about the point and axis asked, and the combinations of one '
              'bicycle with each other.')
RULE = ('random bicycles with a whole front assembly or with separate fork '
        'and handlebar, wide ranges of tilt, trail and size, plain and '
        'uncertain, with and without flywheel and rider, and every shipped '
        'bicycle; all eight combinations of bodies about both points; '
        'distinct by the front assembly')
ASSUMPTIONS = ['a bicycle is loaded from its benchmark parameter file']


def front(p, handlebar, fork, wheel):
    """(m, com, central inertia) of each body asked for."""
    out = []
    b = {(1, 1): 'H', (0, 1): 'S', (1, 0): 'G'}.get((int(handlebar),
                                                    int(fork)))
    if b:
        I = np.array([[p['I%sxx' % b], 0, p['I%sxz' % b]],
                      [0, p.get('I%syy' % b, 0.), 0],
                      [p['I%sxz' % b], 0, p['I%szz' % b]]])
        out.append((p['m' + b], np.array([p['x' + b], 0, p['z' + b]]), I))
    if wheel:
        out.append((p['mF'], np.array([p['w'], 0, -p['rF']]),
                    np.diag([p['IFxx'], p['IFyy'], p['IFxx']])))
    return out


def expected(p, handlebar, fork, wheel, about):
    bodies = front(p, handlebar, fork, wheel)
    if not bodies:
        return np.zeros((3, 3))
    m, c, I = ref.combine(bodies)
    s, k = np.sin(p['lam']), np.cos(p['lam'])
    e3 = np.array([s, 0, k])            # down the steer axis
    e1 = np.array([k, 0, -s])           # forward
    e2 = np.array([0, 1., 0])
    if about:
        P = np.array([p['w'] + p['c'], 0, 0])
        foot = P + e3 * (e3 @ (c - P))
        I = I + ref.point_inertia(m, c - foot)
    E = np.array([e1, e2, e3])
    return E @ I @ E.T


COMBOS = [(h, f, w, a) for h in (True, False) for f in (True, False)
          for w in (True, False) for a in (True, False)]


def ask(mon, b, h, f, w, a, nominal=False):
    return mon.call('inertia', b.steer_assembly_moment_of_inertia,
                    handlebar=h, fork=f, wheel=w, aboutSteerAxis=a,
                    nominal=nominal)


def verify(mon, b, split, rng, grad=False, tiny=False):
    par = b.parameters['Benchmark']
    before = dict(par)
    p = world.nominal_dict(par)
    scale = max(m * c @ c + np.abs(I).max() + m * p['w']**2
                for m, c, I in front(p, 1, 1, 1))
    got = {}
    uncertain = any(hasattr(v, 'std_dev') for v in par.values())
    for combo in COMBOS:
        h, f, w, a = combo
        if h != f and not split:
            mon.raises(ValueError, 'not-split',
                       b.steer_assembly_moment_of_inertia, handlebar=h,
                       fork=f, wheel=w, aboutSteerAxis=a)
            continue
        I = np.asarray(ask(mon, b, h, f, w, a))
        mon.check(I.shape == (3, 3), 'shape')
        n = np.asarray(unumpy.nominal_values(I), float)
        tag = '%s:%s' % ('steer-axis' if a else 'mass-centre',
                         'both' if h and f else 'fork' if f else
                         'handlebar' if h else 'none')
        tag += ':wheel' if w else ''
        mon.close(n, expected(p, *combo), 'tensor:' + tag, rtol=1e-9,
                  atol=1e-11 * scale)
        mon.close(n, n.T, 'symmetric', rtol=1e-9, atol=1e-12 * scale)
        N = np.asarray(ask(mon, b, h, f, w, a, nominal=True))
        mon.check(not any(hasattr(x, 'std_dev') for x in N.flat),
                  'nominal:plain')
        mon.close(np.asarray(N, float), n, 'nominal:values', rtol=1e-12,
                  atol=1e-15 * scale)
        if h or f or w:
            mon.check(n[2, 2] > 0, 'positive', tag)
        got[combo] = n
        if uncertain and grad and (h or f or w):
            d = np.zeros((3, 3))
            for k, v in par.items():
                s = world.std(v)
                if not s:
                    continue
                q = dict(p)
                hh = max(1e-5 * abs(p[k]), 1e-7)
                q[k] = p[k] + hh
                up = expected(q, *combo)
                q[k] = p[k] - hh
                d += ((up - expected(q, *combo)) / (2 * hh) * s)**2
            sd = np.array([[world.std(x) for x in r] for r in I])
            mon.close(sd, np.sqrt(d), 'deviation:' + tag, rtol=2e-3,
                      atol=1e-7 * np.sqrt(d).max() + 1e-12)
    for (h, f, w, a), n in got.items():
        eps = 1e-10 * scale
        if w:
            # the wheel adds inertia about every axis
            without = got[h, f, False, a]
            mon.check(n[2, 2] >= without[2, 2] - eps, 'wheel-adds')
        if a:
            mon.check(n[2, 2] >= got[h, f, w, False][2, 2] - eps,
                      'least-at-mass-centre')
            # about one axis the bodies just add
            mon.close(n[2, 2], got[h, f, False, True][2, 2] +
                      (got[False, False, True, True][2, 2] if w else 0.),
                      'additive:wheel', rtol=1e-9, atol=eps)
    if 'IBxx' in p and 'rR' in p:
        # the same inertia acts in the equations of motion at zero trail
        q = dict(p)
        mon.close(got[True, True, True, True][2, 2],
                  axial(q), 'equations-of-motion', rtol=1e-9,
                  atol=1e-11 * scale)
    mon.check(list(par) == list(before) and
              all(par[k] is before[k] or par[k] == before[k] for k in before),
              'parameters-unchanged')
    return got


def axial(p):
    """Axial moment of the front assembly from the steer row of M."""
    mu = p['c'] / p['w'] * np.cos(p['lam'])
    M, _, _, _ = ref.whipple(p)
    bs = ref.bodies(p)
    e = np.array([np.sin(p['lam']), 0., np.cos(p['lam'])])
    P = np.array([p['w'] + p['c'], 0., 0.])
    Lz = 0.
    for b in 'HF':
        m, r, I = bs[b]
        Lz += (I @ e + m * np.cross(r, np.cross(e, r - P)))[2]
    IT = sum(I + ref.point_inertia(m, r) for m, r, I in bs.values())
    return M[1, 1] - 2 * mu * Lz - mu**2 * IT[2, 2]


def bikes(mon, rng, i):
    p = gen.whipple_par(rng, gv=False)
    gen.pop_profile(p)
    p['g'] = 9.81
    if i % 10 == 7:
        # the mass centre of the assembly behind or far ahead
        p['xH'] = float(rng.uniform(-2, 3) * p['w'])
    split = i % 3 != 0
    if split:
        # fork and handlebar around the assembly
        share = rng.uniform(.1, .9)
        for b, f in (('S', share), ('G', 1 - share)):
            p['m' + b] = p['mH'] * f
            p['x' + b] = float(p['w'] * rng.uniform(.5, 1.2))
            p['z' + b] = float(-p['w'] * rng.uniform(.1, 1.1))
            (p['I%sxx' % b], p['I%sxz' % b], p['I%syy' % b],
             p['I%szz' % b]) = gen.planar_inertia(rng, p['m' + b],
                                                  .3 * p['w'])
        m, c, I = ref.combine([front(p, 0, 1, 0)[0], front(p, 1, 0, 0)[0]])
        p.update(mH=m, xH=c[0], zH=c[2], IHxx=I[0, 0], IHxz=I[0, 2],
                 IHyy=I[1, 1], IHzz=I[2, 2])
    flywheel = bool(rng.random() < .2)
    if flywheel:
        p.update(mD=2., rD=.2, xD=.3, zD=-.3, IDxx=.01, IDyy=.02)
    p = {k: float(v) for k, v in p.items()}
    uncertain = bool(i % 2)
    par = gen.ufloatify(rng, p) if uncertain else p
    mon.note(par=p, split=split, uncertain=uncertain)
    mon.sig(p['mH'], p['lam'], p['c'])
    mon.count('split' if split else 'whole')
    mon.count('uncertain' if uncertain else 'plain')
    root = os.path.join(mon.scratch, 'd')
    world.make_bicycle(root, 'Randy', benchmark=par)
    b = again.bicycle(lambda: Bicycle('Randy', pathToData=root), False)
    before = world.tree(root)
    got = verify(mon, b, split, rng, grad=uncertain and i % 4 == 1)
    mon.check(world.tree(root) == before, 'files-unchanged')
    if split:
        size = got[True, True, False, True][2, 2]
        mon.close(got[True, False, False, True][2, 2] +
                  got[False, True, False, True][2, 2], size, 'additive:parts',
                  rtol=1e-8, atol=1e-11 * abs(size))
    # one parameter of the front is measured again
    par = b.parameters['Benchmark']
    keys = ['w', 'c', 'lam', 'mF', 'rF', 'IFxx', 'IFyy'] + [
        k for k in par if len(k) > 1 and k[1] in ('HSG' if split else 'H') and
        k[0] in 'mxzI']
    k = str(rng.choice(sorted(keys)))
    old = par[k]
    par[k] = old * float(rng.choice([.97, 1.04])) + (
        0. if world.nominal(old) else 1e-3)
    mon.count('edited')
    verify(mon, b, split, rng)
    par[k] = old
    # where the rear is and weighs does not matter
    q = dict(p)
    for k in ('mB', 'xB', 'zB', 'IBxx', 'IByy', 'IBxz', 'IBzz', 'rR', 'mR'):
        q[k] = p[k] * float(rng.uniform(.5, 1.5))
    world.make_bicycle(root, 'Other', benchmark=q)
    o = Bicycle('Other', pathToData=root)
    for a in (True, False):
        mon.close(ask(mon, o, True, True, True, a, True),
                  got[True, True, True, a], 'front-only', rtol=1e-9,
                  atol=1e-13)


def shipped(mon, rng, i):
    names = [n for n in world.shipped_with_benchmark() if n != 'Tms']
    name = names[i % len(names)]
    mon.note(name=name)
    mon.sig(name, i // len(names))
    b = Bicycle(name, pathToData=world.DATA)
    split = 'mG' in b.parameters['Benchmark']
    if i >= len(names):
        # as delivered, but elsewhere
        root = os.path.join(mon.scratch, 'd')
        par = dict(b.parameters['Benchmark'])
        for k in ('lam', 'c', 'w', 'rF', 'xH', 'zH', 'mH'):
            par[k] = par[k] * float(rng.uniform(.8, 1.2))
        # all of them by the same factor, it has to stay a body
        factor = float(rng.uniform(.8, 1.2))
        for k in ('IHxx', 'IHzz', 'IHxz'):
            par[k] = par[k] * factor
        world.make_bicycle(root, name, benchmark=par)
        b = Bicycle(name, pathToData=root)
        split = 'mG' in b.parameters['Benchmark']
    mon.count('shipped:split' if split else 'shipped:whole')
    verify(mon, b, split, rng, grad=True)


def rider(mon, rng, i):
    """A rider on the rear frame does not add to the front."""
    root = os.path.join(mon.scratch, 'd')
    bike, name = [('Rigid', 'Jason'), ('Browser', 'Jason'),
                  ('Rigidcl', 'Luke')][i % 3]
    world.copy_shipped(root, bikes=[bike], riders=[name])
    b = Bicycle(bike, pathToData=root)
    mon.note(bike=bike, rider=name)
    mon.sig(bike, name, i)
    one = {(w, a): ask(mon, b, True, True, w, a, True)
           for w in (True, False) for a in (True, False)}
    mon.call('add', b.add_rider, name)
    for (w, a), I in one.items():
        mon.close(ask(mon, b, True, True, w, a, True), I, 'rider:front',
                  rtol=1e-12)


GROUPS = [('bikes', 480, 28800, bikes), ('shipped', 240, 14400, shipped),
          ('rider', 3, 3, rider)]
MINIMUM = {'split': 10, 'whole': 10, 'uncertain': 10, 'plain': 10,
           'not-split': 20, 'shipped:split': 2}
