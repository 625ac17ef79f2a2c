"""C18 adding a rider adds exactly the rider to the rear frame."""
import os
import shutil
import numpy as np
from yeadon import Human

from bicycleparameters import Bicycle
from vp import gen, measure, ref, world
from checks.c10 import cloud, mass_props
from checks.c17 import state

TECHNIQUE = ('runtime monitor: point-mass riders on known bicycles through '
             'the files, state and directory snapshots over histories of '
             'successful, refused and failing additions')
LEVEL_NOTE = ('Every addition observed is compared with the rigid body sum of '
              'the previous frame and the rider, entry by entry, and with the '
              'equations of motion of that sum; deviations are propagated '
              'numerically.')
RULE = ('random point-mass riders on synthetic and shipped bicycles, plain, '
        'uncertain and with the optional entries missing; histories of '
        'additions with stored, missing, stale and unusable rider data and '
        'requested recalculation; distinct by bicycle and rider')
ASSUMPTIONS = ['the rear frame is symmetric']

CHANGED = ('mB', 'xB', 'zB', 'IBxx', 'IByy', 'IBzz', 'IBxz')


def random_rider(rng):
    m, r = cloud(rng, int(rng.integers(3, 8)), gen.logu(rng, .05, .5), True)
    m = m / m.sum() * rng.uniform(15, 130)
    r = r + [rng.uniform(-.2, .9), 0., -rng.uniform(.3, 1.8)]
    M, c, I = mass_props(m, r)
    # nobody sits exactly in the middle
    y = 0.
    if rng.random() < .4:
        y = float(rng.choice([-1, 1]) * 10**rng.uniform(-3.5, -1))
    return dict(mB=M, xB=c[0], yB=y, zB=c[2], IBxx=I[0, 0], IByy=I[1, 1],
                IBzz=I[2, 2], IBxz=I[0, 2], IBxy=0., IByz=0.)


def body(p):
    xz = p['IBxz']
    return (p['mB'], np.array([p['xB'], p.get('yB', 0.), p['zB']]),
            np.array([[p['IBxx'], 0, xz], [0, p.get('IByy', 0.), 0],
                      [xz, 0, p['IBzz']]]))


def summed(b, r):
    m, c, I = ref.combine([body(b), body(r)])
    return dict(mB=m, xB=c[0], zB=c[2], IBxx=I[0, 0], IByy=I[1, 1],
                IBzz=I[2, 2], IBxz=I[0, 2])


def deviations(b, r):
    """First order standard deviations of the sums."""
    nb, nr = world.nominal_dict(b), world.nominal_dict(r)
    var = dict.fromkeys(CHANGED, 0.)
    for src, other, first in ((b, nr, True), (r, nb, False)):
        n = world.nominal_dict(src)
        for k in CHANGED:
            s = world.std(src.get(k, 0.))
            if not s:
                continue
            h = 1e-5 * max(abs(n[k]), .1)
            up, dn = dict(n, **{k: n[k] + h}), dict(n, **{k: n[k] - h})
            p = summed(up, other) if first else summed(other, up)
            q = summed(dn, other) if first else summed(other, dn)
            for o in CHANGED:
                var[o] += ((p[o] - q[o]) / (2 * h) * s)**2
    return {k: np.sqrt(v) for k, v in var.items()}


def verify(mon, key, b, before, rider, name):
    par = b.parameters['Benchmark']
    got, want = world.nominal_dict(par), summed(world.nominal_dict(before),
                                                world.nominal_dict(rider))
    sc = max(abs(want[k]) for k in CHANGED)
    for k in CHANGED:
        mon.close(got[k], want[k], '%s:%s' % (key, k), rtol=1e-10,
                  atol=1e-11 * sc)
    # parameters calculated from measurements are correlated
    dev = {} if hasattr(b, 'extras') else deviations(before, rider)
    for k in dev:
        mon.close(world.std(par[k]), dev[k], key + ':deviation-' + k,
                  rtol=1e-4, atol=1e-10)
    for k, v in before.items():
        if k not in CHANGED:
            same = world.nominal(par[k]) == world.nominal(v) and \
                world.std(par[k]) == world.std(v)
            mon.check(same, key + ':other-parameters',
                      '%s: %r, was %r' % (k, par.get(k), v))
    mon.check(set(par) - {'yB', 'IByy'} == set(before) - {'yB', 'IByy'},
              key + ':keys', repr(set(par) ^ set(before)))
    mon.check(world.nominal(par.get('yB', 0.)) == 0, key + ':symmetric')
    mon.check(b.hasRider is True and b.riderName == name, key + ':reports')
    mon.check(name in str(b) and b.bicycleName in str(b), key + ':str',
              str(b))
    # the equations of motion are those of the sum
    q = dict(world.nominal_dict(before), **want)
    M, C1, K0, K2 = ref.whipple(q)
    for g, w, n in zip(b.canonical(nominal=True), (M, C1, K0, K2),
                       ('M', 'C1', 'K0', 'K2')):
        mon.close(g, w, key + ':dynamics', n, rtol=0,
                  atol=1e-8 * max(1., np.abs(w).max()))


def stored(mon, rng, i):
    """Riders whose parameters are stored, one bicycle or several."""
    root = ['data', os.path.join(mon.scratch, 'x y')][i % 2]
    kind = ['plain', 'uncertain', 'shipped', 'optional', 'measured'][i % 5]
    name = 'Made'
    if kind == 'shipped':
        name = str(rng.choice([x for x in world.shipped_with_benchmark()
                               if x != 'Tms']))
        world.copy_shipped(root, bikes=[name])
    elif kind == 'measured':
        p, parts, refpt = measure.bicycle(rng, bool(rng.integers(2)))
        world.make_bicycle(root, name, measured=measure.measure(
            rng, p, parts, refpt))
    else:
        p = gen.whipple_par(rng, gv=True)
        p.pop('_profile')
        if kind == 'optional':
            for k in ('IByy', 'IHyy'):
                p.pop(k, None)
        if kind == 'uncertain':
            p = gen.ufloatify(rng, p)
        world.make_bicycle(root, name, benchmark=p)
    rp = random_rider(rng)
    if rng.random() < .3:
        for k in ('IBxy', 'IByz', 'yB'):
            del rp[k]
    given = rp
    if rng.random() < .4:
        given = gen.ufloatify(rng, rp)
        if 'yB' in rp:
            given['yB'] = rp['yB']
    names = ['Pat', 'Kim']
    for n in names:
        world.write_par(os.path.join(root, 'riders', n, 'Parameters',
                                     n + name + 'Benchmark.txt'),
                        given if n == 'Pat' else random_rider(rng))
    mon.note(kind=kind, name=name, rider=rp)
    mon.sig(kind, name, rp['mB'])
    b = mon.call('load', Bicycle, name, pathToData=root)
    twin = Bicycle(name, pathToData=root)
    tree = world.tree(root)
    before = dict(b.parameters['Benchmark'])
    snap_twin = state(twin)
    mon.check(b.hasRider is False and 'no one' in str(b), 'stored:empty')
    mon.call('add', b.add_rider, 'Pat')
    verify(mon, 'stored', b, before, given, 'Pat')
    for k, v in given.items():
        mon.close(world.nominal(b.riderPar['Benchmark'][k]),
                  world.nominal(v), 'stored:rider-parameters', rtol=1e-14)
    # a second rider is refused, whoever it is
    full = state(b)
    for second in ('Kim', 'Pat', 'Nobody'):
        mon.call('second', b.add_rider, second,
                 reCalc=bool(rng.integers(2)))
        mon.check(state(b) == full, 'second:nothing-changed', repr(
            [k for k in full if state(b)[k] != full[k]]))
    mon.check(state(twin) == snap_twin, 'stored:other-object-unchanged')
    if rng.random() < .5:
        before = dict(twin.parameters['Benchmark'])
        mon.call('add', twin.add_rider, 'Kim')
        mon.check(twin.riderName == 'Kim' and b.riderName == 'Pat',
                  'stored:own-rider')
        mon.check(state(b) == full, 'stored:first-unchanged')
    mon.check(world.tree(root) == tree, 'stored:directory-unchanged')
    mon.count('kind:' + kind)


PAIRS = [('Rigid', 'Jason'), ('Browser', 'Jason'), ('Browserins', 'Jason'),
         ('Rigidcl', 'Luke'), ('Gyro', 'Child'),
         ('Balanceassistv1', 'Jason')]


def recalculated(mon, rng, i):
    """Stored, recalculated and impossible riders."""
    bike, rider = PAIRS[i % len(PAIRS)]
    root = os.path.join(mon.scratch, 'data')
    world.copy_shipped(root, bikes=[bike], riders=[rider])
    rdir = os.path.join(root, 'riders', rider)
    shutil.rmtree(os.path.join(rdir, 'Parameters'), ignore_errors=True)
    stale = random_rider(rng)
    mode = ['missing', 'stored', 'forced', 'no-measured', 'no-files',
            'no-configuration'][(i // len(PAIRS) + i) % 6]
    if mode in ('stored', 'forced'):
        world.write_par(os.path.join(rdir, 'Parameters',
                                     rider + bike + 'Benchmark.txt'), stale)
    if mode == 'no-configuration':
        os.remove(os.path.join(rdir, 'RawData',
                               rider + bike + 'YeadonCFG.txt'))
    mon.note(bike=bike, rider=rider, mode=mode)
    mon.sig(bike, rider, mode, stale['mB'])
    b = mon.call('load', Bicycle, bike, pathToData=root)
    if mode == 'no-measured':
        del b.parameters['Measured']
    tree = world.tree(root)
    before, snap = dict(b.parameters['Benchmark']), state(b)
    if mode in ('no-measured', 'no-files', 'no-configuration'):
        name = 'Nobody' if mode == 'no-files' else rider
        for k in range(2):
            mon.raises(Exception, 'failing:raises', b.add_rider, name,
                       reCalc=bool(k))
            mon.check(state(b) == snap, 'failing:nothing-changed')
        mon.check(not b.hasRider and 'no one' in str(b), 'failing:no-rider')
        mon.count('failing')
    else:
        # a rider to be drawn has to be calculated
        drawn, human_draw = [], Human.draw
        draw = mode == 'forced' and bool(rng.integers(2))
        Human.draw = lambda h, *args, **kw: drawn.append(h)
        try:
            mon.call('add', b.add_rider, rider,
                     **({'draw': True} if draw else
                        {'reCalc': mode == 'forced'}))
        finally:
            Human.draw = human_draw
        mon.check(drawn == ([b.human] if draw else []), 'recalculated:drawn',
                  str(drawn))
        rp = b.riderPar['Benchmark']
        if mode == 'stored':
            mon.check(b.human is None, 'stored:not-calculated')
            mon.close(world.nominal(rp['mB']), stale['mB'], 'stored:used',
                      rtol=1e-12)
        else:
            mon.check(b.human is not None, 'recalculated:human')
            mon.close(world.nominal(rp['mB']), b.human.mass,
                      'recalculated:used', rtol=1e-12)
        verify(mon, mode, b, before, rp, rider)
        mon.count('mode:' + mode)
    mon.check(world.tree(root) == tree, 'recalculated:directory-unchanged')


GROUPS = [('stored', 400, 12000, stored), ('recalculated', 210, 6300,
                                         recalculated)]
MINIMUM = {'kind:optional': 5, 'kind:uncertain': 5, 'failing': 8,
           'mode:forced': 3, 'mode:stored': 3}
