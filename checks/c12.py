"""C12 measuring a known bicycle gives back its parameters."""
import copy
import os
import numpy as np

from bicycleparameters import Bicycle
from bicycleparameters.main import calculate_benchmark_from_measured
from vp import gen, measure, world

TECHNIQUE = ('runtime monitor: forward model of the measurement rig as '
             'oracle; inverse checked end to end, in memory and through '
             'files')
LEVEL_NOTE = ('Every reduction observed was fed with the measurements an '
              'ideal experimenter takes of a known bicycle; all parameters '
              'and all four bodies (six or seven with a split fork or a '
              'flywheel) are compared with the known ones.')
RULE = ('random bicycles, including vertical and negative tilt and trail; '
        'both geometry methods, whole and split front assembly, with and '
        'without flywheel, 3 to 12 orientations in random order and sense, '
        'plain, uncertain and mixed measurements, extra entries, shuffled '
        'keys; distinct by the measurements')


def known(p, parts, flywheel):
    want = {k: v for k, v in p.items() if k[0] != '_' and k != 'v'}
    for q, (m, com, I) in parts.items():
        want['m' + q] = m
        want['I%sxx' % q], want['I%syy' % q] = I[0, 0], I[1, 1]
        if q not in 'RF':
            want['x' + q], want['z' + q] = com[0], com[2]
            want['I%sxz' % q], want['I%szz' % q] = I[0, 2], I[2, 2]
    if flywheel:
        want['mD'], want['IDxx'], want['IDyy'] = flywheel
    return want


def compare(mon, got, want, key, tol=1e-8):
    got = world.nominal_dict(got)
    missing = set(want) - set(got)
    mon.check(not missing, key + ':complete', 'missing %s' % sorted(missing))
    for k, w in want.items():
        if k not in got:
            continue
        if k[0] == 'I':
            q = k[1]
            sc = max(want['I%sxx' % q], want['I%syy' % q],
                     want.get('I%szz' % q, 0)) + want.get('m' + q, 1.) * .1
        elif k[0] == 'm':
            sc = abs(w)
        else:
            sc = 1.
        mon.close(got[k], w, '%s:%s' % (key, k if k[0] != 'I' else 'inertia-' +
                                        k[1]), 'parameter ' + k, rtol=0,
                  atol=tol * sc)


def scene(rng, i):
    split = bool(i % 2)
    method = ['angle', 'perpendicular'][(i // 2) % 2]
    # the handlebar of a steep bicycle is located by the same formulas
    vertical = i % 11 == 3
    p, parts, refpt = measure.bicycle(rng, split, vertical)
    fly = None
    if i % 5 == 2:
        fly = (gen.logu(rng, .5, 5.), *sorted(rng.uniform(.01, .2, 2)))
    n = {q: int(rng.integers(3, 13 if i % 4 == 1 else 7)) for q in 'BGSH'}
    mp = measure.measure(rng, p, parts, refpt, method, n, fly)
    return split, method, p, parts, fly, mp


def dress(rng, mp):
    if rng.random() < .3:
        mp['xcl'], mp['zcl'] = float(rng.normal()), float(rng.normal())
    if rng.random() < .3:
        mp.update(lsp=.24, lst=.53, hbb=.29, lcs=.46, whb=.58, LhbF=.9,
                  LhbR=.92, lamst=1.2)
    keys = list(mp)
    rng.shuffle(keys)
    return {str(k): mp[str(k)] for k in keys}


def reduce(mon, rng, i):
    split, method, p, parts, fly, mp = scene(rng, i)
    mp = dress(rng, mp)
    kind = ['uncertain', 'plain', 'mixed'][int(rng.integers(3))]
    if kind == 'uncertain':
        mp = {k: v for k, v in mp.items()}
        mp = measure.uncertain(rng, mp)
    elif kind == 'mixed':
        skip = rng.choice(list(mp), size=len(mp) // 2, replace=False)
        mp = measure.uncertain(rng, mp, skip=set(skip))
    mon.note(mp=mp, split=split, method=method, kind=kind)
    mon.sig(mp['mB'], mp['dF'])
    before = copy.copy(mp)
    par, extras = mon.call('reduce', calculate_benchmark_from_measured, mp)
    mon.check(mp == before, 'reduce:input-unchanged')
    compare(mon, par, known(p, parts, fly), 'known')
    for k in ('xcl', 'zcl'):
        if k in mp:
            mon.check(par.get(k) == mp[k], 'known:lateral-force-point')
    # the extras hold one line and pendulum inertia for each orientation
    for q in extras['slopes']:
        n = len([k for k in mp if k.startswith('alpha' + q)])
        for e in ('slopes', 'intercepts', 'betas', 'pendulumInertias'):
            mon.check(len(extras[e][q]) == n, 'extras:count', e + q)
        m, com, I = parts[q]
        for s, b in zip(extras['slopes'][q], extras['intercepts'][q]):
            s, b = world.nominal(s), world.nominal(b)
            mon.close((s * com[0] + b - com[2]) / np.hypot(1, s), 0.,
                      'extras:line-through-mass-centre', atol=1e-9)
        for t, J in zip(extras['betas'][q], extras['pendulumInertias'][q]):
            t = world.nominal(t)
            d = np.array([np.cos(t), 0, -np.sin(t)])
            mon.close(world.nominal(J), d @ I @ d, 'extras:inertia',
                      rtol=1e-9)
    mon.count('%s/%s/%s' % ('split' if split else 'whole', method, kind))


def through_files(mon, rng, i):
    """The same through the documented directory layout and class."""
    split, method, p, parts, fly, mp = scene(rng, i)
    mp = dress(rng, mp)
    data = measure.uncertain(rng, mp) if i % 3 else mp
    mon.note(mp=data, split=split, method=method)
    mon.sig(mp['mB'], mp['dF'])
    name = 'Bike%s' % 'abc'[i % 3]
    old = None
    if i % 2:     # a stale parameter file that must be ignored when forced
        old = {k: v for k, v in gen.whipple_par(rng, 'ordinary').items()
               if k != '_profile'}
    world.make_bicycle(mon.scratch, name, measured=data, benchmark=old)
    files = world.tree(mon.scratch)
    b = mon.call('load', Bicycle, name, mon.scratch,
                 forceRawCalc=bool(old) or bool(rng.random() < .5))
    compare(mon, b.parameters['Benchmark'], known(p, parts, fly), 'file')
    mon.check(world.tree(mon.scratch) == files, 'file:nothing-written')
    if old:
        c = mon.call('load', Bicycle, name, mon.scratch)
        got = world.nominal_dict(c.parameters['Benchmark'])
        mon.check(all(got[k] == old[k] for k in old), 'file:stored-preferred')
    m = b.parameters['Measured']
    bad = [k for k in data if not np.isclose(world.nominal(m[k]),
                                             world.nominal(data[k]),
                                             rtol=1e-12, atol=0)]
    mon.check(not bad, 'file:measured', '%s' % bad[:4])


GROUPS = [('reduce', 600, 36000, reduce), ('files', 240, 14400, through_files)]
MINIMUM = {'split/perpendicular/plain': 1, 'whole/angle/uncertain': 1}
