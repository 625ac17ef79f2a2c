"""C17 analyses never change a bicycle; saving and reloading is faithful."""
import builtins
import os
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import numpy as np
from uncertainties import unumpy

from bicycleparameters import (Bicycle, bicycle, com, geometry, inertia, io,
                               plot, rider, tables)
from bicycleparameters.main import calculate_benchmark_from_measured
from bicycleparameters.parameter_sets import Meijaard2007ParameterSet
from vp import gen, measure, world

TECHNIQUE = ('runtime monitor: random histories of analyses on several '
             'bicycles with deep state snapshots after every step, directory '
             'snapshots, save/reload round trips')
LEVEL_NOTE = ('After every step of every history the complete state of every '
              'bicycle and the whole data directory are compared with their '
              'snapshots, and the dynamics are recomputed.')
RULE = ('histories of 4 to 14 steps drawn from 30 analyses on one to three '
        'shipped and synthetic bicycles with and without riders and measured '
        'data; saves with one to three parameter sets; distinct by bicycles '
        'and history')
ASSUMPTIONS = ['the user agrees to overwrite when saving']


def state(b):
    """Everything a bicycle knows, by value and by key order."""
    def freeze(v):
        if isinstance(v, dict):
            return tuple((k, freeze(x)) for k, x in sorted(v.items()))
        if hasattr(v, 'std_dev'):
            return ('u', repr(v.nominal_value), repr(v.std_dev))
        if isinstance(v, (list, tuple)):
            return tuple(freeze(x) for x in v)
        if isinstance(v, np.ndarray):
            return (v.shape, freeze(v.ravel().tolist()))
        if isinstance(v, (str, bool, int, float, np.generic, type(None))):
            return repr(v)
        # the human model: what it says about itself
        return (type(v).__name__, repr(getattr(v, 'mass', None)),
                repr(np.asarray(getattr(v, 'center_of_mass', 0)).tolist()))
    know = {k: getattr(b, k, None) for k in ('parameters', 'riderPar',
                                             'hasRider', 'human')}
    know.update(vars(b))
    return {k: freeze(v) for k, v in know.items()}


def dynamics(b):
    M, C1, K0, K2 = b.canonical()
    ev = b.eig([0., 3., 5.5])[0]
    return [unumpy.nominal_values(x).tolist() for x in (M, C1, K0, K2)] + [
        unumpy.std_devs(x).tolist() for x in (M, C1, K0, K2)] + [ev.tolist()]


def speeds(rng):
    return rng.permutation(np.linspace(0., rng.uniform(4, 10),
                                       int(rng.integers(2, 12))))


def steer(b, rng):
    both = 'mS' not in b.parameters['Benchmark'] or rng.random() < .4
    hb = True if both else bool(rng.integers(2))
    fk = True if both else not hb
    b.steer_assembly_moment_of_inertia(
        handlebar=hb, fork=fk, wheel=bool(rng.integers(2)),
        aboutSteerAxis=bool(rng.integers(2)), nominal=bool(rng.integers(2)))


def reduced(b, rng):
    if 'dF' in b.parameters.get('Measured', ()):
        mp = b.parameters['Measured']
        if any(k[0] == 'T' for k in mp):
            calculate_benchmark_from_measured(mp)
        geometry.calculate_benchmark_geometry(mp, {})


def combined(b, rng):
    inertia.combine_bike_rider(b.parameters['Benchmark'], RIDER)


RIDER = {'mB': 72., 'xB': .3, 'yB': 0., 'zB': -1.1, 'IBxx': 8., 'IByy': 8.2,
         'IBzz': 2.4, 'IBxz': -1., 'IBxy': 0., 'IByz': 0.}


def pat(nm, names):
    """The rider is another one on each bicycle."""
    return dict(RIDER, mB=RIDER['mB'] + names.index(nm))


def sets(b, rng):
    par = io.remove_uncertainties(b.parameters['Benchmark'])
    p = Meijaard2007ParameterSet(dict(par, v=4.), b.hasRider)
    p.form_inertia_tensor('H')
    p.mass_center_of('B', 'F')
    p.to_parameterization('Meijaard2007')
    r = p.plot_all()
    assert r is not None
    p.to_yaml('set.yml')
    os.remove('set.yml')


ANALYSES = {
    'canonical': lambda b, r: b.canonical(nominal=bool(r.integers(2))),
    'state_space': lambda b, r: b.state_space(r.uniform(0, 9), nominal=bool(
        r.integers(2))),
    'eig': lambda b, r: b.eig(speeds(r)),
    'eig-scalar': lambda b, r: b.eig(float(r.uniform(0, 9))),
    'geometry-plot': lambda b, r: b.plot_bicycle_geometry(
        show=False, pendulum=bool(r.integers(2)),
        centerOfMass=bool(r.integers(2)), inertiaEllipse=bool(r.integers(2))),
    'geometry-plotly': lambda b, r: b._plot_bicycle_geometry_plotly(
        show=False, pendulum=bool(r.integers(2)),
        centerOfMass=bool(r.integers(2)), inertiaEllipse=bool(r.integers(2))),
    'eigenvalue-plot': lambda b, r: b.plot_eigenvalues_vs_speed(
        speeds(r), generic=bool(r.integers(2)), largest=bool(r.integers(2)),
        grid=bool(r.integers(2)), show_legend=bool(r.integers(2))),
    'eigenvalue-plotly': lambda b, r: b._plot_eigenvalues_vs_speed_plotly(
        np.linspace(0, 10, 11), show=False),
    'bode': lambda b, r: b.plot_bode(r.uniform(1, 8), int(r.integers(2)),
                                     int(r.integers(4))),
    'bode-speeds': lambda b, r: b.compare_bode_speeds(
        [2., float(r.uniform(3, 8))], int(r.integers(2)),
        int(r.integers(4))),
    'bode-bicycles': lambda b, r: plot.compare_bode_bicycles(
        [b, b], 4., int(r.integers(2)), int(r.integers(4))),
    'eigenvalues-bicycles': lambda b, r: plot.plot_eigenvalues(
        [b, b], np.linspace(0, 10, 11), largest=bool(r.integers(2))),
    'steer-inertia': steer,
    'str': lambda b, r: str(b),
    'table': lambda b, r: tables.Table('Benchmark', False, [b])
    .create_rst_table(),
    'table-measured': lambda b, r: 'Measured' in b.parameters and
    tables.Table('Measured', False, [b, b]).create_rst_table(),
    'reduce': reduced,
    'combine': combined,
    'matrices': lambda b, r: bicycle.benchmark_par_to_canonical(
        b.parameters['Benchmark']),
    'nominal': lambda b, r: io.remove_uncertainties(
        b.parameters['Benchmark']),
    'tensor': lambda b, r: inertia.part_inertia_tensor(
        b.parameters['Benchmark'], ['R', 'F', 'H', 'B'][r.integers(4)])
    if 'IByy' in b.parameters['Benchmark'] and
    'IHyy' in b.parameters['Benchmark'] else None,
    'points': lambda b, r: geometry.fundamental_geometry_plot_data(
        io.remove_uncertainties(b.parameters['Benchmark'])),
    'sets': sets,
    'trail': lambda b, r: bicycle.trail(b.parameters['Benchmark']['rF'],
                                        b.parameters['Benchmark']['lam'],
                                        .04),
    'rider-vector': lambda b, r: 'Measured' in b.parameters and 'hbb' in
    b.parameters['Measured'] and rider.yeadon_vec_to_bicycle_vec(
        np.array([[.1], [.2], [.3]]), b.parameters['Measured'],
        b.parameters['Benchmark']),
    'com-lines': lambda b, r: 'slopes' in getattr(b, 'extras', {}) and
    com.center_of_mass(b.extras['slopes']['B'], b.extras['intercepts']['B']),
    'second-rider': lambda b, r: b.hasRider and b.add_rider('Other'),
}


def shipped():
    return [b for b in world.shipped_with_benchmark() if b != 'Tms']


def synthetic(rng, root, name, measured):
    p, parts, refpt = measure.bicycle(rng, bool(rng.integers(2)))
    p = {k: v for k, v in p.items() if k[0] != '_' and k != 'v'}
    fly = (2.1, .05, .08) if rng.random() < .4 else None
    if measured:
        p2, parts, refpt = measure.bicycle(rng, False)
        mp = measure.measure(rng, p2, parts, refpt, 'angle', 3, fly)
        if rng.random() < .5:
            mp = measure.uncertain(rng, mp)
        world.make_bicycle(root, name, measured=mp)
    else:
        par = {k: p[k] for k in p}
        if fly:
            par.update(mD=fly[0], IDxx=fly[1], IDyy=fly[2])
        if rng.random() < .6:
            par = gen.ufloatify(rng, par)
        world.make_bicycle(root, name, benchmark=par)


def fleet(rng, root, n):
    """Data directory with several bicycles and riders."""
    names = []
    for k in range(n):
        kind = rng.integers(4)
        if kind == 0:
            names.append(str(rng.choice(shipped())))
            world.copy_shipped(root, bikes=[names[-1]])
        elif kind == 1:
            names.append(str(rng.choice(['Stratos', 'Gyro', 'Rigidcl',
                                         'Crescendo', 'Fisher'])))
            world.copy_shipped(root, bikes=[names[-1]])
        else:
            names.append('Made' + 'abc'[k])
            synthetic(rng, root, names[-1], kind == 3)
    for nm in names:
        world.write_par(os.path.join(root, 'riders', 'Pat', 'Parameters',
                                     'Pat%sBenchmark.txt' % nm),
                        pat(nm, names))
    return names


def history(mon, rng, i):
    root = os.path.join(mon.scratch, 'data')
    names = fleet(rng, root, int(rng.integers(1, 4)))
    bikes = []
    for nm in names + ([names[0]] if rng.random() < .5 else []):
        force = rng.random() < .3 and nm in world.shipped_with_measured() \
            and nm not in ('Tms', 'Silver')
        bikes.append(mon.call('load', Bicycle, nm, pathToData=root,
                              forceRawCalc=force))
    tree = world.tree(root)
    snaps = [state(b) for b in bikes]
    dyn = [dynamics(b) for b in bikes]
    steps = []
    mon.note(names=names, steps=steps)
    for _ in range(int(rng.integers(4, 15))):
        k = int(rng.integers(len(bikes)))
        b = bikes[k]
        what = str(rng.choice(list(ANALYSES) + ['add-rider'] * 3))
        if what == 'add-rider':
            steps.append((k, what))
            had = b.hasRider
            mon.call(what, b.add_rider, 'Pat')
            if not had:
                mon.check(state(b) != snaps[k], 'rider:added')
                snaps[k], dyn[k] = state(b), dynamics(b)
        else:
            steps.append((k, what))
            mon.call(what, ANALYSES[what], b, rng)
        plt.close('all')
        for j, x in enumerate(bikes):
            now = state(x)
            mon.check(now == snaps[j], 'unchanged' if j == k else
                      'independent', 'after %r bicycle %d differs in %r' % (
                          steps[-1], j, [q for q in now if now[q] !=
                                         snaps[j].get(q)]))
        mon.count('step:' + what)
    for b, d in zip(bikes, dyn):
        mon.check(dynamics(b) == d, 'same-dynamics')
    mon.check(world.tree(root) == tree, 'directory-unchanged')
    mon.sig(names, steps)
    # a bicycle loaded now is the bicycle loaded first
    for nm, b in zip(names, bikes):
        if not b.hasRider and not hasattr(b, 'extras'):
            again = Bicycle(nm, pathToData=root)
            mon.check(state(again) == state(b), 'loaded-again')


def agree(n=None):
    old = builtins.input
    builtins.input = lambda *a: 'y'
    return old


def save(mon, b):
    old = agree()
    try:
        mon.call('save', b.save_parameters)
    finally:
        builtins.input = old


def near(mon, got, want, key):
    mon.check(set(got) == set(want), key + ':names',
              '%r' % sorted(set(got) ^ set(want)))
    for k, w in want.items():
        s = world.std(w)
        mon.check(abs(world.nominal(got[k]) - world.nominal(w)) <=
                  .17 * s + 1e-14 * abs(world.nominal(w)) and
                  abs(world.std(got[k]) - s) <= .17 * s, key,
                  '%s: saved %r, loaded %r' % (k, w, got[k]))


def saving(mon, rng, i):
    root = os.path.join(mon.scratch, 'data')
    names = fleet(rng, root, 2)
    nm = names[0]
    d = os.path.join(root, 'bicycles', nm)
    extra = []
    for k in range(int(rng.integers(0, 3))):
        # further parameter sets of the user
        s = ['Moore', 'Principal'][k]
        world.write_par(os.path.join(d, 'Parameters', nm + s + '.txt'),
                        {'kB': float(rng.uniform(.1, 2)), 'w': 1.})
        extra.append(s)
    if extra and not os.path.exists(os.path.join(
            d, 'Parameters', nm + 'Benchmark.txt')):
        mon.count('measured-and-extra')
    b = mon.call('load', Bicycle, nm, pathToData=root)
    if rng.random() < .5:
        # the user edits the bicycle
        k = str(rng.choice(['mB', 'IBxx', 'w', 'rR', 'c']))
        b.parameters['Benchmark'][k] = b.parameters['Benchmark'][k] * 1.01
    for k in list(extra):
        if rng.random() < .5:
            b.parameters[k]['w'] = float(rng.uniform(.9, 1.2))
    if rng.random() < .4:
        # a parameter set that only exists in memory so far
        k = str(rng.choice(['Moore2012', 'Principal2', 'Measured2', 'Own']))
        b.parameters[k] = {'kB': float(rng.uniform(.1, 2)), 'w': 1.}
        extra.append(k)
        mon.count('new-set')
    before = world.tree(root)
    snap = state(b)
    with_rider = bool(i % 3 == 2)
    if with_rider:
        plain = dict(b.parameters['Benchmark'])
        b.add_rider('Pat')
        snap = state(b)
        if names[1] != nm:
            # another bicycle with another rider in the same session
            Bicycle(names[1], pathToData=root).add_rider('Pat')
            mon.check(state(b) == snap, 'independent')
    mon.note(names=names, extra=extra, rider=with_rider)
    mon.sig(names, extra, with_rider, str(b.parameters['Benchmark']['IBxx']))
    save(mon, b)
    mon.check(state(b) == snap, 'save:unchanged')
    after = world.tree(root)
    changed = {k for k in set(before) | set(after)
               if before.get(k) != after.get(k)}
    if with_rider:
        pd = os.path.join('riders', 'Pat', 'Parameters')
        allowed = {os.path.join(pd, 'Pat%sBenchmark.txt' % nm),
                   os.path.join(pd, 'Combined', 'Pat%sBenchmark.txt' % nm)}
    else:
        pd = os.path.join('bicycles', nm, 'Parameters')
        allowed = {os.path.join(pd, nm + s + '.txt')
                   for s in extra + ['Benchmark']}
    mon.check(changed <= allowed and allowed <= set(after), 'save:files',
              'changed %r, expected %r' % (sorted(changed), sorted(allowed)))
    if with_rider:
        got = io.load_parameter_text_file(os.path.join(
            root, pd, 'Combined', 'Pat%sBenchmark.txt' % nm))
        near(mon, got, b.parameters['Benchmark'], 'combined')
        c = Bicycle(nm, pathToData=root)
        mon.call('rider-again', c.add_rider, 'Pat')
        near(mon, c.riderPar['Benchmark'], pat(nm, names), 'rider')
        # saving again, where everything is there already
        save(mon, b)
        mon.check(world.tree(root) == after, 'save-rider-again:unchanged',
                  repr([k for k in after if after[k] !=
                        world.tree(root).get(k)]))
        if rng.random() < .5:
            # the folders are there, their files are gone
            for k in allowed:
                os.remove(os.path.join(root, k))
            save(mon, b)
            mon.check(world.tree(root) == after, 'save-rider-anew')
        # what is edited after the first time is saved the second time
        for par in (b.parameters['Benchmark'], b.riderPar['Benchmark']):
            k = str(rng.choice(['mB', 'IBxx', 'xB', 'zB']))
            par[k] = par[k] * 1.01
        save(mon, b)
        for s, par in [('', b.riderPar), ('Combined', b.parameters)]:
            near(mon, io.load_parameter_text_file(os.path.join(
                root, pd, s, 'Pat%sBenchmark.txt' % nm)), par['Benchmark'],
                'saved-edits')
        mon.count('saved-with-rider')
        return
    c = mon.call('reload', Bicycle, nm, pathToData=root)
    sets_b = {k: v for k, v in b.parameters.items()}
    for k in extra + ['Benchmark']:
        near(mon, c.parameters[k], sets_b[k], 'reload')
    mon.check(set(c.parameters) == set(b.parameters), 'reload:sets',
              '%r, want %r' % (sorted(c.parameters), sorted(b.parameters)))
    A = unumpy.nominal_values(c.state_space(4.)[0])
    B = unumpy.nominal_values(b.state_space(4.)[0])
    S = unumpy.std_devs(b.state_space(4.)[0])
    mon.check(np.all(np.abs(A - B) <= 2 * S + 1e-9 * np.abs(B).max()),
              'reload:dynamics', '%r, want %r' % (A, B))
    # saving what was loaded changes nothing any more
    tree = world.tree(root)
    save(mon, c)
    mon.check(world.tree(root) == tree, 'save-again:unchanged', repr(
        [k for k in tree if tree[k] != world.tree(root)[k]]))
    mon.count('saved')


GROUPS = [('history', 120, 2400, history), ('saving', 180, 3600, saving)]
MINIMUM = {'independent': 40, 'saved': 10, 'saved-with-rider': 8}
