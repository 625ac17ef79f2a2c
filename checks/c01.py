"""C01 canonical matrices are the linearised Whipple-Carvallo equations."""
import copy
import numpy as np
from uncertainties import ufloat

from bicycleparameters.bicycle import benchmark_par_to_canonical, ab_matrix
from bicycleparameters.main import Bicycle
from bicycleparameters.models import Meijaard2007Model
from bicycleparameters.parameter_sets import Meijaard2007ParameterSet
from vp import gen, ref, session, world

TECHNIQUE = 'runtime monitor: differential oracle against an independent Whipple model over generated bicycles'
LEVEL_NOTE = 'Every matrix entry observed on the generated bicycles agrees with an independently derived Whipple linearisation (itself checked against published numbers each run) to round-off; says nothing about parameter values outside the generated profiles.'
RULE = ('random physically meaningful bicycles from seven profiles (ordinary, '
        'wide, extreme, aligned, equal wheels, light fork, reversed), as '
        'plain, numpy, integer or uncertain values in shuffled order with '
        'extra keys; a case is non-trivial when all entries that are not '
        'structurally zero are non-zero; distinct by its parameter values')
ASSUMPTIONS = ['vp/ref.py states the linearised Whipple-Carvallo equations '
               '(checked against the published benchmark matrices in every '
               'run)']
NAMES = ('M', 'C1', 'K0', 'K2')


def nom(x):
    return np.array([[float(world.nominal(e)) for e in row]
                     for row in np.asarray(x)])


def compare(mon, got, p, key, rtol=1e-9):
    mon.check(len(got) == 4, key + ':four', 'four matrices expected')
    want = ref.whipple(p)
    for n, g, w in zip(NAMES, got, want):
        mon.close(nom(g), w, '%s:%s' % (key, n), rtol=rtol,
                  atol=1e-11 * np.abs(w).max(), p=p)
    return want


def variant(rng, p, kind):
    q = dict(p)
    if kind == 'npfloat':
        q = {k: np.float64(v) for k, v in q.items()}
    elif kind == 'ufloat':
        q = gen.ufloatify(rng, q)
    elif kind == 'mixed':
        q = gen.ufloatify(rng, q, keys=set(
            rng.choice(sorted(q), size=len(q) // 2, replace=False)))
    elif kind == 'int':
        for k in ('mB', 'mR', 'mF', 'mH', 'rR', 'rF', 'w'):
            if rng.random() < .5:
                q[k] = int(max(1, round(q[k])))
    elif kind == 'exact-ufloat':
        q = {k: ufloat(v, 0.) for k, v in q.items()}
    keys = list(q)
    rng.shuffle(keys)
    q = {k: q[k] for k in keys}
    if rng.random() < .5:
        # parameters of other bodies and flywheel that must be ignored
        q['mD'] = 7.3
        q['IBxy'] = 3.
        q['yB'] = 0.
        q['mG'] = 2.
    if rng.random() < .3:
        # files may carry the redundant wheel inertias
        q['IRzz'], q['IFzz'] = q['IRxx'], q['IFxx']
    return q


def snap(d):
    return {k: (world.nominal(v), world.std(v), type(v).__name__)
            for k, v in d.items()}


def matrices(mon, rng, i):
    kinds = ['float', 'npfloat', 'ufloat', 'mixed', 'int', 'exact-ufloat']
    kind = kinds[i % len(kinds)]
    profiles = gen.PROFILES + ['skate']
    p = gen.whipple_par(rng, profiles[(i // len(kinds)) % len(profiles)])
    prof = gen.pop_profile(p)
    if i == 0:
        p, kind = dict(ref.BENCHMARK), 'float'
    # rare special values
    if i % 11 == 3:
        p['c'] = 0.
    if i % 13 == 5:
        p['lam'] = 0.
    if i % 17 == 7:
        p['IHxz'] = 0.
        p['xH'] = p['w']
    q = variant(rng, p, kind)
    mon.note(profile=prof, kind=kind, p=q)
    before, keys = snap(q), list(q)
    got = mon.call('canonical', benchmark_par_to_canonical, q)
    mon.check(snap(q) == before and list(q) == keys, 'caller-unchanged',
              'parameters changed by computing the matrices: %r' %
              sorted(set(snap(q).items()) ^ set(before.items()))[:6])
    pn = {k: float(world.nominal(v)) for k, v in q.items()}
    compare(mon, got, pn, 'canonical')
    if i == 0:
        for n, g, w in zip(NAMES, got, (ref.BENCH_M, ref.BENCH_C1,
                                        ref.BENCH_K0, ref.BENCH_K2)):
            mon.close(nom(g), w, 'published:' + n, rtol=1e-12)
    # repeated evaluation (no state is kept between calls)
    again = mon.call('canonical', benchmark_par_to_canonical, q)
    for n, a, b in zip(NAMES, got, again):
        mon.close(nom(b), nom(a), 'repeatable:' + n, rtol=0)
    # and on a changed dictionary object of the same identity
    k = rng.choice(['c', 'lam', 'mB', 'xH', 'IHxz', 'IFyy', 'rR'])
    q[k] = q[k] * 1.25 + 1e-3
    pn[k] = float(world.nominal(q[k]))
    compare(mon, mon.call('canonical', benchmark_par_to_canonical, q), pn,
            'after-edit')
    mon.sig(sorted(pn.items()))


def firstorder(mon, rng, i):
    if i % 2:
        p = gen.whipple_par(rng)
        gen.pop_profile(p)
        M, C1, K0, K2 = ref.whipple(p)
    else:
        X = rng.normal(size=(2, 2))
        M = X @ X.T + .3 * np.eye(2)
        C1, K0, K2 = rng.normal(size=(3, 2, 2)) * 10**rng.uniform(-2, 2)
    v = [float(rng.uniform(-20, 20)), 0., int(rng.integers(-9, 10)),
         np.float64(rng.uniform(0, 10)), np.int64(3)][i % 5]
    g = [9.81, 0., 10, np.float64(1.6)][i % 4]
    if i % 7 == 0:
        M, C1, K0, K2 = [np.array(np.round(X * 10), dtype=float)
                         for X in (M + 3 * np.eye(2), C1, K0, K2)]
    ms = [X.copy() for X in (M, C1, K0, K2)]
    mon.note(M=M, C1=C1, K0=K0, K2=K2, v=v, g=g)
    A, B = mon.call('first-order', ab_matrix, M, C1, K0, K2, v, g)
    mon.check(all((a == b).all() for a, b in zip(ms, (M, C1, K0, K2))),
              'first-order:inputs-unchanged')
    eqs(mon, A, B, M, C1, K0, K2, v, g, 'first-order')
    mon.sig(M.tolist(), float(v), float(g))


def eqs(mon, A, B, M, C1, K0, K2, v, g, key):
    A, B = nom(A), nom(B)
    if not mon.check(A.shape == (4, 4) and B.shape == (4, 2), key + ':shapes'):
        return
    # x' = A x + B u reproduces M q'' + v C1 q' + (g K0 + v^2 K2) q = f
    v, g = float(v), float(g)
    K = g * K0 + v**2 * K2
    scale = np.abs(M) @ np.abs(np.linalg.inv(M))
    mon.close(A[:2], np.eye(4)[2:], key + ':kinematics', rtol=0)
    mon.close(B[:2], np.zeros((2, 2)), key + ':no-direct', rtol=0)
    mon.close(M @ A[2:, :2], -K, key + ':stiffness',
              rtol=1e-9, atol=1e-12 * (scale @ np.abs(K)).max())
    mon.close(M @ A[2:, 2:], -v * C1, key + ':damping',
              rtol=1e-9, atol=1e-12 * (scale @ np.abs(v * C1)).max())
    mon.close(M @ B[2:], np.eye(2), key + ':input', rtol=1e-9,
              atol=1e-12 * scale.max())


def model(mon, rng, i):
    p = gen.whipple_par(rng)
    gen.pop_profile(p)
    pset = Meijaard2007ParameterSet(dict(p), bool(i % 2))
    m = Meijaard2007Model(pset)
    over = {}
    if i % 3:
        for k in rng.choice(sorted(p), size=rng.integers(1, 5),
                            replace=False):
            q = gen.whipple_par(rng, 'ordinary')
            over[str(k)] = q[str(k)]
    mon.note(p=p, over=over)
    full = dict(p, **over)
    got = mon.call('model', m.form_reduced_canonical_matrices, **over)
    M, C1, K0, K2 = compare(mon, got, full, 'model')
    A, B = mon.call('model', m.form_state_space_matrices, **over)
    eqs(mon, A, B, M, C1, K0, K2, full['v'], full['g'], 'model')
    mon.check(pset.parameters == p, 'model:caller-unchanged')
    mon.sig(sorted(full.items()))
    # the parameters edited a little, and the model asked again
    k = str(rng.choice(['mH', 'w', 'rR', 'rF', 'IFyy', 'IRyy', 'xH', 'zB']))
    step = 10**rng.uniform(-7.5, -2)
    near = {q: (x + step if q == k else x) for q, x in full.items()}
    mon.note(edited=k, step=step)
    compare(mon, mon.call('near', m.form_reduced_canonical_matrices,
                          **dict(over, **{k: near[k]})), near, 'near')
    pset.parameters.update(near)
    compare(mon, mon.call('edited', m.form_reduced_canonical_matrices), near,
            'edited')
    A, B = mon.call('edited', m.form_state_space_matrices)
    eqs(mon, A, B, *ref.whipple(near), v=near['v'], g=near['g'],
        key='edited')
    pset.parameters.update(p)
    compare(mon, mon.call('edited-back', m.form_reduced_canonical_matrices),
            p, 'edited-back')


def bicycle(mon, rng, i):
    shipped = [b for b in world.shipped_with_benchmark()
               if b != 'Tms']   # its wheels have no radius
    if i < len(shipped):
        name = shipped[i]
        world.copy_shipped('.', [name])
    else:
        name = 'Testbike'
        p = gen.whipple_par(rng)
        gen.pop_profile(p)
        p.pop('v')
        world.make_bicycle('.', name, p if i % 2 else
                           gen.ufloatify(rng, p))
    b = mon.call('bicycle', Bicycle, name, pathToData='.')
    before = snap(b.parameters['Benchmark'])
    pn = {k: float(v) for k, v in
          world.nominal_dict(b.parameters['Benchmark']).items()}
    mon.note(bicycle=name, p=pn)
    want = compare(mon, mon.call('bicycle', b.canonical), pn, 'bicycle')
    compare(mon, mon.call('bicycle', b.canonical, nominal=True), pn,
            'bicycle-nominal')
    for v in (0., 4.6, -3., 7):
        for nominal in (False, True):
            A, B = mon.call('bicycle', b.state_space, v, nominal=nominal)
            eqs(mon, A, B, *want, v=v, g=pn['g'], key='bicycle')
    # another value in place, as the web app does
    k = str(rng.choice(['c', 'lam', 'mB', 'xH', 'IFyy', 'rR']))
    old, pn[k] = b.parameters['Benchmark'][k], pn[k] * 1.1 + 1e-3
    b.parameters['Benchmark'][k] = pn[k]
    compare(mon, mon.call('bicycle', b.canonical, nominal=True), pn,
            'bicycle-edited')
    A, B = mon.call('bicycle', b.state_space, 3., nominal=True)
    eqs(mon, A, B, *ref.whipple(pn), v=3., g=pn['g'], key='bicycle-edited')
    b.parameters['Benchmark'][k] = old
    mon.check(snap(b.parameters['Benchmark']) == before,
              'bicycle:caller-unchanged',
              'the bicycle\'s parameters changed: %r' % sorted(
                  set(snap(b.parameters['Benchmark'])) ^ set(before)))
    mon.sig(name, sorted(pn.items()))


def sessions(mon, rng, i):
    kinds = ['whipple', 'feedback']
    session.run(mon, rng, kinds[i % len(kinds)],
                'form_reduced_canonical_matrices')


GROUPS = [('matrices', 4200, 252000, matrices),
          ('firstorder', 2000, 120000, firstorder),
          ('model', 1500, 90000, model),
          ('bicycle', 400, 24000, bicycle),
          ('sessions', 240, 7200, sessions)]
MINIMUM = {'canonical:M': 400, 'published:M': 1, 'bicycle:M': 40,
           'first-order:stiffness': 200, 'caller-unchanged': 400}
