"""C11 nominal values and uncertainties propagate linearly and unbiased."""
import os
import numpy as np
from uncertainties import ufloat

from bicycleparameters import Bicycle, bicycle, com, geometry, inertia, io
from bicycleparameters.main import calculate_benchmark_from_measured
from vp import gen, measure, world

TECHNIQUE = ('runtime monitor: every uncertain computation is shadowed by '
             'the same computation on nominal values and by numerical '
             'differentiation (first-order propagation oracle)')
LEVEL_NOTE = ('Nominal values and standard deviations of every output '
              'observed are compared with those of the shadow; inputs are '
              'independent base variables, also fed as correlated '
              'combinations through whole chains.')
RULE = ('every computation that accepts uncertain values: geometry, mass '
        'centres, pendulums, inertia, canonical and state matrices, steer '
        'inertia, riders, complete reductions of measured bicycles; random '
        'arguments, some exact, some correlated; distinct by computation '
        'and arguments')


def flat(out):
    """All the numbers of an output as {name: value}."""
    if isinstance(out, dict):
        d = {}
        for k, v in out.items():
            for n, x in flat(v).items():
                d['%s.%s' % (k, n)] = x
        return d
    if isinstance(out, np.ndarray) or isinstance(out, np.matrix):
        if out.ndim == 0:
            return {'': out.item()}
        return {str(n): v for n, v in enumerate(np.ravel(np.asarray(out)))}
    if isinstance(out, (tuple, list)):
        return {'%d.%s' % (n, q): x for n, v in enumerate(out)
                for q, x in flat(v).items()}
    return {'': out}


def shadow(mon, key, fn, base, rng=None, tol=2e-4, link=None):
    """base: {name: (value, std)}; fn maps {name: number} to any output."""
    link = link or (lambda z: z)

    def at(values):
        return {k: float(world.nominal(v)) for k, v in flat(
            fn(link(values))).items()}

    nomv = {k: v for k, (v, s) in base.items()}
    u = {k: ufloat(v, s) if s else v for k, (v, s) in base.items()}
    out = mon.call(key + ':uncertain', fn, link(u))
    out = flat(out)
    ref = mon.call(key + ':plain', at, nomv)
    mon.check(set(out) == set(ref), key + ':entries', '%s' % sorted(
        set(out) ^ set(ref))[:5])
    # other measurements that happened to give the same values
    twins = {k: ufloat(v, s) if s else v for k, (v, s) in base.items()}
    mine = {id(x) for x in twins.values() if hasattr(x, 'std_dev')}
    same = flat(mon.call(key + ':uncertain', fn, link(twins)))
    mon.check(all(id(q) in mine for x in same.values()
                  if hasattr(x, 'error_components')
                  for q, e in x.error_components().items() if e),
              key + ':own-measurements')
    grads = {}
    for k, (v, s) in base.items():
        if not s:
            continue
        h = s * .1 if s < 1e-4 * max(abs(v), 1e-3) else \
            1e-5 * max(abs(v), 1e-2)
        hi, lo = at(dict(nomv, **{k: v + h})), at(dict(nomv, **{k: v - h}))
        hi2 = at(dict(nomv, **{k: v + h / 2}))
        lo2 = at(dict(nomv, **{k: v - h / 2}))
        grads[k] = {n: ((hi[n] - lo[n]) / (2 * h),
                        (hi2[n] - lo2[n]) / h) for n in ref}
    for n in ref:
        sc = max(abs(ref[n]), 1e-12)
        mon.close(world.nominal(out[n]), ref[n], key + ':nominal', n,
                  rtol=1e-7, atol=1e-9)
        g1 = np.array([grads[k][n][0] * base[k][1] for k in grads])
        g2 = np.array([grads[k][n][1] * base[k][1] for k in grads])
        want = np.sqrt(np.sum(g2**2))
        # how far the numerical derivative itself can be trusted
        doubt = np.sqrt(np.sum((g1 - g2)**2)) * 4
        if doubt > .05 * want + 1e-12 * sc:
            mon.count('derivative-unreliable')
            continue
        floor = 1e-10 * max(abs(v[0]) for v in base.values())
        mon.close(world.std(out[n]), want, key + ':deviation', n, rtol=tol,
                  atol=doubt + 1e-9 * sc + 1e-3 * floor)
    if rng is None or not grads:
        return out
    # one measurement at a time, however little it contributes to the whole
    for k in rng.choice(sorted(grads), size=min(2, len(grads)),
                        replace=False):
        k = str(k)
        s = max(base[k][1], 1e-3 * abs(base[k][0]))
        one = flat(mon.call(key + ':one', fn, link(
            dict(nomv, **{k: ufloat(base[k][0], s)}))))
        for n in ref:
            g1, g2 = grads[k][n]
            doubt = 4 * abs(g1 - g2) * s
            want = abs(g2) * s
            if doubt > .05 * want + 1e-12 * abs(ref[n]):
                mon.count('derivative-unreliable')
                continue
            mon.close(world.std(one[n]), want, key + ':one:deviation',
                      '%s by %s' % (n, k), rtol=max(tol, 1e-3),
                      atol=doubt + 1e-10 * abs(ref[n]) + 1e-13)
    return out


def rel(rng, v, p=.15):
    """(value, std) of a measurement; some are exact."""
    if rng.random() < p:
        return (v, 0.)
    return (v, abs(v) * gen.logu(rng, 1e-5, 1e-2) + 1e-7)


def small(mon, rng, i):
    """Single formulas."""
    p, parts, refpt = measure.bicycle(rng, True)
    a, b, c = measure.frame_lengths(p)
    k = i % 16
    s = p['lam']
    u = rng.uniform
    ang = np.radians(measure.orientations(rng, 3 + i // 16 % 4))
    if i // 16 % 3 == 2:
        # orientations that are only a few degrees apart
        ang = u(0, 1) + np.radians(u(1, 4)) * (np.arange(len(ang)) +
                                               u(-.2, .2, len(ang)))
    n = len(ang)
    J = {'J%d' % j: float(x) for j, x in enumerate(u(.5, 1.5, n))}
    be = {'b%d' % j: float(x) for j, x in enumerate(ang)}
    sl = {'s%d' % j: float(np.tan(x * .9 - .9)) for j, x in enumerate(ang)}
    ic = {'i%d' % j: float(x) for j, x in enumerate(rng.normal(size=n))}
    table = [
        ('trail', dict(rF=p['rF'], lam=s, fo=b),
         lambda z: bicycle.trail(z['rF'], z['lam'], z['fo'])),
        ('lambda', dict(rF=p['rF'], rR=p['rR'], a=a, b=b, c=c),
         lambda z: bicycle.lambda_from_abc(z['rF'], z['rR'], z['a'], z['b'],
                                           z['c'])),
        ('abc', measure.distances(rng, p, 'perpendicular'),
         lambda z: geometry.calculate_abc_geometry(
             [z['h%d' % j] for j in range(1, 6)],
             [z['d%d' % j] for j in range(1, 5)] + [z['d']])),
        ('l1l2', dict(h6=.2, h7=.25 + u(0, .1), d5=.01, d6=.03, l=u(.4, .9)),
         lambda z: geometry.calculate_l1_l2(z['h6'], z['h7'], z['d5'],
                                            z['d6'], z['l'])),
        ('handlebar', dict(lam=u(.1, .6), l1=u(-.2, .2), l2=u(.3, .9)),
         lambda z: geometry.fwheel_to_handlebar_ref(z['lam'], z['l1'],
                                                    z['l2'])),
        ('steer-distance', dict(w=p['w'], c=p['c'], lam=s, x=u(-.5, .5),
                                z=-1.2),
         lambda z: geometry.distance_to_steer_axis(
             z['w'], z['c'], z['lam'], np.array([z['x'], 0., z['z']]))),
        ('project', dict(m=u(-2, 2), b=u(-2, 2), x=u(-1, 1), y=u(-1, 1)),
         lambda z: geometry.project_point_on_line((z['m'], z['b']),
                                                  (z['x'], z['y']))),
        ('compound', dict(m=u(1, 20), g=9.81, l=u(.2, .6), T=u(1.5, 3)),
         lambda z: inertia.compound_pendulum_inertia(z['m'], z['g'], z['l'],
                                                     z['T'])),
        ('torsional', dict(I=u(.1, 2), Tp=u(1, 3), T=u(1, 3)),
         lambda z: inertia.tor_inertia(
             inertia.torsional_pendulum_stiffness(z['I'], z['Tp']),
             z['T'])),
        ('tube', dict(l=u(.5, 2), m=u(1, 9), ro=u(.02, .1), ri=u(.001, .02)),
         lambda z: inertia.tube_inertia(z['l'], z['m'], z['ro'], z['ri'])),
        ('components', dict(J, **be),
         lambda z: inertia.inertia_components(
             np.array([z['J%d' % j] for j in range(n)]),
             np.array([z['b%d' % j] for j in range(n)]))),
        ('centre', dict(sl, **ic),
         lambda z: com.center_of_mass([z['s%d' % j] for j in range(n)],
                                      [z['i%d' % j] for j in range(n)])),
        ('total', dict(m0=u(1, 9), m1=u(1, 9), x0=u(-1, 1), x1=u(-1, 1),
                       z0=u(-1, 1), z1=u(-1, 1)),
         lambda z: com.total_com(np.array([[z['x0'], z['x1']], [0., 0.],
                                           [z['z0'], z['z1']]]),
                                 np.array([z['m0'], z['m1']]))),
        ('parallel', dict(m=u(1, 9), x=u(-1, 1), y=u(-1, 1), z=u(-1, 1)),
         lambda z: inertia.parallel_axis(np.eye(3), z['m'], np.array(
             [z['x'], z['y'], z['z']]))),
        ('rotate', dict(xx=u(1, 2), xz=u(-.5, .5), zz=u(1, 2), a=u(-3, 3)),
         lambda z: inertia.rotate_inertia_tensor(np.array(
             [[z['xx'], 0., z['xz']], [0., 1., 0.],
              [z['xz'], 0., z['zz']]]), z['a'])),
        ('line', dict(alpha=u(20, 70), a=u(-.4, .4), lam=s, rR=p['rR'],
                      rF=p['rF'], w=p['w'], l1=u(-.1, .1), l2=u(.3, .8)),
         lambda z: com.com_line(z['alpha'], z['a'], z, 'BSHG'[i % 4],
                                z['l1'], z['l2'])),
    ]
    name, values, fn = table[k]
    base = {q: rel(rng, float(v)) for q, v in values.items()}
    mon.note(name=name, base=base)
    mon.sig(name, list(values.values()))
    shadow(mon, name, fn, base, rng)
    if i % 3 == 0:
        # the same with correlated arguments: mixtures of common variables
        q = list(values)
        W = np.eye(len(q)) + .05 * rng.normal(size=(len(q), len(q)))

        def link(z):
            d = {}
            for r, name in enumerate(q):
                x = values[name]
                for t, other in enumerate(q):
                    x = x + float(W[r, t]) * (z[other] - values[other])
                d[name] = x
            return d
        shadow(mon, name + '-correlated', fn, base, link=link)


def whole(mon, rng, i):
    """Measurements to benchmark parameters to the model matrices."""
    split = bool(i % 2)
    method = ['angle', 'perpendicular'][(i // 2) % 2]
    p, parts, refpt = measure.bicycle(rng, split)
    fly = (2., .05, .09) if i % 5 == 1 else None
    n = {q: int(rng.integers(3, 7)) for q in 'BHGS'}
    mp = measure.measure(rng, p, parts, refpt, method, n, fly)
    base = {}
    for k, v in mp.items():
        s = 0. if k[0] == 'n' or rng.random() < .1 else \
            abs(v) * gen.logu(rng, 1e-5, 1e-3) + 1e-7
        base[k] = (v, s)
    v = float(rng.uniform(.1, 10))
    mon.note(mp=mp, split=split, method=method)
    mon.sig(mp['mB'])

    def chain(z):
        par, extras = calculate_benchmark_from_measured(dict(z))
        out = {k: x for k, x in par.items()}
        M, C1, K0, K2 = bicycle.benchmark_par_to_canonical(dict(par))
        out.update(M=M, C1=C1, K0=K0, K2=K2)
        A, B = bicycle.ab_matrix(M, C1, K0, K2, v, par['g'])
        out.update(A=A, B=B)
        return out

    shadow(mon, 'chain', chain, base, rng, tol=2e-3)
    mon.count('%s/%s' % ('split' if split else 'whole', method))


def object_(mon, rng, i):
    """The bicycle object: nominal switch, steer inertia, riders."""
    p = gen.whipple_par(rng, 'ordinary')
    p.pop('_profile')
    p.pop('v')
    base = {k: rel(rng, v) for k, v in p.items()}
    mon.note(base=base)
    mon.sig(p['w'])
    world.make_bicycle(mon.scratch, 'Plain', benchmark=p)
    b = mon.call('load', Bicycle, 'Plain', mon.scratch)
    v = float(rng.uniform(0, 10))
    wheel, axis = bool(i % 2), bool(i // 2 % 2)

    def results(z):
        b.parameters['Benchmark'] = dict(z)
        return {'canonical': b.canonical(), 'state': b.state_space(v),
                'steer': b.steer_assembly_moment_of_inertia(
                    wheel=wheel, aboutSteerAxis=axis)}

    shadow(mon, 'object', results, base, rng, tol=2e-3)
    u = {k: ufloat(x, s) if s else x for k, (x, s) in base.items()}
    b.parameters['Benchmark'] = dict(u)
    full = results(u)
    for name, fn in (('canonical', b.canonical),
                     ('state', lambda **k: b.state_space(v, **k)),
                     ('steer', lambda **k: b.steer_assembly_moment_of_inertia(
                         wheel=wheel, aboutSteerAxis=axis, **k))):
        nomv = flat(mon.call(name + '-nominal', fn, nominal=True))
        full_ = flat(full[name])
        for n in full_:
            mon.close(nomv[n], world.nominal(full_[n]), name +
                      ':nominal-switch', n, rtol=1e-12, atol=1e-14)
            mon.check(world.std(nomv[n]) == 0 and not hasattr(
                nomv[n], 'std_dev'), name + ':nominal-is-plain')
    # a rider is added
    r = dict(mB=70., xB=.3, yB=0., zB=-1.1, IBxx=8., IByy=9., IBzz=3.,
             IBxz=-1.)
    rb = {'r' + k: rel(rng, x) for k, x in r.items() if k != 'yB'}

    def ride(z):
        return inertia.combine_bike_rider(
            {k: z[k] for k in p}, dict({k[1:]: x for k, x in z.items() if
                                        k[0] == 'r' and k[1:] in r and
                                        k not in p}, yB=0.))
    # a sum with an exact zero inertia cannot be distinguished from zero
    shadow(mon, 'rider', ride, dict(base, **rb), rng, tol=2e-3)


def strip(mon, rng, i):
    """Stripping uncertainties."""
    d, want = {}, {}
    for k in range(int(rng.integers(0, 30))):
        x = float(rng.normal() * 10**rng.uniform(-9, 9))
        s = abs(x) * .1
        t = k % 6
        v, w = [(x, x), (ufloat(x, s), x), (ufloat(x, s) * 2., x * 2.),
                ([ufloat(x, s), ufloat(2 * x, s)], [x, 2 * x]),
                (np.array([ufloat(x, s), ufloat(x + 1, s)]), [x, x + 1]),
                ([x, ufloat(x, s)], [x, x])][t]
        d['k%d' % k], want['k%d' % k] = v, w
    mon.note(n=len(d), want=want)
    mon.sig(want)
    keep = {k: (list(v) if np.ndim(v) else v, id(v))
            for k, v in d.items()}
    out = mon.call('strip', io.remove_uncertainties, d)
    mon.check(set(out) == set(want), 'strip:entries')
    for k in want:
        got = list(out[k]) if np.ndim(want[k]) else out[k]
        mon.check(got == want[k], 'strip:values', '%r %r' % (got, want[k]))
        mon.check(not any(hasattr(x, 'std_dev') for x in np.ravel(got)),
                  'strip:plain')
        seq = list if np.ndim(d[k]) else (lambda x: [x])
        same = [a is b for a, b in zip(seq(d[k]), seq(keep[k][0]))]
        mon.check(id(d[k]) == keep[k][1] and np.all(same),
                  'strip:input-unchanged')
    mon.check(out is not d, 'strip:copy')
    # measured values read from file keep their deviations
    f = os.path.join(mon.scratch, 'm.txt')
    x, s = float(rng.normal()), gen.logu(rng, 1e-4, 1)
    y, r = float(rng.normal()), gen.logu(rng, 1e-4, 1)
    again = int(rng.integers(0, 4))     # the first reading comes again
    open(f, 'w').write('a = %r+/-%r\nb = %s%r , %r +/- %r\n' % (
        x, s, '%r+/-%r , ' % (x, s) * again + '%r+/-' % x, s, y, r))
    p = mon.call('load', io.load_parameter_text_file, f)
    mon.close([p['a'].nominal_value, p['a'].std_dev], [x, s], 'load:single',
              rtol=1e-12)
    n = again + 2
    mon.close([p['b'].nominal_value, p['b'].std_dev],
              [((n - 1) * x + y) / n, np.sqrt((n - 1) * s**2 + r**2) / n],
              'load:average', rtol=1e-12, atol=1e-15)


GROUPS = [('small', 1600, 16000, small), ('whole', 60, 2400, whole),
          ('object', 60, 2400, object_), ('strip', 120, 4800, strip)]
MINIMUM = {'split/perpendicular': 1, 'whole/perpendicular': 1}
