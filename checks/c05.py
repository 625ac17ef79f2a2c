"""C05 simulations follow the model equations and echo the inputs."""
import numpy as np
from scipy.linalg import expm
from scipy.integrate import solve_ivp

from vp import gen, models, session

TECHNIQUE = 'runtime monitor: trajectory oracle (matrix exponential and independent integration) and argument snapshots'
LEVEL_NOTE = 'Trajectories are compared with exact solutions within integrator accuracy (2 % of range); time grids up to a few seconds.'
RULE = ('random model, parameters, overrides, time grid (uniform, '
        'non-uniform, non-zero start, list), initial state and input '
        'function (none, constant, time dependent, state feedback); the '
        'oracle is the matrix exponential (or a tight-tolerance independent '
        'integration with inputs) of the system the model itself reports; '
        'distinct by parameters, grid and initial state')
ASSUMPTIONS = ['default integrator accuracy: trajectories are compared within '
               '2 % of the largest value reached by states of the same unit']


def setup(mon, rng, i):
    kind = models.KINDS[i % 3]
    m, p = models.make(kind, rng, 'ordinary' if kind != 'riderlean' else None)
    if kind == 'feedback':
        # gains a controller would have
        for k in gen.GAINS:
            p[k] = float(rng.normal() * (3 if 'Tdel' in k else 30))
        m = models.build(kind, p)
    over = {}
    if i % 2:
        over['v'] = [float(rng.uniform(.5, 9)), int(rng.integers(1, 9))][i % 3 == 0]
    if i % 5 == 1:
        k = 'mf' if kind == 'riderlean' else 'mF'
        over[k] = p[k] * 1.3
    if i % 4 == 3:
        for k in ('rr', 'rf') if kind == 'riderlean' else ('rR', 'rF', 'c'):
            if rng.random() < .7:
                over[k] = p[k] * rng.uniform(.8, 1.25)
    if i % 7 == 2:
        over['g'] = 3.7
    full = dict(p, **{k: float(v) for k, v in over.items()})
    A, B = m.form_state_space_matrices(**over)
    return kind, m, p, full, over, A, B


def grid(rng, i):
    t0 = [0., 0., 1.5, -2.][i % 4]
    T = rng.uniform(.3, 1.)
    n = int(rng.integers(2, 40))
    if i % 3 == 0:
        t = np.linspace(t0, t0 + T, n)
    else:
        t = t0 + np.sort(np.r_[0., rng.uniform(0, T, n), T])
    if i % 7 == 3:
        t = [float(v) for v in t]
    return t


def horizon(A):
    """Longest time over which the solution grows at most ~ e^2.5."""
    w = np.linalg.eigvals(A)
    return 2.5 / max(2.5, np.abs(w).max())


def scale_groups(kind):
    if kind == 'riderlean':
        # u6 and wheel angles, path coordinates, and the small motions
        return [[0, 1], [4, 6], [9], [2, 3, 5, 7], [8, 10, 11]]
    return [[0, 1], [2, 3]]


def compare(mon, got, want, kind, key):
    got, want = np.asarray(got), np.asarray(want)
    if not mon.check(got.shape == want.shape, key + ':shape',
                     '%s, expected %s' % (got.shape, want.shape)):
        return
    for g in scale_groups(kind):
        s = np.abs(want[:, g]).max()
        if kind == 'riderlean' and g == [8, 10, 11]:
            s = max(s, np.abs(want[:, [3, 5, 7]]).max())
        mon.close(got[:, g], want[:, g], key, rtol=0, atol=.02 * s + 1e-4)


def sim(mon, rng, i):
    kind, m, p, full, over, A, B = setup(mon, rng, i)
    n = A.shape[0]
    t = grid(rng, i)
    T = horizon(A)
    span = t[-1] - t[0]
    if span > T:
        t = type(t)([t[0] + (v - t[0]) * T / span for v in t]) if \
            isinstance(t, list) else t[0] + (t - t[0]) * T / span
    x0 = rng.normal(size=n)
    if kind == 'riderlean' and i % 4 == 0:
        x0 = np.zeros(n)
        x0[5] = .1
    form = (i // 3) % 4
    arg = x0 if form == 0 else list(map(float, x0)) if form == 1 else \
        tuple(map(float, x0))
    if form == 3:
        x0 = np.round(x0 * 3) + 1
        arg = x0.astype(int)
    nin = B.shape[1]
    ukind = (i // 2) % 4
    buf = np.zeros(nin)
    reuse = rng.random() < .5
    if ukind == 0:
        func = None
    elif ukind == 1:
        c = rng.normal(size=nin) * 5

        def func(tt, xx):
            return c
    elif ukind == 2:
        a, om = rng.normal(size=nin) * 5, rng.uniform(1, 6, nin)

        def func(tt, xx):
            if reuse:  # the same array for every result
                buf[:] = a * np.sin(om * tt)
                return buf
            return list(a * np.sin(om * tt))
    else:
        G = rng.normal(size=(nin, n)) * .5

        def func(tt, xx):
            return -G @ xx
    A2 = A if ukind != 3 else A - B @ G
    expected0 = np.array(x0, float)
    if kind == 'riderlean':
        expected0[9] = -full['v'] / full['rr']
    keep_arg, keep_t = repr(arg), repr(t)
    mon.note(kind=kind, p=p, over=over, t=t, x0=x0, input=ukind)
    kw = dict(over)
    if func is not None:
        kw['input_func'] = func
    x, u = mon.call('simulate', m.simulate, t, arg, **kw)
    x, u = np.asarray(x), np.asarray(u)
    mon.check(repr(arg) == keep_arg, 'caller-initial-state-unchanged',
              'initial conditions of the caller changed')
    mon.check(repr(t) == keep_t, 'caller-times-unchanged')
    mon.check(dict(m.parameter_set.parameters) == p, 'parameters-unchanged')
    if not mon.check(x.shape == (len(t), n) and u.shape == (len(t), nin),
                     'shapes', '%s %s' % (x.shape, u.shape)):
        return
    mon.close(x[0], expected0, 'starts-at-initial-state', rtol=1e-12,
              atol=1e-12)
    # oracle
    if ukind == 0 or ukind == 3:
        want = np.array([expm(A2 * (tt - t[0])) @ expected0 for tt in t])
    else:
        r = solve_ivp(lambda tt, xx: A @ xx + B @ np.asarray(func(tt, xx)),
                      (t[0], t[-1]), expected0, t_eval=np.asarray(t),
                      method='DOP853', rtol=1e-9, atol=1e-10)
        want = r.y.T
    if ukind == 3 and np.abs(np.linalg.eigvals(A2)).max() * (t[-1] - t[0]) > 6:
        pass   # feedback made it too fast for a fixed tolerance
    else:
        compare(mon, x, want, kind, 'trajectory:' + kind)
    if func is None:
        mon.close(u, np.zeros_like(u), 'inputs-zero', rtol=0)
    else:
        mon.close(u, np.array([np.array(func(tt, xx)) for tt, xx in zip(t, x)]),
                  'inputs-echoed', rtol=1e-10, atol=1e-12)
    mon.sig(kind, sorted(full.items()), list(map(float, t)), expected0.tolist(),
            ukind)


def modes(mon, rng, i):
    kind, m, p, full, over, A, B = setup(mon, rng, i)
    n = A.shape[0]
    t = np.asarray(grid(rng, i), float)
    T = horizon(A)
    if t[-1] - t[0] > T:
        t = t[0] + (t - t[0]) * T / (t[-1] - t[0])
    mon.note(kind=kind, p=p, over=over, t=t)
    res = np.asarray(mon.call('simulate modes', m.simulate_modes, t, **over))
    evals, evecs = m.calc_eigen(**over)
    if not mon.check(res.shape == (n, len(t), n), 'modes:shape',
                     str(res.shape)):
        return
    for k in range(n):
        x0 = evecs[:, k].real
        mon.close(res[k, 0], x0, 'modes:start', rtol=1e-12, atol=1e-14)
        # the free response of a mode is Re(v exp(lambda t))
        lam = evals[k]
        want = np.array([np.real(evecs[:, k] * np.exp(lam * (tt - t[0])))
                         for tt in t])
        s = np.abs(want).max()
        mon.close(res[k], want, 'modes:response:' + kind, rtol=0,
                  atol=.02 * s + 2e-4)
    mon.check(dict(m.parameter_set.parameters) == p, 'parameters-unchanged')
    mon.sig('modes', kind, sorted(full.items()), t.tolist())


def refused(mon, rng, i):
    kind = models.KINDS[i % 3]
    m, p = models.make(kind, rng)
    n = 12 if kind == 'riderlean' else 4
    key = str(rng.choice(sorted(p)))
    if i % 2:
        key = 'v'
    over = {key: [np.full(3, p[key]), [p[key]] * 2,
                  (p[key],)][i % 3 if i % 5 else 0]}
    mon.note(kind=kind, over=over)
    t = np.linspace(0, .5, 6)
    x0 = np.zeros(n)
    x0[3] = .1
    mon.raises(ValueError, 'arrays-refused', m.simulate, t, x0, **over)
    mon.raises(ValueError, 'arrays-refused-modes', m.simulate_modes, t, **over)
    # the same object simulates afterwards, repeatably
    a = mon.call('simulate', m.simulate, t, x0.copy())
    b = mon.call('simulate', m.simulate, t, x0.copy())
    mon.close(a[0], b[0], 'repeatable', rtol=0)
    mon.sig('refused', kind, key, sorted(p.items()))


def sessions(mon, rng, i):
    kinds = models.KINDS
    session.run(mon, rng, kinds[i % len(kinds)],
                'simulate')


GROUPS = [('sim', 1920, 76800, sim), ('modes', 720, 28800, modes),
          ('refused', 360, 14400, refused),
          ('sessions', 300, 6000, sessions)]
MINIMUM = {'trajectory:whipple': 60, 'trajectory:feedback': 40,
           'trajectory:riderlean': 60, 'inputs-echoed': 100,
           'modes:start': 300, 'arrays-refused': 40}
