"""C14 the period fitted to an oscillation record is its true period."""
import os
import numpy as np
import matplotlib.figure

from bicycleparameters import period
from vp import gen

TECHNIQUE = ('runtime monitor: synthetic recordings of known period, '
             'statistical oracle on value and reported deviation '
             '(Cramer-Rao), garbage injection, numerical derivatives')
LEVEL_NOTE = ('Every fit observed is of a record with a known period; the '
              'reported deviation is compared with the one attainable for '
              'the injected noise.')
RULE = ('random decaying oscillations: 8 to 5000 Hz, 3 to 60 periods, '
        'damping 2e-4 to 0.1, amplitude over five decades, offset, phase, '
        'noise 0 to 3 % of the amplitude; sample rate as int, float, NumPy '
        'scalars or uniform, jittered and shifted time vectors; rest, held '
        'and dead stretches added; distinct by the record')
ASSUMPTIONS = ['the noise is white', 'at least three periods of at least '
               'sixty samples are recorded']


def setup(rng, **k):
    d = dict(fs=float(rng.choice([50, 100, 200, 500, 1000])),
             T=gen.logu(rng, .4, 4.), zeta=gen.logu(rng, 2e-4, 2e-2),
             per=float(rng.uniform(4, 20)), A=gen.logu(rng, .3, 3.),
             off=float(rng.uniform(-3, 3)),
             ph=float(rng.uniform(0, 2 * np.pi)),
             noise=gen.logu(rng, 1e-5, 3e-2))
    d.update(k)
    d['fs'] = max(d['fs'], float(np.ceil(60. / d['T'])))
    d['per'] = min(d['per'], 20000. / d['fs'] / d['T'])
    return d


def signal(d, t):
    w = 2 * np.pi / d['T'] / np.sqrt(1 - d['zeta']**2)
    return d['off'] + d['A'] * np.exp(-d['zeta'] * w * t) * np.sin(
        2 * np.pi / d['T'] * t + d['ph'])


def record(rng, d):
    n = int(d['per'] * d['T'] * d['fs'])
    t = np.arange(n) / d['fs']
    return t, signal(d, t) + d['noise'] * d['A'] * rng.normal(size=n)


def attainable(d, t):
    """Standard deviation of the period for white noise."""
    w = 2 * np.pi / d['T'] / np.sqrt(1 - d['zeta']**2)
    a = np.array([d['off'], d['A'] * np.cos(d['ph']),
                  d['A'] * np.sin(d['ph']), d['zeta'] * w, 2 * np.pi / d['T']])

    def f(a):
        return a[0] + np.exp(-a[3] * t) * (a[1] * np.sin(a[4] * t) +
                                           a[2] * np.cos(a[4] * t))
    J = np.empty((len(t), 5))
    for k in range(5):
        h = 1e-6 * max(abs(a[k]), 1e-3)
        e = np.zeros(5)
        e[k] = h
        J[:, k] = (f(a + e) - f(a - e)) / (2 * h)
    J = J * np.array([1, 1, 1, a[3], a[4]])
    cov = np.linalg.inv(J.T @ J) * (d['noise'] * d['A'])**2
    return d['T'] * np.sqrt(cov[4, 4])


def quick_plots(real):
    """Plots are drawn but saved only when asked for."""
    save = matplotlib.figure.Figure.savefig
    if not real:
        matplotlib.figure.Figure.savefig = lambda *a, **k: None
    return save


def fit(mon, key, f, y, x, real=False):
    png = os.path.join(mon.scratch, 'fit.png')
    save = quick_plots(real)
    y0 = np.array(y)
    try:
        T = mon.call(key, f, y, x, png)
    finally:
        matplotlib.figure.Figure.savefig = save
    mon.check(np.array_equal(np.array(y), y0), key + ':input-unchanged')
    if real:
        mon.check(os.path.exists(png) and
                  open(png, 'rb').read(4) == b'\x89PNG', key + ':plot')
        mon.check(sorted(os.listdir(mon.scratch)) == ['fit.png'],
                  key + ':one-file')
        mon.count('plot-saved')
    return T


def judge(mon, key, T, d, t=None):
    nom, std = T.nominal_value, T.std_dev
    mon.check(np.isfinite(std) and std >= 0, key + ':deviation-finite',
              'got %r' % T)
    floor = 1e-9 * d['T']
    mon.check(abs(nom - d['T']) <= 6.5 * std + floor, key + ':value',
              'got %r, true period %r' % (T, d['T']))
    if t is not None and d['noise'] > 0:
        best = attainable(d, t)
        if best > 1e-12 * d['T']:
            mon.check(best / 2.5 <= std <= 2.5 * best, key + ':deviation',
                      'reported %r, attainable %r' % (std, best))
            mon.count('deviation-judged')


def whole(mon, rng, i):
    """Complete records, every kind of sample rate or time vector."""
    kind = ['int', 'float', 'np', 'time', 'jitter', 'shifted', 'list'][i % 7]
    special = ['', 'small', 'large', 'damped', 'few', 'many', 'coarse',
               'noiseless', 'offset', 'fine'][(i // 7) % 10]
    k = {'small': dict(A=gen.logu(rng, .01, .3)),
         'large': dict(A=gen.logu(rng, 5, 1000)),
         'damped': dict(zeta=gen.logu(rng, .02, .1)),
         'few': dict(per=float(rng.uniform(3, 6))),
         'many': dict(per=float(rng.uniform(20, 60)), fs=100.),
         'coarse': dict(fs=float(rng.integers(20, 40)),
                        T=gen.logu(rng, .6, 4)),
         'noiseless': dict(noise=0.), 'offset': dict(off=gen.logu(rng, 9, 900)
                                                    ),
         'fine': dict(fs=float(int(gen.logu(rng, 1000, 5000))))}
    d = setup(rng, **k.get(special, {}))
    t, y = record(rng, d)
    mon.note(d=d, kind=kind, special=special)
    mon.sig(d)
    x = {'int': int(d['fs']), 'float': d['fs'],
         'np': [np.int64, np.float64, np.int32, np.float32][i % 4](d['fs'])
         }.get(kind)
    if x is None:
        x = t
        if kind == 'jitter':
            x = np.sort(t + rng.uniform(-.45, .45, len(t)) / d['fs'])
            x = x - x[0]
            y = signal(d, x) + d['noise'] * d['A'] * rng.normal(size=len(t))
        if kind == 'shifted':
            x = t + rng.choice([-3., .5, 100., 12345.])
        if kind == 'list':
            x, y = list(t), y
    T = fit(mon, 'fit', period.get_period, y, x, real=i % 10 == 0)
    judge(mon, 'fit', T, d, t)
    mon.count('kind:' + kind)
    mon.count('special:' + special)


def truncated(mon, rng, i):
    """Rest, held and decayed stretches around the oscillation."""
    d = setup(rng, zeta=gen.logu(rng, 3e-3, 3e-2),
              per=float(rng.uniform(8, 20)))
    t, y = record(rng, d)
    mode = ['none', 'rest', 'held', 'tail', 'both', 'time'][i % 6]
    mon.note(d=d, mode=mode)
    mon.sig(d, mode)

    def stretch(periods, level, noise):
        n = int(periods * d['T'] * d['fs'])
        return d['off'] + d['A'] * (level + noise * rng.normal(size=n))
    parts = [y]
    if mode in ('rest', 'both'):
        parts.insert(0, stretch(rng.uniform(.5, 3), 0., .005))
    if mode == 'held':
        # the part is held at the release point of the oscillation
        parts.insert(0, stretch(rng.uniform(.2, 1), .5 * rng.choice([-1, 1]),
                                .002))
    if mode in ('tail', 'both'):
        parts.append(stretch(rng.uniform(1, 5), 0., .01))
    data = np.concatenate(parts)
    x = d['fs'] if i % 2 else int(d['fs'])
    if mode == 'time':
        x = t
    T = fit(mon, 'truncated', period.get_period_from_truncated, data, x)
    judge(mon, 'truncated:' + mode, T, d)
    good = period.select_good_data(data, .1)
    n = len(good)
    mon.check(n < len(data) and any(
        np.array_equal(data[k:k + n], good) for k in
        np.flatnonzero(data == good[0])), 'good:slice')
    mon.close(np.abs(good[0] - data.mean()), np.abs(
        data - data.mean()).max(), 'good:from-maximum', rtol=1e-12)
    mon.count('mode:' + mode)


def derivatives(mon, rng, i):
    """Jacobian and goodness of the fitted function."""
    p = np.array([rng.normal(), rng.normal(), rng.normal(),
                  rng.uniform(1e-4, .3), rng.uniform(.5, 20)])
    t = np.linspace(0, rng.uniform(1, 20), int(rng.integers(20, 60)))
    mon.note(p=p)
    mon.sig(p)

    def f(p):
        wd = p[4] * np.sqrt(1 - p[3]**2)
        return p[0] + np.exp(-p[3] * p[4] * t) * (p[1] * np.sin(wd * t) +
                                                  p[2] * np.cos(wd * t))
    J = mon.call('jacobian', period.jac_fitfunc, p, t)
    mon.check(J.shape == (len(t), 5), 'jacobian:shape')
    for k in range(5):
        e = np.zeros(5, complex)
        e[k] = 1e-30j
        want = np.imag(f(p + e)) / 1e-30
        mon.close(J[:, k], want, 'jacobian:%d' % k, rtol=1e-9,
                  atol=1e-9 * (1 + np.abs(want).max()))
    ym = f(p) + .1 * rng.normal(size=len(t))
    yp = f(p)
    if i % 4 == 0:
        yp = ym.copy()
    y0 = ym.copy(), yp.copy()
    r2, SSE, SST, SSR = mon.call('goodness', period.fit_goodness, ym, yp)
    mon.check(np.array_equal(ym, y0[0]) and np.array_equal(yp, y0[1]),
              'goodness:input-unchanged')
    mon.close(SST, np.sum((ym - ym.mean())**2), 'goodness:total', rtol=1e-9)
    mon.close(SSE, np.sum((ym - yp)**2), 'goodness:error', rtol=1e-9,
              atol=1e-12 * SST)
    mon.close(SSR, np.sum((yp - ym.mean())**2), 'goodness:regression',
              rtol=1e-9)
    if i % 4 == 0:
        mon.close(r2, 1., 'goodness:perfect', rtol=1e-9)
    # for a least squares fit that has an intercept the shares add up
    A = np.column_stack([np.ones_like(t), t, np.sin(t)])
    fitp = A @ np.linalg.lstsq(A, ym, rcond=None)[0]
    r2, SSE, SST, SSR = period.fit_goodness(ym, fitp)
    mon.close(SSE + SSR, SST, 'goodness:adds-up', rtol=1e-9)
    mon.close([r2, 1 - SSE / SST], [SSR / SST] * 2, 'goodness:r-squared',
              rtol=1e-6, atol=1e-9)


def sweep(mon, rng, i):
    """The deviation shrinks in proportion to the noise."""
    d = setup(rng)
    n = int(d['per'] * d['T'] * d['fs'])
    t = np.arange(n) / d['fs']
    e = rng.normal(size=n)
    mon.note(d=d)
    mon.sig(d)
    stds = []
    for noise in (1e-2, 1e-3, 1e-4):
        T = fit(mon, 'sweep', period.get_period, signal(d, t) + noise *
                d['A'] * e, int(d['fs']))
        judge(mon, 'sweep', T, dict(d, noise=noise), t)
        stds.append(T.std_dev)
    mon.close([stds[1] / stds[0], stds[2] / stds[1]], [.1, .1],
              'sweep:proportional', rtol=.1)


GROUPS = [('whole', 700, 28000, whole), ('truncated', 240, 9600, truncated),
          ('derivatives', 200, 8000, derivatives), ('sweep', 60, 2400, sweep)]
MINIMUM = {'kind:float': 10, 'special:noiseless': 10, 'plot-saved': 5,
           'mode:held': 5, 'deviation-judged': 80}
