"""C24 plots of model behaviour show the computed values."""
import os
import warnings
import numpy as np
import matplotlib
import matplotlib.pyplot as plt
from matplotlib.colors import to_rgba

from bicycleparameters import Bicycle, bicycle, parameter_dicts
from bicycleparameters import plot as bpplot
from bicycleparameters.models import sort_eigenmodes
from vp import again, gen, models, ref, shown, world

TECHNIQUE = ('runtime monitor: drawn artists and figure data read back and '
             'matched, each exactly once, with what the model computes for '
             'the same arguments; state of the model before and after')
LEVEL_NOTE = ('Every line, title, label and shaded region observed is '
              'matched with a computed quantity and none may be left over.')
RULE = ('random Whipple, feedback and leaning rider models, one to several '
        'varied parameters, rising, falling and single-value sweeps, with '
        'and without sorting, hiding and own axes; simulations with and '
        'without inputs; shipped and random bicycles alone and compared; '
        'distinct by parameters and arguments')
ASSUMPTIONS = ['matplotlib and Plotly draw the artists they hold']


def snapshot(model):
    p = model.parameter_set.parameters
    return {k: float(v) for k, v in p.items()}


class Unchanged:
    """The model and the arguments are those from before."""

    def __init__(self, mon, model, over):
        self.mon, self.model, self.over = mon, model, over
        self.before = snapshot(model)
        self.copies = {k: np.array(v, float) for k, v in over.items()}

    def check(self):
        self.mon.check(snapshot(self.model) == self.before,
                       'model-unchanged')
        for k, v in self.copies.items():
            self.mon.check(np.array_equal(np.asarray(self.over[k], float), v),
                           'arguments-unchanged', k)


VARY = {'whipple': ['v', 'w', 'c', 'mB', 'zB', 'g', 'IFyy', 'lam'],
        'feedback': ['v', 'c', 'mB', 'kTdel_phid', 'kTphi_phi', 'kTdel_del',
                     'w'],
        'riderlean': ['v', 'mc', 'k9', 'c9', 'g', 'mg']}


def overrides(mon, rng, kind, p, n=None, extra=True):
    """Varied parameters; the first is the abscissa."""
    n = int(rng.integers(2, 30)) if n is None else n
    keys = [str(k) for k in rng.permutation(VARY[kind])]
    over = {}
    lo = rng.uniform(.2, .8)
    for k in keys[:1 + (extra and rng.random() < .4)]:
        x = p[k] * np.linspace(lo, lo + rng.uniform(.5, 4. if k == 'v' else
                                                    .8), n)
        if k == 'v' and not p[k]:
            x = np.linspace(0., 10., n)
        if not p[k]:
            x = np.linspace(-1., 1., n)
        if rng.random() < .2:
            x = x[::-1].copy()
        over[k] = x.tolist() if rng.random() < .2 else x
    if extra and rng.random() < .4:
        k = keys[-1]
        over[k] = float(p[k] * 1.1)
    mon.note(kind=kind, par=p, over=over)
    mon.sig(kind, sorted(over), p.get('w', p.get('rr')), n)
    return over, list(over)[0], np.asarray(over[list(over)[0]], float)


def data(line):
    return (np.asarray(line.get_xdata(), float),
            np.asarray(line.get_ydata(), float))


def same(got, want):
    """Equal, missing values included."""
    return got.shape == want.shape and bool(np.all(
        (got == want) | (np.isnan(got) & np.isnan(want)) |
        (np.abs(got - want) <= 1e-9 * (1 + np.abs(want)))))


def rows_match(mon, got, want, key, tol=1e-9):
    """Each row of got is a permutation of the same row of want."""
    g, w = np.sort(got, axis=1), np.sort(want, axis=1)
    mon.close(g, w, key, rtol=tol, atol=tol)


def shaded(ax):
    """Intervals of the shaded regions."""
    out = []
    for col in ax.collections:
        for path in col.get_paths():
            x = path.vertices[:, 0]
            out.append((x.min(), x.max()))
    return out


def regions(mon, intervals, x, worst, key, strict=True):
    """Stable samples next to stable samples are shaded, unstable are not."""
    order = np.argsort(x, kind='stable')
    x, worst = x[order], worst[order]
    eps = 1e-9 * max(1., np.abs(x).max())

    def inside(p):
        return any(a - eps <= p <= b + eps for a, b in intervals)

    def within(p):
        return any(a + eps < p < b - eps for a, b in intervals)

    # a zero eigenvalue is on the border
    stable, unstable = worst < -1e-7, worst > 1e-7
    for k in range(len(x)):
        if unstable[k]:
            mon.check(not within(x[k]), key + ':unstable', '%g' % x[k])
        if stable[k] and k and stable[k - 1]:
            mon.check(inside(x[k]) and inside(x[k - 1]) and
                      inside((x[k] + x[k - 1]) / 2), key + ':stable',
                      '%g %r' % (x[k], intervals))
        if (unstable[k] or (k and unstable[k - 1])) and k and \
                (x[k] - x[k - 1] > 4 * eps):
            mon.check(not inside((x[k] + x[k - 1]) / 2), key + ':between',
                      '%g %r' % (x[k], intervals))


def parts(mon, rng, i):
    """Eigenvalue parts against a parameter."""
    kind = models.KINDS[i % 3]
    model, p = models.make(kind, rng)
    if kind == 'whipple' and i % 2:
        p['v'] = float(rng.uniform(3., 7.))
        model = models.build(kind, p)
    over, key, x = overrides(mon, rng, kind, p)
    if i % 4 == 1:
        # around the self stable speeds of the benchmark bicycle
        p = dict(ref.BENCHMARK)
        kind = ['whipple', 'feedback'][i // 4 % 2]
        if kind == 'feedback':
            p.update({k: 0. for k in gen.GAINS})
            p['kTdel_phid'] = float(rng.uniform(-1., 1.))
        model = models.build(kind, p)
        x = np.linspace(rng.uniform(0., 4.), rng.uniform(4.5, 9.),
                        int(rng.integers(5, 40)))
        key, over = 'v', {'v': x}
        if i % 8 == 1:
            over = {'c': .08 * x / 6, 'v': 5.}
            key, x = 'c', over['c']
        mon.note(kind=kind, par=p, over=over)
    elif kind == 'riderlean' and i % 4 == 2:
        # a rider who is stiff enough not to fall by himself
        p = dict(parameter_dicts.mooreriderlean2012_browser_jason,
                 k9=gen.logu(rng, 300., 1e4), c9=rng.uniform(50., 600.))
        model = models.build(kind, p)
        x = np.linspace(rng.uniform(2., 5.), rng.uniform(6., 9.),
                        int(rng.integers(5, 40)))
        key, over = 'v', {'v': x}
        mon.note(kind=kind, par=p, over=over)
    kw, ax = {}, None
    sort = bool(rng.random() < .7)
    hide = [False, True, 1e-3][rng.choice(3, p=[.6, .2, .2])]
    show = bool(rng.random() < .8)
    n = len(model.state_vars)
    if rng.random() < .3:
        fig, (other, ax) = plt.subplots(2)
        kw['ax'] = ax
    if sort and rng.random() < .3:
        kw['colors'] = ['C%d' % k for k in range(n)]
    if hide:
        kw['hide_zeros'] = hide
    if not show:
        kw['show_stable_regions'] = False
    if not sort:
        kw['sort_modes'] = False
    mon.note(options={k: str(v) for k, v in kw.items()})
    keep = Unchanged(mon, model, over)
    evals, evecs = model.calc_eigen(**over)
    got = mon.call('parts', model.plot_eigenvalue_parts, **kw, **over)
    keep.check()
    if ax is not None:
        mon.check(got is ax, 'parts:axes')
        mon.check(not other.lines, 'parts:other-axes')
    again, _ = model.calc_eigen(**over)
    mon.check(np.array_equal(again, evals), 'parts:result-unchanged')
    lines = got.lines
    if not mon.check(len(lines) == 2 * n, 'parts:lines', '%d' % len(lines)):
        return
    for l in lines:
        mon.close(data(l)[0], x, 'parts:abscissa', rtol=1e-12, atol=1e-14)
    y = np.array([data(l)[1] for l in lines]).T
    # the position, the heading and the like do not count
    worst = np.where(evals == 0., -np.inf, evals.real).max(axis=1)
    if hide:
        tol = hide if isinstance(hide, float) else 1e-12
        gone = np.isnan(y)
        both = np.concatenate([np.abs(evals.imag), evals.real], axis=1)
        low = 1. if isinstance(hide, float) else 1e-2
        mon.check(np.all(gone.sum(axis=1) <=
                         (np.abs(both) < tol * (1 + 1e-9)).sum(axis=1)) and
                  np.all(gone.sum(axis=1) >=
                         (np.abs(both) < low * tol * (1 - 1e-9)).sum(axis=1)),
                  'parts:hidden')
        mon.check(not np.any(np.abs(y[~gone]) < low * tol * (1 - 1e-9)),
                  'parts:hidden-only')
        y = np.where(gone, 0., y)
        atol = 2 * tol
    else:
        mon.check(not np.isnan(y).any(), 'parts:all-shown')
        atol = 1e-12
    # every real and every imaginary part is there once
    want = np.concatenate([np.abs(evals.imag), evals.real], axis=1)
    mon.close(np.sort(y, axis=1), np.sort(want, axis=1), 'parts:values',
              rtol=1e-9, atol=atol)
    if sort:
        # the real and the imaginary part of a mode look alike
        style = {}
        for k, l in enumerate(lines):
            style.setdefault((l.get_label()), {})[l.get_linestyle()] = k
        mon.check(len(style) == n and
                  all(set(s) == {'-', '--'} for s in style.values()),
                  'parts:modes', str(style))
        if all(set(s) == {'-', '--'} for s in style.values()):
            for s in style.values():
                mon.check(to_rgba(lines[s['-']].get_color()) ==
                          to_rgba(lines[s['--']].get_color()), 'parts:colour')
            pairs = [(s['-'], s['--']) for s in style.values()]
            z = np.array([y[:, a] + 1j * y[:, b] for a, b in pairs]).T
            w = evals.real + 1j * np.abs(evals.imag)
            for a, b in zip(z, w):
                left = list(b)
                for c in a:
                    d = np.abs(np.array(left) - c)
                    m = int(np.argmin(d))
                    mon.check(d[m] <= 2 * atol + 1e-9 * abs(c),
                              'parts:mode-pairs', '%s not in %s' % (c, left))
                    left.pop(m)
            # a line follows one mode
            e, _ = sort_eigenmodes(evals.copy(), evecs.copy())
            e = e.real + 1j * np.abs(e.imag)
            d = np.abs(z[:, :, None] - e[:, None, :]).max(axis=0)
            left = list(range(n))
            for j in range(n):
                m = left[int(np.argmin(d[left, j]))]
                mon.check(d[m, j] <= 4 * atol + 1e-9 * np.abs(e[:, j]).max(),
                          'parts:modes-followed', '%g' % d[m, j])
                left.remove(m)
            if 'colors' in kw:
                for l, c in zip([lines[a] for a, _ in pairs], kw['colors']):
                    mon.check(to_rgba(l.get_color()) == to_rgba(c),
                              'parts:given-colours')
    else:
        mon.check(all(l.get_linestyle() in ('None', 'none', ' ', '')
                      for l in lines), 'parts:unsorted-unconnected')
    if show:
        regions(mon, shaded(got), x, worst, 'region')
        if (worst < -1e-7).sum() > 1:
            mon.count('stable-region')
            mon.count('stable-region-' + kind)
    else:
        mon.check(not shaded(got), 'region:none')
    mon.check(model.parameter_set.par_strings[key] in got.get_xlabel(),
              'parts:xlabel', got.get_xlabel())
    lim = got.get_xlim()
    mon.close(sorted(lim), [x.min(), x.max()], 'parts:limits', rtol=1e-9)
    plt.close('all')


def tolerance(rng, evals, tol):
    """What to hide, and which of the eigenvalues are drawn then."""
    size = np.abs(evals)
    hide = True
    if rng.random() < .5:
        # up to the largest gap, or such that few of them are left
        s = np.unique(size[size > 1e-6])
        s = s[:1].tolist() + [b for a, b in zip(s, s[1:]) if b > a * 1.001]
        if s:
            k = int(rng.integers(len(s)))
            lo = s[k - 1] if k else s[0] * .1
            hide = tol = float(np.sqrt(lo * s[k]))
    drawn = size >= tol
    if np.any((size < tol * 1e3) & drawn & (hide is True)) or not drawn.any():
        return None, drawn
    return hide, drawn


def vectors(mon, rng, i):
    """Eigenvector components in the complex plane."""
    kind = ['whipple', 'feedback', 'whipple', 'riderlean'][i % 4]
    model, p = models.make(kind, rng)
    n = int(rng.integers(1, 4 if kind == 'riderlean' else 7))
    if i % 3 == 2:
        n = 0
        over = {'v': float(p['v'] * 1.3)} if i % 2 else {}
        mon.note(kind=kind, par=p, over=over)
        mon.sig(kind, p['v'], 0)
    else:
        over, key, x = overrides(mon, rng, kind, p, n)
    hide = bool(rng.random() < .5) if kind != 'riderlean' else i % 2 == 0
    keep = Unchanged(mon, model, over)
    evals, evecs = model.calc_eigen(**over)
    if not n:
        evals, evecs = evals[None], evecs[None]
    drawn = np.ones(evals.shape[1], bool)
    if hide:
        hide, drawn = tolerance(rng, evals[-1], 1e-14)
        if hide is None:
            return
    kw = {'hide_zeros': hide} if hide else {}
    axes = mon.call('vectors', model.plot_eigenvectors, **kw, **over)
    keep.check()
    cols = np.flatnonzero(drawn)
    if not mon.check(np.shape(axes) == (len(evals), len(cols)),
                     'vectors:shape', str(np.shape(axes))):
        return
    for k in range(len(evals)):
        if n:
            lab = axes[k, 0].get_ylabel()
            mon.check(key in lab and '%1.2f' % x[k] in lab,
                      'vectors:parameter', lab)
        for c, m in enumerate(cols):
            ax = axes[k, c]
            v = evecs[k, :, m]
            if not mon.check(len(ax.lines) == len(v), 'vectors:lines'):
                continue
            tip = np.array([np.asarray(l.get_xydata(), float)[-1]
                            for l in ax.lines])
            root = np.array([np.asarray(l.get_xydata(), float)[0]
                             for l in ax.lines])
            mon.close(root[:, 1], np.zeros(len(v)), 'vectors:origin',
                      atol=1e-15)
            z = tip[:, 1] * np.exp(1j * tip[:, 0])
            mon.close(z, v / np.abs(v).max(), 'vectors:component',
                      rtol=1e-9, atol=1e-9)
            # components are told apart by their widths, largest first
            lw = [l.get_linewidth() for l in ax.lines]
            mon.check(lw == sorted(lw, reverse=True) and
                      len(set(lw)) == len(lw), 'vectors:widths')
            title(mon, ax, evals[k, m], 'vectors')
            mon.count('vector')
    leg = axes[0, 0].get_legend()
    mon.check([t.get_text() for t in leg.get_texts()] ==
              ['$' + s + '$' for s in model.state_vars_latex],
              'vectors:legend')
    mon.close(axes[-1, -1].get_rmax(), 1., 'vectors:unit-circle')
    if i % 16 == 9 and n and kind != 'riderlean':
        # ten are still drawn
        ten = {key: np.linspace(x.min(), x.max() + 1, 10)}
        axes = mon.call('vectors', model.plot_eigenvectors, **ten)
        mon.check(len(axes) == 10, 'vectors:ten')
    if i % 8 == 0 and n:
        wide = {key: np.linspace(x.min(), x.max() + 1,
                                 int(rng.integers(11, 14)))}
        mon.raises(ValueError, 'vectors:too-many', model.plot_eigenvectors,
                   **wide)
    plt.close('all')


def title(mon, ax, e, key):
    mon.check('{:1.3f}'.format(e) in ax.get_title() or
              '{:1.3f}'.format(complex(e)) in ax.get_title(),
              key + ':eigenvalue', '%s: %s' % (ax.get_title(), e))
    red = to_rgba(ax.title.get_color()) == to_rgba('red')
    mon.check(red == (e.real >= 0.), key + ':unstable-marked', str(e))


def legends(ax):
    leg = ax.get_legend()
    return [t.get_text() for t in leg.get_texts()] if leg else []


def modes(mon, rng, i):
    """Simulations of the modes."""
    kind = models.KINDS[i % 3]
    model, p = models.make(kind, rng)
    over = {'v': float(rng.uniform(1., 8.))} if i % 2 else {}
    times = np.linspace(0., float(rng.uniform(.2, 1.5)),
                        int(rng.integers(5, 40)))
    t0 = times.copy()
    hide = bool(rng.random() < .5)
    evals, evecs = model.calc_eigen(**over)
    if np.abs(evals).max() > 60:
        return     # takes the integrator too long
    drawn = np.ones(len(evals), bool)
    if hide:
        hide, drawn = tolerance(rng, evals, 1e-12)
        if hide is None:
            return
    mon.note(kind=kind, par=p, over=over, hide=hide)
    mon.sig(kind, over.get('v', p['v']), hide)
    keep = Unchanged(mon, model, over)
    res = model.simulate_modes(times, **over)
    axes = mon.call('modes', model.plot_mode_simulations, times,
                    hide_zeros=hide, **over)
    keep.check()
    mon.check(np.array_equal(times, t0), 'modes:times-unchanged')
    rows = np.flatnonzero(drawn)
    units = sorted(set(model.state_units))
    if not mon.check(np.shape(axes) == (len(rows), len(units)), 'modes:shape',
                     str(np.shape(axes))):
        return
    deg = np.array([np.rad2deg(1.) if 'rad' in u else 1.
                    for u in model.state_units])
    for r, m in enumerate(rows):
        seen = []
        for c in range(len(units)):
            ax = axes[r, c]
            title(mon, ax, evals[m], 'modes')
            labels = []
            for l in ax.lines:
                labels.append(l.get_label())
                s = [k for k, q in enumerate(model.state_vars_latex)
                     if '$' + q + '$' == l.get_label()]
                if not mon.check(len(s) == 1, 'modes:label', l.get_label()):
                    continue
                s = s[0]
                seen.append(s)
                t, y = data(l)
                mon.close(t, t0, 'modes:time', rtol=1e-12)
                mon.close(y, res[m][:, s] * deg[s], 'modes:values',
                          rtol=1e-6, atol=1e-9 + 1e-8 * np.abs(
                              res[m][:, s] * deg[s]).max())
                u = model.state_units[s].replace('rad', 'deg')
                mon.check(ax.get_ylabel() == '[%s]' % u, 'modes:units',
                          '%s in %s' % (u, ax.get_ylabel()))
            mon.check(legends(ax) == labels, 'modes:legend')
        mon.check(sorted(seen) == list(range(len(evals))), 'modes:each-once',
                  str(seen))
        mon.count('mode')
    mon.check('Time' in axes[-1, 0].get_xlabel(), 'modes:xlabel')
    plt.close('all')


UNIT = {'rad': 'deg', 'rad/s': 'deg/s', 'm': 'm'}


def simulation(mon, rng, i):
    """States and inputs of a simulation."""
    kind = models.KINDS[i % 3]
    model, p = models.make(kind, rng)
    over = {'v': float(rng.uniform(1., 8.))} if i % 2 else {}
    n, m = len(model.state_vars), len(model.input_vars)
    x0 = rng.normal(size=n) * .1
    if rng.random() < .3:
        x0 = np.round(x0 * 50) / 50
    times = np.linspace(0., float(rng.uniform(.2, 1.5)),
                        int(rng.integers(5, 60)))
    func = None
    if rng.random() < .7:
        a, w, q = rng.normal(size=m), rng.uniform(1, 5, m), rng.normal(
            size=(m, n)) * .1

        def func(t, x):
            return a * np.sin(w * t) - q @ x
    mon.note(kind=kind, par=p, over=over, x0=x0, inputs=func is not None)
    mon.sig(kind, p['v'], x0[0])
    evals, _ = model.calc_eigen(**over)
    if np.abs(evals).max() > 60:
        return
    keep = Unchanged(mon, model, over)
    x0c, tc = x0.copy(), times.copy()
    res, inp = model.simulate(times, x0, input_func=func, **over)
    axes = mon.call('simulation', model.plot_simulation, times, x0,
                    input_func=func, **over)
    keep.check()
    mon.check(np.array_equal(x0, x0c) and np.array_equal(times, tc),
              'simulation:arguments-unchanged')
    fig = np.ravel(axes)[0].figure
    lines = [(ax, l) for ax in fig.axes for l in ax.lines]
    want = [('N', '$' + q + '$', inp[:, k], 'input')
            for k, q in enumerate(model.input_vars_latex)]
    for k, q in enumerate(model.state_vars_latex):
        u = model.state_units[k]
        y = res[:, k]
        want.append((UNIT[u], '$' + q + '$',
                     np.rad2deg(y) if 'rad' in u else y, 'state'))
    mon.check(len(lines) == len(want), 'simulation:each-once',
              '%d lines for %d quantities' % (len(lines), len(want)))
    for unit, name, y, what in want:
        hits = []
        for k, (ax, l) in enumerate(lines):
            t, got = data(l)
            if t.shape == tc.shape and np.allclose(t, tc, rtol=1e-12) and \
                    np.allclose(got, y, rtol=1e-6,
                                atol=1e-9 + 1e-8 * np.abs(y).max()):
                labels = legends(ax)
                named = (labels[list(ax.lines).index(l)] == name
                         if len(labels) == len(ax.lines)
                         else name in ax.get_ylabel())
                yl = ax.get_ylabel()
                inunit = ('[%s' % unit) in yl and ('/s' in yl) == ('/s' in
                                                                  unit)
                if named:
                    hits.append((k, inunit))
        if mon.check(len(hits) >= 1, 'simulation:' + what, name):
            mon.check(hits[0][1], 'simulation:unit', name)
            lines.pop(hits[0][0])
        mon.count('trajectory')
    mon.check(any('Time' in ax.get_xlabel() for ax in fig.axes),
              'simulation:xlabel')
    plt.close('all')


def gains(mon, rng, i):
    model, p = models.make('feedback', rng)
    n = int(rng.integers(1, 20))
    over = {}
    key = str(rng.choice(['v', 'w', 'mB', 'c']))
    order = [key] + [str(k) for k in rng.permutation(gen.GAINS)[:3]]
    if rng.random() < .5:
        order = order[::-1]
    for k in order:
        if k == key or rng.random() < .6:
            over[k] = (p[k] if p[k] else 1.) * np.linspace(.5, 1.5, n)
        else:
            over[k] = float(rng.normal())
        if isinstance(over[k], np.ndarray) and rng.random() < .3:
            over[k] = over[k].tolist()
    if rng.random() < .2:
        over[key] = list(range(1, n + 1))
    if rng.random() < .25:
        # the first of two is the abscissa
        second = str(rng.choice([k for k in ('v', 'g', 'mH', 'rF')
                                 if k != key]))
        over[second] = p[second] * np.linspace(.8, 1.1, n)
    kw = {}
    if rng.random() < .3:
        kw['axes'] = plt.subplots(2, 4)[1]
    mon.note(par=p, over=over)
    mon.sig(p['w'], key, n)
    keep = Unchanged(mon, model, over)
    axes = mon.call('gains', model.plot_gains, **kw, **over)
    keep.check()
    if kw:
        mon.check(axes is kw['axes'], 'gains:axes')
    if not mon.check(np.shape(axes) == (2, 4), 'gains:shape'):
        return
    for ax, g in zip(np.ravel(axes), gen.GAINS):
        if not mon.check(len(ax.lines) == 1, 'gains:lines', g):
            continue
        x, y = data(ax.lines[0])
        mon.close(x, np.asarray(over[key], float), 'gains:abscissa')
        mon.close(y, np.ones(n) * np.asarray(over.get(g, p[g]), float),
                  'gains:values', g)
        mon.check(model.parameter_set.par_strings[g] in ax.get_title(),
                  'gains:title')
        mon.count('gain')
    for ax in axes[1]:
        mon.check(ax.get_xlabel() == key, 'gains:xlabel')
    bad = {g: over[g] for g in over if g in gen.GAINS}
    if any(np.ndim(v) for v in bad.values()):
        mon.raises(ValueError, 'gains:no-abscissa', model.plot_gains, **bad)
    plt.close('all')


def controllability(mon, rng, i):
    """Angles between the modes and the inputs."""
    model, p = models.make(['whipple', 'feedback'][i % 2], rng)
    if not hasattr(model, '_calc_modal_controllability'):
        return
    n = int(rng.integers(2, 12)) if i % 3 else 0
    over = {'v': np.linspace(.5, float(rng.uniform(2, 9)), n)} if n else {}
    acute = bool(i % 4)
    mon.note(par=p, over=over, acute=acute)
    mon.sig(p['v'], p['w'], n)
    beta = mon.call('controllability', model._calc_modal_controllability,
                    acute=acute, **over)
    A, B = model.form_state_space_matrices(**over)
    evals, evecs = model.calc_eigen(left=True, **over)
    if not n:
        B, evecs, beta = B[None], evecs[None], np.asarray(beta)[None]
    if not mon.check(beta.shape == (max(n, 1), 4, 2), 'controllability:shape',
                     str(beta.shape)):
        return
    B = np.broadcast_to(B, (max(n, 1), 4, 2))
    for k in range(len(beta)):
        q = evecs[k] / np.linalg.norm(evecs[k], axis=0)
        b = B[k] / np.linalg.norm(B[k], axis=0)
        c = (q.conj().T @ b).real
        rows_match(mon, np.cos(beta[k]).T, (np.abs(c) if acute else c).T,
                   'controllability:angles', 1e-7)
        mon.check(np.all((beta[k] >= 0) & (beta[k] <= (np.pi / 2 if acute else
                                                     np.pi))),
                  'controllability:range')
    if n:
        axes = mon.call('controllability:plot',
                        model._plot_modal_controllability, acute=acute,
                        **over)
        for r in range(4):
            for c in range(2):
                if mon.check(len(axes[r, c].lines) == 1,
                             'controllability:lines'):
                    x, y = data(axes[r, c].lines[0])
                    mon.close(x, over['v'], 'controllability:abscissa')
                    mon.close(y, np.rad2deg(beta[:, r, c]),
                              'controllability:plotted')
    plt.close('all')


SHIPPED = [n for n in world.shipped_with_benchmark() if n != 'Tms']


def a_bike(mon, rng, i, root, name='Randy'):
    if i % 3 == 0:
        name = SHIPPED[int(rng.integers(len(SHIPPED)))]
        return again.bicycle(lambda: Bicycle(name, pathToData=world.DATA))
    p = gen.whipple_par(rng, ['ordinary', 'equalwheels', 'aligned'][i % 3],
                        gv=False)
    gen.pop_profile(p)
    p['g'] = 9.81
    if i % 2:
        p = gen.ufloatify(rng, p)
    world.make_bicycle(root, name, benchmark=p)
    return again.bicycle(lambda: Bicycle(name, pathToData=root), False)


def spectrum(mon, y, evals, key):
    want = np.concatenate([np.abs(evals.imag), evals.real], axis=1)
    mon.close(np.sort(y, axis=1), np.sort(want, axis=1), key, rtol=1e-9,
              atol=1e-10)


def sweep(rng):
    s = np.linspace(0., float(rng.uniform(4., 12.)), int(rng.integers(2, 60)))
    if rng.random() < .3:
        s = s[1:] if len(s) > 2 else s
    u = s.copy()
    if rng.random() < .4:
        rng.shuffle(u)
    return s, u


def vertical(line, speeds):
    """The line at zero."""
    return not np.any(data(line)[1])


def bicycles(mon, rng, i):
    """Eigenvalues of bicycles against speed."""
    root = os.path.join(mon.scratch, 'd')
    speeds, given = sweep(rng)
    largest = bool(rng.random() < .35)
    generic = bool(rng.random() < .4)
    with matplotlib.rc_context():
        if i % 3 == 2:
            bikes = [a_bike(mon, rng, k + int(rng.integers(3)), root,
                            'Randy%d' % k)
                     for k in range(int(rng.integers(1, 5) if i % 4 else
                                        rng.integers(5, 10)))]
            kw = {}
            if rng.random() < .4:
                kw['colors'] = ['C%d' % k for k in range(len(bikes))]
            if rng.random() < .4 and len(bikes) < 5:
                kw['linestyles'] = ['-', '--', ':', '-.'][:len(bikes)]
            mon.note(bikes=[b.bicycleName for b in bikes], speeds=given,
                     largest=largest)
            before = [dict(b.parameters['Benchmark']) for b in bikes]
            opened, want = shown.options(rng, False)
            fig = shown.judged(mon, 'bicycles', lambda: mon.call(
                'bicycles', bpplot.plot_eigenvalues, bikes, given,
                largest=largest, **opened, **kw), want)
            generic = True
            colors = kw.get('colors')
        else:
            b = a_bike(mon, rng, i // 3, root)
            bikes, before = [b], [dict(b.parameters['Benchmark'])]
            kw = dict(largest=largest, generic=generic)
            if rng.random() < .3:
                # drawn in the first axes of the figure
                kw['fig'] = plt.subplots(int(rng.integers(1, 3)))[0]
            if rng.random() < .3:
                kw['color'] = 'C3'
            if rng.random() < .3:
                kw['show_legend'] = False
            mon.note(bike=b.bicycleName, speeds=given,
                     options={k: str(v) for k, v in kw.items()})
            opened, want = shown.options(rng, False)
            fig = shown.judged(mon, 'bicycle', lambda: mon.call(
                'bicycle', b.plot_eigenvalues_vs_speed, given, **opened,
                **kw), want)
            if 'fig' in kw:
                mon.check(fig is kw['fig'], 'bicycle:figure')
                mon.check(not any(a.lines for a in fig.axes[1:]),
                          'bicycle:first-axes')
            colors = [kw['color']] if 'color' in kw else None
            generic = generic or largest
        mon.sig(len(bikes), largest, generic, speeds[-1])
        ax = fig.axes[0]
        lines = [l for l in ax.lines if not (
            to_rgba(l.get_color()) == to_rgba('k') and
            not np.any(data(l)[1]))]
        per = 1 if largest else 8
        zero = len(ax.lines) - len(lines)
        mon.check(zero >= 1, 'bicycle:zero-line')
        # a mode that never oscillates may be drawn in black along zero
        if mon.check(len(ax.lines) == len(bikes) * (per + 1), 'bicycle:lines',
                     '%d %d' % (len(ax.lines), len(bikes))):
            for k, b in enumerate(bikes):
                mine = ax.lines[k * (per + 1):(k + 1) * (per + 1)]
                for l in mine:
                    mon.close(data(l)[0], speeds, 'bicycle:abscissa')
                evals, _ = b.eig(speeds)
                y = np.array([data(l)[1] for l in mine]).T
                if largest:
                    want = np.stack([evals.real.max(axis=1),
                                     np.zeros(len(speeds))], axis=1)
                    mon.close(np.sort(y, axis=1), np.sort(want, axis=1),
                              'bicycle:largest', rtol=1e-9, atol=1e-10)
                else:
                    want = np.concatenate(
                        [np.abs(evals.imag), evals.real,
                         np.zeros((len(speeds), 1))], axis=1)
                    mon.close(np.sort(y, axis=1), np.sort(want, axis=1),
                              'bicycle:values', rtol=1e-9, atol=1e-10)
                    styled(mon, mine, evals, generic)
                if generic:
                    names = [l.get_label() for l in mine]
                    mon.check(names.count(b.bicycleName) >= 1,
                              'bicycle:label', str(names))
                    if colors:
                        mon.check(sum(to_rgba(l.get_color()) ==
                                      to_rgba(colors[k]) for l in mine) >= per,
                                  'bicycle:colour')
                mon.count('bicycle')
        mon.check('Speed' in ax.get_xlabel(), 'bicycle:xlabel')
        if len(bikes) == 1 and not generic:
            mon.check(bikes[0].bicycleName in ax.get_title(),
                      'bicycle:title')
        for b, p in zip(bikes, before):
            q = b.parameters['Benchmark']
            mon.check(list(q) == list(p) and all(q[k] is p[k] for k in p),
                      'bicycle:unchanged')
    plt.close('all')


def styled(mon, mine, evals, generic):
    """Real parts are solid, imaginary parts dashed."""
    if generic:
        return
    solid = np.array([data(l)[1] for l in mine if l.get_linestyle() == '-' and
                      l.get_label()[:4] == 'Real']).T
    dashed = np.array([data(l)[1] for l in mine
                       if l.get_linestyle() == '--' and
                       l.get_label()[:4] == 'Imag']).T
    if mon.check(solid.shape == dashed.shape == evals.shape,
                 'bicycle:parts', '%s %s' % (solid.shape, dashed.shape)):
        rows_match(mon, solid, evals.real, 'bicycle:real')
        rows_match(mon, dashed, np.abs(evals.imag), 'bicycle:imaginary')
        lab = [[l.get_label().split()[-1] for l in mine
                if l.get_label()[:4] == t] for t in ('Real', 'Imag')]
        mon.check(sorted(lab[0]) == sorted(lab[1]) ==
                  ['Capsize', 'Caster', 'Weave', 'Weave'], 'bicycle:modes',
                  str(lab))
        for m in ('Capsize', 'Caster'):
            if lab[0].count(m) == lab[1].count(m) == 1:
                z = solid[:, lab[0].index(m)] + 1j * dashed[
                    :, lab[1].index(m)]
                w = evals.real + 1j * np.abs(evals.imag)
                d = np.abs(w - z[:, None]).min(axis=1)
                mon.check(np.all(d <= 1e-8 * (1 + np.abs(z))),
                          'bicycle:mode-pairs')


def plotly(mon, rng, i):
    """The interactive plot of one bicycle."""
    root = os.path.join(mon.scratch, 'd')
    b = a_bike(mon, rng, i, root)
    if not hasattr(b, '_plot_eigenvalues_vs_speed_plotly'):
        return
    speeds, given = sweep(rng)
    largest = i % 4 == 3
    region = i % 5 != 4
    mon.note(bike=b.bicycleName, speeds=given, largest=largest, region=region)
    mon.sig(b.bicycleName, speeds[-1], largest)
    before = dict(b.parameters['Benchmark'])
    opened, want = shown.options(rng, True)
    fig = shown.judged(mon, 'plotly', lambda: mon.call(
        'plotly', b._plot_eigenvalues_vs_speed_plotly, given, **opened,
        largest=largest, stability_region=region), want)
    evals, _ = b.eig(speeds)
    traces = [t for t in fig.data if t.x is not None and
              len(t.x) == len(speeds)]
    if not mon.check(len(traces) == (1 if largest else 8), 'plotly:traces'):
        return
    for t in traces:
        mon.close(np.asarray(t.x, float), speeds, 'plotly:abscissa')
    y = np.array([np.asarray(t.y, float) for t in traces]).T
    if largest:
        mon.close(y[:, 0], evals.real.max(axis=1), 'plotly:largest',
                  atol=1e-12)
    else:
        real = [k for k, t in enumerate(traces) if t.text == 'Re' or
                (t.name or '').startswith('Re')]
        imag = [k for k in range(8) if k not in real]
        if mon.check(len(real) == 4, 'plotly:parts'):
            rows_match(mon, y[:, real], evals.real, 'plotly:real')
            rows_match(mon, y[:, imag], np.abs(evals.imag),
                       'plotly:imaginary')
            for name in {t.name.split(' ', 1)[1] for t in traces}:
                a = [k for k in real if traces[k].name == 'Re ' + name]
                c = [k for k in imag if traces[k].name == 'Im ' + name]
                if mon.check(len(a) == len(c), 'plotly:modes', name):
                    for p, q in zip(a, c):
                        z = y[:, p] + 1j * y[:, q]
                        w = evals.real + 1j * np.abs(evals.imag)
                        d = np.abs(w - z[:, None]).min(axis=1)
                        mon.check(np.all(d <= 1e-8 * (1 + np.abs(z))),
                                  'plotly:mode-pairs')
    rects = [(float(s.x0), float(s.x1)) for s in fig.layout.shapes]
    texts = [a.text for a in fig.layout.annotations]
    if region:
        worst = evals.real.max(axis=1)
        regions(mon, rects, speeds, worst, 'plotly:region')
        mon.check(len(rects) == texts.count('Self stability'),
                  'plotly:region-label')
        mon.check(bool(rects) != ('No stability region' in texts),
                  'plotly:no-region', str(texts))
        if rects:
            mon.count('plotly-stable')
    else:
        mon.check(not rects, 'plotly:region-hidden')
    q = b.parameters['Benchmark']
    mon.check(list(q) == list(before) and all(q[k] is before[k] for k in q),
              'plotly:unchanged')


GROUPS = [('parts', 360, 4500, parts), ('vectors', 128, 1600, vectors),
          ('modes', 96, 1200, modes), ('simulation', 180, 2250, simulation),
          ('gains', 96, 1200, gains),
          ('controllability', 160, 2000, controllability),
          ('bicycles', 240, 3000, bicycles), ('plotly', 240, 3000, plotly)]
MINIMUM = {'stable-region': 3, 'stable-region-riderlean': 2, 'vector': 60, 'mode': 20, 'trajectory': 60,
           'gain': 80, 'bicycle': 60, 'plotly-stable': 8}
