"""A series of calls on one model, each compared with a model made anew.

Sweeps have the same length throughout, parameters are edited in between, and
results of earlier calls are kept (Monitor.hold), so that whatever a model
remembers shows.
"""
import numpy as np

from . import models


def overrides(rng, p, kind, n, arrays=True):
    keys = ['v', 'g', str(rng.choice(sorted(k for k in p if k != 'v')))]
    over = {}
    for k in keys:
        if k not in p or rng.random() < .5:
            continue
        x = p[k] if p[k] else .1
        if arrays and rng.random() < .6:
            over[k] = x * rng.uniform(.9, 1.1, n)
        else:
            over[k] = float(x * rng.uniform(.9, 1.1))
    return over


def arguments(rng, name, m, p, kind, n):
    """(one call as a function of the model, overrides, left or not)."""
    size = 12 if kind == 'riderlean' else 4
    if name in ('simulate', 'simulate_modes'):
        over = overrides(rng, p, kind, n, arrays=False)
        t = np.linspace(0., .05 * int(rng.integers(1, 4)), n)
        if name == 'simulate_modes':
            return lambda o: o.simulate_modes(t, **over), over, None
        x = rng.normal(size=size)
        u = rng.normal(size=3 if kind == 'riderlean' else 2)
        if rng.random() < .5:
            return lambda o: o.simulate(t, x.copy(), **over), over, None
        return (lambda o: o.simulate(t, x.copy(),
                                     input_func=lambda tt, xx: u * np.cos(tt),
                                     **over)), over, None
    over = overrides(rng, p, kind, n)
    if name == 'calc_eigen':
        left = bool(rng.random() < .5)
        return lambda o: o.calc_eigen(left=left, **over), over, left
    return lambda o: getattr(o, name)(**over), over, None


def run(mon, rng, kind, main):
    """Calls on one model, half of them of the method named main."""
    m, p = models.make(kind, rng, None if kind == 'riderlean' else 'ordinary')
    names = ['form_state_space_matrices', 'calc_eigen', 'simulate']
    if kind != 'riderlean':
        names += ['form_reduced_canonical_matrices']
    n = int(rng.integers(2, 6))
    par = m.parameter_set.parameters
    mon.note(kind=kind, p=dict(p), main=main, n=n)
    last = None
    for k in range(int(rng.integers(3, 6) if kind != 'riderlean' else 3)):
        if k and rng.random() < .4:
            key = str(rng.choice(sorted(par)))
            par[key] = float((par[key] or .1) * rng.uniform(.95, 1.05))
            mon.count('session:edited')
        if last is not None and rng.random() < .4:
            name, call, over, left = last       # the same question again
        else:
            name = main if rng.random() < .6 else str(rng.choice(names))
            call, over, left = arguments(rng, name, m, par, kind, n)
        last = name, call, over, left
        got = mon.call('session:' + name, call, m)
        want = call(models.new(kind, dict(par)))
        got = got if isinstance(got, tuple) else (got,)
        want = want if isinstance(want, tuple) else (want,)
        key = 'session:%s:as-new' % name
        if not mon.check([np.shape(g) for g in got] ==
                         [np.shape(w) for w in want], key + ':shape'):
            return
        if name == 'calc_eigen':
            A = models.new(kind, dict(par)).form_state_space_matrices(**over)
            pairs(mon, A[0], got[0], got[1], left, key)
        else:
            # the integrator chooses its steps
            tol = .02 if name.startswith('simulate') else 1e-11
            for g, w in zip(got, want):
                mon.close(g, w, key, rtol=0, atol=tol * np.abs(w).max()
                          if w.size else 0)
        mon.sig(kind, name, sorted(par.items()), k)


def pairs(mon, A, w, V, left, key):
    if A.ndim == 2:
        A, w, V = A[None], w[None], V[None]
    for a, x, v in zip(A, w, V):
        a = a.T if left else a
        scale = np.abs(a).max() + 1.
        mon.close(a @ v, v * x, key, rtol=0,
                  atol=1e-8 * scale * np.abs(v).max())
        mon.close(x.sum(), np.trace(a), key, rtol=0, atol=1e-8 * scale)
