"""Repeats a case on slightly different state, to expose remembered results.

Part of the cases run twice (vp/core.py). The second run draws the same random
numbers, so that the code under test gets the same arguments, but
  edit   objects of the first run are used again after their parameters were
         edited in place,
  other  new objects have other parameters, the first ones are still alive,
  freed  likewise, and the first ones are gone,
  vary   one or two of the draws are new, so that calls differ from those of
         the first run in little.
The oracles of the case are given the changed parameters as well.
"""
import copy
import gc
import numpy as np

MODES = ['edit', 'other', 'freed', 'vary', 'vary']
stage, mode, much = 1, None, 0
kept, used = [], set()


def start():
    global stage, mode
    stage, mode = 1, None
    kept.clear()
    used.clear()


def repeat(how, h):
    global stage, mode, much
    stage, mode, much = 2, how, h
    if how == 'freed':
        kept.clear()
        gc.collect()


def shifting():
    return stage == 2 and mode != 'vary'


def shift(p):
    """Changes parameters of a bicycle in place (keeps it meaningful)."""
    if not shifting():
        return p
    one = [k for k in ('xB', 'zB', 'xH', 'zH', 'xP', 'zP', 'xD', 'alphaP',
                       'alphaB', 'alphaH', 'l2', 'd1', 'w', 'rR', 'c')
           if k in p]
    for b in 'BH':
        if not p.get('I%sxz' % b, 1.):
            one += ['I%sxx' % b, 'I%szz' % b]
    if much % 3 == 0 and one:
        # a single one
        k = one[much // 3 % len(one)]
        p[k] = p[k] * 1.03
        return p
    for k, f in (('zB', 1.04), ('rR', 1.03), ('rF', 1.03), ('zP', 1.04),
                 ('l2', 1.05), ('l3', 1.04)):
        if k in p:
            p[k] = p[k] * f
    if much % 3 == 1:
        for k in p:
            if k in ('w', 'c', 'xH'):
                p[k] = p[k] * 1.02
            elif k in ('mB', 'mF', 'mP', 'mc') or \
                    k in ('IBxx', 'IByy', 'IBzz', 'IBxz', 'IFxx', 'IFyy'):
                p[k] = p[k] * 1.05
            elif k == 'lam':
                p[k] = p[k] * 1.01
            elif k.startswith('kT'):
                p[k] = p[k] * 1.1
    return p


def obj(kind, make, edit):
    """An object from make(); in the second run perhaps the one of the first
    run after edit(object)."""
    if stage == 2 and mode in ('edit', 'vary'):
        for n, (k, o) in enumerate(kept):
            if k == kind and n not in used:
                used.add(n)
                edit(o)
                return o
    o = make()
    if stage == 1:
        kept.append((kind, o))
    return o


def edited(p):
    """Edits the parameters of a set or of a model."""
    def edit(o):
        s = getattr(o, 'parameter_set', o)
        d = s.parameters
        for k in list(d):
            if k not in p:
                del d[k]
        d.update(p)
    return edit


class Recorder(object):
    """A random generator whose draws can be made again."""

    def __init__(self, rng, log=None, fresh=()):
        self.rng, self.log, self.fresh, self.n = rng, log, set(fresh), 0
        self.made = []

    def draw(self, name, a, k):
        n = self.n
        self.n += 1
        what = (name, repr(a), repr(k))
        if self.log is not None and n < len(self.log) and \
                n not in self.fresh and self.log[n][0] == what:
            r = self.log[n][1]
        else:
            r = getattr(self.rng, name)(*a, **k)
        self.made.append((what, r))
        return copy.deepcopy(r) if isinstance(r, np.ndarray) else r

    def shuffle(self, x):
        order = self.draw('permutation', (len(x),), {})
        x[:] = [copy.copy(x[int(q)]) for q in order]

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)

        def f(*a, **k):
            return self.draw(name, a, k)
        return f

    def second(self, rng):
        """A generator that repeats the draws of this one."""
        fresh = []
        if mode == 'vary' and self.n:
            # options are drawn late
            lo = [0, self.n // 2][int(rng.integers(2))]
            fresh = rng.integers(lo, self.n, size=int(rng.integers(1, 4)))
        return Recorder(rng, self.made, [int(q) for q in fresh])


def bicycle(make, stored=True):
    """A bicycle from make(); stored ones are shipped with their values."""
    b = make()
    par = b.parameters['Benchmark']
    if stored:
        shift(par)
    me = (b.bicycleName, b.hasRider and b.riderName, hasattr(b, 'extras'),
          sorted(par))
    if stage == 2 and mode in ('edit', 'vary'):
        for n, (k, o) in enumerate(kept):
            if k == me and n not in used:
                used.add(n)
                d = o.parameters['Benchmark']
                for q in list(d):
                    d[q] = par[q]
                return o
    if stage == 1:
        kept.append((me, b))
    return b
