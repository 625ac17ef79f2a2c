"""C03 array valued parameters give the point-by-point scalar results."""
import warnings
import numpy as np

from vp import gen, models, session

TECHNIQUE = 'runtime monitor: metamorphic array-versus-scalar oracle with call histories'
LEVEL_NOTE = 'Each array result is compared slice by slice with scalar calls on fresh models; assumes scalar results are right (C01, C02, C04, C07 decide those).'
RULE = ('random model x random subset of its parameters as equal-length '
        'arrays (list, tuple, ndarray; length 1..6) mixed with scalar '
        'overrides, evaluated once as arrays and once per index as scalars; '
        'histories of such calls on one model against fresh models; distinct '
        'by model, parameters and overrides')


def draw(kind, rng, key):
    """A plausible value for one parameter."""
    while True:
        q = models.params(kind, rng)
        v = q[key]
        if key in gen.GAINS and rng.random() < .7:
            v = float(rng.normal() * 10)
        return v


def overrides(kind, rng, p, n, i):
    """Random array and scalar overrides; physical validity is kept by using
    values of other valid bicycles for inertias scaled slightly."""
    keys = sorted(p)
    style = i % 5
    if style == 0:
        arrs = [rng.choice(keys)]
    elif style == 1:
        arrs = ['v'] + ([rng.choice(keys)] if rng.random() < .5 else [])
    elif style == 2:
        arrs = ['g', 'v'][:rng.integers(1, 3)]
        if kind == 'feedback':
            arrs += list(rng.choice(gen.GAINS, rng.integers(0, 4),
                                    replace=False))
    elif style == 3:
        pool = gen.GAINS if kind == 'feedback' else keys
        arrs = list(rng.choice(pool, rng.integers(1, 6), replace=False))
    else:
        arrs = list(rng.choice(keys, rng.integers(2, min(9, len(keys))),
                               replace=False))
    arrs = [str(a) for a in dict.fromkeys(arrs)]
    rng.shuffle(arrs)
    over = {}
    for k in arrs:
        f = rng.uniform(.85, 1.15, n)
        base = p[k] if p[k] != 0. else 1.0
        if k in gen.GAINS:
            vals = [float(t) for t in rng.normal(size=n) * 10]
        elif k == 'v':
            vals = [float(t) for t in rng.uniform(.3, 10, n)]
        else:
            vals = [float(base * t) for t in f]
        if k == 'v' and rng.random() < .3:
            vals = [int(t) + 1 for t in vals]
        form = rng.integers(4)
        over[k] = (np.array(vals) if form < 2 else
                   list(vals) if form == 2 else tuple(vals))
    scal = [str(k) for k in rng.choice(keys, rng.integers(0, 4), replace=False)
            if k not in over]
    for k in scal:
        base = p[k] if p[k] != 0. else 1.0
        v = float(base * rng.uniform(.9, 1.1))
        if k == 'v':
            v = [float(rng.uniform(1, 9)), int(rng.integers(1, 9)),
                 np.float64(3.3)][rng.integers(3)]
        over[k] = v
    items = list(over.items())
    rng.shuffle(items)
    return dict(items), arrs


def snapshot(over):
    return {k: (type(v).__name__, np.array(v).tolist()) for k, v in
            over.items()}


def evaluators(kind, m):
    ev = [('state-space', m.form_state_space_matrices, {}),
          ('eigen', m.calc_eigen, {}),
          ('left-eigen', m.calc_eigen, {'left': True})]
    if kind != 'riderlean':
        ev.append(('canonical', m.form_reduced_canonical_matrices, {}))
    return ev


SPEED_ONLY = set(['v', 'g'] + gen.GAINS)


def same(mon, key, name, got, want):
    """got, want: tuples of arrays for one point."""
    for k, (a, b) in enumerate(zip(got, want)):
        if name.endswith('eigen') and k == 1:
            continue   # vectors may be scaled; their pairing is C02's
        a, b = np.asarray(a), np.asarray(b)
        if name.endswith('eigen'):
            a, b = np.sort_complex(a), np.sort_complex(b)
            # multiple eigenvalues amplify round-off
            scale = np.abs(b).max() + 1
            if not mon.check(a.shape == b.shape, key + ':shape'):
                continue
            d = np.abs(a[:, None] - b[None, :]).min(1)
            mon.close(d, np.zeros(len(d)), key, atol=1e-6 * scale)
        else:
            mon.close(a, b, key, rtol=1e-9,
                      atol=1e-12 * (np.abs(b).max() + 1e-300))


def pointwise(mon, rng, i):
    kind = models.KINDS[i % 3]
    m, p = models.make(kind, rng)
    n = int(rng.integers(1, 7)) if kind != 'riderlean' else \
        int(rng.integers(1, 4))
    over, arrs = overrides(kind, rng, p, n, i // 3)
    mon.note(kind=kind, p=p, over=over, arrays=arrs)
    before_o, before_p = snapshot(over), dict(m.parameter_set.parameters)
    evs = evaluators(kind, m)
    name, f, kw = evs[(i // 15) % len(evs)] if kind == 'riderlean' else \
        (None, None, None)
    todo = [(name, f, kw)] if name else evs
    for name, f, kw in todo:
        got = mon.call(name, f, **dict(kw, **over))
        key = '%s:%s' % (kind, name)
        if name == 'canonical' and not (set(arrs) - SPEED_ONLY):
            # does not depend on the arrays: one matrix stands for all
            stacked = [np.broadcast_to(x, (n,) + x.shape)
                       if np.ndim(x) == 2 else x for x in got]
        else:
            stacked = got
        ok = True
        for x in stacked:
            ok &= mon.check(np.shape(x)[:1] == (n,), key + ':length',
                            'leading dimension %s, expected %d (arrays: %s)' %
                            (np.shape(x), n, arrs))
        if not ok:
            continue
        for j in range(n):
            point = {k: (v[j] if k in arrs else v) for k, v in over.items()}
            want = mon.call(name, f, **dict(kw, **point))
            same(mon, key, name, [x[j] for x in stacked], want)
            if j == n - 1:
                # also equal to a model that has these values built in
                full = {k: float(v) for k, v in dict(p, **point).items()}
                fresh = models.build(kind, full)
                fn = {a: b for a, b, _ in evaluators(kind, fresh)}[name]
                want = mon.call(name, fn, **kw)
                same(mon, key + ':built-in', name, [x[j] for x in stacked],
                     want)
    mon.check(snapshot(over) == before_o, 'overrides-unchanged',
              'override arrays modified')
    mon.check(dict(m.parameter_set.parameters) == before_p and
              before_p == p, 'parameter-set-unchanged',
              'overrides leaked into the parameter set')
    mon.sig(kind, sorted(p.items()), repr(before_o))


def sweeps(mon, rng, i):
    """Long, fine, repeating and falling arrays of two parameters."""
    kind = models.KINDS[i % 3] if i % 6 < 3 else models.KINDS[i % 2]
    m, p = models.make(kind, rng)
    n = [12, 4][i % 2] if kind == 'riderlean' else [4, 12, 60, 300][i % 4]
    pool = {'riderlean': ['v', 'mf', 'rr', 'l1', 'g']}.get(
        kind, ['v', 'g', 'w', 'IBxx', 'c', 'mF', 'lam'] +
        (gen.GAINS[:3] if kind == 'feedback' else []))
    keys = [str(k) for k in rng.permutation(pool)[:1 + int(rng.integers(2))]
            if k in p]
    keys = keys or ['v']
    over = {}
    for k in keys:
        style = gen.SWEEPS[int(rng.integers(len(gen.SWEEPS)))]
        base = rng.uniform(2., 7.) if k == 'v' else p[k]
        over[k] = gen.sweep(rng, base, n, style)
        mon.note(**{k: style})
    mon.note(kind=kind, p=p, n=n)
    mon.sig(kind, n, [(k, float(v[0]), float(v[-1])) for k, v in
                      over.items()])
    A, B = mon.call('state space', m.form_state_space_matrices, **over)
    w, _ = mon.call('eigen', m.calc_eigen, **over)
    if not mon.check(len(A) == len(B) == len(w) == n, 'sweeps:length'):
        return
    pick = range(n) if n <= 12 else sorted(
        set(rng.integers(0, n, 12).tolist()) | {0, 1, n - 2, n - 1})
    for k in pick:
        point = {q: float(v[k]) for q, v in over.items()}
        a, b = m.form_state_space_matrices(**point)
        mon.close(A[k], a, 'sweeps:A', rtol=1e-11,
                  atol=1e-11 * np.abs(a).max())
        mon.close(B[k], b, 'sweeps:B', rtol=1e-11,
                  atol=1e-11 * np.abs(b).max())
        same(mon, 'sweeps:eigen', 'eigen', [w[k]], [m.calc_eigen(**point)[0]])


def history(mon, rng, i):
    """Many calls on one model: none influences a later one."""
    kind = models.KINDS[i % 3]
    m, p = models.make(kind, rng)
    ncalls = 4 if kind == 'riderlean' else 10
    trace = []
    ref = models.build(kind, p).form_state_space_matrices()
    for c in range(ncalls):
        n = int(rng.integers(1, 5))
        over, arrs = overrides(kind, rng, p, n, int(rng.integers(5)))
        evs = evaluators(kind, m)
        name, f, kw = evs[rng.integers(len(evs))]
        action = rng.integers(4)
        trace.append([name, int(action), sorted(over)])
        if action == 0:
            over = {}
        elif action == 1:
            over = {k: v for k, v in over.items() if k not in arrs}
        elif action == 2:
            # refused call must leave no trace
            ks = [k for k in ('v', 'g')]
            bad = dict(over, **{ks[0]: np.ones(3), ks[1]: np.ones(4)})
            mon.raises(ValueError, 'length-mismatch', f, **dict(kw, **bad))
            continue
        got = mon.call(name, f, **dict(kw, **over))
        fresh = models.build(kind, p)
        fn = {a: b for a, b, _ in evaluators(kind, fresh)}[name]
        want = mon.call(name, fn, **dict(kw, **over))
        for a, b in zip(got, want):
            mon.close(a, b, 'history', rtol=1e-12, atol=1e-14)
        got = mon.call('state space', m.form_state_space_matrices)
        for a, b in zip(got, ref):
            mon.close(a, b, 'history:default-result', rtol=0,
                      msg='result without overrides changed after %s' % trace)
    mon.check(dict(m.parameter_set.parameters) == p,
              'history:parameter-set-unchanged')
    mon.note(kind=kind, trace=trace)
    mon.sig(kind, sorted(p.items()), trace)


def refused(mon, rng, i):
    kind = models.KINDS[i % 3]
    m, p = models.make(kind, rng)
    keys = sorted(p)
    evs = evaluators(kind, m)
    name, f, kw = evs[(i // 3) % len(evs)]
    base = mon.call(name, f, **kw)
    # unknown names: ignored with a warning
    bad = ['nonsense', 'mX', 'V', 'speed', 'IBxz ', 'm', 'iFxx',
           'IRzz', 'yB', 'lP'][rng.integers(10)]
    val = [1.0, np.arange(1., 4.), [2., 3.], 'text'][rng.integers(4)]
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter('always')
        got = mon.call(name + '(unknown)', f, **dict(kw, **{bad: val}))
    mon.check(any(bad in str(w.message) for w in rec), 'unknown-warns',
              'no warning naming %r' % bad)
    for a, b in zip(got, base):
        mon.close(a, b, 'unknown-ignored', rtol=0, bad=bad)
    mon.check(dict(m.parameter_set.parameters) == p, 'unknown-not-stored')
    # also beside arrays, of which it need not have the length
    k = str(rng.choice(keys))
    one = dict(kw, **{k: np.full(2, p[k])})
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for order in (dict({bad: val}, **one), dict(one, **{bad: val})):
            got = mon.call(name + '(unknown)', f, **order)
            for a, b in zip(got, f(**one)):
                mon.close(a, b, 'unknown-ignored:arrays', rtol=0, bad=bad)
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter('always')
        mon.call(name, f, **dict(kw, v=2.5))
    mon.check(not any('not a valid parameter' in str(w.message) for w in rec),
              'known-does-not-warn')
    # arrays of different lengths
    k1, k2 = [str(k) for k in rng.choice(keys, 2, replace=False)]
    n1 = int(rng.integers(1, 6))
    n2 = n1 + int(rng.integers(1, 4))
    if rng.random() < .5:
        n1, n2 = n2, n1
    over = {k1: np.full(n1, p[k1] or 1.), k2: [p[k2] or 1.] * n2}
    if rng.random() < .5:
        k3 = str(rng.choice([k for k in keys if k not in (k1, k2)]))
        over[k3] = np.full(n1, p[k3] or 1.)
    mon.note(kind=kind, over=over, bad=bad, val=val)
    mon.raises(ValueError, 'length-mismatch', f, **dict(kw, **over))
    mon.check(dict(m.parameter_set.parameters) == p, 'refused-not-stored')
    mon.sig(kind, name, bad, repr(val), k1, k2, n1, n2)


def sessions(mon, rng, i):
    kinds = models.KINDS
    session.run(mon, rng, kinds[i % len(kinds)],
                'form_state_space_matrices')


GROUPS = [('pointwise', 1800, 36000, pointwise),
          ('sweeps', 288, 5760, sweeps), ('history', 180, 3600, history),
          ('refused', 360, 7200, refused),
          ('sessions', 240, 4800, sessions)]
MINIMUM = {'whipple:state-space': 300, 'feedback:state-space': 300,
           'riderlean:state-space': 60, 'length-mismatch': 100,
           'unknown-warns': 100, 'history': 100}
