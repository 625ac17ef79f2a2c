"""C02 reported eigenvalues and eigenvectors solve the reported system."""
import numpy as np

from bicycleparameters.bicycle import benchmark_par_to_canonical, ab_matrix
from bicycleparameters.main import Bicycle
from bicycleparameters.models import Meijaard2007Model
from bicycleparameters.parameter_sets import Meijaard2007ParameterSet
from vp import gen, models, session, world

TECHNIQUE = 'runtime monitor: eigen-residual, biorthogonality and multiplicity oracle on every reported eigenpair'
LEVEL_NOTE = 'Residual |A v - lambda v| of each reported pair is bounded for all observed models, bicycles, speeds; tolerance 1e-6 relative; clusters of defective eigenvalues are compared by characteristic polynomial/matching with a looser tolerance.'
RULE = ('random parameter sets x three models x scalar/array speeds x '
        'left/right, and bicycles (shipped and generated, with and without '
        'rider) x float/int/list/array speeds; every reported eigenpair is '
        'one observation; distinct by parameters and speeds')


def eigenpairs(mon, A, evals, evecs, key):
    n = A.shape[0]
    if not mon.check(evals.shape == (n,) and evecs.shape == (n, n),
                     key + ':shape', 'shapes %s %s' % (evals.shape,
                                                       evecs.shape)):
        return
    scale = np.abs(A).max() + 1.0
    norms = np.linalg.norm(evecs, axis=0)
    mon.check(np.all(norms > 1e-8), key + ':nonzero-vector')
    R = (A @ evecs - evecs * evals[None, :]) / norms
    mon.count(key + ':pairs', n)
    mon.close(R, np.zeros_like(R), key + ':residual', atol=1e-9 * scale)
    # all eigenvalues with their multiplicity: power sums
    P = np.eye(n)
    for k in range(1, n + 1):
        P = P @ A
        s = np.linalg.norm(A, 2)**k
        mon.close(np.sum(evals**k), np.trace(P), key + ':multiplicity',
                  atol=1e-8 * max(s, 1e-6) * n)
    # distinct eigenvalues have independent vectors
    d = np.abs(evals[:, None] - evals[None, :]) + 1e9 * np.eye(n)
    if d.min() > 1e-2:
        mon.check(np.linalg.svd(evecs / norms)[1][-1] > 1e-12,
                  key + ':independent')


def model(mon, rng, i):
    kind = models.KINDS[i % 3]
    m, p = models.make(kind, rng)
    left = bool((i // 3) % 2)
    over = {}
    arr = (i // 6) % 2
    if arr:
        over['v'] = np.sort(rng.uniform(-2 if kind != 'riderlean' else .2,
                                        10, 4))
    elif i % 5 == 0:
        over['v'] = float(rng.uniform(0.1, 10))
    if i % 4 == 0:
        k = 'mf' if kind == 'riderlean' else 'mF'
        over[k] = (np.linspace(1, 4, 4) if arr else 2.5)
    mon.note(kind=kind, left=left, p=p, over=over)
    A, B = mon.call('state space', m.form_state_space_matrices, **over)
    if left:
        evals, evecs = mon.call('eigen', m.calc_eigen, left=True, **over)
    else:
        evals, evecs = mon.call('eigen', m.calc_eigen, **over)
    key = '%s:%s' % (kind, 'left' if left else 'right')
    if arr:
        if not mon.check(evals.shape == A.shape[:2] and
                         evecs.shape == A.shape, key + ':array-shape'):
            return
    else:
        A, evals, evecs = A[None], evals[None], evecs[None]
    for Ai, w, v in zip(A, evals, evecs):
        eigenpairs(mon, Ai.T if left else Ai, w, v, key)
    mon.sig(kind, left, sorted(p.items()), repr(over))


def sweep(mon, rng, i):
    """Long and odd sweeps: every pair belongs to the matrix of its point."""
    kind = models.KINDS[i % 3] if i % 6 < 3 else models.KINDS[i % 2]
    m, p = models.make(kind, rng)
    left = bool((i // 3) % 2)
    style = gen.SWEEPS[(i // 2) % len(gen.SWEEPS)]
    n = {'riderlean': 12}.get(kind, [4, 60, 400][i % 3])
    key = 'v' if rng.random() < .6 else {
        'riderlean': 'mf'}.get(kind, str(rng.choice(['mF', 'g', 'IBxx', 'w'])))
    x = gen.sweep(rng, rng.uniform(2., 7.) if key == 'v' else p[key], n,
                  style)
    if kind != 'riderlean' and i % 5 == 0:
        x = -x if key == 'v' else x
    mon.note(kind=kind, left=left, p=p, key=key, style=style, n=n, x0=x[0])
    mon.sig(kind, left, style, key, n, x[0])
    A, B = mon.call('state space', m.form_state_space_matrices, **{key: x})
    w, V = mon.call('eigen', m.calc_eigen, left=left, **{key: x})
    if mon.check(w.shape == A.shape[:2] and V.shape == A.shape,
                 'sweep:shape'):
        for k in range(n) if n < 70 else \
                list(range(0, n, 37)) + [n - 2, n - 1]:
            eigenpairs(mon, A[k].T if left else A[k], w[k], V[k], 'sweep')
            one = m.form_state_space_matrices(**{key: float(x[k])})[0]
            mon.close(A[k], one, 'sweep:point', rtol=1e-11,
                      atol=1e-11 * np.abs(one).max())


def match(mon, a, b, key):
    """Same multiset of eigenvalues."""
    from scipy.optimize import linear_sum_assignment
    a, b = np.asarray(a), np.asarray(b)
    d = np.abs(a[:, None] - b[None, :])
    r, c = linear_sum_assignment(d)
    mon.close(d[r, c], np.zeros(len(r)), key,
              atol=1e-5 * (1 + np.abs(a).max()))


def bicycle(mon, rng, i):
    shipped = [b for b in world.shipped_with_benchmark() if b != 'Tms']
    riders = [('Browser', 'Jason'), ('Rigid', 'Jason'),
              ('Balanceassistv1', 'Jason')]
    rider = None
    if i < len(riders):
        name, rider = riders[i]
        world.copy_shipped('.', [name], [rider])
    elif i < len(riders) + len(shipped):
        name = shipped[i - len(riders)]
        world.copy_shipped('.', [name])
    else:
        name = 'Testbike'
        p = gen.whipple_par(rng, rng.choice(['ordinary', 'wide', 'reverse',
                                             'skate']))
        gen.pop_profile(p)
        p.pop('v')
        world.make_bicycle('.', name, p if i % 2 else
                           gen.ufloatify(rng, p))
    b = mon.call('bicycle', Bicycle, name, pathToData='.')
    if rider:
        mon.call('bicycle', b.add_rider, rider)
        mon.check(b.hasRider, 'rider-added')
    par = {k: float(v) for k, v in
           world.nominal_dict(b.parameters['Benchmark']).items()}
    mon.note(bicycle=name, rider=rider, p=par)
    mp = dict(par, v=1.0)
    mp.setdefault('IByy', 1.)
    mp.setdefault('IHyy', 1.)
    mod = Meijaard2007Model(Meijaard2007ParameterSet(mp, bool(rider)))
    vs = sorted(rng.uniform(-3, 12, 4)) + [0., 5.]
    forms = [('list', [float(v) for v in vs], vs),
             ('array', np.array(vs), vs),
             ('tuple', tuple(vs), vs),
             ('float', 4.5, [4.5]),
             ('npfloat', np.float64(4.5), [4.5]),
             ('int', 5, [5.]),
             ('intlist', [1, 2, 7], [1., 2., 7.]),
             ('npint', np.int64(3), [3.]),
             ('single', [6.], [6.])]
    M = benchmark_par_to_canonical(dict(par))
    for fname, arg, speeds in forms:
        evals, evecs = mon.call('bicycle.eig(%s)' % fname, b.eig, arg)
        if not mon.check(evals.shape == (len(speeds), 4) and
                         evecs.shape == (len(speeds), 4, 4),
                         'bicycle:shape', '%s: %s %s' % (
                             fname, evals.shape, evecs.shape)):
            continue
        for v, w, x in zip(speeds, evals, evecs):
            A, B = mon.call('bicycle.state_space', b.state_space, float(v),
                            nominal=True)
            A, B = np.array(A, float), np.array(B, float)
            eigenpairs(mon, A, w, x, 'bicycle')
            if fname not in ('array', 'int'):
                continue
            Au, Bu = mon.call('bicycle.state_space', b.state_space, float(v))
            Am, Bm = mod.form_state_space_matrices(v=float(v))
            Af, Bf = ab_matrix(*M, float(v), par['g'])
            tol = dict(rtol=1e-9, atol=1e-9 * np.abs(A).max())
            mon.close(A, Am, 'same:A-model', **tol)
            mon.close(B, Bm, 'same:B-model', **tol)
            mon.close(Af, Am, 'same:A-function', **tol)
            mon.close(Bf, Bm, 'same:B-function', **tol)
            nomA = np.array([[float(world.nominal(e)) for e in r] for r in Au])
            nomB = np.array([[float(world.nominal(e)) for e in r] for r in Bu])
            mon.close(nomA, A, 'same:A-uncertain', **tol)
            mon.close(nomB, B, 'same:B-uncertain', **tol)
            we, _ = mod.calc_eigen(v=float(v))
            match(mon, w, we, 'same:spectrum')
            wf, _ = mod.calc_eigen(left=True, v=float(v))
            match(mon, wf, we, 'same:left-spectrum')
    # the same question again after a parameter was edited
    k = str(rng.choice(['c', 'lam', 'g', 'mB', 'xH', 'IFyy', 'rR', 'IHzz']))
    bp = b.parameters['Benchmark']
    old = bp[k]
    bp[k] = old * 1.02 + 1e-3
    ask = rng.choice(len(forms))
    evals, evecs = mon.call('bicycle.eig', b.eig, forms[ask][1])
    for v, w, x in zip(forms[ask][2], evals, evecs):
        A, B = mon.call('bicycle.state_space', b.state_space, float(v),
                        nominal=True)
        want = mod.form_state_space_matrices(
            v=float(v), **{k: float(world.nominal(bp[k]))})[0]
        mon.close(np.array(A, float), want, 'edited:A', rtol=1e-9,
                  atol=1e-9 * np.abs(want).max())
        eigenpairs(mon, want, w, x, 'edited')
    bp[k] = old
    # array call against scalar calls
    wa, _ = mon.call('bicycle.eig', b.eig, np.array(vs))
    ma, _ = mod.calc_eigen(v=np.array(vs))
    for v, w1, w2 in zip(vs, wa, ma):
        w0, _ = b.eig(float(v))
        match(mon, w0[0], w1, 'same:sequence')
        match(mon, w2, w1, 'same:model-sequence')
    mon.sig(name, rider, sorted(par.items()), vs)


def sessions(mon, rng, i):
    kinds = models.KINDS
    session.run(mon, rng, kinds[i % len(kinds)],
                'calc_eigen')


GROUPS = [('model', 1200, 30000, model), ('sweep', 384, 9600, sweep),
          ('bicycle', 160, 4000, bicycle),
          ('sessions', 240, 4800, sessions)]
MINIMUM = {'whipple:right:pairs': 200, 'whipple:left:pairs': 200,
           'feedback:right:pairs': 100, 'riderlean:right:pairs': 300,
           'riderlean:left:pairs': 300, 'bicycle:pairs': 1000,
           'same:spectrum': 40, 'rider-added': 3}
