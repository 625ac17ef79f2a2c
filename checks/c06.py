"""C06 tracking modes over a sweep permutes eigenpairs and loses none."""
import numpy as np

from bicycleparameters.bicycle import sort_eigenmodes, sort_modes
from vp import gen, models

TECHNIQUE = 'runtime monitor: conservation (exactly-once) and continuity checker over recorded eigenpair sequences'
LEVEL_NOTE = 'Exactly-once is decided for every observed step; continuity only where the generated curves are well separated, as stated.'
RULE = ('sequences of spectra: random, coarse and fine sweeps of real models, '
        'merging/splitting pairs, repeated values, clusters that compete for '
        'the same nearest value, and smooth well separated curves given in '
        'shuffled order; vectors are tagged so that every column can be '
        'recognised; distinct by the sequence')


def tagged(rng, evals):
    """Vectors whose columns are unique, so that pairs can be recognised."""
    n, m = evals.shape
    return rng.normal(size=(n, m, m)) + 1j * rng.normal(size=(n, m, m))


def permutation(mon, evals, evecs, se, sv, key):
    n, m = evals.shape
    if not mon.check(se.shape == evals.shape and sv.shape == evecs.shape,
                     key + ':shape'):
        return None
    perms = []
    for i in range(n):
        mon.obs[key + ':step'] += 1
        # identify each output column by its vector
        used = []
        for j in range(m):
            hits = [k for k in range(m)
                    if np.array_equal(sv[i, :, j], evecs[i, :, k])]
            if not hits:
                mon.violate(key + ':vector-unknown',
                            'step %d mode %d is no vector of that step' %
                            (i, j))
                return None
            k = hits[0]
            if not (se[i, j] == evals[i, k] or
                    (np.isnan(se[i, j]) and np.isnan(evals[i, k]))):
                mon.violate(key + ':pairing', 'step %d mode %d: vector of '
                            'another eigenvalue' % (i, j),
                            value=se[i, j], wanted=evals[i, k])
                return None
            used.append(k)
        if sorted(used) != list(range(m)):
            mon.violate(key + ':lost', 'step %d: eigenpairs %s returned '
                        'instead of each once' % (i, used),
                        evals=evals[i], prev=se[i - 1])
            return None
        perms.append(used)
    mon.check(perms[0] == list(range(m)), key + ':first-step-order')
    return perms


def split(mon, evals, evecs):
    """Runs sort_modes and reassembles the documented modes."""
    weave, capsize, caster = mon.call('sort_modes', sort_modes, evals, evecs)
    n = len(evals)
    ok = mon.check(weave['evals'].shape == (n, 2) and
                   weave['evecs'].shape == (n, 4, 2), 'modes:weave-shape')
    for d in (capsize, caster):
        ok &= mon.check(d['evals'].shape == (n,) and
                        d['evecs'].reshape(n, 4).shape == (n, 4),
                        'modes:real-shape')
    if not ok:
        return None
    e = np.empty((n, 4), complex)
    v = np.empty((n, 4, 4), complex)
    e[:, 0], e[:, 1], e[:, 2:] = (caster['evals'], capsize['evals'],
                                  weave['evals'])
    v[:, :, 0] = caster['evecs'].reshape(n, 4)
    v[:, :, 1] = capsize['evecs'].reshape(n, 4)
    v[:, :, 2:] = weave['evecs']
    return e, v


def run(mon, evals, evecs, key):
    ke, kv = evals.copy(), evecs.copy()
    out = []
    got = mon.call('sort', sort_eigenmodes, evals, evecs)
    out.append((permutation(mon, ke, kv, got[0], got[1], key), got[0]))
    if evals.shape[1] == 4:
        r = split(mon, evals, evecs)
        if r is not None:
            out.append((permutation(mon, ke, kv, r[0], r[1],
                                    key + ':modes'), r[0]))
    mon.check(np.array_equal(evals, ke, equal_nan=True) and
              np.array_equal(evecs, kv), 'inputs-unchanged')
    return out


def rand(mon, rng, i):
    m = [4, 4, 2, 3, 5, 12, 1][i % 7]
    n = int(rng.integers(1, 12))
    style = i % 5
    if style == 0:
        evals = rng.normal(size=(n, m)) + 1j * rng.normal(size=(n, m))
    elif style == 1:          # real spectra
        evals = rng.normal(size=(n, m)).astype(complex)
    elif style == 2:          # many ties
        evals = rng.integers(-2, 3, (n, m)) + 1j * rng.integers(-1, 2, (n, m))
    elif style == 3:          # clusters competing for one value
        c = rng.normal(size=m) * 5
        evals = c + .01 * rng.normal(size=(n, m)) + 0j
        evals[:, 0] = evals[:, -1]
        for r in range(1, n):
            evals[r] = np.where(rng.random(m) < .6, c[0], evals[r])
    else:                     # all modes nearest to the same next value
        evals = np.zeros((n, m), complex)
        for r in range(n):
            evals[r] = (10. * rng.permutation(m) if r % 2 else
                        .1 * rng.normal(size=m))
    evals = evals.astype(complex)
    mon.note(n=n, m=m, style=style, first=evals[0])
    run(mon, evals, tagged(rng, evals), 'permutation')
    mon.sig(evals.tolist())


def sweep(mon, rng, i):
    kind = models.KINDS[i % 3] if i % 9 == 2 else models.KINDS[i % 2]
    m, p = models.make(kind, rng)
    n = int(rng.choice([3, 6, 21, 60])) if kind != 'riderlean' else 6
    lo = .3 if kind == 'riderlean' else rng.choice([0., -2., .5])
    v = np.linspace(lo, rng.uniform(4, 12), n)
    over = {'v': v}
    if i % 4 == 3:
        k = 'c' if kind != 'riderlean' else 'd3'
        over = {k: np.linspace(.5, 1.6, n) * p[k], 'v': 4.}
    evals, evecs = m.calc_eigen(**over)
    mon.note(kind=kind, p=p, n=n)
    # tag vectors so that repeated vectors stay recognisable
    run(mon, evals, evecs + 0 if kind != 'riderlean' else
        tagged(rng, evals), 'sweep')
    mon.sig(kind, sorted(p.items()), n)


def smooth(mon, rng, i):
    """Well separated smooth curves in shuffled order: every mode is tracked
    as its own continuation."""
    m = [4, 4, 3, 6][i % 4]
    n = int(rng.integers(5, 60))
    s = np.linspace(0, 1, n)
    centres = []
    while len(centres) < m:
        c = rng.uniform(-20, 20) + 1j * rng.uniform(-20, 20)
        if all(abs(c - d) > 4. for d in centres):
            centres.append(c)
    true = np.zeros((n, m), complex)
    for k, c in enumerate(centres):
        # common drift (may exceed the separation) plus small own motion
        own = .8 * (np.sin(2 * s * rng.uniform(.2, 1) + rng.uniform(0, 6)) +
                    1j * np.sin(2 * s * rng.uniform(.2, 1)))
        true[:, k] = c + own
    total = rng.uniform(0, .9) * (n - 1) if i % 2 else rng.uniform(0, 10)
    drift = total * s * np.exp(1j * rng.uniform(0, 6.28))
    true = true + drift[:, None]
    step = np.abs(np.diff(true, axis=0)).max() if n > 1 else 0
    sep = min(abs(true[r, a] - true[r, b]) for r in range(n)
              for a in range(m) for b in range(a))
    if step > .45 * sep:
        return
    evals = np.zeros_like(true)
    perm = [rng.permutation(m) for _ in range(n)]
    for r in range(n):
        evals[r] = true[r, perm[r]]
    evecs = tagged(rng, evals)
    mon.note(n=n, m=m, sep=sep, step=step)
    for perms, se in run(mon, evals, evecs, 'smooth'):
        if perms is None:
            continue
        want = true[:, perm[0]]
        mon.close(se, want, 'continuous', rtol=0, atol=1e-12)
    mon.sig(evals.tolist())


def conjugate(mon, rng, i):
    """Conjugate pairs that merge on the real axis and split again."""
    n = int(rng.integers(8, 60))
    s = np.linspace(-1, 1, n)
    d = s - rng.uniform(-.5, .5)
    w = np.sqrt(d.astype(complex)) * rng.uniform(.5, 5)
    a = rng.uniform(-2, 2) + s * rng.uniform(-1, 1)
    r1 = -8 - s
    r2 = np.where(rng.random() < .5, a.real + .3 * s, 6. + s)
    true = np.stack([r1, r2 + 0j, a + w, a - w], axis=1)
    evals = true.copy()
    for r in range(n):
        evals[r] = evals[r, rng.permutation(4)]
    mon.note(n=n)
    run(mon, evals, tagged(rng, evals), 'merging')
    mon.sig(evals.tolist())


GROUPS = [('rand', 4000, 160000, rand), ('sweep', 720, 28800, sweep),
          ('smooth', 2400, 96000, smooth), ('conjugate', 800, 32000, conjugate)]
MINIMUM = {'permutation:step': 1000, 'sweep:step': 500, 'smooth:step': 2000,
           'continuous': 150, 'merging:step': 500,
           'permutation:modes:step': 300}
