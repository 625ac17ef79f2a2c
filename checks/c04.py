"""C04 feedback model is the open-loop model closed with u = -K x."""
import numpy as np

from bicycleparameters.models import Meijaard2007WithFeedbackModel
from bicycleparameters.parameter_sets import Meijaard2007ParameterSet
from vp import gen, models, ref, session

TECHNIQUE = 'runtime monitor: A - B K oracle built from the documented gain layout'
LEVEL_NOTE = 'Closed-loop matrices observed equal A - B K to round-off for the generated gains; open-loop matrices are taken from both the library and the independent reference.'
RULE = ('random bicycles with random subsets of the eight gains (scalar or '
        'array valued, alone and mixed with array valued speed, gravity and '
        'bicycle parameters); distinct by parameters, gains and arrays; '
        'non-trivial when at least one gain is non-zero')
ASSUMPTIONS = ['open-loop matrices come from vp/ref.py and, separately, from '
               'the open-loop model itself']

# documented position of each gain: torque row x state column
ROW = {'kTphi': 0, 'kTdel': 1}
COL = {'phi': 0, 'del': 1, 'phid': 2, 'deld': 3}


def gain_matrix(p):
    K = np.zeros((2, 4))
    for g in gen.GAINS:
        t, s = g.split('_')
        K[ROW[t], COL[s]] = p[g]
    return K


def closed(p):
    A, B = ref.state_space(*ref.whipple(p), v=p['v'], g=p['g'])
    return A - B @ gain_matrix(p), B, A


def comp(mon, A, B, p, key, open_model=None):
    Ac, Br, Ao = closed(p)
    K = gain_matrix(p)
    scale = np.abs(Ao).max() + np.abs(Br).max() * (np.abs(K).max() + 1)
    mon.close(A, Ac, key + ':A', rtol=1e-9, atol=1e-11 * scale)
    mon.close(B, Br, key + ':B', rtol=1e-9, atol=1e-11 * np.abs(Br).max())
    if open_model is not None:
        q = {k: v for k, v in p.items() if k not in gen.GAINS}
        Aom, Bom = open_model.form_state_space_matrices(**q)
        mon.close(A, Aom - Bom @ K, key + ':open-minus-BK', rtol=1e-10,
                  atol=1e-13 * scale)
        mon.close(B, Bom, key + ':same-B', rtol=1e-12)


def base(rng, i):
    p = gen.whipple_par(rng, ['ordinary', 'wide', 'aligned', 'equalwheels',
                              'skate'][i % 5])
    gen.pop_profile(p)
    gains = {k: 0.0 for k in gen.GAINS}
    mode = i % 3
    if mode == 0:
        gains = {k: float(rng.normal() * 10**rng.uniform(-1, 2))
                 for k in gen.GAINS}
    elif mode == 1:
        gains[gen.GAINS[(i // 3) % 8]] = float(rng.normal() * 20 + 1)
    if i % 9 in (3, 4):
        # gains that cancel each other, or negative ones only
        a, b = [str(k) for k in rng.choice(gen.GAINS, 2, replace=False)]
        gains = dict.fromkeys(gen.GAINS, 0.)
        gains[a] = float(rng.normal() * 20)
        gains[b] = -gains[a]
    elif i % 9 == 6:
        gains = {k: -abs(v) for k, v in gains.items()}
    elif i % 27 == 10:
        gains = {k: v * 1e-7 for k, v in gains.items()}
    return p, gains


def scalar(mon, rng, i):
    p, gains = base(rng, i)
    full = dict(p, **gains)
    om = models.build('whipple', p)
    way = i % 4
    over = {}
    if way == 0:
        m = models.build('feedback', full)
        if rng.random() < .5:
            # others for this call, or switched off
            for k in rng.choice(gen.GAINS, int(rng.integers(1, 9))):
                k = str(k)
                full[k] = over[k] = [0., -gains[k], float(rng.normal() * 9),
                                     0][int(rng.integers(4))]
                full[k] = float(full[k])
    else:
        # from a set without gains: gains are zero until overridden
        m = Meijaard2007WithFeedbackModel(
            Meijaard2007ParameterSet(dict(p), True))
        A, B = mon.call('zero-gain', m.form_state_space_matrices)
        Ao, Bo = om.form_state_space_matrices()
        mon.close(A, Ao, 'zero-gain:A', rtol=1e-12, atol=1e-14)
        mon.close(B, Bo, 'zero-gain:B', rtol=1e-12)
        over = {k: v for k, v in gains.items() if v != 0. or way == 2}
    if way >= 2:
        over['v'] = [float(rng.uniform(-5, 10)), 3, 0.][i % 3]
        full['v'] = float(over['v'])
    if way == 3:
        over['mB'] = p['mB'] * 1.2
        full['mB'] = p['mB'] * 1.2
        over['g'] = full['g'] = 3.7
    mon.note(p=p, gains=gains, over=over)
    A, B = mon.call('scalar', m.form_state_space_matrices, **over)
    comp(mon, A, B, full, 'scalar', om)
    # the closed loop is what the eigenvalues belong to
    w, _ = mon.call('scalar', m.calc_eigen, **over)
    mon.close(np.sum(w), np.trace(closed(full)[0]), 'eigen-of-closed-loop',
              rtol=1e-7, atol=1e-7 * (1 + np.abs(w).max()))
    if any(gains.values()):
        mon.sig(sorted(full.items()), sorted(over))


def arrays(mon, rng, i):
    p, gains = base(rng, i)
    full = dict(p, **gains)
    om = models.build('whipple', p)
    m = models.build('feedback', full)
    n = int(rng.integers(1, 7))
    ng = int(rng.integers(0, 9))
    arrs = [str(k) for k in rng.choice(gen.GAINS, ng, replace=False)]
    extra = [[], ['v'], ['g'], ['v', 'g'], ['mB'], ['v', 'c'],
             ['IBxz', 'xB', 'v']][i % 7]
    arrs += extra
    if not arrs:
        arrs = ['v']
    over = {}
    for k in arrs:
        if k in gen.GAINS:
            over[k] = rng.normal(size=n) * 10**rng.uniform(-1, 2)
        elif k == 'v':
            over[k] = rng.uniform(0, 10, n)
        else:
            over[k] = p[k] * rng.uniform(.9, 1.1, n)
        if rng.random() < .3:
            over[k] = [float(t) for t in over[k]]
    if ng > 4 and i % 2:
        # some of them in whole numbers
        for k in arrs:
            if k in gen.GAINS and rng.random() < .7:
                over[k] = [int(t) for t in np.round(over[k])]
                if rng.random() < .3:
                    over[k] = np.array(over[k])
                elif n > 1:
                    over[k][int(rng.integers(1, n))] += .5
    for k in rng.choice(gen.GAINS, 3, replace=False):
        k = str(k)
        if k not in over and rng.random() < .7:
            over[k] = float(rng.normal() * 20)
    items = list(over.items())
    rng.shuffle(items)
    over = dict(items)
    mon.note(p=p, gains=gains, over=over)
    A, B = mon.call('arrays', m.form_state_space_matrices, **over)
    if not mon.check(np.shape(A) == (n, 4, 4) and np.shape(B) == (n, 4, 2),
                     'arrays:shape', '%s %s' % (np.shape(A), np.shape(B))):
        return
    for j in range(n):
        q = dict(full)
        for k, v in over.items():
            q[k] = float(v[j]) if k in arrs else float(v)
        comp(mon, A[j], B[j], q, 'arrays', om)
    mon.sig(sorted(full.items()), sorted(arrs), n)


def sessions(mon, rng, i):
    kinds = ['feedback']
    session.run(mon, rng, kinds[i % len(kinds)],
                'form_state_space_matrices')


GROUPS = [('scalar', 3000, 180000, scalar), ('arrays', 4000, 240000, arrays),
          ('sessions', 240, 4800, sessions)]
MINIMUM = {'scalar:A': 300, 'arrays:A': 800, 'zero-gain:A': 100}
