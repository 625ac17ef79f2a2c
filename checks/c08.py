"""C08 parameterisation conversions describe the same physical bicycle."""
import copy
import numpy as np

from bicycleparameters import parameter_sets as ps, parameter_dicts as pd
from bicycleparameters.models import (Meijaard2007Model,
                                      Meijaard2007WithFeedbackModel)
from vp import again, gen, ref
from checks import c07

TECHNIQUE = ('runtime monitor: rigid-body oracle on every conversion, source '
             'snapshots, dynamics compared with an independent model')
LEVEL_NOTE = ('Bodies, geometry and dynamics of every converted set observed '
              'are compared with the physical bodies of the source set; the '
              'Moore2012 set is read through an independent inverse mapping.')
RULE = ('random principal-axes and benchmark sets (with and without the '
        'optional entries, extra keys, shuffled order) x every target name, '
        'chains of conversions, unavailable names; distinct by parameters '
        'and target')
ASSUMPTIONS = ['bodies are symmetric about the xz plane (optional y '
               'coordinates are absent or zero)']
NAMES = ['Meijaard2007', 'Meijaard2007WithFeedback', 'Moore2012', 'Moore2019',
         'MooreRiderLean2012']


def tensor(p, b):
    """Central inertia of a body given by radii of gyration and angle."""
    R = gen.rot_y(p['alpha' + b])
    return R @ (p['m' + b] * np.diag([p['k%saa' % b]**2, p['k%syy' % b]**2,
                                      p['k%sbb' % b]**2])) @ R.T


def physical_moore2019(p):
    """Whipple parameters of a principal-axes bicycle, from its bodies."""
    D, P = [(p['m' + b], np.array([p['x' + b], 0., p['z' + b]]), tensor(p, b))
            for b in 'DP']
    m, com, I = ref.combine([D, P])
    IH = tensor(p, 'H')
    q = {k: p[k] for k in ('w', 'c', 'lam', 'g', 'v', 'rR', 'rF', 'mR', 'mF',
                           'mH', 'xH', 'zH')}
    q.update(mB=m, xB=com[0], zB=com[2], IBxx=I[0, 0], IByy=I[1, 1],
             IBzz=I[2, 2], IBxz=I[0, 2], IHxx=IH[0, 0], IHyy=IH[1, 1],
             IHzz=IH[2, 2], IHxz=IH[0, 2])
    for b in 'RF':
        q['I%sxx' % b] = p['m' + b] * p['k%saa' % b]**2
        q['I%syy' % b] = p['m' + b] * p['k%syy' % b]**2
    return q


def physical_moore2012(p):
    """Whipple parameters of a steer-axis aligned (Moore 2012) bicycle."""
    z = dict(p, mg=0., d4=0., l5=0., l6=0., ig11=0., ig22=0., ig33=0.,
             ig31=0.)
    z['mg'] = 0.
    q = c07.rigid(z)
    R = gen.rot_y(q['lam'])
    IC = R @ np.array([[p['ic11'], 0, p['ic31']], [0, p['ic22'], 0],
                       [p['ic31'], 0, p['ic33']]]) @ R.T
    q['mB'] = p['mc']
    q.update(IBxx=IC[0, 0], IByy=IC[1, 1], IBzz=IC[2, 2], IBxz=IC[0, 2])
    return q


def compare(mon, got, want, key, rtol=1e-9):
    """Physical comparison of Whipple parameters."""
    for b in 'RF':
        # wheels are alike about all their diameters
        if 'I%szz' % b in got and 'I%sxx' % b in want:
            mon.close(got['I%szz' % b], want['I%sxx' % b], key + ':round',
                      rtol=1e-9)
    size = {'I': 1., 'm': 1., 'x': 1., 'z': 1.}
    for k, w in want.items():
        if k.startswith('I'):
            b = k[1]
            s = max(abs(want.get('I%sxx' % b, 0)), abs(want.get('I%szz' % b,
                                                                 0)),
                    abs(want['I%syy' % b]))
            # combined bodies: cancellation in the parallel axis theorem
            s += want['m' + b] * (abs(want.get('z' + b, 0))**2 +
                                  abs(want.get('x' + b, 0))**2)
        elif k[0] in 'xzwcr':
            s = abs(want['w'])
        elif k == 'lam':
            s = 1.
        else:
            s = abs(w)
        if not mon.check(k in got, key + ':has-' + k):
            continue
        mon.close(got[k], w, key + ':' + k, rtol=rtol, atol=rtol * s)


def dynamics(mon, parset, want, rng, key):
    m = mon.call(key + ':model', Meijaard2007Model, parset)
    v, g = float(rng.uniform(0, 10)), want['g']
    A, B = mon.call(key + ':state-space', m.form_state_space_matrices, v=v)
    Ar, Br = ref.state_space(*ref.whipple(want), v, g)
    cond = np.linalg.cond(ref.whipple(want)[0])
    tol = 1e-9 + 1e-13 * cond
    mon.close(A, Ar, key + ':A', rtol=tol, atol=tol * np.abs(Ar).max())
    mon.close(B, Br, key + ':B', rtol=tol, atol=tol * np.abs(Br).max())


def bodies_of(mon, s, want, key):
    """What the set itself reports about its bodies."""
    bs = ref.bodies(want)
    for b in 'BFHR':
        m, c, I = bs[b]
        mon.close(s.form_mass_center_vector(b), c, key + ':mass-center',
                  rtol=1e-9, atol=1e-9 * want['w'])
        got = np.array(s.form_inertia_tensor(b), float)
        mon.close(got, I, key + ':tensor', rtol=1e-9,
                  atol=1e-9 * (np.abs(I).max() + m * (c @ c)))
    mT, cT, _ = ref.combine(list(bs.values()))
    mon.close(np.array(s.mass_center_of('R', 'B', 'H', 'F'), float), cT,
              key + ':total-center', rtol=1e-9, atol=1e-9 * want['w'])
    mon.close(sum(s.parameters['m' + b] for b in 'BFHR'), mT,
              key + ':total-mass', rtol=1e-12)


def refused(mon, s, names, key):
    for n in names:
        mon.raises(ValueError, key + ':refuses', s.to_parameterization, n)


def moore2019(mon, rng, i):
    p = gen.moore2019_par(rng)
    if i % 4 == 0:
        p.update(yD=0., yP=0., yH=0.)
    elif i % 4 == 1:
        p['yD'] = 0.
    if i % 5 == 0:
        p['extra'] = 3.
    keys = list(p)
    rng.shuffle(keys)
    p = {k: p[k] for k in keys}
    mon.note(par=p)
    before = copy.deepcopy(p)
    s = mon.call('create', again.obj, 'moore2019', lambda:
                 ps.Moore2019ParameterSet(p), again.edited(p))
    want = physical_moore2019(p)
    conv = mon.call('moore2019->meijaard', s.to_parameterization,
                    'Meijaard2007')
    mon.check(type(conv) is ps.Meijaard2007ParameterSet,
              'moore2019->meijaard:type')
    mon.check(conv.parameterization == 'Meijaard2007',
              'moore2019->meijaard:name')
    mon.check(conv.includes_rider is True, 'moore2019->meijaard:rider')
    compare(mon, conv.parameters, want, 'moore2019->meijaard')
    bodies_of(mon, conv, want, 'moore2019->meijaard:bodies')
    dynamics(mon, s, want, rng, 'moore2019->meijaard')
    # body by body
    tot = [b for b in 'DPHFR']
    mT = sum(p['m' + b] for b in tot)
    mon.close(sum(conv.parameters['m' + b] for b in 'BHFR'), mT,
              'moore2019->meijaard:mass', rtol=1e-12)
    mon.close(np.array(conv.mass_center_of('B'), float),
              np.array(s.mass_center_of('P', 'D'), float),
              'moore2019->meijaard:same-center', rtol=1e-9, atol=1e-12)
    fb = mon.call('moore2019->feedback', s.to_parameterization,
                  'Meijaard2007WithFeedback')
    mon.check(type(fb) is ps.Meijaard2007WithFeedbackParameterSet,
              'moore2019->feedback:type')
    compare(mon, fb.parameters, want, 'moore2019->feedback')
    mon.check(all(fb.parameters[k] == 0. for k in gen.GAINS),
              'moore2019->feedback:gains')
    m = mon.call('feedback-model', Meijaard2007WithFeedbackModel, s)
    A, _ = m.form_state_space_matrices()
    Ar, _ = ref.state_space(*ref.whipple(want), p['v'], p['g'])
    mon.close(A, Ar, 'moore2019->feedback:A', rtol=1e-8,
              atol=1e-8 * np.abs(Ar).max())
    # chain to Moore 2012
    m12 = mon.call('chain->moore2012', conv.to_parameterization, 'Moore2012')
    compare(mon, physical_moore2012(m12.parameters), want, 'chain->moore2012',
            1e-8)
    mon.check(s.to_parameterization('Moore2019') is s, 'own')
    refused(mon, s, ['Moore2012', 'MooreRiderLean2012', 'meijaard2007', '',
                     'Moore2019ParameterSet'], 'moore2019')
    # results are independent of the source and of each other
    mon.check(p == before and list(p) == list(before), 'source-unchanged')
    for t in (conv, fb, m12):
        for k in list(t.parameters):
            t.parameters[k] = 1.2345
    mon.check(p == before and s.parameters == before, 'source-independent')
    anew = s.to_parameterization('Meijaard2007')
    compare(mon, anew.parameters, want, 'again')
    # the set is converted as it is, not as it was
    for k in rng.choice(sorted(want), 3, replace=False):
        if str(k) in s.parameters and k not in ('lam', 'g', 'v'):
            s.parameters[str(k)] *= float(rng.uniform(.8, 1.2))
    s.parameters['mP'] *= float(rng.uniform(.8, 1.2))
    anew = s.to_parameterization('Meijaard2007')
    compare(mon, anew.parameters, physical_moore2019(s.parameters),
            'edited')
    mon.sig(before)


def meijaard(mon, rng, i):
    prof = ['ordinary', 'wide', 'aligned', 'equalwheels', 'smallfork'][i % 5]
    while True:
        p = gen.whipple_par(rng, prof)
        if abs(p['lam']) < 1.2:
            break
    gen.pop_profile(p)
    if i % 6 == 0:
        p['comment'] = 2.
    keys = list(p)
    rng.shuffle(keys)
    p = {k: p[k] for k in keys}
    rider = bool(rng.random() < .5)
    mon.note(par=p, rider=rider)
    before = copy.deepcopy(p)
    gains = i % 3 == 0
    if gains:
        for k in gen.GAINS:
            p[k] = float(rng.normal())
        before = copy.deepcopy(p)
        s = mon.call('create', again.obj, ('feedback', rider), lambda:
                     ps.Meijaard2007WithFeedbackParameterSet(p, rider),
                     again.edited(p))
    else:
        left = i % 6 == 1
        if left:    # extra entries of a set without a controller
            for k in gen.GAINS[::2]:
                p[k] = float(rng.normal())
            before = copy.deepcopy(p)
        s = mon.call('create', again.obj, ('whipple', rider), lambda:
                     ps.Meijaard2007ParameterSet(p, rider), again.edited(p))
    bodies_of(mon, s, p, 'meijaard:bodies')
    own = 'Meijaard2007WithFeedback' if gains else 'Meijaard2007'
    mon.check(s.to_parameterization(own) is s, 'own')
    m12 = mon.call('meijaard->moore2012', s.to_parameterization, 'Moore2012')
    mon.check(type(m12) is ps.Moore2012ParameterSet, 'moore2012:type')
    mon.check(m12.includes_rider is rider, 'moore2012:rider')
    mon.check(all(k in m12.parameters for k in m12.par_strings),
              'moore2012:complete')
    want = {k: p[k] for k in physical_moore2012(m12.parameters)}
    if abs(p['lam']) < .8 and p['c'] < 2:
        compare(mon, physical_moore2012(m12.parameters), want, 'moore2012',
                1e-8)
        W = ref.whipple(physical_moore2012(m12.parameters))
        for n, x, y in zip(('M', 'C1', 'K0', 'K2'), W, ref.whipple(p)):
            mon.close(x, y, 'moore2012:' + n, rtol=1e-7,
                      atol=1e-8 * np.abs(y).max())
    if not gains:
        fb = mon.call('meijaard->feedback', s.to_parameterization,
                      'Meijaard2007WithFeedback')
        mon.check(type(fb) is ps.Meijaard2007WithFeedbackParameterSet,
                  'feedback:type')
        mon.check(fb.includes_rider is rider, 'feedback:rider')
        mon.check(all(fb.parameters[k] == p[k] for k in p
                      if k not in gen.GAINS), 'feedback:values')
        mon.check(all(fb.parameters[k] == 0. for k in gen.GAINS),
                  'feedback:gains')
        mon.check(left or 'kTdel_phi' not in s.parameters, 'feedback:source')
        fb.parameters['w'] = 77.
    refused(mon, s, [n for n in ('Moore2019', 'MooreRiderLean2012',
                                 'Meijaard', 'moore2012')], 'meijaard')
    mon.check(p == before and list(p) == list(before), 'source-unchanged')
    for k in list(m12.parameters):
        m12.parameters[k] = -1.
    mon.check(s.parameters == before, 'source-independent')
    s.parameters['mB'] *= 1.1
    m12 = s.to_parameterization('Moore2012')
    mon.close(m12.parameters['mc'], s.parameters['mB'], 'edited:mass')
    refused(mon, m12, ['Meijaard2007', 'Moore2019',
                       'Meijaard2007WithFeedback'], 'moore2012')
    mon.check(m12.to_parameterization('Moore2012') is m12, 'own')
    mon.sig(before, rider)


def other(mon, rng, i):
    """Leaning rider sets and the shipped parameter dictionaries."""
    q = gen.riderlean_par(rng)
    s = ps.MooreRiderLean2012ParameterSet(dict(q))
    mon.check(s.to_parameterization('MooreRiderLean2012') is s, 'own')
    refused(mon, s, [n for n in NAMES if n != 'MooreRiderLean2012'],
            'riderlean')
    mon.check(s.parameters == q, 'source-unchanged')
    s = ps.Moore2019ParameterSet(dict(pd.moore2019_browser_jason))
    want = physical_moore2019(pd.moore2019_browser_jason)
    compare(mon, s.to_parameterization('Meijaard2007').parameters, want,
            'shipped')
    mon.note(par=q)
    mon.sig(q)


GROUPS = [('moore2019', 1200, 96000, moore2019),
          ('meijaard', 1200, 96000, meijaard), ('other', 6, 60, other)]
MINIMUM = {'moore2019->meijaard:A': 100, 'chain->moore2012:IHxz': 100,
           'moore2012:M': 50, 'moore2019->feedback:A': 100,
           'meijaard:refuses': 100}
