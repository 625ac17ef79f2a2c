"""C09 parameter sets validate input and survive being written to file."""
import copy
import html.parser
import os
import numpy as np
import yaml
from uncertainties import ufloat

from bicycleparameters import parameter_sets as ps
from vp import again, gen

TECHNIQUE = ('runtime monitor: accept/refuse oracle on mutated inputs, '
             'write/read-back oracle, HTML table parser')
LEVEL_NOTE = ('Every write observed was read back by the library, by a plain '
              'YAML loader, and by a key=value parser; INI is compared to the '
              '16 decimals of its format.')
RULE = ('random sets of all five parameterisations, shuffled, with extra '
        'keys, huge/tiny/negative/nan/inf values, converted sets, NumPy '
        'floats; single and multiple defects of the input (missing, int, '
        'string, None, array, uncertain, float32, list); distinct by '
        'parameterisation and values')
KINDS = {'Meijaard2007': (ps.Meijaard2007ParameterSet, True),
         'Meijaard2007WithFeedback':
         (ps.Meijaard2007WithFeedbackParameterSet, True),
         'Moore2012': (ps.Moore2012ParameterSet, True),
         'Moore2019': (ps.Moore2019ParameterSet, False),
         'MooreRiderLean2012': (ps.MooreRiderLean2012ParameterSet, False)}


def params(rng, kind):
    if kind == 'Moore2019':
        p = gen.moore2019_par(rng)
    elif kind in ('MooreRiderLean2012', 'Moore2012'):
        p = gen.riderlean_par(rng)
        if kind == 'Moore2012':
            for k in ('c9', 'd4', 'ig11', 'ig22', 'ig31', 'ig33', 'k9', 'l5',
                      'l6', 'mg'):
                p.pop(k)
    else:
        p = gen.whipple_par(rng, 'ordinary')
        p.pop('_profile')
        if kind.endswith('Feedback'):
            for k in gen.GAINS:
                p[k] = float(rng.normal() * 10)
    return p


def make(kind, p, rider=True):
    cls, has = KINDS[kind]
    return cls(p, rider) if has else cls(p)


def spice(rng, p):
    """Values of unusual size or type that are still floats."""
    keys = list(p)
    for k in rng.choice(keys, size=int(rng.integers(0, 6)), replace=False):
        p[str(k)] = [0.0, -0.0, 1e300, 5e-324, -1e-17, 1e22, 123456789.123456,
                     0.1 + 0.2, float('inf'), -float('inf'), float('nan'),
                     1e-5, np.float64(1) / 3, np.float64(2.5e-9), 1e16
                     ][rng.integers(15)]
    return p


def same(a, b):
    return a == b or (a != a and b != b)


class Table(html.parser.HTMLParser):
    def __init__(self):
        super().__init__()
        self.rows, self.cell = [], None

    def handle_starttag(self, tag, attrs):
        if tag == 'tr':
            self.rows.append([])
        if tag in ('td', 'th'):
            self.cell = ''

    def handle_data(self, data):
        if self.cell is not None:
            self.cell += data

    def handle_endtag(self, tag):
        if tag in ('td', 'th'):
            self.rows[-1].append(self.cell)
            self.cell = None


def accept(mon, rng, i):
    kind = list(KINDS)[i % 5]
    p = params(rng, kind)
    if rng.random() < .6:
        spice(rng, p)
    if rng.random() < .3:
        p['zz'] = 1.5
    if rng.random() < .3:
        p = {k: np.float64(v) for k, v in p.items()}
    keys = list(p)
    rng.shuffle(keys)
    p = {str(k): p[str(k)] for k in keys}
    mon.note(kind=kind, par=p)
    before = copy.deepcopy(p)
    rider = bool(rng.random() < .5)
    s = mon.call('create', again.obj, (kind, rider), lambda:
                 make(kind, p, rider), again.edited(p))
    mon.check(s.parameterization == kind, 'name')
    mon.check(set(s.parameters) == set(before) and
              all(same(s.parameters[k], before[k]) for k in before), 'values')
    mon.check(all(same(p[k], before[k]) for k in before) and len(p) ==
              len(before), 'input-unchanged')
    written(mon, s, before, rider, kind)
    mon.sig(kind, before)


def written(mon, s, want, rider, kind, tag=''):
    cls, has = KINDS[kind]
    f = os.path.join(mon.scratch, 'a b.yml')
    mon.call(tag + 'to-yaml', s.to_yaml, f)
    text = open(f).read()
    try:
        data = yaml.safe_load(text)
    except yaml.YAMLError as e:
        mon.violate(tag + 'yaml:safe', 'not plain YAML: %s' % str(e)[:300])
        return
    mon.check(data['parameterization'] == kind, tag + 'yaml:parameterization')
    vals = data['values']
    mon.check(set(vals) == set(want), tag + 'yaml:keys')
    bad = [k for k in want if not same(vals.get(k), float(want[k]))]
    mon.check(not bad, tag + 'yaml:values', 'differs: %s' % bad[:5])
    r = mon.call(tag + 'read-yaml', cls._from_yaml, f)
    mon.check(type(r) is cls and r.parameterization == kind,
              tag + 'read-back:type')
    bad = [k for k in want if not same(r.parameters.get(k), float(want[k]))]
    mon.check(not bad and set(r.parameters) == set(want),
              tag + 'read-back:values', 'differs: %s' % bad[:5])
    if has:
        mon.check(r.includes_rider == rider, tag + 'read-back:rider',
                  'wrote %r, read %r' % (rider, r.includes_rider))
    # writing twice over an existing file leaves no trace of the first
    mon.call(tag + 'to-yaml', r.to_yaml, f)
    mon.check(open(f).read() == text, tag + 'yaml:stable')
    g = os.path.join(mon.scratch, 'x.ini')
    open(g, 'w').write('old=1\n' * 200)
    mon.call(tag + 'to-ini', s.to_ini, g)
    got = {}
    for line in open(g).read().splitlines():
        k, _, v = line.partition('=')
        mon.check(k not in got, tag + 'ini:once')
        got[k] = float(v)
    mon.check(set(got) == set(want), tag + 'ini:keys')
    bad = [k for k in want if k in got and not (
        same(got[k], want[k]) or abs(got[k] - want[k]) <=
        6e-17 + 1e-15 * abs(want[k]))]
    mon.check(not bad, tag + 'ini:values', 'differs: %s' % [
        (k, want[k], got[k]) for k in bad[:4]])
    t = Table()
    t.feed(mon.call(tag + 'html', s._repr_html_))
    rows = t.rows[1:]
    mon.check(len(rows) == len(s.par_strings), tag + 'html:rows')
    mon.check(len(set(r[0] for r in rows)) == len(rows),
              tag + 'html:distinct', 'labels listed twice: %s' % [
                  r[0] for r in rows if [q[0] for q in rows].count(r[0]) > 1])
    shown = {r[0]: r[1] for r in rows}
    for k, latex in s.par_strings.items():
        lab = r'\({}\)'.format(latex)
        if not mon.check(lab in shown, tag + 'html:label', k):
            continue
        v, w = float(shown[lab]), want[k]
        mon.check(same(v, w) or abs(v - w) <= 5.000001e-4 + 1e-12 * abs(w),
                  tag + 'html:value', '%s shown %s is %r' % (k, v, w))
        # the label is the one of this parameter: same letters
        letters = ''.join(c for c in latex.replace('\\', '') if c.isalnum())
        lower = k.lower().replace('_', '').replace('lam', 'lambda')
        if kind in ('Meijaard2007', 'Moore2019', 'Moore2012',
                    'MooreRiderLean2012'):
            mon.check(letters.lower() == lower, tag + 'html:label-letters',
                      '%s is labelled %s' % (k, latex))


def converted(mon, rng, i):
    if i % 2:
        s = ps.Moore2019ParameterSet(gen.moore2019_par(rng))
        to = ['Meijaard2007', 'Meijaard2007WithFeedback'][i // 2 % 2]
        rider = True
    else:
        p = params(rng, 'Meijaard2007')
        rider = bool(rng.random() < .5)
        s = ps.Meijaard2007ParameterSet(p, rider)
        to = ['Moore2012', 'Meijaard2007WithFeedback'][i // 2 % 2]
    c = mon.call('convert', s.to_parameterization, to)
    if i % 7 == 1 and to.startswith('Meijaard2007') and to[-1] == '7':
        c, to = c.to_parameterization('Moore2012'), 'Moore2012'
    mon.note(to=to, par=s.parameters)
    mon.check(all(isinstance(v, float) for k, v in c.parameters.items()
                  if k in c.par_strings), 'converted:floats')
    written(mon, c, dict(c.parameters), rider, to, 'converted:')
    mon.sig(to, c.parameters)


BAD = [('missing', None), ('int', 1), ('str', '1.0'), ('none', None),
       ('array', np.array(1.)), ('array1', np.array([1.])),
       ('ufloat', ufloat(1., .1)), ('float32', np.float32(1.)),
       ('list', [1.]), ('bool', True), ('complex', 1 + 0j),
       ('npint', np.int64(3))]


def refuse(mon, rng, i):
    kind = list(KINDS)[i % 5]
    cls = KINDS[kind][0]
    p = params(rng, kind)
    keys = list(cls.par_strings)
    n = 1 if rng.random() < .7 else int(rng.integers(2, 4))
    hurt = [str(k) for k in rng.choice(keys, size=n, replace=False)]
    what = []
    for j, k in enumerate(hurt):
        name, val = BAD[(i // 5 + j) % len(BAD)]
        what.append(name)
        if name == 'missing':
            p.pop(k)
        else:
            p[k] = val
    if rng.random() < .4:
        # surplus entries make up for nothing, similar names neither
        for k in hurt + ['extra', 'yB', 'mT'][:int(rng.integers(4))]:
            k = [k.upper(), k.lower(), k + ' ', '_' + k][int(rng.integers(4))]
            if k not in cls.par_strings:
                p[k] = float(rng.normal())
    mon.note(kind=kind, hurt=hurt, what=what)
    e = mon.raises(ValueError, 'refused', make, kind, p)
    if e is not None:
        mon.check(any(k in str(e).replace('.', ' ').split() or k in str(e)
                      for k in hurt), 'refused:names-it', str(e))
    mon.sig(kind, hurt, what)


def every_key(mon, rng, i):
    """Each single parameter of each set, missing and as an integer."""
    kind = list(KINDS)[i % 5]
    cls = KINDS[kind][0]
    p = params(rng, kind)
    for k in cls.par_strings:
        q = dict(p)
        del q[k]
        if i >= 5 or len(k) % 2:
            q['surplus'], q[k.swapcase() + '_'] = 1., 2.
        e = mon.raises(ValueError, 'each:missing', make, kind, q)
        mon.check(e is None or k in str(e), 'each:names-it')
        q = dict(p, **{k: 2})
        e = mon.raises(ValueError, 'each:int', make, kind, q)
        mon.check(e is None or k in str(e), 'each:names-it')
    mon.sig(kind, p)


GROUPS = [('accept', 2000, 80000, accept), ('converted', 640, 25600, converted),
          ('refuse', 2000, 80000, refuse), ('each', 5, 20, every_key)]
MINIMUM = {'yaml:values': 200, 'ini:values': 200, 'html:value': 4000,
           'refused': 200, 'each:missing': 100,
           'converted:read-back:values': 60}
