"""C15 parameter text files."""
import builtins
import math
import os
import numpy as np
from uncertainties import ufloat

from bicycleparameters import io
from bicycleparameters.main import Bicycle
from vp import gen, world

TECHNIQUE = ('runtime monitor: write/read round trips over random '
             'dictionaries, differential reading of random layouts against '
             'known values, event log of prompts and of the directory tree')
LEVEL_NOTE = ('Every file written and read is compared with the dictionary it '
              'came from; the prompts and all file changes are recorded.')
RULE = ('random dictionaries (1 to 40 names, values over 30 decades, int, '
        'float, NumPy scalars, uncertain with deviations from 0 to larger '
        'than the value, derived uncertain), random layouts of the documented '
        'format, random answer sequences; distinct by the dictionary')
ASSUMPTIONS = ['a line holds either only plain or only uncertain values',
               'uncertain values are stored with the digits their deviation '
               'justifies']

NAMES = ['w', 'c', 'lam', 'g', 'rR', 'rF', 'mB', 'mF', 'mH', 'mR', 'xB', 'zB',
         'IBxx', 'IBxz', 'IFyy', 'TcB1', 'TtB3', 'alphaB2', 'betaB1', 'aB1',
         'lP', 'dP', 'd', 'h1', 'gamma', 'bs', 'nR', 'yH', 'IHyz', 'l0', 'e',
         'E1', 'inf', 'nan', 'x_1', 'long_name_of_a_parameter']


def names(rng, n):
    n = min(n, len(NAMES))
    return [NAMES[k] for k in rng.permutation(len(NAMES))[:n]]


def number(rng):
    return float(rng.choice([-1, 1]) * gen.logu(rng, 1e-12, 1e12)
                 if rng.random() < .3 else
                 rng.choice([0., 1., -2.5, 9.81, rng.normal(),
                             rng.uniform(-1, 1), round(rng.normal(), 3)]))


def uncertain(rng, plain_only=False):
    nom = number(rng)
    std = abs(nom) * gen.logu(rng, 1e-9, 3.)
    if rng.random() < .15 or std == 0:
        std = rng.choice([0., .01, 1., 250.])
    return ufloat(nom, float(std))


def value(rng):
    k = rng.integers(9)
    if k < 3:
        return number(rng)
    if k == 3:
        return int(rng.integers(-50, 50))
    if k == 4:
        return rng.choice([np.float64, np.float32, np.int64, np.float16])(
            round(rng.normal(), 3))
    if k == 5:
        return 2. * uncertain(rng) + 1.
    return uncertain(rng)


def same_plain(mon, got, want, key):
    mon.check(not hasattr(got, 'std_dev') or got.std_dev == 0,
              key + ':plain', 'got %r for %r' % (got, want))
    got = float(getattr(got, 'nominal_value', got))
    want = float(str(want)) if isinstance(want, np.generic) else float(want)
    mon.check(got == want or abs(got - want) <= 1e-15 * abs(want),
              key + ':value', 'got %r, want %r' % (got, want))


def same_uncertain(mon, got, want, key):
    s = want.std_dev
    mon.check(hasattr(got, 'std_dev'), key + ':uncertain',
              'got %r for %r' % (got, want))
    # at least one digit of the deviation (two if it starts with 1 to 3)
    tol = .16 * s + 1e-13 * abs(want.nominal_value)
    mon.check(abs(got.nominal_value - want.nominal_value) <= tol,
              key + ':nominal', 'got %r, want %r' % (got, want))
    mon.check(abs(got.std_dev - s) <= .16 * s, key + ':deviation',
              'got %r, want %r' % (got, want))


class Prompt:
    def __init__(self, answers):
        self.answers = list(answers)
        self.asked = 0

    def __call__(self, *a):
        self.asked += 1
        if not self.answers:
            raise AssertionError('prompted again after the last answer')
        return self.answers.pop(0)

    def __enter__(self):
        self.old = builtins.input
        builtins.input = self
        return self

    def __exit__(self, *a):
        builtins.input = self.old


def write(mon, key, path, par, answers=()):
    with Prompt(answers) as p:
        ok = mon.call(key, io.write_parameter_text_file, path, par)
    return ok, p


def round_trip(mon, rng, i):
    par = {k: value(rng) for k in names(rng, int(gen.logu(rng, 1, 41)))}
    before = dict(par)
    mon.note(par=par)
    mon.sig(str(par))
    sub = ['', 'a', 'a/b c/d', './x', 'abs'][i % 5]
    path = os.path.join(sub, 'Par.txt')
    if sub == 'abs':
        path = os.path.join(mon.scratch, 'new', 'dir', 'Par.txt')
    ok, p = write(mon, 'write', path, par)
    mon.check(ok is True and p.asked == 0, 'write:saved', 'got %r' % (ok,))
    mon.check(len(world.tree(mon.scratch)) == 1, 'write:one-file')
    mon.check(par == before and all(par[k] is before[k] for k in par),
              'write:input-unchanged')
    got = mon.call('read', io.load_parameter_text_file, path)
    mon.check(set(got) == set(par), 'read:names',
              '%r, want %r' % (sorted(got), sorted(par)))
    for k, v in par.items():
        if hasattr(v, 'std_dev'):
            same_uncertain(mon, got[k], v, 'round-trip')
            mon.count('uncertain')
        else:
            same_plain(mon, got[k], v, 'round-trip')
            mon.count('plain')
    # what was read is stored without any further loss
    write(mon, 'rewrite', 'again.txt', got)
    again = io.load_parameter_text_file('again.txt')
    for k, v in got.items():
        mon.check(str(again[k]) == str(v), 'stable',
                  '%s: %r then %r' % (k, v, again[k]))
    mon.check(open(path).read() == open('again.txt').read() or any(
        not isinstance(v, float) for v in par.values()), 'stable:file')


def layout(mon, rng, i):
    """A documented file in any layout."""
    sp = lambda: rng.choice(['', ' ', '  ', '\t', ' \t '])
    lines, want = [], {}
    for k in names(rng, int(rng.integers(1, 30))):
        n = int(rng.choice([1, 1, 1, 2, 3, 4, 7, int(rng.integers(8, 60))]))
        style = rng.choice(['%r', '%.4f', '%.3e', '%g'])
        nom = [float(style % number(rng)) for _ in range(n)]
        txt = [style % x for x in nom]
        std = None
        if rng.random() < .6:
            std = [float('%.3g' % rng.choice([0., gen.logu(rng, 1e-6, 10)]))
                   for _ in range(n)]
            if n > 2 and rng.random() < .4:     # the same reading again
                j = int(rng.integers(1, n))
                nom[j], txt[j], std[j] = nom[0], txt[0], std[0]
            txt = [a + sp() + '+/-' + sp() + repr(b) if 'e' not in a else
                   a + '+/-' + repr(b) for a, b in zip(txt, std)]
        line = sp() + k + sp() + '=' + sp() + (
            sp() + ',' + sp()).join(txt) + sp()
        if rng.random() < .3:
            line += '#' + rng.choice([' a comment', '', ' x = 3', ' 1+/-2, 4',
                                      ' # twice', ' [m]'])
        lines.append(line)
        want[k] = (nom, std)
        while rng.random() < .25:
            lines.append(rng.choice(['', '   ', '\t', '# comment', '#',
                                     '   # indented = 4', '#w = 9.0',
                                     '\t#c = 1+/-2, 3+/-4']))
    eol = rng.choice(['\n', '\n', '\r\n'])
    text = eol.join(lines) + rng.choice(['', eol, eol + eol])
    with open('M.txt', 'w', newline='') as f:
        f.write(text)
    mon.note(text=text)
    mon.sig(text)
    got = mon.call('layout', io.load_parameter_text_file, 'M.txt')
    mon.check(set(got) == set(want), 'layout:names',
              '%r, want %r' % (sorted(got), sorted(want)))
    for k, (nom, std) in want.items():
        v, n = got[k], len(nom)
        mean = math.fsum(nom) / n
        atol = 1e-13 * max(abs(x) for x in nom)
        mon.close(getattr(v, 'nominal_value', v), mean, 'layout:value',
                  rtol=1e-12, atol=atol)
        if std is None:
            mon.check(getattr(v, 'std_dev', 0) == 0, 'layout:plain')
        else:
            mon.check(hasattr(v, 'std_dev'), 'layout:uncertain')
            mon.close(v.std_dev, math.sqrt(math.fsum(s * s for s in std)) / n,
                      'layout:deviation', rtol=1e-9)
        mon.count('averaged' if n > 1 else 'single')
    mon.check(open('M.txt', newline='').read() == text and
              os.listdir('.') == ['M.txt'], 'layout:file-unchanged')


def overwrite(mon, rng, i):
    """Existing files change only after agreement."""
    par = {k: value(rng) for k in names(rng, 5)}
    other = {k: value(rng) for k in names(rng, int(rng.integers(1, 20)))}
    os.makedirs('d')
    path = rng.choice(['P.txt', 'd/P.txt'])
    with open('unrelated.txt', 'w') as f:
        f.write('w = 1\n')
    write(mon, 'first', path, other)
    before = world.tree(mon.scratch)
    noise = [str(k) for k in rng.choice(
        ['', 'q', '?', '0', 'perhaps', ' ', 'yn', 'ny', 'why', 'any', 'oh no',
         'y?', '-n'], int(rng.integers(0, 4)))]
    final = ['y', 'n'][i % 2]
    mon.note(par=par, other=other, answers=noise + [final])
    mon.sig(str(par), str(other), noise, final)
    # an answer after the decision must not be used
    ok, p = write(mon, 'overwrite', path, par, noise + [final])
    mon.check(p.asked == len(noise) + 1, 'overwrite:asked-until-answered',
              'asked %d times for %r' % (p.asked, noise + [final]))
    after = world.tree(mon.scratch)
    if final == 'n':
        mon.check(not ok, 'refused:result', 'got %r' % (ok,))
        mon.check(before == after, 'refused:unchanged')
        mon.count('refused')
    else:
        mon.check(ok is True, 'agreed:result', 'got %r' % (ok,))
        got = io.load_parameter_text_file(path)
        mon.check(set(got) == set(par), 'agreed:replaced')
        changed = [k for k in set(before) | set(after)
                   if before.get(k) != after.get(k)]
        mon.check(all(os.path.normpath(k).endswith(os.path.normpath(path))
                      for k in changed), 'agreed:only-that-file')
        mon.count('agreed')


def through_bicycle(mon, rng, i):
    """A bicycle has the parameters of its file, and only those."""
    par = gen.whipple_par(rng)
    gen.pop_profile(par)
    par = {k: (ufloat(v, abs(v) * .01) if rng.random() < .5 else v)
           for k, v in par.items()}
    mon.note(par=par)
    mon.sig(str(par))
    root = os.path.join(mon.scratch, 'data')
    d = os.path.join(root, 'bicycles', 'Made', 'Parameters')
    write(mon, 'write', os.path.join(d, 'MadeBenchmark.txt'), par)
    b = mon.call('load', Bicycle, 'Made', pathToData=root)
    mon.check(set(b.parameters) == {'Benchmark'}, 'load:sets')
    got = b.parameters['Benchmark']
    mon.check(set(got) == set(par), 'load:names')
    for k, v in par.items():
        if hasattr(v, 'std_dev'):
            same_uncertain(mon, got[k], v, 'load')
        else:
            same_plain(mon, got[k], v, 'load')


GROUPS = [('round-trip', 1500, 120000, round_trip),
          ('layout', 1500, 120000, layout), ('overwrite', 600, 48000, overwrite),
          ('bicycle', 200, 16000, through_bicycle)]
MINIMUM = {'uncertain': 300, 'plain': 300, 'averaged': 200, 'refused': 10,
           'agreed': 10}
