"""C23 generated tables are well formed and state the true values."""
import json
import os
import re
import subprocess
import sys
from decimal import Decimal
import numpy as np
from uncertainties import ufloat

from bicycleparameters import Bicycle, tables
from vp import gen, world

TECHNIQUE = ('runtime monitor: generated text parsed by an independent grid '
             'table reader and compared, cell by cell, with the bicycles; '
             'rounding decided in exact decimal arithmetic; text compared '
             'between calls and between processes')
LEVEL_NOTE = ('Every table observed is parsed and each of its cells compared '
              'with the bicycle and variable of its column and row.')
RULE = ('one to six bicycles, shipped and random, with different sets of '
        'variables, names of 1 to 40 characters, plain and uncertain values '
        'over many decades, both sources, plain and LaTeX names, in files '
        'and as text, repeated; distinct by bicycles and values')


def grid(text):
    """(rows of (cell text, first column, columns spanned), header rows) of
    a reStructuredText grid table, ValueError if it is none."""
    lines = text.rstrip('\n').split('\n')
    width = len(lines[0])
    if any(len(l) != width for l in lines):
        raise ValueError('lines differ in length')
    if not lines or set(lines[0]) - set('+-'):
        raise ValueError('no top border')
    if set(lines[-1]) - set('+-'):
        raise ValueError('no bottom border')
    seps = [k for k, l in enumerate(lines) if l[0] == '+']
    if seps[0] != 0 or seps[-1] != len(lines) - 1:
        raise ValueError('not closed')
    edges = sorted({k for s in seps for k, ch in enumerate(lines[s])
                    if ch == '+'})
    if edges[0] != 0 or edges[-1] != width - 1:
        raise ValueError('corners')
    heads = [n for n, s in enumerate(seps) if '=' in lines[s]]
    if len(heads) > 1:
        raise ValueError('more than one header')
    for s in seps:
        if set(lines[s]) not in ({'+', '-'}, {'+', '='}):
            raise ValueError('separator %r' % lines[s])
    rows = []
    for a, b in zip(seps, seps[1:]):
        if b != a + 2:
            raise ValueError('rows of one line expected')
        line = lines[a + 1]
        if line[0] != '|' or line[-1] != '|':
            raise ValueError('row not closed')
        bars = [k for k in edges if line[k] == '|']
        for k in bars:     # a cell ends at a corner above and below
            for s in (a, b):
                if lines[s][k] != '+':
                    raise ValueError('no corner at %d of line %d' % (k, s))
        for k in edges:
            # a corner in both lines closes a column
            if lines[a][k] == lines[b][k] == '+' and k not in bars:
                raise ValueError('cell open at %d' % k)
        row = []
        for p, q in zip(bars, bars[1:]):
            cell = line[p + 1:q]
            if cell.strip() and (cell[0] != ' ' or cell[-1] != ' '):
                raise ValueError('cell touches its border')
            row.append((cell.strip(), edges.index(p),
                        edges.index(q) - edges.index(p)))
        rows.append(row)
    return rows, heads[0] if heads else 0


def rounded(mon, val, sig, x, key):
    """Displayed strings against the uncertain number."""
    n, s = float(x.nominal_value), float(x.std_dev)
    try:
        dv, ds = Decimal(val), Decimal(sig)
    except ArithmeticError:
        mon.violate(key + ':number', '%r %r' % (val, sig))
        return
    if s < 1e-13:
        mon.close(float(dv), n, key + ':exact', rtol=1e-9, atol=1e-13)
        return
    exact = Decimal('%.12e' % s)
    unit = Decimal(1).scaleb(exact.adjusted())
    slack = Decimal('0.5000001')
    mon.check(abs(ds - exact) <= slack * unit, key + ':deviation',
              '%s of %r' % (sig, s))
    mon.check(abs(dv - Decimal(n)) <= slack * unit + Decimal(abs(n)) *
              Decimal('1e-14'), key + ':value', '%s of %r' % (val, n))
    mon.check(ds > 0, key + ':deviation-positive')
    # no more digits than the deviation has, and both have the same
    places = [len(t.partition('.')[2]) for t in (val, sig)]
    mon.check(places[0] == places[1], key + ':places', val + ' ' + sig)
    if s < 1:
        mon.check(Decimal(sig).as_tuple().exponent == unit.adjusted(),
                  key + ':digits', sig)
    mon.check(dv % unit == 0 and ds % unit == 0, key + ':grid',
              '%s %s' % (val, sig))


GREEK = {'lam': r'\lambda', 'gamma': r'\gamma', 'lamst': r'\lambda_{st}',
         'd': 'd', 'f': 'f', 'w': 'w', 'g': 'g', 'l': 'l', 'c': 'c',
         'LhbF': 'l_{hbF}', 'LhbR': 'l_{hbR}'}


def latex(v):
    if v in GREEK:
        return GREEK[v]
    if v[:5] == 'alpha':
        return r'\alpha_{%s}' % v[5:]
    if v[0] == 'T':
        return 'T^%s_{%s}' % (v[1], v[2:])
    if len(v) == 2:
        return '%s_%s' % tuple(v)
    return '%s_{%s}' % (v[0], v[1:])


def verify(mon, text, bikes, source, tex, values):
    """values: per bicycle, the variables it should show."""
    try:
        rows, head = grid(text)
    except (ValueError, IndexError) as e:
        mon.violate('grid', '%s\n%s' % (e, text[:1500]))
        return
    mon.count('table')
    n = len(bikes)
    mon.check(head == 1, 'header:separator', str(head))
    want = [('', 0, 1)] + [(b.bicycleName, 1 + 2 * k, 2)
                           for k, b in enumerate(bikes)]
    mon.check(rows[0] == want, 'header:bicycles', str(rows[0]))
    v, s = (':math:`v`', r':math:`\sigma`') if tex else ('v', 'sigma')
    mon.check([c for c, _, _ in rows[1]] == ['Variable'] + [v, s] * n,
              'header:columns', str(rows[1]))
    names = sorted({k for d in values for k in d},
                   key=lambda k: (k.lower(), k))
    first = [r[0][0] for r in rows[2:]]
    show = [':math:`%s`' % latex(k) for k in names] if tex else names
    mon.check(first == show, 'rows:variables', '%r instead of %r' %
              (first, show))
    for row, name in zip(rows[2:], names):
        mon.check([(a, b) for _, a, b in row] ==
                  [(k, 1) for k in range(1 + 2 * n)], 'rows:columns')
        if len(row) != 1 + 2 * n:
            continue
        for k, d in enumerate(values):
            val, sig = row[1 + 2 * k][0], row[2 + 2 * k][0]
            if name not in d:
                mon.check((val, sig) == ('NA', 'NA'), 'cell:missing',
                          '%s of %s: %r' % (name, bikes[k].bicycleName,
                                            (val, sig)))
            elif hasattr(d[name], 'std_dev'):
                rounded(mon, val, sig, d[name], 'cell')
            else:
                mon.check(sig == 'NA', 'cell:no-deviation', sig)
                try:
                    x = float(val)
                except ValueError:
                    x = np.nan
                mon.check(x == float(d[name]), 'cell:plain',
                          '%s of %r' % (val, d[name]))


def generate(mon, bikes, source, tex, again=True):
    values = [dict(b.parameters[source]) for b in bikes]
    seq = tuple(bikes) if len(bikes) % 2 else list(bikes)
    t = mon.call('table', tables.Table, source, tex, seq)
    text = mon.call('rst', t.create_rst_table)
    verify(mon, text, bikes, source, tex, values)
    if again:
        path = os.path.join(mon.scratch, 'table.rst')
        mon.check(mon.call('rst', t.create_rst_table) == text, 'again:call')
        mon.check(mon.call('rst', t.create_rst_table, fileName=path) == text,
                  'again:file')
        mon.check(open(path).read() == text, 'file:content')
        u = tables.Table(source, tex, seq)
        mon.check(u.create_rst_table() == text, 'again:table')
        t.generate_variable_list()
        t.generate_table_data()
        mon.check(t.create_rst_table() == text, 'again:data')
    for b, v in zip(bikes, values):
        p = b.parameters[source]
        mon.check(list(p) == list(v) and all(p[k] is v[k] for k in v),
                  'bicycle-unchanged', b.bicycleName)
    return t, text


LETTERS = list('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789')
BENCH = ['w', 'c', 'lam', 'g', 'rF', 'rR', 'mB', 'mF', 'mR', 'mH', 'xB', 'zB',
         'xH', 'zH', 'IBxx', 'IByy', 'IBzz', 'IBxz', 'IFxx', 'IFyy', 'IRxx',
         'IRyy', 'IHxx', 'IHyy', 'IHzz', 'IHxz', 'mG', 'mS', 'IGxx', 'ISxz',
         'yB']
MEAS = ['aB1', 'aH4', 'alphaB1', 'alphaH3', 'TcB1', 'TtB2', 'TcP1', 'd', 'd1',
        'dF', 'f', 'g', 'gamma', 'h1', 'hbb', 'lcs', 'lsp', 'lst', 'lamst',
        'whb', 'LhbF', 'LhbR', 'lF', 'lP', 'mB', 'nF', 'w', 'mP', 'ds1',
        'ds3', 'l', 'aB10', 'alphaB10', 'TtB10', 'aG12', 'alphaG12', 'TtG12',
        'alphaB11', 'TtH11', 'aH11']


def number(rng):
    kind = rng.integers(6)
    n = float(rng.choice([-1, 1]) * 10**rng.uniform(-6, 5))
    if kind == 0:
        return float(rng.choice([n, 0., round(n, 2), float(round(n))]))
    s = float(10**rng.uniform(-9, 0))
    if kind == 1:
        s = float(10**rng.uniform(0, 3))
    elif kind == 2:
        s = float(10.**rng.integers(-8, 3) * rng.choice([1, .99, .95, .5]))
    elif kind == 3:
        n = float(rng.choice([0., n * 1e-6, -n * 1e-9]))
    elif kind == 4:
        s = abs(n) * 10**rng.uniform(-5, 0)
    if not 1e-12 < s:
        s = 1e-12
    if rng.random() < .03:
        s = 0.
    return ufloat(n, s)


class Bike:
    """All that a table reads from a bicycle."""

    def __init__(self, name, source, par):
        self.bicycleName = name
        self.parameters = {source: par}


def random(mon, rng, i):
    source = ['Benchmark', 'Measured'][i % 2]
    tex = bool(rng.random() < .5)
    pool = BENCH if source == 'Benchmark' else MEAS
    bikes = []
    for k in range(int(rng.integers(1, 7))):
        name = ''.join(rng.choice(LETTERS, int(rng.integers(1, 41))))
        size = int(rng.integers(1, len(pool) + 1))
        keys = [str(x) for x in rng.permutation(pool)[:size]]
        if not tex and i % 3 == 1:
            # names of one's own, some differ in case only
            keys += [x.swapcase() for x in keys[::2]] + ['zb', 'ZB', 'Zb']
        plain = rng.random() < .2
        par = {q: number(rng) for q in keys}
        if plain:
            par = world.nominal_dict(par)
        bikes.append(Bike(name, source, par))
    mon.note(source=source, latex=tex,
             bikes=[(b.bicycleName, {k: str(v) for k, v in
                                     b.parameters[source].items()})
                    for b in bikes])
    mon.sig(*[b.bicycleName for b in bikes])
    t, _ = generate(mon, bikes, source, tex)
    if rng.random() < .5:
        # the bicycles change, and the table is made anew
        for b in bikes:
            par = b.parameters[source]
            for q in rng.permutation(list(par))[:int(rng.integers(1, 4))]:
                par[str(q)] = number(rng)
        if rng.random() < .3:
            tex = t.latex = not tex and i % 3 != 1
        t.generate_variable_list()
        t.generate_table_data()
        verify(mon, mon.call('rst', t.create_rst_table), bikes, source, tex,
               [b.parameters[source] for b in bikes])
        mon.count('made-anew')
    if len(bikes) > 1:
        # the order of the bicycles is that of the columns
        generate(mon, bikes[::-1], source, tex, again=False)


def shipped(mon, rng, i):
    source = ['Benchmark', 'Measured'][i % 2]
    names = world.shipped_with_benchmark()
    if source == 'Measured':
        names = world.shipped_with_measured()
    pick = [str(x) for x in rng.permutation(names)[:rng.integers(1, 6)]]
    if i < 2:
        pick = names
    tex = bool((i // 2) % 2)
    mon.note(source=source, bikes=pick, latex=tex)
    mon.sig(source, tex, *pick)
    root = os.path.join(mon.scratch, 'data')
    world.copy_shipped(root, bikes=pick)
    bikes = []
    for n in pick:
        if n in ('Tms', 'Silver') and source == 'Measured':
            continue
        b = Bicycle(n, pathToData=root)
        if source in b.parameters:
            bikes.append(b)
    if not bikes:
        return
    tree = world.tree(root)
    generate(mon, bikes, source, tex)
    mon.check(world.tree(root) == tree, 'files-unchanged')


def aboard(mon, rng, i):
    """A table shows the bicycle as it is: with its rider."""
    bike, name = [('Rigid', 'Jason'), ('Browser', 'Jason'),
                  ('Rigidcl', 'Luke'), ('Gyro', 'Child')][i % 4]
    root = os.path.join(mon.scratch, 'data')
    world.copy_shipped(root, bikes=[bike, 'Pista'], riders=[name])
    b = Bicycle(bike, pathToData=root)
    o = Bicycle('Pista', pathToData=root)
    mon.note(bike=bike, rider=name)
    mon.sig(bike, name, i)
    tex = bool(i % 2)
    _, one = generate(mon, [b, o], 'Benchmark', tex)
    b.add_rider(name)
    _, two = generate(mon, [b, o], 'Benchmark', tex)
    mon.check(one != two, 'rider:shown')
    generate(mon, [b, b], 'Measured', tex)


def rounding(mon, rng, i):
    for _ in range(40):
        x = number(rng)
        mon.sig(str(x))
        mon.note(x=repr(x))
        s = mon.call('uround', tables.uround, x)
        if hasattr(x, 'std_dev'):
            parts = s.split('+/-')
            mon.check(len(parts) == 2, 'uround:form', s)
            if len(parts) == 2:
                rounded(mon, parts[0], parts[1], x, 'uround')
        else:
            mon.check(float(s) == x, 'uround:plain', s)


def names(mon, rng, i):
    """Every variable has its own symbol."""
    every = set(BENCH + MEAS)
    for n in world.shipped_with_benchmark():
        for sub, kind in (('Parameters', 'Benchmark'),
                          ('RawData', 'Measured')):
            p = os.path.join(world.DATA, 'bicycles', n, sub,
                             n + kind + '.txt')
            if os.path.exists(p):
                every |= {l.split('=')[0].strip() for l in open(p)
                          if '=' in l and l.strip()[0] != '#'}
    every = sorted(v for v in every if re.fullmatch(r'\w+', v))
    mon.note(variables=every)
    mon.sig(len(every), i)
    seen = {}
    for v in every:
        s = mon.call('latex', tables.to_latex, v)
        mon.check(s == latex(v), 'latex:symbol', '%s: %s' % (v, s))
        mon.check(s not in seen, 'latex:distinct', '%s %s' % (v, seen.get(s)))
        seen[s] = v
    mon.raises(KeyError, 'latex:unknown', tables.to_latex, 'qqqq')


SCRIPT = r'''
import sys, json
sys.path.insert(0, sys.argv[1])
from bicycleparameters import Bicycle, tables
bs = [Bicycle(n, pathToData=sys.argv[2]) for n in sys.argv[5:]]
t = tables.Table(sys.argv[3], sys.argv[4] == 'True', bs)
if sys.argv[4] == 'False':
    for k in list(bs[0].parameters[sys.argv[3]]):
        bs[-1].parameters[sys.argv[3]][k.swapcase()] = 2.5
    t = tables.Table(sys.argv[3], False, bs)
sys.stdout.write('\nTABLE' + json.dumps(t.create_rst_table()))
'''


def processes(mon, rng, i):
    """The same text in every process."""
    root = os.path.join(mon.scratch, 'data')
    pick = ['Rigid', 'Yellow', 'Pista', 'Browser'][:2 + i % 3]
    world.copy_shipped(root, bikes=pick)
    source, tex = ['Benchmark', 'Measured'][i % 2], str(bool(i % 3))
    mon.note(bikes=pick, source=source)
    mon.sig(i)
    out = set()
    for seed in (str(int(rng.integers(1, 1000))), '7', '1234'):
        r = subprocess.run([sys.executable, '-c', SCRIPT, world.REPO, root,
                            source, tex] + pick, capture_output=True,
                           text=True, timeout=200,
                           env=dict(os.environ, PYTHONHASHSEED=seed))
        if r.returncode:
            mon.violate('process:failed', r.stderr[-800:])
            return
        out.add(json.loads(r.stdout.rsplit('TABLE', 1)[1]))
        mon.count('process')
    mon.check(len(out) == 1, 'process:same-text')
    bikes = [Bicycle(n, pathToData=root) for n in pick]
    values = [dict(b.parameters[source]) for b in bikes]
    if tex == 'False':
        values[-1].update((k.swapcase(), 2.5) for k in list(values[0]))
    verify(mon, out.pop(), bikes, source, tex == 'True', values)


GROUPS = [('random', 480, 28800, random), ('shipped', 64, 3840, shipped),
          ('aboard', 4, 4, aboard), ('rounding', 240, 14400, rounding),
          ('names', 1, 1, names), ('processes', 3, 12, processes)]
MINIMUM = {'table': 150, 'cell:missing': 300, 'cell:deviation': 1000,
           'cell:plain': 200, 'uround:deviation': 1000, 'process': 6}
