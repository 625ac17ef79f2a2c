"""C28 loading a bicycle takes each parameter from the right source."""
import os
import numpy as np

from bicycleparameters import Bicycle, io
from bicycleparameters.main import calculate_benchmark_from_measured
from vp import gen, measure, ref, world
from checks.c12 import compare, known
from checks.c17 import state

TECHNIQUE = ('runtime monitor: online checker of load histories against the '
             'contents of the data directories at the time of the load, known '
             'bicycles as the source of the measurements, state and '
             'directory snapshots')
LEVEL_NOTE = ('Every load observed is compared with the files as they stood: '
              'all sets, names, values and deviations, the source of the '
              'benchmark parameters, the empty saddle, and the directory '
              'afterwards.')
RULE = ('directories with and without parameter files, measured file, raw '
        'data, further sets, foreign files and neighbours of similar names; '
        'all options; histories of 6 to 16 loads, file changes, riders and '
        'edits over several bicycles in one or two data directories; '
        'distinct by contents and options')
ASSUMPTIONS = ['names follow the documented convention', 'measured files hold '
               'all periods (C16 decides the others)']

NAMES = ['Made', 'Madea', 'Mad', 'Bikev2', 'Bikev21', 'Benchmark', 'Measured',
         'B', 'Raw', 'Parameter']
SETS = ['Principal', 'Jason', 'Canonical', 'Other2', 'Benchmarks']


def disk(root='.'):
    """Every file and every folder."""
    out = world.tree(root)
    for d, dirs, files in os.walk(root):
        out.update({os.path.relpath(os.path.join(d, x), root): b''
                    for x in dirs})
    return out


def some_set(rng):
    """A set of any names, whole or uncertain, or an empty one."""
    if rng.random() < .08:
        return {}
    p = {str(k): float(rng.normal() * 10**rng.uniform(-3, 3)) for k in
         rng.choice(['mB', 'w', 'xH', 'alpha1', 'q_2', 'lam', 'IBxz', 'T'],
                    size=int(rng.integers(1, 7)), replace=False)}
    for k in p:
        if rng.random() < .15:
            p[k] = float(rng.choice([0., -0., 1e-15, -3e-7, 4e21, 7., 1/3]))
    return gen.ufloatify(rng, p) if rng.random() < .4 else p


def benchmark(rng):
    p = gen.whipple_par(rng, 'ordinary')
    p.pop('_profile')
    # entries that are not calculated from measurements
    for k in ('mG', 'mD', 'zcl', 'q_1', 'hbb', 'IFzz'):
        if rng.random() < .2:
            p[k] = float(rng.uniform(.1, 9.))
    return gen.ufloatify(rng, p) if rng.random() < .5 else p


def measured(rng, i):
    split = bool(i % 2)
    p, parts, refpt = measure.bicycle(rng, split)
    mp = measure.measure(rng, p, parts, refpt,
                         ['angle', 'perpendicular'][i // 2 % 2])
    if rng.random() < .5:
        mp = measure.uncertain(rng, mp)
    return mp, known(p, parts, None)


class Place:
    """What is on the disk for one bicycle."""

    def __init__(self, root, name):
        self.root, self.name = root, name
        self.dir = os.path.join(root, 'bicycles', name)
        os.makedirs(self.dir, exist_ok=True)
        self.sets, self.mp, self.true = {}, None, None

    def write(self, kind, par):
        world.write_par(os.path.join(self.dir, 'Parameters',
                                     self.name + kind + '.txt'), par)
        self.sets[kind] = dict(par)

    def remove(self, kind):
        os.remove(os.path.join(self.dir, 'Parameters',
                               self.name + kind + '.txt'))
        del self.sets[kind]

    def measure(self, mp, true):
        world.write_par(os.path.join(self.dir, 'RawData',
                                     self.name + 'Measured.txt'), mp)
        self.mp, self.true = dict(mp), true

    def unmeasure(self):
        os.remove(os.path.join(self.dir, 'RawData',
                               self.name + 'Measured.txt'))
        self.mp = self.true = None


def same(mon, got, want, key):
    """Equal to the last digit written."""
    if not mon.check(isinstance(got, dict) and set(got) == set(want),
                     key + ':names', '%r, want %r' % (
                         sorted(got), sorted(want))):
        return
    for k, w in want.items():
        g = got[k]
        mon.check(world.nominal(g) == world.nominal(w) and
                  abs(world.std(g) - world.std(w)) <= 1e-12 * world.std(w),
                  key, '%s: %r, want %r' % (k, g, w))


def verify(mon, b, place, force, key):
    """The loaded bicycle against the files."""
    have = 'Benchmark' in place.sets
    calc = place.mp is not None and (force or not have)
    want = dict(place.sets)
    source = 'calculated' if calc else 'file' if have else 'none'
    mon.count('source:%s%s%s' % (source, ':forced' * force,
                                 ':both' * (have and place.mp is not None)))
    sets = set(want) | ({'Benchmark'} if calc else set())
    if place.mp is not None:
        sets.add('Measured')
    mon.check(set(b.parameters) == sets, key + ':sets', '%r, want %r' %
              (sorted(b.parameters), sorted(sets)))
    if place.mp is not None and 'Measured' in b.parameters:
        same(mon, b.parameters['Measured'], place.mp, key + ':measured')
    for k, p in want.items():
        if k in b.parameters and not (calc and k == 'Benchmark'):
            same(mon, b.parameters[k], p, key + ':stored-set')
    if calc and 'Benchmark' in b.parameters:
        compare(mon, b.parameters['Benchmark'], place.true, key +
                ':calculated')
        names = set(calculate_benchmark_from_measured(dict(place.mp))[0])
        mon.check(set(b.parameters['Benchmark']) == names, key +
                  ':calculated-only', '%r' % sorted(
                      set(b.parameters['Benchmark']) ^ names))
    if source != 'none':
        # what it answers is about these parameters
        p = place.true if calc else world.nominal_dict(want['Benchmark'])
        g = world.nominal_dict(b.parameters['Benchmark'])
        A = ref.whipple(dict(g, **{k: v for k, v in p.items() if k in g}))
        for x, w in zip(mon.call(key, b.canonical, nominal=True), A):
            mon.close(x, w, key + ':dynamics', rtol=1e-6,
                      atol=1e-6 * np.abs(w).max())
    mon.check(b.bicycleName == place.name, key + ':name')
    mon.check(b.hasRider is False and b.riderPar == {} and b.human is None and
              str(b) == place.name + ' with no one on board.',
              key + ':no-rider', '%s, %r, %r' % (b, b.hasRider, b.riderPar))


def options(rng):
    """(positional and keyword arguments after the data directory, force)"""
    force = bool(rng.integers(2))
    how = rng.integers(4)
    if how == 0:
        return (force,), {}, force
    if how == 1:
        return (force, False), {}, force
    k = {'forceRawCalc': force}
    if how == 2 and not force:
        k = {}
    if rng.random() < .3:
        k['forcePeriodCalc'] = False
    return (), k, force


def by_way(root):
    """The same directory by way of another one."""
    os.makedirs('byway', exist_ok=True)
    return os.path.join('byway', '..', root) if not os.path.isabs(root) else \
        os.path.join(root, 'bicycles', '..')


def load(mon, rng, place, key):
    a, k, force = options(rng)
    root = place.root
    how = int(rng.integers(5))
    if root == '.' and how < 2:
        # the default directory
        if a:
            k, a = {'forceRawCalc': force}, ()
        args = (place.name,)
    elif how == 2:
        args = (place.name, os.path.join(root, ''))
    elif how == 3:
        args = (place.name, [os.path.abspath, by_way][int(rng.integers(2))](
            root))
    elif how == 4 and not a:
        args, k = (), dict(k, bicycleName=place.name, pathToData=root)
    else:
        args = (place.name, root)
    before = disk()
    if place.mp is None and not force and 'Benchmark' not in place.sets:
        # nothing to load from: at least no invented parameters
        mon.count('nothing')
        try:
            b = Bicycle(*args, *a, **k)
        except Exception:
            mon.check(disk() == before, key + ':files')
            return None
        mon.check('Benchmark' not in b.parameters, key + ':invented')
        return None
    b = mon.call(key, Bicycle, *args, *a, **k)
    verify(mon, b, place, force, key)
    mon.check(os.path.samefile(b.directory, place.dir), key + ':directory')
    mon.check(disk() == before, key + ':files', '%r' % sorted(
        set(disk()) ^ set(before)))
    return b


def ages(rng, place):
    """Which file is the older one does not matter."""
    for d, dirs, files in os.walk(place.dir):
        for f in files:
            if rng.random() < .7:
                t = float(rng.choice([3e8, 1e9, 1.7e9])) + rng.uniform(0, 9)
                os.utime(os.path.join(d, f), (t, t))


def foreign(rng, place):
    """Files that are nobody's parameters."""
    for f in ('Photos/%sFrame.jpg' % place.name, 'Plots/x.png', 'README.txt',
              'Raw/%sMeasured.txt' % place.name,
              'RawData/%sFrameCompoundFirst1.mat' % place.name,
              'RawData/%sMeasured.txt.bak' % place.name,
              'RawData/%sMeasured.bak' % place.name,
              'RawData/OtherMeasured.txt', 'RawData/Measured.txt',
              'RawData/notes.txt', '%sBenchmark.txt' % place.name,
              '%sMeasured.txt' % place.name):
        if rng.random() < .3:
            path = os.path.join(place.dir, f)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, 'w') as fh:
                fh.write(rng.choice(['w = 1.0\n', 'garbage', '']))


def sources(mon, rng, i):
    """One bicycle, every combination of files and options."""
    root = ['.', 'data', os.path.join(mon.scratch, 'some data')][i % 3]
    name = NAMES[int(rng.integers(len(NAMES)))]
    place = Place(root, name)
    kind = ['benchmark', 'measured', 'both', 'both', 'neither', 'both',
            'measured', 'benchmark'][i % 8]
    if kind in ('measured', 'both'):
        place.measure(*measured(rng, i // 8))
    elif rng.random() < .4:
        os.makedirs(os.path.join(place.dir, 'RawData'))
    if kind in ('benchmark', 'both'):
        place.write('Benchmark', benchmark(rng))
    elif rng.random() < .4:
        os.makedirs(os.path.join(place.dir, 'Parameters'))
    if rng.random() < .5:
        for s in rng.choice(SETS, size=int(rng.integers(1, 4)),
                            replace=False):
            place.write(str(s), some_set(rng))
    foreign(rng, place)
    # neighbours have other values
    for n in rng.choice(NAMES, size=int(rng.integers(0, 3)), replace=False):
        if rng.random() < .3:
            n = str(rng.choice([name.upper(), name.lower(), 'A' + name]))
        if n != name:
            world.make_bicycle(root, str(n), benchmark(rng), measured(
                rng, i)[0] if rng.random() < .3 else None)
    mon.note(kind=kind, name=name, sets=place.sets, mp=place.mp)
    mon.sig(kind, name, sorted(place.sets), place.sets.get('Benchmark', {}).get(
        'mB'), place.mp and place.mp['mB'])
    for _ in range(2):
        if rng.random() < .7:
            ages(rng, place)
        load(mon, rng, place, 'load')
    if i % 4 == 1:
        who = str(rng.choice(['Nobody', name.lower() + 'x', name + 'Y', '']))
        if who:
            before = disk()
            e = mon.raises(ValueError, 'missing-directory', Bicycle, who,
                           pathToData=root)
            mon.check(e is None or who in str(e), 'missing-directory:names-it',
                      str(e))
            mon.check(disk() == before, 'missing-directory:files')


def history(mon, rng, i):
    """Loads between changes of the files, of several bicycles."""
    roots = ['one', os.path.join(mon.scratch, 'two')][:1 + i % 2]
    names = rng.choice(NAMES, size=int(rng.integers(1, 4)), replace=False)
    places = [Place(r, str(n)) for r in roots for n in names]
    for p in places:
        if rng.random() < .7:
            p.write('Benchmark', benchmark(rng))
        if rng.random() < .5 or not p.sets:
            p.measure(*measured(rng, i))
    rider = {'mB': 71., 'xB': .4, 'yB': 0., 'zB': -1.1, 'IBxx': 9., 'IByy': 9.5,
             'IBzz': 2., 'IBxz': -.4, 'IBxy': 0., 'IByz': 0.}
    for p in places:
        world.write_par(os.path.join(p.root, 'riders', 'Pat', 'Parameters',
                                     'Pat' + p.name + 'Benchmark.txt'), rider)
    held, done = [], []
    for _ in range(int(rng.integers(6, 17))):
        p = places[int(rng.integers(len(places)))]
        act = str(rng.choice(['load', 'load', 'load', 'benchmark', 'measured',
                              'set', 'remove', 'unmeasure', 'edit', 'rider',
                              'touch']))
        done.append((act, p.root[-3:], p.name))
        if act == 'load':
            b = load(mon, rng, p, 'history')
            if b is not None:
                held.append([b, state(b)])
        elif act == 'benchmark':
            p.write('Benchmark', benchmark(rng))
        elif act == 'measured':
            p.measure(*measured(rng, int(rng.integers(4))))
        elif act == 'set':
            p.write(str(rng.choice(SETS)), some_set(rng))
        elif act == 'touch' and 'Benchmark' in p.sets:
            # one value only, times and size of the file as before
            q, path = dict(p.sets['Benchmark']), os.path.join(
                p.dir, 'Parameters', p.name + 'Benchmark.txt')
            st = os.stat(path)
            q['mB'] = q['mB'] * 1.25
            p.write('Benchmark', q)
            os.utime(path, ns=(st.st_atime_ns, st.st_mtime_ns))
        elif act == 'remove' and p.sets:
            p.remove(sorted(p.sets)[int(rng.integers(len(p.sets)))])
        elif act == 'unmeasure' and p.mp is not None:
            p.unmeasure()
        elif act in ('edit', 'rider') and held:
            h = held[int(rng.integers(len(held)))]
            if act == 'edit':
                for q in h[0].parameters.values():
                    for k in q:
                        q[k] = q[k] * 2
            elif 'Benchmark' in h[0].parameters:
                mon.call('rider', h[0].add_rider, 'Pat')
            h[1] = state(h[0])
        # no bicycle changes behind its owner's back
        for b, s in held:
            mon.check(state(b) == s, 'history:held', '%s changed by %r' %
                      (b, done[-1]))
    mon.note(done=done)
    mon.sig(done, [p.sets.get('Benchmark', {}).get('mB') for p in places])
    mon.count('steps', len(done))
    for p in places:
        load(mon, rng, p, 'last')


def parse(path):
    """An independent reader of plain files."""
    out = {}
    for line in open(path):
        line = line.split('#')[0].strip()
        if line:
            k, v = line.split('=')
            vs = [x.split('+/-') for x in v.split(',')]
            n = [float(x[0]) for x in vs]
            s = [float(x[1]) if len(x) > 1 else 0. for x in vs]
            out[k.strip()] = (sum(n) / len(n),
                              np.sqrt(sum(x * x for x in s)) / len(s))
    return out


def against(mon, got, path, key):
    want = parse(path)
    mon.check(set(got) == set(want), key + ':names')
    for k, (n, s) in want.items():
        if k in got:
            mon.close(world.nominal(got[k]), n, key, k, rtol=1e-12,
                      atol=1e-15)
            mon.close(world.std(got[k]), s, key + ':deviation', k,
                      rtol=1e-9, atol=1e-15)


def shipped(mon, rng, i):
    """The bicycles that come with the package."""
    bench, meas = (world.shipped_with_benchmark(),
                   world.shipped_with_measured())
    every = sorted(set(bench) | {'Balanceassistv1', 'Gyro', 'Stratos'} &
                   set(meas))
    name = every[i % len(every)]
    others = [str(x) for x in rng.choice(every, size=2) if x != name]
    world.copy_shipped('data', bikes=[name] + others)
    d = os.path.join('data', 'bicycles', name)
    mon.note(name=name)
    mon.sig(name, i)
    before = disk()
    for x in others:
        if x in bench:
            Bicycle(x, 'data')
    if name in bench:
        b = mon.call('shipped', Bicycle, name, pathToData='data')
        files = {f[len(name):-4]: os.path.join(d, 'Parameters', f)
                 for f in os.listdir(os.path.join(d, 'Parameters'))}
        if name in meas:
            files['Measured'] = os.path.join(d, 'RawData', name +
                                             'Measured.txt')
        mon.check(set(b.parameters) == set(files), 'shipped:sets', '%r' %
                  sorted(b.parameters))
        for k, path in files.items():
            if k in b.parameters:
                against(mon, b.parameters[k], path, 'shipped:set')
    if name in meas:
        mp = io.load_parameter_text_file(os.path.join(
            d, 'RawData', name + 'Measured.txt'))
        try:
            want = calculate_benchmark_from_measured(mp)[0]
        except Exception:
            want = None           # periods are missing
        if want is not None:
            c = mon.call('shipped', Bicycle, name, 'data', True)
            mon.check(set(want) == set(c.parameters['Benchmark']),
                      'shipped:calculated-names')
            for k, v in want.items():
                mon.close(world.nominal(c.parameters['Benchmark'][k]),
                          world.nominal(v), 'shipped:calculated', k)
            against(mon, c.parameters['Measured'], os.path.join(
                d, 'RawData', name + 'Measured.txt'), 'shipped:measured')
            mon.count('recalculated')
    mon.check(disk() == before, 'shipped:files', '%r' % sorted(
        set(disk()) ^ set(before)))


GROUPS = [('sources', 320, 9600, sources), ('history', 120, 3600, history),
          ('shipped', 24, 240, shipped)]
MINIMUM = {'source:calculated:forced:both': 20,
           'source:file:both': 20, 'source:file:forced': 10,
           'source:none:forced': 3, 'nothing': 3, 'steps': 500,
           'recalculated': 4}
