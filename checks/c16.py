"""C16 periods from raw recordings reach the measured file."""
import os
import re
import matplotlib.figure
import numpy as np
from scipy.io import savemat

from bicycleparameters import io, period
from bicycleparameters import Bicycle
from vp import gen, measure, world
from checks.c12 import known

TECHNIQUE = ('runtime monitor: synthetic recordings of a known bicycle on '
             'disk, history checker over directory snapshots of repeated '
             'loads, oracle on periods and benchmark parameters')
LEVEL_NOTE = ('Every load observed works on recordings generated from a known '
              'bicycle; each directory is snapshotted before and after.')
RULE = ('random bicycles (whole and split fork), one to three recordings per '
        'period with sample rate, actual rate or time vectors; measured files '
        'with all, some, stale or no periods, comments, blank lines, averaged '
        'values and no final newline; histories of forced, automatic and '
        'plain loads; distinct by the measured file')
ASSUMPTIONS = ['the recordings meet the assumptions of C14', 'names follow '
               'the documented convention']

PART = {'B': 'Frame', 'F': 'Fwheel', 'R': 'Rwheel', 'G': 'Handlebar',
        'S': 'Fork', 'H': 'Fork', 'P': 'Rod', 'D': 'Flywheel'}
PEND = {'c': 'Compound', 't': 'Torsional'}
RODS = ['Rod', 'CalRod', 'ThickRod', 'rod', 'RodB']
ORDER = ['First', 'Second', 'Third', 'Fourth', 'Fifth', 'Sixth']


def recording(rng, T, noise):
    """(data, time information) of an oscillation with the period."""
    zeta, A, off = gen.logu(rng, 3e-4, 8e-3), gen.logu(rng, .5, 2.5), \
        rng.uniform(-2, 3)
    n = int(rng.integers(70, 140))
    fs = float(np.ceil(n / T))
    size = int(rng.uniform(8, 14) * T * fs)
    kind = ['sampleRate', 'ActualRate', 'time', 'both'][rng.integers(4)]
    t = np.arange(size) / fs
    if kind == 'time':
        t = np.sort(t + rng.uniform(-.4, .4, size) / fs)
        t -= t[0]
    w = 2 * np.pi / T / np.sqrt(1 - zeta**2)
    y = off + A * np.exp(-zeta * w * t) * np.sin(
        2 * np.pi / T * t + rng.uniform(0, 2 * np.pi))
    y += noise * A * rng.normal(size=size)
    d = {'data': y.reshape(-1, 1), 'duration': size / fs}
    if kind == 'time':
        # the nominal rate is not the real one
        d['time'] = (t + rng.choice([0., 20.])).reshape(-1, 1)
        d['sampleRate'] = round(fs * rng.uniform(.8, 1.2))
    elif kind == 'both':
        d['sampleRate'] = round(fs * rng.uniform(.8, 1.2))
        d['ActualRate'] = fs
    else:
        d[kind] = fs if rng.random() < .5 else int(fs)
    return d


def record_all(rng, raw, name, mp, keys, noise):
    files = []
    many = rng.choice(keys) if keys else None
    for k in keys:
        pend, part, orien = PEND[k[1]], PART[k[2]], ORDER[int(k[3]) - 1]
        n = int(rng.choice([1, 1, 2, 3]))
        if k == many:
            n = int(rng.integers(4, 13))
        # repetitions differ, their mean is the true period
        e = rng.uniform(-.02, .02, n)
        for j, x in enumerate(e - e.mean()):
            d = recording(rng, mp[k] * (1 + x), noise)
            f = '%s%s%s%s%d' % (name, part, pend, orien, j + 1)
            if k[2] == 'P' and rng.random() < .5:
                # the recordings of the rod name it
                d['rod'] = str(rng.choice(RODS))
            d.update({'bicycle': name, 'part': d.get('rod', part),
                      'pendulum': pend,
                      rng.choice(['angle', 'angleOrder']): orien,
                      'trial': str(j + 1), 'filename': f})
            d['notes'] = ['', 'some notes', np.array([], dtype='<U1')][
                rng.integers(3)]
            if rng.random() < .2:
                del d['notes']
            savemat(os.path.join(raw, f + '.mat'), d)
            files.append(f)
    return files


def measured_text(rng, mp, drop, stale):
    """The file and its lines that are not periods."""
    lines = []
    keys = list(mp)
    rng.shuffle(keys)
    for k in keys:
        k = str(k)
        if k in drop:
            continue
        v = mp[k] * (1.3 if k in stale else 1.)
        if k[0] == 'T':
            lines.append('%s = %r+/-%r' % (k, v, v * 1e-4))
        elif rng.random() < .2:
            lines.append('%s=%r , %r' % (k, v * 1.01, v * .99))
        elif rng.random() < .3:
            lines.append('%s = %r +/- %r # measured' % (k, v, abs(v) * 1e-9))
        else:
            lines.append('%s = %r' % (k, v))
        if rng.random() < .1:
            lines.append(str(rng.choice(
                ['# Tools', '', '# TcB1 = 3', '  ', '# t', '#TtB1 = 3.0'])))
        if rng.random() < .04 and not any(x in ' '.join(lines) for x in
                                          ('tilt', 'tcB1')):
            # entries of the user that are no periods
            lines += [str(rng.choice(['tilt = 0.3', 'tcB1 = 1.5+/-0.1',
                                      '  notT = 2.0']))]
    return '\n'.join(lines) + rng.choice(['', '\n', '\n\n'])


def stub(real):
    old = matplotlib.figure.Figure.savefig
    if not real:
        def save(self, path, *a, **k):
            with open(path, 'wb') as f:
                f.write(b'plot')
        matplotlib.figure.Figure.savefig = save
    return old


def load(mon, key, *a, **k):
    old = stub(k.pop('real', False))
    try:
        return mon.call(key, Bicycle, *a, **k)
    finally:
        matplotlib.figure.Figure.savefig = old


def periods_in(par):
    return {k: v for k, v in par.items() if k[0] == 'T'}


def near(mon, got, want, key):
    """Equal up to the digits that are stored."""
    mon.check(set(got) == set(want), key + ':names', '%r, want %r' %
              (sorted(got), sorted(want)))
    for k in want:
        g, w = world.nominal(got[k]), world.nominal(want[k])
        mon.check(abs(g - w) <= .17 * world.std(want[k]) + 1e-12 * abs(w),
                  key, '%s: %r, want %r' % (k, got[k], want[k]))


def true_parameters(mon, par, want, key):
    for k, w in want.items():
        if k not in par:
            continue
        s = world.std(par[k])
        sc = .01 if k[0] == 'I' else 1.
        mon.check(abs(world.nominal(par[k]) - w) <= 7 * s + 1e-6 * sc, key,
                  '%s: %r, true %r' % (k, par[k], w))
    mon.check(not set(want) - set(par), key + ':complete')


def history(mon, rng, i):
    split = bool(i % 2)
    n = {q: int(rng.integers(3, 5)) for q in 'BGSH'}
    p, parts, refpt = measure.bicycle(rng, split)
    fly = (2., .05, .08) if i % 7 == 3 else None
    mp = measure.measure(rng, p, parts, refpt, 'angle', n, fly)
    name = ['Made', 'Bigbike', 'Bikev2'][i % 3]
    keys = sorted(k for k in mp if k[0] == 'T')
    mode = ['none', 'stale', 'partial', 'few', 'given', 'gaps'][(i // 2) % 6]
    drop, stale, rec = set(), set(), keys
    if mode == 'none':
        drop = set(keys)
    elif mode == 'stale':
        stale = set(keys)
    elif mode == 'partial':
        # some periods have no recordings, they are given in the file
        rec = [k for k in keys if rng.random() < .6]
        stale = set(rec)
    elif mode == 'few':
        # the user relies on the recalculation when periods are missing
        rec, drop = keys, set(keys) - set(keys[:int(rng.integers(1, 4))])
        stale = set(keys)
    elif mode == 'gaps':
        # as before, but only a few are missing
        need = [k for k in keys if k[2] != 'D']
        drop = set(str(x) for x in rng.choice(
            need, size=int(rng.integers(1, 4)), replace=False))
        rec, stale = keys, set(keys)
    elif mode == 'given':
        rec, stale = keys, set(keys)
    root = ['data', os.path.join(mon.scratch, 'some data'), '.'][i % 3]
    raw = os.path.join(root, 'bicycles', name, 'RawData')
    os.makedirs(raw)
    other = world.make_bicycle(root, 'Other', measured=mp)
    noise = gen.logu(rng, 1e-5, 1e-3)
    files = record_all(rng, raw, name, mp, rec, noise)
    text = measured_text(rng, mp, drop, stale)
    path = os.path.join(raw, name + 'Measured.txt')
    with open(path, 'w') as f:
        f.write(text)
    for f in files:
        # files beside the recordings that are no recordings
        if rng.random() < .15:
            d = recording(rng, 3.1, noise)
            d.update({'bicycle': name, 'part': 'Fwheel',
                      'pendulum': 'Compound', 'angle': 'First',
                      'trial': '9'})
            savemat(os.path.join(raw, f + str(rng.choice(
                ['.mat.bak', '.mat~', '.mat.old', 'mat', '.mat.txt']))), d,
                appendmat=False)
    mon.note(text=text, mode=mode, recorded=rec, files=files)
    mon.sig(text)
    before = world.tree('.')
    given = periods_in(io.load_parameter_text_file(path))
    want = known(p, parts, fly)
    rel = os.path.relpath(path, '.')

    if mode == 'given':
        # enough periods are given: no recording is looked at
        for _ in range(2):
            b = load(mon, 'plain', name, pathToData=root)
            near(mon, periods_in(b.parameters['Measured']), given,
                 'plain:periods')
        mon.check(world.tree('.') == before, 'plain:directory-unchanged')
        mon.count('untouched')
    force = mode in ('stale', 'partial', 'given')
    b = load(mon, 'forced', name, pathToData=root, forceRawCalc=force or
             bool(rng.random() < .5), forcePeriodCalc=force,
             real=i % 25 == 0)
    got = periods_in(b.parameters['Measured'])
    mon.check(set(got) == set(keys), 'forced:periods-complete',
              '%r, want %r' % (sorted(got), keys))
    for k in rec:
        T = got[k]
        mon.check(abs(T.nominal_value - mp[k]) <= 6.5 * T.std_dev + 1e-9,
                  'forced:mean-of-trials', '%s: %r, true %r' %
                  (k, T, mp[k]))
        mon.check(T.std_dev <= 3 * noise * mp[k] + 1e-9,
                  'forced:deviation', '%s: %r' % (k, T))
    near(mon, {k: got[k] for k in keys if k not in rec},
         {k: given[k] for k in keys if k not in rec}, 'forced:given-kept')
    true_parameters(mon, b.parameters['Benchmark'], want, 'forced:benchmark')
    after = world.tree('.')
    # only the measured file changed, one plot per recording appeared
    plots = {os.path.relpath(os.path.join(root, 'bicycles', name, 'Plots',
                                          'PendulumFit', f + '.png'), '.')
             for f in files}
    mon.check(set(after) == set(before) | plots, 'forced:files',
              '%r' % sorted(set(after) ^ (set(before) | plots)))
    mon.check(all(after[k] == before[k] for k in before if k != rel),
              'forced:others-unchanged')
    new = after[rel].decode()
    keep = [ln for ln in text.splitlines() if not re.match('T', ln)]
    mon.check([ln for ln in new.splitlines() if not re.match('T', ln)]
              == keep, 'forced:other-entries', 'file is now\n' + new)
    names = [ln.split('=')[0].strip() for ln in new.splitlines()
             if re.match('T', ln)]
    mon.check(sorted(names) == keys, 'forced:each-period-once',
              '%r' % names)
    # histories of plain and forced loads agree with the first
    for _ in range(int(rng.integers(1, 3))):
        c = load(mon, 'later', name, pathToData=root)
        near(mon, periods_in(c.parameters['Measured']), got, 'later:periods')
        for k, v in b.parameters['Benchmark'].items():
            mon.check(abs(world.nominal(c.parameters['Benchmark'][k]) -
                          world.nominal(v)) <= 1.5 * world.std(v) + 1e-9,
                      'later:benchmark', '%s: %r then %r' %
                      (k, v, c.parameters['Benchmark'][k]))
        mon.check(world.tree('.') == after, 'later:directory-unchanged')
    d = load(mon, 'again', name, pathToData=root, forceRawCalc=True,
             forcePeriodCalc=True)
    near(mon, periods_in(d.parameters['Measured']), got, 'again:periods')
    mon.check(world.tree('.')[rel] == after[rel], 'again:same-file',
              world.tree('.')[rel].decode())
    mon.count('mode:' + mode)
    mon.count('recordings', len(files))



def directories(mon, rng, i):
    """The periods of some of the files of a directory, however spelled."""
    name = 'Made'
    home = os.path.join('data', 'bicycles', name)
    raw = os.path.join(home, 'RawData')
    os.makedirs(raw)
    split = bool(rng.integers(2))
    parts = 'BFRPGS' if split else 'BFRPH'
    keys = sorted(set('T%s%s%d' % (rng.choice(list('ct')),
                                   rng.choice(list(parts)),
                                   rng.integers(1, 4)) for _ in range(3)))
    mp = {k: float(rng.uniform(.8, 2.5)) for k in keys}
    noise = gen.logu(rng, 1e-5, 1e-3)
    files = record_all(rng, raw, name, mp, keys, noise)
    rng.shuffle(files)
    abspath = os.path.abspath(raw)
    spelled, cwd = [(raw, '.'), (raw + '/', '.'), (raw + '//', '.'),
                    ('./' + raw, '.'), (abspath, '.'), (abspath + '/', '.'),
                    (os.path.join(home, '.', 'RawData'), '.'),
                    (os.path.join(raw, '..', 'RawData'), '.'),
                    ('RawData', home), ('RawData/', home),
                    ('../RawData', raw)][i % 11]
    mon.note(directory=spelled, keys=keys, files=files)
    mon.sig(spelled, tuple(mp.items()))
    if i % 3 == 1:
        # plots of earlier recordings, and one to be made again
        fit = os.path.join(home, 'Plots', 'PendulumFit')
        os.makedirs(fit)
        for x in ['Old%d' % k for k in range(int(rng.integers(1, 90)))] + [
                files[0]]:
            with open(os.path.join(fit, x + '.png'), 'wb') as f:
                f.write(b'old')
    before = world.tree('.')
    here = os.getcwd()
    old = stub(True)
    stub(False)
    os.chdir(cwd)
    try:
        got = mon.call('directory', period.calc_periods_for_files, spelled,
                       [f + '.mat' for f in files], split)
    finally:
        os.chdir(here)
        matplotlib.figure.Figure.savefig = old
    mon.check(sorted(got) == keys, 'directory:keys', repr(sorted(got)))
    for k in keys:
        T = got[k]
        mon.check(abs(T.nominal_value - mp[k]) <= 6.5 * T.std_dev + 1e-9,
                  'directory:mean', '%s: %r, true %r' % (k, T, mp[k]))
    after = world.tree('.')
    plots = {os.path.join(home, 'Plots', 'PendulumFit', f + '.png')
             for f in files}
    mon.check(set(after) == set(before) | plots, 'directory:files',
              '%r' % sorted(set(after) ^ (set(before) | plots)))
    mon.check(all(after[k] == before[k] for k in set(before) - plots),
              'directory:recordings-unchanged')
    mon.check(all(after[k] == b'plot' for k in plots), 'directory:new-plots')
    mon.count('directories')


def mat_files(mon, rng, i):
    """Contents and names of a single recording."""
    k = 'T' + rng.choice(['c', 't']) + rng.choice(list('BFRHGSPD')) + str(
        int(rng.integers(1, 7)))
    split = k[2] in 'GS' or rng.random() < .5 and k[2] != 'H'
    d = recording(rng, 1., .01)
    orien = ORDER[int(k[3]) - 1]
    d.update({'bicycle': 'Made', 'part': PART[k[2]], 'pendulum': PEND[k[1]],
              ['angle', 'angleOrder'][i % 2]: orien,
              'trial': str(i % 9 + 1)})
    if rng.random() < .4:
        d['rod'] = str(rng.choice(RODS))
        if k[2] == 'P':
            d['part'] = d['rod']
    notes = [None, '', 'a note', np.array([], dtype='<U1')][i % 4]
    if notes is not None:
        d['notes'] = notes
    f = 'Made' + PART[k[2]] + PEND[k[1]] + orien + str(i % 9 + 1)
    savemat(f + '.mat', d)
    mon.note(key=k, split=split)
    mon.sig(k, split, d['data'][0, 0])
    m = mon.call('mat', io.load_pendulum_mat_file, f + '.mat')
    mon.check(np.array_equal(np.asarray(m['data']), d['data'].ravel()),
              'mat:data')
    mon.check(not [x for x in m if x.startswith('__')], 'mat:no-header')
    mon.check(m.get('notes', '') == ('' if not isinstance(notes, str) else
                                     notes), 'mat:notes', repr(m.get('notes')))
    if 'time' in d:
        mon.check(np.array_equal(m['time'], d['time'].ravel()), 'mat:time')
        # nothing that contradicts the times is left
        mon.check(not {'sampleRate', 'duration'} & set(m), 'mat:time-only')
    else:
        mon.check(mon.call('rate', period.get_sample_rate, m) ==
                  d.get('ActualRate', d.get('sampleRate')), 'mat:rate')
    for x in ('bicycle', 'part', 'pendulum', 'trial'):
        mon.check(str(m[x]) == d[x], 'mat:' + x)
    mon.check(mon.call('key', period.get_period_key, m, bool(split)) == k,
              'mat:key', '%r, want %r' % (
                  period.get_period_key(m, bool(split)), k))
    got = mon.call('filename', io.filename_to_dict, f + '.mat')
    mon.check(got == {'bicycle': 'Made', 'part': PART[k[2]],
                      'pendulum': d['pendulum'], 'angleOrder': orien,
                      'trial': d['trial']}, 'mat:filename', repr(got))
    # is there enough given
    sp = bool(rng.integers(2))
    mp, T = {'c': 1., 'mT': 2.}, ['TtP1', 'TtF1', 'TtR1', 'TcF1', 'TcR1']
    for q in 'BSG' if sp else 'BH':
        T += ['Tc%s1' % q]
        for x in range(int(rng.integers(3, 7))):
            mp.update({'alpha%s%d' % (q, x + 1): 1., 'a%s%d' % (q, x + 1): 1.})
            T += ['Tt%s%d' % (q, x + 1)]
    drop = set(str(x) for x in rng.choice(T, replace=False, size=int(
        rng.integers(0, [1, 2, 4, len(T) + 1][int(rng.integers(4))]))))
    mp.update({k: 1. for k in T if k not in drop})
    keys = list(mp)
    rng.shuffle(keys)
    mon.check(bool(mon.call('enough', period.check_for_period,
                            {str(k): mp[str(k)] for k in keys}, sp)) ==
              bool(drop), 'mat:enough-periods', 'missing %r' % drop)


GROUPS = [('directories', 33, 660, directories),
          ('history', 72, 1440, history), ('mat-files', 180, 3600, mat_files)]
MINIMUM = {'directories': 30, 'mode:none': 2, 'mode:partial': 2, 'recordings': 200,
           'untouched': 2}
