"""C29 results depend on the arguments alone, in threads and environments."""
import decimal
import json
import os
import random
import subprocess
import sys
import threading
import warnings
import zlib
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import numpy as np

from vp import battery, world

TECHNIQUE = ('runtime monitor: a battery of some eighty calculations on shared '
             'objects, run in threads with injected yields, in other '
             'processes and environments, and in random orders; fingerprints '
             'of results, snapshots of arguments and of the global state of '
             'the process')
LEVEL_NOTE = ('Every result observed is compared with that of the same '
              'arguments alone; thread switches inside the package and '
              'distinct interleavings are counted.')
RULE = ('random models, parameter sets, bicycles and measurements; 2 to 6 '
        'threads with yields injected at traced lines; processes with other '
        'hash seeds, directories, locales, time zones and -O; other print '
        'options, random states and decimal contexts; distinct by '
        'interleaving or environment')
ASSUMPTIONS = ['NumPy, SciPy and uncertainties are safe for this use (shared '
               'uncertain values are expanded beforehand)',
               'drawing is not done in several threads at once (C27 decides '
               'the application)']
AGAIN = 2**40


def seed_of(rng):
    return int(rng.integers(2**31))


def threads(mon, rng, i):
    """The battery in several threads, each in its own order."""
    calls, _, shared = battery.make(seed_of(rng), 'work')
    # the simulations of the leaning rider take long
    names = [k for k in sorted(calls) if not k.startswith('riderlean') or
             i % 8 == 5 and 'point' in k]
    if i % 3 == 1:
        # a few calculations meet each other often
        names = [str(x) for x in rng.choice(names, size=5, replace=False)]
    n = int(rng.integers(2, 7))
    late = i % 2 == 0       # compared with results of before or of after
    alone = {} if late else {k: battery.flat(calls[k]()) for k in names}
    before = battery.flat(shared)
    plans = []
    for _ in range(n):
        plan = names * (4 if len(names) == 5 else 1)
        rng.shuffle(plan)
        plans.append(plan[:24])
    if i % 4 == 3:
        plans = [plans[0]] * n          # all at the same at the same time
    tracer = battery.Tracer(seed_of(rng), [.02, .1, .3][i % 3])
    results, faults = [[] for _ in range(n)], []
    start = threading.Barrier(n)

    def work(k):
        tracer.start(k)
        try:
            start.wait()
            for name in plans[k]:
                results[k].append((name, calls[name]()))
        except Exception as e:
            faults.append('%s: %r' % (plans[k][len(results[k])], e))

    ts = [threading.Thread(target=work, args=(k,)) for k in range(n)]
    interval = sys.getswitchinterval()
    sys.setswitchinterval([2e-5, 3e-4, 5e-3][i % 3])
    try:
        with tracer:
            for t in ts:
                t.start()
            for t in ts:
                t.join()
    finally:
        sys.setswitchinterval(interval)
    mon.note(threads=n, names=names[:8], plans=[p[:5] for p in plans])
    mon.check(not faults, 'threads:fault', '; '.join(faults[:3]))
    for k in names if late else []:
        alone[k] = battery.flat(calls[k]())
    for r in results:
        for name, got in r:
            d = battery.differs(battery.flat(got), alone[name])
            mon.check(d is None, 'threads:result', '%s %s' % (name, d))
    d = battery.differs(battery.flat(shared), before)
    mon.check(d is None, 'threads:arguments', d)
    who = [w for w, _ in tracer.log]
    mon.count('thread-switches', sum(a != b for a, b in zip(who, who[1:])))
    mon.count('calls-traced', len(who))
    mon.sig(zlib.crc32(repr(tracer.log).encode()))


def quiet(kind, flag):
    """The user's handler of floating point errors."""


def orders(mon, rng, i):
    """Any order, repeated, under other settings; nothing is left behind."""
    calls, single, shared = battery.make(seed_of(rng), 'work')
    calls.update(single)
    names = sorted(calls)
    rng.shuffle(names)
    first = {str(k): None for k in names}
    args = battery.flat(shared)
    settings = (np.get_printoptions(), decimal.getcontext().copy(),
                matplotlib.rcParams.copy())
    setting = ['plain', 'print', 'random', 'decimal', 'plots'][i % 5]
    tree = {k: v for k, v in world.tree('work/data').items()}
    try:
        for turn in range(2):
            np.seterrcall(quiet)
            # filters that were not there when anything ran before
            warnings.resetwarnings()
            warnings.simplefilter(['always', 'ignore'][turn])
            np.seterr(all=['warn', 'call'][turn])
            if turn:
                rng.shuffle(names)
                if setting == 'print':
                    np.set_printoptions(precision=2, threshold=3, suppress=True)
                elif setting == 'random':
                    np.random.seed(int(rng.integers(2**31)))
                    random.seed(int(rng.integers(2**31)))
                elif setting == 'decimal':
                    decimal.getcontext().prec = 3
                elif setting == 'plots':
                    matplotlib.rcParams.update({
                        'font.size': 31., 'lines.linewidth': 7.,
                        'axes.formatter.useoffset': False})
                    plt.plot([1, 2], [3, 4])
            state = battery.surroundings()
            for k in names:
                k = str(k)
                got = battery.flat(mon.call('order:' + k, calls[k]))
                if not turn:
                    first[k] = got
                else:
                    d = battery.differs(got, first[k])
                    mon.check(d is None, 'orders:result', '%s %s' % (k, d))
                now = battery.surroundings()
                if k == 'period':
                    # it draws: a figure may be left open
                    now['figures'] = state['figures']
                ok = mon.check(now == state, 'orders:surroundings',
                               '%s changes %s' % (k, [
                                   x for x in state if now[x] != state[x]]))
                if not ok:
                    state = battery.surroundings()
                if k == 'period':
                    state['figures'] = plt.get_fignums()
                mon.check(battery.flat(shared) == args, 'orders:arguments',
                          '%s changes its arguments' % k)
    finally:
        np.set_printoptions(**settings[0])
        decimal.setcontext(settings[1])
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            matplotlib.rcParams.update(settings[2])
    mon.check(world.tree('work/data') == tree, 'orders:files')
    mon.note(order=names[:10], setting=setting)
    mon.sig(names)
    mon.count('setting:' + setting)


def processes(mon, rng, i):
    """The battery in processes of other surroundings; whatever is made when
    it is first needed is needed by several threads at once in some."""
    seed = seed_of(rng)
    calls, single, _ = battery.make(seed, 'work')
    calls.update(single)
    want = {k: battery.flat(f()) for k, f in calls.items()}
    script = os.path.abspath(battery.__file__)
    for turn in range(2):
        n = 0 if turn == 0 else int(rng.integers(2, 6))
        env = dict(os.environ, PYTHONHASHSEED=str(int(rng.integers(2**32))),
                   PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='agg',
                   VP_REPO=world.REPO,
                   TZ=str(rng.choice(['UTC', 'Asia/Tokyo', 'America/Lima'])),
                   COLUMNS=str(rng.choice(['20', '80', '300'])),
                   LC_ALL=str(rng.choice(['C', 'C.UTF-8', 'POSIX'])),
                   OPENBLAS_NUM_THREADS=str(rng.choice(['1', '2'])))
        env['PYTHONUTF8'] = '1'
        cmd = [sys.executable] + [['-B'], ['-O'], ['-OO'], ['-X', 'dev']][
            int(rng.integers(4))]
        d = os.path.join(mon.scratch, 'other%d' % turn, 'place')
        os.makedirs(d)
        out = os.path.join(d, 'result.json')
        r = subprocess.run(cmd + [script, str(seed), str(int(rng.integers(
            2**31))), os.path.join(d, 'work'), out, str(n)], cwd=d, env=env,
            capture_output=True, text=True, timeout=200)
        if not mon.check(r.returncode == 0, 'processes:ends',
                         r.stderr[-1500:]):
            continue
        got = json.load(open(out))
        changed = got.pop('surroundings', ['nothing said'])
        mon.check(changed == [], 'processes:surroundings', '%s changed' %
                  changed)
        if n:
            # in threads
            fault = got.pop('faults')
            mon.check(not fault, 'processes:fault', '; '.join(fault[:3]))
            mon.count('first-in-threads', len(got))
        else:
            mon.check(set(got) == set(want), 'processes:all')
        for k in got:
            for g in got[k] if n else [got[k]]:
                d = battery.differs(g, json.loads(json.dumps(want[k])))
                mon.check(d is None, 'processes:result', '%s %s' % (k, d))
        mon.sig(seed, env['PYTHONHASHSEED'])
        mon.count('processes')
    mon.note(seed=seed)


GROUPS = [('threads', 120, 3000, threads), ('orders', 60, 1000, orders),
          ('processes', 10, 120, processes)]
MINIMUM = {'first-in-threads': 300, 'thread-switches': 5000, 'processes': 10, 'setting:print': 4}
