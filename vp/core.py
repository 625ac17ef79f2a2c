"""Scheduler, monitor, verdicts, evidence and replay for all checks."""
import collections
import concurrent.futures as cf
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
import zlib

from vp import again

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
CASE_TIMEOUT = 240
BUDGET = {'quick': 600, 'thorough': 7200}


class Violation(Exception):
    """Raised to abort a case after a violation was recorded."""


class Hang(BaseException):
    pass


def jsonable(x, depth=0):
    import numpy as np
    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:80]}
    if isinstance(x, (list, tuple)):
        return [jsonable(v, depth + 1) for v in list(x)[:60]]
    if isinstance(x, (str, bool)) or x is None:
        return x
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x) if np.isfinite(x) else repr(float(x))
    if isinstance(x, np.ndarray):
        if x.size > 64:
            return repr(x)[:400]
        return jsonable(x.tolist(), depth + 1)
    return repr(x)[:300]


class Monitor(object):
    """Observes one run of a group of cases: counts what was observed and
    records violations keyed by mechanism."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.obs = collections.Counter()
        self.sigs = set()
        self.evaluations = 0
        self.violations = []   # dicts
        self.errors = []       # harness errors
        self.samples = []
        self.group, self.index = None, None
        self.case = {}
        self.maxerr = {}
        self.held = []

    # -- bookkeeping -----------------------------------------------------
    def sig(self, *items):
        """Registers the current case as distinct and non-trivial."""
        h = hashlib.md5(repr(items).encode()).hexdigest()[:16]
        self.sigs.add(self.group + ':' + h)

    def note(self, **kw):
        """Describes the current case (kept for samples and replays)."""
        self.case.update(kw)

    def count(self, kind, n=1):
        self.obs[kind] += n

    def violate(self, key, msg, **data):
        self.violations.append(dict(
            key=key, msg=msg, group=self.group, index=self.index,
            case=jsonable(self.case), data=jsonable(data)))

    # -- checks ----------------------------------------------------------
    def check(self, ok, key, msg='', **data):
        self.obs[key] += 1
        if not bool(ok):
            self.violate(key, msg or key, **data)
        return bool(ok)

    def close(self, got, want, key, msg='', rtol=1e-9, atol=0.0, **data):
        """Element-wise |got - want| <= atol + rtol*|want| (nan/inf and shape
        differences are violations)."""
        import numpy as np
        self.obs[key] += 1
        try:
            g = np.asarray(got)
            w = np.asarray(want)
            if g.dtype == object or w.dtype == object:
                cast = lambda a: np.array([complex(e) if isinstance(e, complex)
                                           else float(e)
                                           for e in a.ravel()]).reshape(a.shape)
                g, w = cast(g), cast(w)
        except Exception as e:
            self.violate(key, '%s: not numeric (%r)' % (msg or key, e),
                         got=repr(got)[:300], want=repr(want)[:300], **data)
            return False
        if g.shape != w.shape:
            self.violate(key, '%s: shape %s, expected %s' %
                         (msg or key, g.shape, w.shape), got=g, want=w, **data)
            return False
        if g.size == 0:
            return True
        with np.errstate(all='ignore'):
            err = np.abs(g - w)
            tol = atol + rtol * np.abs(w)
            same = (g == w) | (np.isnan(g) & np.isnan(w))
            ok = same | (err <= tol)
            ratio = np.where(same, 0., err / np.where(tol > 0, tol, np.inf))
        if ok.all():
            self.maxerr[key] = max(self.maxerr.get(key, 0.0),
                                   float(np.nanmax(ratio)))
            return True
        bad = np.argwhere(~ok)
        i = tuple(bad[0])
        self.violate(key, '%s: at %s got %r, expected %r (%d of %d differ)' %
                     (msg or key, list(map(int, i)), g[i], w[i], len(bad),
                      g.size), got=g, want=w, **data)
        return False

    def call(self, key, f, *a, **k):
        """Calls code under test on an in-domain input: raising is a
        violation (and ends the case)."""
        try:
            return self.hold(key, f(*a, **k))
        except Hang:
            raise
        except Exception as e:
            tb = traceback.format_exc()
            self.violate(key + ':raises', '%s raised %s: %s' %
                         (key, type(e).__name__, e), traceback=tb[-1500:])
            raise Violation()

    def hold(self, key, r):
        """Remembers arrays the code under test returned: what it returns
        later must not change them."""
        import numpy as np
        for x in r if isinstance(r, (tuple, list)) else [r]:
            if isinstance(x, np.ndarray) and 0 < x.size < 2000 and \
                    len(self.held) < 300:
                self.held.append((key, x, x.copy()))
        return r

    def release(self, more=False):
        import numpy as np
        for key, x, old in self.held:
            self.obs['result-kept'] += 1
            with np.errstate(all='ignore'):
                same = x.shape == old.shape and (
                    all(a is b for a, b in zip(x.ravel().tolist(),
                                               old.ravel().tolist()))
                    if x.dtype == object else
                    np.array_equal(x, old, equal_nan=x.dtype.kind in 'fc'))
            if not same:
                self.violate(key + ':result-kept',
                             'a result changed after it was returned',
                             got=x, want=old)
                break
        if not more:
            self.held = []
        elif len(self.held) > 150:
            self.held = self.held[-150:]

    def raises(self, exc, key, f, *a, **k):
        self.obs[key] += 1
        try:
            r = f(*a, **k)
        except exc as e:
            return e
        except Exception as e:
            self.violate(key, '%s: expected %s, got %s: %s' %
                         (key, exc, type(e).__name__, e))
            return None
        self.violate(key, '%s: expected %s, but it returned' % (key, exc),
                     returned=repr(r)[:300])
        return None

    def export(self):
        return dict(obs=self.obs, sigs=self.sigs, evaluations=self.evaluations,
                    violations=self.violations, errors=self.errors,
                    samples=self.samples, maxerr=self.maxerr)

    def merge(self, d):
        self.obs.update(d['obs'])
        self.sigs |= d['sigs']
        self.evaluations += d['evaluations']
        self.violations += d['violations']
        self.errors += d['errors']
        self.samples += d['samples']
        for k, v in d['maxerr'].items():
            self.maxerr[k] = max(v, self.maxerr.get(k, 0.0))


def rng_for(seed, prop, group, i):
    import numpy as np
    return np.random.default_rng([seed & 0xffffffff,
                                  zlib.crc32(prop.encode()),
                                  zlib.crc32(group.encode()), i])


class Index(int):
    """Case number whose remainders by different numbers are independent.

    The cases choose their variant by remainders such as i % 4 and i % 6.
    Those of a plain integer are coupled, so that some combinations never
    occur; half of the cases get numbers whose remainders are not.
    """

    def __new__(cls, value, seed):
        self = super().__new__(cls, value)
        self.seed = seed
        return self

    def __mod__(self, n):
        return zlib.crc32(b'%d %d %d' % (self.seed, int(self), n)) % n

    def __floordiv__(self, n):
        return Index(int(self) // n, self.seed + 1)


def index_for(seed, group, i):
    # the first cases are plain, some checks have fixed examples there
    if i >= 30 and zlib.crc32(b'%d %d %s' % (seed, i, group.encode())) % 2:
        return Index(i, seed * 1000 + i)
    return i


def _alarm(signum, frame):
    raise Hang()


def in_repo(tb):
    for f in traceback.extract_tb(tb):
        if os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + '/'):
            return True
    return False


def run_case(mon, mod, group, fn, i):
    import numpy as np
    mon.group, mon.index, mon.case = group, i, {}
    mon.held = []
    rng = again.Recorder(rng_for(mon.seed, mon.prop, group, i))
    before = len(mon.violations)
    again.start()
    mon.evaluations += 1
    cwd = os.getcwd()
    scratch = tempfile.mkdtemp(prefix='case', dir=os.environ['VP_SCRATCH'])
    os.chdir(scratch)
    mon.scratch = scratch
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    out, err = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                fn(mon, rng, index_for(mon.seed, group, i))
                mon.release(True)
                h = zlib.crc32(b'again %d %d' % (mon.seed, i))
                if len(mon.violations) == before and \
                        not h % getattr(mod, 'AGAIN', 3):
                    # on other state, see vp/again.py
                    how = again.MODES[h // 9 % len(again.MODES)]
                    again.repeat(how, h // 64)
                    if how == 'freed':
                        mon.held.clear()
                    mon.case = {'again': how}
                    mon.count('again:' + how)
                    # files of the same names, but others
                    os.chdir(cwd)
                    shutil.rmtree(scratch)
                    os.mkdir(scratch)
                    os.chdir(scratch)
                    plt = sys.modules.get('matplotlib.pyplot')
                    if plt is not None:
                        plt.close('all')
                    signal.alarm(CASE_TIMEOUT)
                    fn(mon, rng.second(rng_for(mon.seed + 1, mon.prop, group,
                                               i)),
                       index_for(mon.seed, group, i))
                    mon.release()
    except Violation:
        pass
    except Hang:
        mon.violate('no-termination', 'case did not end within %d s' %
                    CASE_TIMEOUT)
    except BaseException as e:
        tb = sys.exc_info()[2]
        if isinstance(e, KeyboardInterrupt):
            raise
        text = traceback.format_exc()
        if in_repo(tb):
            mon.violate('raises', 'code under test raised %s: %s' %
                        (type(e).__name__, e), traceback=text[-2500:])
        elif isinstance(e, (TypeError, ValueError, KeyError, IndexError,
                            AttributeError, ArithmeticError)):
            # the oracle could not digest what the code under test returned
            mon.violate('unusable-result', 'result cannot be used: %s: %s' %
                        (type(e).__name__, e), traceback=text[-2500:])
        else:
            mon.errors.append('%s[%d]: %s' % (group, i, text[-2500:]))
    finally:
        again.start()
        sys.stdout, sys.stderr = out, err
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
        try:
            plt = sys.modules.get('matplotlib.pyplot')
            if plt is not None:
                plt.close('all')
        except Exception:
            pass
    if len(mon.samples) < 2 and mon.case:
        mon.samples.append({'group': group, 'index': i,
                            'case': jsonable(mon.case)})


_STATE = {}


def _work(cases):
    mod, prop, tier, seed = (_STATE[k] for k in ('mod', 'prop', 'tier', 'seed'))
    mon = Monitor(prop, tier, seed)
    groups = {g[0]: g[3] for g in mod.GROUPS}
    for g, i in cases:
        if time.time() > _STATE['deadline']:
            mon.count('cases-skipped-for-time')
            continue
        run_case(mon, mod, g, groups[g], i)
    return mon.export()


def load_known(prop):
    known, fixed = {}, []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                key, what = rest.split(' ', 1)
                assert key.startswith('key=')
                known[key[4:]] = what
            elif line.startswith('fixed: property=%s ' % prop):
                fixed.append(line)
    return known, fixed


def self_test():
    """The environment the checks need is there and all checks import."""
    sys.path.insert(0, REPO)
    import json as _json
    man = _json.load(open(os.path.join(VERIF, 'MANIFEST.json')))
    import numpy, scipy, matplotlib, uncertainties, pandas  # noqa
    for c in man['checks']:
        importlib.import_module('checks.' + c['property'].lower())
    os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
    print('self-test: %d checks import' % len(man['checks']))
    return 0


def main(argv):
    prop = argv[0]
    replay = None
    if '--replay' in argv:
        replay = json.load(open(argv[argv.index('--replay') + 1]))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if replay:
        seed, tier = replay['seed'], replay['tier']
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='vp-%s-' % prop)
    os.environ['VP_SCRATCH'] = scratch
    mplc = os.path.join(scratch, 'mpl')
    os.mkdir(mplc)
    if os.path.isdir('/opt/vp/mplconfig'):
        for f in os.listdir('/opt/vp/mplconfig'):
            src = os.path.join('/opt/vp/mplconfig', f)
            if os.path.isfile(src) and f.endswith('.json'):
                shutil.copy(src, mplc)
    os.environ['MPLCONFIGDIR'] = mplc
    code = 2
    try:
        code = _main(prop, tier, seed, replay, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return code


def _main(prop, tier, seed, replay, t0):
    sys.path.insert(0, REPO)
    import matplotlib
    matplotlib.use('Agg')
    import bicycleparameters
    got = os.path.realpath(bicycleparameters.__file__)
    want = os.path.realpath(os.path.join(REPO, 'bicycleparameters',
                                         '__init__.py'))
    if got != want:
        print('harness: imported %s instead of %s' % (got, want))
        return 2
    mod = importlib.import_module('checks.' + prop.lower())
    mon = Monitor(prop, tier, seed)
    groups = mod.GROUPS
    if replay:
        fn = {g[0]: g[3] for g in groups}[replay['group']]
        run_case(mon, mod, replay['group'], fn, replay['index'])
        for v in mon.violations:
            print('VIOLATION-DETAIL', json.dumps(v, indent=1))
        for e in mon.errors:
            print('HARNESS-ERROR', e)
        return 1 if mon.violations else (2 if mon.errors else 0)
    col = 1 if tier == 'quick' else 2
    cases = []
    only = os.environ.get('VP_ONLY')
    for g in groups:
        if only and g[0] not in only.split(','):
            continue
        cases += [(g[0], i) for i in range(g[col])]
    # interleave deterministically so that every chunk has a mix
    cases.sort(key=lambda c: zlib.crc32(('%s/%d' % c).encode()))
    nproc = int(os.environ.get('VP_JOBS', min(8, os.cpu_count() or 1)))
    _STATE.update(mod=mod, prop=prop, tier=tier, seed=seed,
                  deadline=t0 + BUDGET[tier])
    if hasattr(mod, 'prepare'):
        mod.prepare()
    size = max(1, min(25, len(cases) // (nproc * 4) or 1))
    chunks = [cases[k:k + size] for k in range(0, len(cases), size)]
    dead = False
    if nproc == 1:
        for c in chunks:
            mon.merge(_work(c))
    else:
        ctx = mp.get_context('fork')
        with cf.ProcessPoolExecutor(nproc, mp_context=ctx) as ex:
            futs = [ex.submit(_work, c) for c in chunks]
            for f in futs:
                try:
                    mon.merge(f.result())
                except cf.process.BrokenProcessPool:
                    dead = True
    return finish(mon, mod, t0, dead, partial=bool(only))


def finish(mon, mod, t0, dead, partial=False):
    prop, tier, seed = mon.prop, mon.tier, mon.seed
    known, fixed = load_known(prop)
    evdir = os.path.join(VERIF, 'evidence')
    rpdir = os.path.join(evdir, 'replay')
    os.makedirs(rpdir, exist_ok=True)
    for f in os.listdir(rpdir):
        if f.startswith(prop + '-'):
            os.remove(os.path.join(rpdir, f))
    new, seen = [], {}
    for v in mon.violations:
        if v['key'] in known:
            continue
        if v['key'] not in seen:
            seen[v['key']] = 0
            new.append(v)
        seen[v['key']] += 1
    minimums = getattr(mod, 'MINIMUM', {})
    lacking = [] if partial else [
        '%s: %d < %d' % (k, mon.obs[k], n) for k, n in minimums.items()
        if mon.obs[k] < n]
    samples = sorted(mon.samples, key=lambda s: (s['group'], s['index']))
    pick, have = [], set()
    for s in samples:
        if s['group'] not in have:
            have.add(s['group'])
            pick.append(s)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': mon.evaluations,
            'distinct_nontrivial': len(mon.sigs),
            'rule': mod.RULE,
            'samples': pick[:12] or samples[:3],
            'observations': dict(sorted(mon.obs.items())),
            'observations_total': int(sum(mon.obs.values())),
            'largest_error_over_tolerance': {
                k: float('%.3g' % v) for k, v in sorted(mon.maxerr.items())},
            'groups': {g[0]: g[1 if tier == 'quick' else 2]
                       for g in mod.GROUPS},
            'known_findings_listed': len(known),
            'known_findings_seen': len(set(
                v['key'] for v in mon.violations) & set(known)),
            'inconclusive': lacking,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(new),
    }
    with open(os.path.join(evdir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for key, what in known.items():
        print('KNOWN-FINDING: property=%s %s' % (prop, what))
    print('%s tier=%s seed=%d: %d cases, %d distinct, %d observations of %d '
          'kinds, %.1f s' % (prop, tier, seed, mon.evaluations, len(mon.sigs),
                             sum(mon.obs.values()), len(mon.obs),
                             time.time() - t0))
    if new:
        for n, v in enumerate(new[:8]):
            path = os.path.join(rpdir, '%s-%d.json' % (prop, n))
            with open(path, 'w') as f:
                json.dump(dict(v, property=prop, seed=seed, tier=tier), f,
                          indent=1)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  [%s x%d] %s[%s]: %s' % (v['key'], seen[v['key']],
                                             v['group'], v['index'],
                                             v['msg'][:500]))
        return 1
    if mon.errors:
        print('harness errors (%d):' % len(mon.errors))
        print(mon.errors[0])
        return 2
    if dead:
        print('a worker died')
        return 2
    if lacking:
        print('inconclusive, too little observed: ' + '; '.join(lacking))
        return 2
    return 0
