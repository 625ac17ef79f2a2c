"""A battery of calculations on shared objects, made from one seed.

make(seed, root) builds models, parameter sets, bicycles and measurements and
returns {name: function without arguments} and the objects they share; run as
a program it performs all of them in an order that depends on its second
argument and writes their fingerprints.
"""
import contextlib
import decimal
import io as sio
import json
import locale
import os
import random
import sys
import threading
import time
import types
import warnings

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path[:0] = [here, os.environ.get('VP_REPO', '/repo')]
    import matplotlib
    matplotlib.use('Agg')

import matplotlib.figure
import matplotlib.pyplot as plt
import numpy as np
from uncertainties import ufloat

from bicycleparameters import (Bicycle, bicycle, com, geometry, inertia, io,
                               period, tables)
from bicycleparameters import parameter_dicts
from bicycleparameters.main import calculate_benchmark_from_measured
from bicycleparameters.parameter_sets import (Meijaard2007ParameterSet,
                                              Moore2019ParameterSet)
from vp import gen, measure, models, world

HOME = os.path.dirname(os.path.abspath(bicycle.__file__)) + os.sep
count = [0]
lock = threading.Lock()


def fresh(root, end):
    """A file name nobody else uses."""
    with lock:
        count[0] += 1
        return os.path.join(root, 'out%d%s' % (count[0], end))


def text(write, root, end):
    path = fresh(root, end)
    write(path)
    with open(path) as f:
        return f.read().replace(os.path.basename(path), '')


def flat(x):
    """Nested lists of numbers and texts."""
    if isinstance(x, dict):
        return [[str(k), flat(v)] for k, v in sorted(
            x.items(), key=lambda kv: str(kv[0]))]
    if hasattr(x, 'std_dev') and not isinstance(x, np.ndarray):
        return [float(x.nominal_value), float(x.std_dev)]
    if isinstance(x, np.ndarray):
        return [list(x.shape), [flat(v) for v in x.ravel().tolist()]]
    if isinstance(x, (list, tuple)):
        return [flat(v) for v in x]
    if isinstance(x, complex):
        return [x.real, x.imag]
    if isinstance(x, (bool, int, float)):
        return float(x)
    if isinstance(x, str) or x is None:
        return x
    if hasattr(x, 'parameters'):
        return [type(x).__name__, flat(x.parameters)]
    return repr(type(x))


def differs(a, b, path=''):
    """Where two fingerprints differ, or None."""
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return path + ': length %d, %d' % (len(a), len(b))
        if a and all(isinstance(x, float) for x in a) and \
                all(isinstance(x, float) for x in b):
            u, v = np.array(a), np.array(b)
            s = np.abs(u[np.isfinite(u)]).max(initial=0.)
            if not np.allclose(u, v, rtol=1e-7, atol=1e-9 * s + 1e-13,
                               equal_nan=True):
                return path + ': %r, %r' % (a[:4], b[:4])
            return None
        for n, (x, y) in enumerate(zip(a, b)):
            d = differs(x, y, '%s[%d]' % (path, n))
            if d:
                return d
        return None
    if isinstance(a, float) and isinstance(b, float):
        return differs([a], [b], path)
    return None if a == b else path + ': %r, %r' % (str(a)[:200],
                                                    str(b)[:200])


def make(seed, root):
    rng = np.random.default_rng(seed)
    os.makedirs(root, exist_ok=True)
    calls = {}
    n = int(rng.integers(2, 7))
    ms = {k: models.new(k, models.params(
        k, rng, None if k == 'riderlean' else 'ordinary'))
        for k in models.KINDS}
    for kind, m in ms.items():
        par = m.parameter_set.parameters
        sweep = {'v': np.linspace(.5, rng.uniform(4, 9), n)}
        if rng.random() < .5:
            k = str(rng.choice(sorted(set(par) - {'v'})))
            sweep[k] = (par[k] or .1) * np.linspace(.95, 1.05, n)
        point = {'v': float(rng.uniform(1, 8))}
        size = 12 if kind == 'riderlean' else 4
        x0, t = rng.normal(size=size) * .1, np.linspace(0., .2, 5)
        gain = rng.normal()
        nu = 3 if kind == 'riderlean' else 2
        for name, o in (('sweep', sweep), ('point', point), ('own', {})):
            calls['%s-matrices-%s' % (kind, name)] = \
                lambda m=m, o=o: m.form_state_space_matrices(**o)
            calls['%s-eigen-%s' % (kind, name)] = \
                lambda m=m, o=o: np.sort_complex(np.atleast_2d(
                    m.calc_eigen(**o)[0]))
        calls[kind + '-left'] = lambda m=m, o=point: np.sort_complex(
            m.calc_eigen(left=True, **o)[0])
        calls[kind + '-simulate'] = lambda m=m, o=point, x0=x0, t=t: \
            m.simulate(t, x0, **o)
        calls[kind + '-driven'] = lambda m=m, o=point, x0=x0, t=t, nu=nu, \
            g=gain: m.simulate(t, x0, input_func=lambda a, b: g * np.cos(
                a + np.arange(nu)), **o)
        if kind != 'riderlean':
            calls[kind + '-canonical'] = lambda m=m, o=sweep: \
                m.form_reduced_canonical_matrices(**o)
    s = ms['whipple'].parameter_set
    q = Moore2019ParameterSet(gen.moore2019_par(rng))
    for name, one in (('whipple', s), ('principal', q)):
        bs = sorted(one.body_labels)
        calls[name + '-centre'] = lambda one=one, bs=bs: [
            one.mass_center_of(*bs), one.mass_center_of(*bs[:2])]
        calls[name + '-html'] = lambda one=one: one._repr_html_()
        calls[name + '-yaml'] = lambda one=one: text(one.to_yaml, root,
                                                     '.yml')
        calls[name + '-ini'] = lambda one=one: text(one.to_ini, root, '.ini')
    calls['inertia-tensors'] = lambda: [s.form_inertia_tensor(b)
                                        for b in 'BHFR']
    calls['to-moore2012'] = lambda: s.to_parameterization('Moore2012')
    calls['to-feedback'] = lambda: s.to_parameterization(
        'Meijaard2007WithFeedback')
    calls['from-principal'] = lambda: q.to_parameterization('Meijaard2007')
    calls['set-from-dict'] = lambda: Meijaard2007ParameterSet(
        dict(s.parameters), True)
    # bicycles
    data = os.path.join(root, 'data')
    p = gen.whipple_par(rng, 'ordinary')
    p.pop('_profile')
    p.pop('v')
    up = gen.ufloatify(rng, p)
    world.make_bicycle(data, 'Stored', up)
    split = bool(rng.integers(2))
    mp = measure.uncertain(rng, measure.measure(
        rng, *measure.bicycle(rng, split),
        ['angle', 'perpendicular'][rng.integers(2)]))
    world.make_bicycle(data, 'Rated', measured=mp)
    world.write_par(os.path.join(data, 'riders', 'Pat', 'Parameters',
                                 'PatStoredBenchmark.txt'), {
        'mB': 71., 'xB': .4, 'yB': 0., 'zB': -1.1, 'IBxx': 9.,
        'IByy': 9.5, 'IBzz': 2., 'IBxz': -.4})
    with contextlib.redirect_stdout(sio.StringIO()):
        bs = [Bicycle('Stored', data), Bicycle('Rated', data)]
    vs = np.linspace(.5, 8., n)
    for b in bs:
        k = b.bicycleName
        calls[k + '-canonical'] = lambda b=b: b.canonical()
        calls[k + '-nominal'] = lambda b=b: b.canonical(nominal=True)
        calls[k + '-space'] = lambda b=b: b.state_space(vs[-1], nominal=True)
        calls[k + '-eig'] = lambda b=b: np.sort_complex(b.eig(vs)[0])
        calls[k + '-steer'] = lambda b=b: \
            b.steer_assembly_moment_of_inertia(aboutSteerAxis=True)
        calls[k + '-tensor'] = lambda b=b: [inertia.part_inertia_tensor(
            b.parameters['Benchmark'], x) for x in 'BHFR']
        calls[k + '-matrices'] = lambda b=b: \
            bicycle.benchmark_par_to_canonical(b.parameters['Benchmark'])

        def load(b=b, k=k):
            c = Bicycle(k, data)
            return [c.parameters, c.hasRider, str(c)]
        calls[k + '-load'] = load
    for latex in (True, False):
        calls['table-%s' % latex] = lambda latex=latex: tables.Table(
            'Benchmark', latex, bs).create_rst_table()

    def ride():
        c = Bicycle('Stored', data)
        c.add_rider('Pat')
        return [c.parameters, c.riderPar, str(c), c.eig(vs[:1])[0]]
    calls['ride'] = ride
    ump = bs[1].parameters['Measured']
    calls['reduce'] = lambda: calculate_benchmark_from_measured(ump)
    calls['geometry'] = lambda: geometry.calculate_benchmark_geometry(ump, {})
    bench = bs[1].parameters['Benchmark']
    calls['lines'] = lambda: com.part_com_lines(ump, bench, split)
    # the rest
    # nothing above has been asked for anything yet
    e, v = np.linalg.eig(rng.normal(size=(n, 4, 4)))
    calls['sort-modes'] = lambda: bicycle.sort_modes(e, v)
    al, k = rng.uniform(0, 3, 4), rng.normal(size=4)
    calls['centre'] = lambda: com.center_of_mass(k, al)
    calls['total'] = lambda: com.total_com(np.outer([1., 2., 3.], al), al + 1)
    I = rng.normal(size=(3, 3))
    I = I @ I.T + np.eye(3)
    calls['principal-axes'] = lambda: [inertia.principal_axes(I)[0],
                                       np.abs(inertia.principal_axes(I)[1])]
    calls['parallel'] = lambda: inertia.parallel_axis(I, 2., al[:3])
    calls['rotate'] = lambda: inertia.rotate_inertia_tensor(I, al[0])
    calls['pendulums'] = lambda: [
        inertia.compound_pendulum_inertia(3. + al[0], 9.81, .4, ufloat(1.4,
                                                                       .01)),
        inertia.tor_inertia(ufloat(4., .1), 1.1 + al[1]),
        inertia.torsional_pendulum_stiffness(.1 + al[2], ufloat(1., .02)),
        inertia.tube_inertia(1. + al[0], 2., .05, .04)]
    calls['links'] = lambda: [
        geometry.calc_two_link_angles(.4, .5, .6 + .1 * al[0]),
        geometry.calculate_l1_l2(.1, .2, .02, .03, .5 + al[1]),
        geometry.distance_to_steer_axis(1., .1, al[2] / 4, al[:3]),
        bicycle.trail(.3 + al[0] / 9, .3, .05)]
    calls['latex'] = lambda: [tables.to_latex(x) for x in
                              sorted(set(bench) | set(p))]
    calls['round'] = lambda: [tables.uround(x) for _, x in
                              sorted(up.items()) if hasattr(x, 'std_dev')]
    path = os.path.join(data, 'bicycles', 'Stored', 'Parameters',
                        'StoredBenchmark.txt')
    calls['read'] = lambda: io.load_parameter_text_file(path)
    calls['write'] = lambda: text(lambda f: io.write_parameter_text_file(
        f, up), root, '.txt')
    calls['write-plain'] = lambda: text(
        lambda f: io.write_parameter_text_file(f, p), root, '.txt')
    calls['names'] = lambda: [
        io.filename_to_dict('MadeForkTorsionalSecond3.mat'),
        io.space_out_camel_case('OneTwoThree', output='list'),
        io.remove_uncertainties(up)]
    t = np.arange(600) / 60.
    y = np.exp(-.01 * t) * np.sin(5 * t + al[0]) + .001 * rng.normal(size=600)
    calls['guess'] = lambda: [period.make_guess(y, 60.),
                              period.select_good_data(y, .1)]
    calls['goodness'] = lambda: period.fit_goodness(y, y * 1.01)
    calls['period-key'] = lambda: [
        period.get_period_key({'pendulum': 'Torsional', 'part': 'Fork',
                               'angle': 'Second', 'trial': '1'}, split),
        period.check_for_period(ump, split)]
    calls['helpers'] = lambda: [
        com.cartesian((al, [1., 2., 3.])),
        com.com_line(1. + al[0], .1, bench, 'B', .1, .2),
        bicycle.lambda_from_abc(.33, .34, .1 + al[1] / 30, .05, .6),
        geometry.calculate_abc_geometry((.2, .21, .22 + al[0] / 30, .2, .1),
                                        (.02, .03, .02, .03, 1.)),
        geometry.fwheel_to_handlebar_ref(al[0] / 4, .1, .4),
        geometry.point_to_line_distance(al[:3], np.array([k[:3],
                                                          al[1:4]]).T),
        geometry.project_point_on_line((k[0], k[1]), (al[0], al[1])),
        geometry.vec_angle(al[:3], k[:3]), geometry.vec_project(al[:3],
                                                                k[:3]),
        inertia.inertia_components(np.abs(k), al),
        period.jac_fitfunc([.1, 1., 1., .01 + al[0] / 99, 5.], y[:20]),
        period.get_sample_rate({'sampleRate': 60., 'ActualRate': 50.})]
    calls['table-file'] = lambda: text(lambda f: tables.Table(
        'Benchmark', True, bs).create_rst_table(f), root, '.rst')
    # what is refused is refused everywhere
    def refused(f):
        try:
            return ['returned', f()]
        except (ValueError, TypeError, KeyError, IOError) as err:
            return [type(err).__name__, str(err)]
    m = ms['whipple']
    some = {x: w for x, w in s.parameters.items() if x != 'mB'}
    calls['refused'] = lambda: [
        refused(lambda: Meijaard2007ParameterSet(some, True)),
        refused(lambda: Meijaard2007ParameterSet(dict(some, mB=1), True)),
        refused(lambda: m.calc_eigen(v=[1., 2.], g=[1., 2., 3.])),
        refused(lambda: s.to_parameterization('Nothing')),
        refused(lambda: Bicycle('Nobody', 'nowhere')),
        refused(lambda: s.form_mass_center_vector('X')),
        refused(lambda: s.mass_center_of('B', 'X'))]
    # drawing is not for several threads
    alone = {}

    def fit():
        old = matplotlib.figure.Figure.savefig
        matplotlib.figure.Figure.savefig = lambda *a, **k: None
        try:
            return period.get_period(y, 60., fresh(root, '.png'))
        finally:
            matplotlib.figure.Figure.savefig = old
    alone['period'] = fit
    alone['modes'] = lambda: [
        np.abs(x) for x in ms['whipple'].simulate_modes(
            np.linspace(0., .2, 4), v=vs[-1])]
    if seed % 4 == 0:
        world.copy_shipped(data, ['Browser'], ['Jason'])

        def configure():
            c = Bicycle('Browser', data)
            c.add_rider('Jason', reCalc=True)
            return [c.parameters, c.riderPar, str(c)]
        alone['configure'] = configure
    alone['examples'] = lambda: {
        k: dict(d) for k, d in vars(parameter_dicts).items()
        if isinstance(d, dict) and k[0] != '_'}
    shared = [m.parameter_set.parameters for m in ms.values()] + [
        q.parameters, ump, bench, bs[0].parameters, up, I, al, k, vs, y]
    flat(shared)           # expands what is propagated lazily
    return calls, alone, shared


def codes():
    """The code of every function of the package that is loaded."""
    found, todo = {}, []
    for name, m in list(sys.modules.items()):
        if name.split('.')[0] != 'bicycleparameters' or name.endswith(
                '_mooreriderlean2012') or '.tests' in name:
            continue
        for x in vars(m).values():
            todo += [x] + (list(vars(x).values()) if isinstance(x, type)
                           else [])
    for x in todo:
        x = getattr(x, '__func__', x)
        x = getattr(x, 'fget', x)
        x = getattr(x, '__wrapped__', x)
        c = getattr(x, '__code__', None)
        if isinstance(c, types.CodeType) and c.co_filename.startswith(HOME):
            found[id(c)] = c
    todo = list(found.values())
    while todo:
        for c in todo.pop().co_consts:
            if isinstance(c, types.CodeType) and id(c) not in found:
                found[id(c)] = c
                todo.append(c)
    return list(found.values())


class Tracer:
    """Yields at lines of the package and records who runs there.  Watches
    the code of the package only (the lines of the leaning rider's equations
    are too many)."""
    TOOL = 4

    def __init__(self, seed, rate):
        self.log, self.seed, self.rate = [], seed, rate
        self.local = threading.local()

    def start(self, n):
        self.local.n, self.local.rng = n, random.Random(self.seed * 97 + n)

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(self.TOOL, 'yields')
        m.register_callback(self.TOOL, m.events.PY_START, self.call)
        m.register_callback(self.TOOL, m.events.LINE, self.line)
        self.codes = codes()
        for c in self.codes:
            m.set_local_events(self.TOOL, c, m.events.PY_START |
                               m.events.LINE)

    def __exit__(self, *a):
        m = sys.monitoring
        for c in self.codes:
            m.set_local_events(self.TOOL, c, 0)
        m.free_tool_id(self.TOOL)

    def call(self, code, offset):
        if getattr(self.local, 'rng', None) is not None:
            self.log.append((self.local.n, code.co_name))

    def line(self, code, line):
        rng = getattr(self.local, 'rng', None)
        if rng is not None and rng.random() < self.rate:
            time.sleep(rng.choice([0, 0, 1e-5, 2e-4]))


def surroundings():
    """The global state a calculation has no business with."""
    return {
        'numpy error state': (np.geterr(), np.geterrcall()),
        'numpy print options': {k: repr(v) for k, v in
                                np.get_printoptions().items()},
        'numpy random state': repr(np.random.get_state()),
        'random state': hash(random.getstate()),
        'warning filters': repr(warnings.filters),
        'environment': dict(os.environ),
        'working directory': os.getcwd(),
        'locale': locale.setlocale(locale.LC_ALL),
        'decimal context': repr(decimal.getcontext()),
        'figures': plt.get_fignums(),
        'matplotlib settings': repr(sorted(
            (k, repr(v)) for k, v in matplotlib.rcParams.items()
            if k != 'backend')),
        'streams': (id(sys.stdout), id(sys.stderr)),
        'recursion limit': sys.getrecursionlimit(),
        'switch interval': sys.getswitchinterval(),
        'threads': threading.active_count(),
        'module path': list(sys.path),
    }


def race(calls, names, n, seed):
    """All of them in n threads at once, in the same order."""
    tracer = Tracer(seed, .1)
    got, faults = {k: [] for k in names}, []
    start = threading.Barrier(n)

    def work(k):
        tracer.start(k)
        for name in names:
            start.wait(60)
            try:
                got[name].append(calls[name]())
            except Exception as e:
                faults.append('%s: %r' % (name, e))

    ts = [threading.Thread(target=work, args=(k,)) for k in range(n)]
    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-4)
    with tracer:
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    sys.setswitchinterval(interval)
    got = {k: [flat(x) for x in v] for k, v in got.items()}
    got['faults'] = faults
    return got


def main(seed, order, root, out, n):
    with contextlib.redirect_stdout(sio.StringIO()), \
            warnings.catch_warnings():
        warnings.simplefilter('ignore')
        before = surroundings()
        calls, alone, _ = make(seed, root)
        if n:
            names = sorted(k for k in calls if not k.startswith('riderlean')
                           or k.endswith('point'))
            np.random.default_rng(order).shuffle(names)
            got = race(calls, names, n, order)
        else:
            calls.update(alone)
            names = sorted(calls)
            np.random.default_rng(order).shuffle(names)
            got = {k: flat(calls[k]()) for k in names}
            plt.close('all')
        after = surroundings()
        got['surroundings'] = [k for k in before if before[k] != after[k]]
    with open(out, 'w') as f:
        json.dump(got, f)


if __name__ == '__main__':
    main(int(sys.argv[1]), int(sys.argv[2]), sys.argv[3], sys.argv[4],
         int(sys.argv[5]))
