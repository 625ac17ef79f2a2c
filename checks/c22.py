"""C22 point, line, vector and linkage geometry helpers are exact."""
import itertools

import numpy as np

from uncertainties import ufloat
from bicycleparameters import com, geometry
from vp import gen, world

TECHNIQUE = ('runtime monitor: defining relations (perpendicular residuals, '
             'idempotence, invariance, forward kinematics) as oracles')
LEVEL_NOTE = ('Every call observed is judged by the geometric definition, '
              'computed from its inputs and outputs alone.')
RULE = ('random points, lines and vectors over twelve decades of scale, '
        'axis aligned, parallel, antiparallel and nearly parallel; column, '
        'flat and integer vectors; integer, NumPy integer and vector '
        'directions; linkages elbow acute and obtuse, nearly stretched and '
        'folded; arrays of equal and of different types whose combinations are '
        'formed; distinct by input')


def val(x):
    return float(np.asarray(world.nominal(np.asarray(x).item())))


def vector(rng, size=1.):
    v = rng.normal(size=3) * size
    k = rng.random()
    if k < .15:
        v = np.zeros(3)
        v[rng.integers(3)] = rng.choice([-1, 1]) * size
    elif k < .25:
        v[rng.integers(3)] = 0.
    return v


def distances(mon, rng, i):
    size = gen.logu(rng, 1e-6, 1e6)
    a = vector(rng, size)
    u = vector(rng)
    u /= np.linalg.norm(u)
    L = size * gen.logu(rng, 1e-1, 1e1)
    special = rng.random()
    if special < .1:    # one of the points is the origin
        a = np.zeros(3)
    elif special < .2:
        a = -L * u
    line = np.array([a, a + L * u]).T
    q = a + vector(rng, size)
    mon.note(line=line, point=q)
    mon.sig(a, q)
    l0, q0 = line.copy(), q.copy()
    d = val(mon.call('distance', geometry.point_to_line_distance, q, line))
    mon.check(np.array_equal(line, l0) and np.array_equal(q, q0),
              'distance:input-unchanged')
    sc = 1e-9 * size
    foot = a + ((q - a) @ u) * u
    mon.close(d, np.linalg.norm(q - foot), 'distance', rtol=1e-9, atol=sc)
    mon.close(val(geometry.point_to_line_distance(q, line[:, ::-1])), d,
              'distance:order-of-points', rtol=1e-9, atol=sc)
    s = rng.normal(size=2) * L
    if abs(s[0] - s[1]) > .1 * L:
        other = np.array([a + s[0] * u, a + s[1] * u]).T
        mon.close(val(geometry.point_to_line_distance(q, other)), d,
                  'distance:other-points', rtol=1e-8, atol=20 * sc)
    R = gen.random_rotation(rng)
    mon.close(val(geometry.point_to_line_distance(R @ q, R @ line)), d,
              'distance:rotation', rtol=1e-8, atol=sc)
    mon.close(val(geometry.point_to_line_distance(
        a + rng.normal() * L * u, line)), 0., 'distance:on-line',
        rtol=0, atol=10 * sc)
    uq = np.array([ufloat(x, .01 * size) for x in q])
    if d > 1e-3 * size:
        mon.close(val(mon.call('distance-uncertain',
                               geometry.point_to_line_distance, uq, line)),
                  d, 'distance:uncertain', rtol=1e-9, atol=sc)


def steer_axis(mon, rng, i):
    """Distance of points to the steer axis, leaning either way."""
    w, c = rng.uniform(.5, 3.), rng.normal() * .3
    lam = float(rng.uniform(-1.5, 1.5))
    if i % 8 == 0:
        lam, c = [(0., c), (lam, 0.), (0., 0.), (-.3, .1)][i // 8 % 4]
    u = np.array([np.sin(lam), 0., np.cos(lam)])
    ground = np.array([w + c, 0., 0.])
    q = np.array([rng.normal(), 0., rng.normal()]) * gen.logu(rng, 1e-3, 1e3)
    mon.note(w=w, c=c, lam=lam, point=q)
    mon.sig(w, c, lam, q)
    keep = q.copy()
    k = (lambda x: ufloat(x, 1e-4)) if i % 2 else float
    d = val(mon.call('steer-axis', geometry.distance_to_steer_axis, k(w),
                     k(c), k(lam), q))
    mon.check(np.array_equal(q, keep), 'steer-axis:input-unchanged')
    sc = 1e-11 * (1 + np.abs(q).max())
    normal = np.array([np.cos(lam), 0., -np.sin(lam)])
    mon.close(d, abs((q - ground) @ normal), 'steer-axis:distance',
              rtol=1e-10, atol=sc)
    mon.close(val(geometry.distance_to_steer_axis(
        w, c, lam, q + rng.normal() * u)), d, 'steer-axis:along-axis',
        rtol=1e-9, atol=sc)
    # seen from the other side everything is mirrored
    mon.close(val(geometry.distance_to_steer_axis(
        -w, -c, -lam, q * [-1, 1, 1])), d, 'steer-axis:mirrored',
        rtol=1e-9, atol=sc)
    mon.count('axis-leans-forward' if lam < 0 else 'axis-leans-back')


def projections(mon, rng, i):
    """Point on a line in a plane, given by slope and intercept."""
    m = float(rng.choice([0., rng.normal(), gen.logu(rng, 1e-6, 1e6) *
                          rng.choice([-1, 1])]))
    b = float(rng.normal() * gen.logu(rng, 1e-3, 1e3))
    q = rng.normal(size=2) * gen.logu(rng, 1e-3, 1e3)
    mon.note(m=m, b=b, q=q)
    mon.sig(m, b, q)
    x, y = mon.call('project', geometry.project_point_on_line, (m, b),
                    tuple(q))
    sc = 1e-9 * (abs(b) + np.abs(q).max()) * max(1., abs(m))
    n = np.hypot(1, m)
    mon.close((m * x + b - y) / n, 0., 'project:on-line', atol=sc)
    mon.close(((q[0] - x) + m * (q[1] - y)) / n, 0., 'project:perpendicular',
              atol=sc)
    x2, y2 = geometry.project_point_on_line((m, b), (x, y))
    mon.close([x2, y2], [x, y], 'project:idempotent', rtol=0, atol=sc)
    ux, uy = mon.call('project-uncertain', geometry.project_point_on_line,
                      (ufloat(m, .01), ufloat(b, .01)), tuple(q))
    mon.close([world.nominal(ux), world.nominal(uy)], [x, y],
              'project:uncertain', rtol=0, atol=sc)


def shape(rng, v, i):
    return [v, v.reshape(3, 1)][i % 2]


def angles(mon, rng, i):
    a, b = vector(rng), vector(rng)
    kind = ['general', 'parallel', 'antiparallel', 'nearly', 'orthogonal',
            'integers'][i % 6]
    sa, sb = gen.logu(rng, 1e-6, 1e6), gen.logu(rng, 1e-6, 1e6)
    if kind == 'parallel':
        b = a
    elif kind == 'antiparallel':
        b = -a
    elif kind == 'nearly':
        b = rng.choice([-1, 1]) * a + vector(rng) * gen.logu(rng, 1e-12, 1e-3)
    elif kind == 'orthogonal':
        b = np.cross(a, b)
    elif kind == 'integers':
        a, b = rng.integers(-5, 6, 3), rng.integers(-5, 6, 3)
        a[0], b[1] = a[0] or 1, b[1] or 2
        sa, sb = int(rng.integers(1, 9)), int(rng.integers(1, 9))
    if np.linalg.norm(b) < 1e-9 or np.linalg.norm(a) < 1e-9:
        return
    a, b = a * sa, b * sb
    mon.note(a=a, b=b, kind=kind)
    mon.sig(a, b)
    va, vb = shape(rng, a, i // 6), shape(rng, b, i // 6)
    t = mon.call('angle', geometry.vec_angle, va, vb)
    mon.check(np.ndim(t) == 0 or np.size(t) == 1, 'angle:scalar')
    t = val(t)
    ua, ub = a / np.linalg.norm(a), b / np.linalg.norm(b)
    want = np.arctan2(np.linalg.norm(np.cross(ua, ub)), ua @ ub)
    mon.check(0 <= t <= np.pi, 'angle:range', 'got %r' % t)
    # the cosine loses half of the digits for parallel vectors
    mon.close(t, want, 'angle:' + kind, rtol=1e-9, atol=5e-8)
    mon.close(np.cos(t), ua @ ub, 'angle:cosine', atol=1e-14)
    mon.close(val(geometry.vec_angle(vb, va)), t, 'angle:symmetric',
              atol=5e-8)
    k = gen.logu(rng, 1e-5, 1e5)
    mon.close(val(geometry.vec_angle(k * va, vb)), t, 'angle:scale',
              atol=5e-8)
    mon.close(val(geometry.vec_angle(-va, vb)), np.pi - t,
              'angle:supplement', atol=1e-7)
    # projection into a plane
    v = a.astype(float)
    dirs = [0, 1, 2, np.int64(1), b, b.astype(float), -3 * b]
    n = dirs[int(rng.integers(len(dirs)))]
    u = np.eye(3)[int(n)] if np.ndim(n) == 0 else n / np.linalg.norm(n)
    arg = shape(rng, v, i)
    keep, kn = arg.copy(), np.copy(n)
    pr = mon.call('plane', geometry.vec_project, arg, n)
    mon.check(np.array_equal(arg, keep) and np.array_equal(n, kn),
              'plane:input-unchanged')
    mon.check(np.shape(pr) == (3, 1), 'plane:shape', str(np.shape(pr)))
    pr = np.ravel(pr)
    sc = 1e-12 * np.linalg.norm(v)
    mon.close(pr @ u, 0., 'plane:in-plane', atol=sc)
    mon.close(np.cross(v - pr, u), np.zeros(3), 'plane:residual-normal',
              atol=sc)
    again = geometry.vec_project(pr.reshape(3, 1), n)
    mon.close(np.ravel(again), pr, 'plane:idempotent', rtol=0, atol=sc)
    mon.count('direction:' + ('axis' if np.ndim(n) == 0 else 'vector'))


def links(mon, rng, i):
    size = gen.logu(rng, 1e-3, 1e3)
    L1, L2 = size * rng.uniform(.1, 1, 2)
    f = float(rng.uniform(.001, .999))
    if i % 5 == 0:
        L2 = L1
    if i % 7 == 3:
        f = float(rng.choice([1e-4, 1 - 1e-4]))
    elif i % 7 == 5 and L1 != L2:
        # fully stretched or folded
        f = float(rng.integers(2))
        L1, L2 = round(L1, 3) or .1, round(L2, 3) or .2
    lo, hi = abs(L1 - L2), L1 + L2
    D = float([lo, hi][int(f)] if f in (0, 1) else lo + f * (hi - lo))
    if D == 0:
        D = float(hi)
    mon.note(L1=L1, L2=L2, D=D)
    mon.sig(L1, L2, D)
    t1, t2 = mon.call('links', geometry.calc_two_link_angles, L1, L2, D)
    mon.check(0 <= t1 <= np.pi and 0 <= t2 <= np.pi, 'links:positive',
              '%r %r' % (t1, t2))
    end = np.array([L1 * np.cos(t1) + L2 * np.cos(t1 - t2),
                    L1 * np.sin(t1) + L2 * np.sin(t1 - t2)])
    mon.close(end, [D, 0.], 'links:reach', rtol=0, atol=1e-8 * size)
    k = gen.logu(rng, 1e-2, 1e2)
    s1, s2 = geometry.calc_two_link_angles(k * L1, k * L2, k * D)
    mon.close([s1, s2], [t1, t2], 'links:scale', rtol=0, atol=1e-6)
    mon.count('overshoot' if L1 * np.cos(t1) > D else 'before')


def column(rng, kind):
    n = int(rng.integers(1, 6))
    if kind == 'int':
        return rng.integers(-9, 9, n)
    if kind == 'float':
        return np.round(rng.normal(size=n) * gen.logu(rng, 1e-3, 1e6), 7)
    if kind == 'complex':
        return rng.normal(size=n) + 1j * rng.normal(size=n)
    if kind == 'text':
        return np.array([''.join(rng.choice(list('abc'), rng.integers(1, 7)))
                         for _ in range(n)])
    if kind == 'small':
        return rng.integers(0, 5, n).astype(rng.choice(['i1', 'u1', 'f4']))
    return np.array([ufloat(float(x), .1) for x in rng.normal(size=n)])


def combinations(mon, rng, i):
    """Every combination of the entries, each once, the last one fastest."""
    numbers = ['int', 'float', 'complex', 'small']
    if i % 6 == 4:
        kinds = ['text'] * int(rng.integers(1, 5))
    elif i % 6 == 5:
        kinds = [str(k) for k in rng.choice(['int', 'float', 'uncertain'],
                                            rng.integers(1, 5))]
    else:
        kinds = [str(k) for k in rng.choice(numbers, rng.integers(1, 6))]
    arrays = [column(rng, k) for k in kinds]
    form = str(rng.choice(['arrays', 'lists', 'ranges', 'views']))
    if form == 'lists':
        given = [a.tolist() for a in arrays]
    elif form == 'ranges':
        given = [range(int(rng.integers(1, 6))) for _ in arrays]
        arrays = [np.array(g) for g in given]
    elif form == 'views':
        given = [np.repeat(a, 2)[::2] for a in arrays]
    else:
        given = tuple(a.copy() for a in arrays)
    out = None
    n = int(np.prod([len(a) for a in arrays]))
    if rng.random() < .25 and 'text' not in kinds:
        out = np.full((2 * n, len(arrays) + 1), 99, dtype=(
            object if 'uncertain' in kinds else complex))[::2, 1:]
    mon.note(kinds=kinds, form=form, sizes=[len(a) for a in arrays],
             out=out is not None)
    mon.sig(tuple(kinds), form, tuple(len(a) for a in arrays), out is None)
    keep = [list(g) for g in given]
    if out is None:
        res = mon.call('cartesian', com.cartesian, given)
    else:
        res = mon.call('cartesian', com.cartesian, given, out=out)
        mon.check(res is out or np.all(res == out), 'cartesian:out')
    mon.check(res.shape == (n, len(arrays)), 'cartesian:shape', res.shape)
    wanted = list(itertools.product(*[a.tolist() for a in arrays]))
    for k, (row, want) in enumerate(zip(res.tolist(), wanted)):
        mon.check(all(u is v or u == v for u, v in zip(row, want)),
                  'cartesian:row', '%d: %r is not %r' % (k, row, want))
    mon.check([list(g) for g in given] == keep, 'cartesian:arguments')
    mon.count('mixed' if len(set(kinds)) > 1 else 'alike')


GROUPS = [('combinations', 300, 30000, combinations),
          ('distances', 900, 135000, distances),
          ('steer_axis', 600, 60000, steer_axis),
          ('projections', 600, 90000, projections),
          ('angles', 1800, 270000, angles), ('links', 900, 135000, links)]
MINIMUM = {'mixed': 20, 'axis-leans-forward': 20, 'overshoot': 5, 'direction:vector': 20, 'direction:axis': 20}
