"""C25 drawings of a bicycle show its geometry and mass distribution."""
import os
import warnings
import numpy as np
import matplotlib.pyplot as plt
from matplotlib import patches
from matplotlib.colors import to_rgba

from bicycleparameters import Bicycle
from bicycleparameters.parameter_sets import (
    Meijaard2007ParameterSet, Meijaard2007WithFeedbackParameterSet,
    Moore2019ParameterSet)
from vp import again, gen, ref, shown, world
from checks.c19 import R as YEADON, frame as saddle

TECHNIQUE = ('runtime monitor: circles, wedges, ellipses, lines and texts '
             'read back from the drawing and accounted for one by one with '
             'rigid bodies in the plane; residuals of drawn axes against the '
             'inertia tensors')
LEVEL_NOTE = ('Every artist observed is attributed to a body or to the frame '
              'and none may be missing or left over.')
RULE = ('random bicycles in three parameterisations, all subsets of bodies '
        'and all drawing functions alone and combined on new and on given '
        'axes; random and shipped bicycles with and without riders and '
        'pendulum measurements, drawn with Matplotlib and Plotly; distinct '
        'by the parameters and what is drawn')
ASSUMPTIONS = ['matplotlib and Plotly draw the artists they hold']


class Drawing:
    """Artists of an axes, taken off one by one when explained."""

    def __init__(self, mon, ax, up=1.):
        self.mon, self.ax = mon, ax
        # artist coordinates to x forward, z down
        self.s = up
        p = list(ax.patches)
        self.wedges = [q for q in p if isinstance(q, patches.Wedge)]
        self.circles = [q for q in p if isinstance(q, patches.Circle)]
        self.ellipses = [q for q in p if isinstance(q, patches.Ellipse) and
                         not isinstance(q, patches.Circle)]
        self.others = [q for q in p if not isinstance(
            q, (patches.Wedge, patches.Ellipse))]
        self.lines = list(ax.lines)
        self.texts = list(ax.texts)

    def xz(self, v):
        return np.array([v[0], self.s * v[1]], float)

    def take(self, kind, test, key, msg=''):
        arts = getattr(self, kind)
        for a in arts:
            if test(a):
                arts.remove(a)
                self.mon.check(True, key)
                return a
        self.mon.violate(key, '%s; there are %s' % (
            msg, [describe(a) for a in arts][:12]))

    def circle(self, center, radius, key):
        def test(c):
            return near(self.xz(c.center), center) and near(c.radius, radius)
        return self.take('circles', test, key, 'circle %s %g' % (center,
                                                                 radius))

    def line(self, pts, key, test=lambda l: True):
        pts = np.asarray(pts, float)

        def match(l):
            d = np.asarray(l.get_xydata(), float) * [1, self.s]
            return d.shape == pts.shape and test(l) and (
                near(d, pts) or near(d[::-1], pts))
        return self.take('lines', match, key, 'line %s' % pts.tolist())

    def left(self, key):
        for kind in ('wedges', 'circles', 'ellipses', 'others', 'lines',
                     'texts'):
            a = getattr(self, kind)
            self.mon.check(not a, key + ':nothing-else',
                           '%s: %s' % (kind, [describe(q) for q in a]))


def describe(a):
    if hasattr(a, 'get_xydata'):
        return np.round(np.asarray(a.get_xydata(), float), 4).tolist()
    if isinstance(a, patches.Circle):
        return a.center, a.radius
    if isinstance(a, patches.Ellipse):
        return a.center, a.width, a.height, a.angle
    return str(a)


def near(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(
        np.abs(a - b) <= tol * (1 + np.abs(b))))


def geometry_of(mon, d, p, steer=True, key='geometry', ground='axhline'):
    """Wheels on the ground, frame and steer axis."""
    d.circle([0., -p['rR']], p['rR'], key + ':rear-wheel')
    d.circle([p['w'], -p['rF']], p['rF'], key + ':front-wheel')

    def flat(l):
        y = np.asarray(l.get_ydata(), float)
        return len(y) >= 2 and not y.any()
    g = d.take('lines', flat, key + ':ground')
    if g is not None and ground != 'axhline':
        x = np.asarray(g.get_xdata(), float)
        mon.close([x.min(), x.max()], [-p['rR'], p['w'] + p['rF']],
                  key + ':ground-extent')
    frame = [l for l in d.lines if len(l.get_xdata()) == 4]
    if mon.check(len(frame) == 1, key + ':frame'):
        v = np.asarray(frame[0].get_xydata(), float) * [1, d.s]
        d.lines.remove(frame[0])
        framed(mon, v, p, key)
    if steer:
        dashed = [l for l in d.lines if len(l.get_xdata()) == 2 and
                  l.get_linestyle() == '--' and
                  to_rgba(l.get_color()) == to_rgba('k')]
        foot = np.array([p['w'] + p['c'], 0.])
        hits = [l for l in dashed if any(
            near(np.asarray(e, float) * [1, d.s], foot, 1e-6)
            for e in l.get_xydata())]
        if mon.check(len(hits) >= 1, key + ':steer-axis', '%s %s' % (
                foot, [describe(q) for q in dashed])):
            v = np.asarray(hits[0].get_xydata(), float) * [1, d.s]
            d.lines.remove(hits[0])
            axis(mon, v, p, key)


def axis(mon, v, p, key):
    """Drawn from the front wheel to the ground along the steer axis."""
    e = np.array([np.sin(p['lam']), np.cos(p['lam'])])
    foot = np.array([p['w'] + p['c'], 0.])
    n = np.array([e[1], -e[0]])
    mon.close((v - foot) @ n, [0., 0.], key + ':tilt', atol=1e-8)
    top = v[np.argmax(np.linalg.norm(v - foot, axis=1))]
    # starts abreast of the front wheel centre
    mon.close((top - [p['w'], -p['rF']]) @ e, 0., key + ':axis-top',
              atol=1e-6)
    mon.count('steer-axis')


def framed(mon, v, p, key):
    if not near(v[0], [0., -p['rR']]):
        v = v[::-1]
    mon.close(v[0], [0., -p['rR']], key + ':rear-hub', atol=1e-9)
    mon.close(v[3], [p['w'], -p['rF']], key + ':front-hub', atol=1e-9)
    e = np.array([np.sin(p['lam']), np.cos(p['lam'])])
    foot = np.array([p['w'] + p['c'], 0.])
    for k, hub in ((1, 0), (2, 3)):
        mon.close((v[k] - foot) @ [e[1], -e[0]], 0., key + ':on-axis',
                  atol=1e-8)
        mon.close((v[k] - v[hub]) @ e, 0., key + ':perpendicular', atol=1e-8)


def symbol_of(mon, d, b, center, key, color=None, radius=None):
    """Two opposite quadrants, a circle and the name of the body."""
    ws = []
    for t1, t2 in ((0., 90.), (180., 270.)):
        def test(w):
            return near(d.xz(w.center), center) and \
                near(w.theta1, t1) and near(w.theta2, t2) and \
                (color is None or to_rgba(w.get_facecolor())[:3] ==
                 to_rgba(color)[:3])
        ws.append(d.take('wedges', test, key + ':wedge',
                         '%s at %s' % (b, center)))
    if None in ws:
        return
    r = ws[0].r
    mon.check(ws[1].r == r and r > 0, key + ':radius')
    if radius:
        mon.close(r, radius, key + ':radius')
    d.circle(center, r, key + ':circle')

    def label(t):
        q = d.xz(t.get_position()) - center
        return t.get_text() == b and np.linalg.norm(q) <= 3 * r
    d.take('texts', label, key + ':label', '%s %s' % (b, center))
    mon.count('symbol')


def gyration_of(mon, d, b, m, center, I, key, color=None):
    """Circle of the y radius and two principal lines."""
    d.circle(center, np.sqrt(I[1, 1] / m), key + ':y-radius')
    P = np.array([[I[0, 0], I[0, 2]], [I[0, 2], I[2, 2]]]) / m
    size = P.trace()
    found = []
    for l in list(d.lines):
        v = np.asarray(l.get_xydata(), float) * [1, d.s]
        if len(v) != 2 or not near(v.mean(axis=0), center, 1e-8):
            continue
        if color is not None and to_rgba(l.get_color()) != to_rgba(color):
            continue
        h = (v[1] - v[0]) / 2
        r = np.linalg.norm(h)
        if r < 1e-12:
            continue
        e = h / r
        n = np.array([-e[1], e[0]])
        # about the axis across the line, and a principal one
        if abs(n @ P @ n - r**2) <= 1e-8 * size and \
                abs(e @ P @ n) <= 1e-8 * size:
            found.append((l, e))
    ok = mon.check(len(found) >= 2, key + ':lines', '%s %s: %s' % (
        b, center, [describe(q) for q in d.lines]))
    if ok:
        k = next((k for k in range(1, len(found))
                  if abs(found[0][1] @ found[k][1]) < 1e-7), None)
        if mon.check(k is not None, key + ':across'):
            d.lines.remove(found[0][0])
            d.lines.remove(found[k][0])
    mon.count('gyration')


def ellipse_of(mon, d, b, m, center, I, key):
    """Outline of the solid ellipsoid with the inertia of the body."""
    P = np.array([[I[0, 0], I[0, 2]], [I[0, 2], I[2, 2]]]) / m
    ky2 = I[1, 1] / m
    size = P.trace()

    def test(q):
        if not near(d.xz(q.center), center):
            return False
        a = np.deg2rad(q.angle)
        e = np.array([np.cos(a), d.s * np.sin(a)])
        n = np.array([-e[1], e[0]])
        want = [5 / 2 * (ky2 + n @ P @ n - e @ P @ e),
                5 / 2 * (ky2 + e @ P @ e - n @ P @ n)]
        return near(np.array([q.width, q.height])**2 / 4 / size,
                    np.array(want) / size, 1e-7) and \
            abs(e @ P @ n) <= 1e-8 * size
    q = d.take('ellipses', test, key + ':ellipse', '%s at %s of %s' % (
        b, center, np.round(I, 4).tolist()))
    mon.count('ellipsoid')
    return q


def tensor_2019(p, b):
    aa, yy = p['k%saa' % b], p['k%syy' % b]
    bb = p.get('k%sbb' % b, aa)
    al = p.get('alpha' + b, 0.)
    e = np.array([np.cos(al), 0., -np.sin(al)])
    n = np.array([np.sin(al), 0., np.cos(al)])
    y = np.array([0., 1., 0.])
    return p['m' + b] * (aa**2 * np.outer(e, e) + bb**2 * np.outer(n, n) +
                         yy**2 * np.outer(y, y))


def bodies_of(p, kind):
    if kind != 'moore':
        return ref.bodies(p)
    out = {}
    for b in 'DFHPR':
        c = {'R': (0., -p['rR']), 'F': (p['w'], -p['rF'])}.get(
            b, (p.get('x' + b), p.get('z' + b)))
        out[b] = (p['m' + b], np.array([c[0], 0., c[1]]), tensor_2019(p, b))
    return out


def diamond_of(mon, d, p, cross, key='diamond'):
    a = p['alphaP']
    c = np.array([p['xP'], p['zP']])
    e = np.array([np.cos(a), -np.sin(a)]) * p['wP'] / 2
    n = np.array([np.sin(a), np.cos(a)]) * p['lP'] / 2
    closed = [l for l in d.lines if len(l.get_xdata()) == 5]
    if mon.check(len(closed) == 1, key + ':closed'):
        v = np.asarray(closed[0].get_xydata(), float)
        d.lines.remove(closed[0])
        mon.close(v[0], v[4], key + ':closed', atol=1e-12)
        corners = [c + e, c - e, c + n, c - n]
        for k in range(4):
            mon.check(sum(near(v[k], q) for q in corners) == 1,
                      key + ':corner', str(v))
        mon.close(v[0] + v[2], 2 * c, key + ':opposite', atol=1e-9)
        mon.close(v[1] + v[3], 2 * c, key + ':opposite', atol=1e-9)
    if cross:
        d.line([c - e, c + e], key + ':width')
        d.line([c - n, c + n], key + ':length')


def upright(rng, p):
    """Sometimes a vertical steer axis, with equal wheels, too."""
    if rng.random() < .1:
        p['lam'] = 0.
        if rng.random() < .7:
            p['rF'] = p['rR']


def sets(mon, rng, i):
    """Drawings of parameter sets."""
    kind = ['meijaard', 'moore', 'feedback'][i % 3]
    if kind == 'moore':
        p = gen.moore2019_par(rng)
        if i % 2:
            p['alphaF'] = p['alphaR'] = 0.
        upright(rng, p)
        s = again.obj(kind, lambda: Moore2019ParameterSet(dict(p)),
                      again.edited(p))
    else:
        p = gen.whipple_par(rng) if kind == 'meijaard' else \
            gen.feedback_par(rng)
        gen.pop_profile(p)
        if i % 5 == 0:       # products of inertia of both signs and none
            p['IHxz'] = 0.
        upright(rng, p)
        cls = {'meijaard': Meijaard2007ParameterSet,
               'feedback': Meijaard2007WithFeedbackParameterSet}[kind]
        s = again.obj(kind, lambda: cls(dict(p), bool(i % 2)),
                      again.edited(p))
    if abs(np.cos(p['lam'])) < .05:
        return
    before = dict(s.parameters)
    bodies = bodies_of(p, kind)
    labels = [str(b) for b in rng.permutation(list(bodies))]
    pick = labels[:int(rng.integers(1, len(labels) + 1))]
    what = ['geometry', 'centers', 'gyration', 'ellipses', 'all', 'mixed',
            'body', 'diamond'][i % 8]
    if what == 'diamond' and kind != 'moore':
        what = 'mixed'
    ax = plt.subplots()[1] if rng.random() < .5 else None
    kw = {} if ax is None else {'ax': ax}
    mon.note(kind=kind, par=p, what=what, bodies=pick)
    mon.sig(kind, what, p['w'], p['lam'], tuple(pick))
    drawn = dict(geometry=False, steer=True, centers=[], gyration=[],
                 ellipses=[], diamond=None)
    got = None
    if what == 'geometry':
        drawn['geometry'] = True
        drawn['steer'] = bool(rng.random() < .7)
        if not drawn['steer']:
            kw['show_steer_axis'] = False
        got = mon.call('draw', s.plot_geometry, **kw)
    elif what in ('centers', 'gyration', 'ellipses'):
        f = {'centers': s.plot_mass_centers,
             'gyration': s.plot_principal_radii_of_gyration,
             'ellipses': s.plot_principal_inertia_ellipsoids}[what]
        if rng.random() < .7:
            # none at all, too
            pick = [] if rng.random() < .1 else pick
            kw['bodies'] = pick
            drawn[what] = pick
        else:
            drawn[what] = labels
        got = mon.call('draw', f, **kw)
    elif what == 'all':
        drawn.update(geometry=True, centers=labels, gyration=labels,
                     ellipses=labels)
        if kind == 'moore':
            drawn['diamond'] = 'plain'
        got = mon.call('draw', s.plot_all, **kw)
    elif what == 'body':
        b = pick[0]
        f, k = [(s.plot_body_mass_center, 'centers'),
                (s.plot_body_principal_radii_of_gyration, 'gyration'),
                (s.plot_body_principal_inertia_ellipsoid, 'ellipses')][
                    int(rng.integers(3))]
        drawn[k] = [b]
        got = mon.call('draw', f, b, **kw)
    elif what == 'diamond':
        cross = bool(rng.random() < .5)
        drawn['diamond'] = 'cross' if cross else 'plain'
        got = mon.call('draw', s.plot_person_diamond, show_cross=cross, **kw)
    else:
        a = plt.subplots()[1] if ax is None else ax
        ax = a
        drawn['geometry'] = True
        got = mon.call('draw', s.plot_geometry, ax=a)
        for k, f in (('centers', s.plot_mass_centers),
                     ('gyration', s.plot_principal_radii_of_gyration),
                     ('ellipses', s.plot_principal_inertia_ellipsoids)):
            if rng.random() < .6:
                sub = labels[:int(rng.integers(0, len(labels) + 1))]
                drawn[k] = sub
                got = mon.call('draw', f, bodies=list(sub), ax=a)
    if ax is not None:
        mon.check(got is ax, 'draw:axes')
    d = Drawing(mon, got)
    color = s.body_colors
    for b in drawn['centers']:
        m, c, I = bodies[b]
        symbol_of(mon, d, b, c[::2], 'center', color[b])
    if drawn['geometry']:
        geometry_of(mon, d, p, drawn['steer'])
    for b in drawn['gyration']:
        m, c, I = bodies[b]
        gyration_of(mon, d, b, m, c[::2], I, 'gyration', color[b])
    for b in drawn['ellipses']:
        m, c, I = bodies[b]
        ellipse_of(mon, d, b, m, c[::2], I, 'ellipsoid')
    if drawn['diamond']:
        diamond_of(mon, d, p, drawn['diamond'] == 'cross')
    d.left('drawing')
    mon.check(got.yaxis_inverted(), 'draw:z-down')
    if drawn['geometry']:
        (a, b), (e, f) = sorted(got.get_xlim()), sorted(got.get_ylim())
        mon.check(a <= -p['rR'] and b >= p['w'] + p['rF'] and
                  e <= -2 * max(p['rR'], p['rF']) and f >= 0.,
                  'draw:in-view', '%s %s' % (got.get_xlim(), got.get_ylim()))
    mon.check(got.get_aspect() in ('equal', 1., 1), 'draw:aspect')
    mon.check(s.parameters == before, 'draw:parameters-unchanged')
    mon.check(len(set(color.values())) == len(color), 'draw:colours')
    plt.close('all')


def drawn_parts(par):
    return [k[1] for k in par if k[0] == 'm' and len(k) == 2]


def momental(mon, parts, found, key):
    """Axes of the momental ellipsoids: longest about the least moment.
    found: part -> (unit vector (x, z), axis along it, axis across)."""
    scale = []
    for b, (e, along, across) in found.items():
        P = parts[b]
        n = np.array([-e[1], e[0]])
        size = P.trace()
        mon.close(e @ P @ n / size, 0., key + ':direction', b, atol=1e-7)
        I1, I2 = e @ P @ e, n @ P @ n
        mon.close(along**2 * I1 / (across**2 * I2), 1., key + ':ratio', b,
                  rtol=1e-6)
        scale.append(max(along, across) / max(I1, I2))
        mon.count('momental')
    mon.close(scale, [scale[0]] * len(scale), key + ':scale', rtol=1e-6)


def part_tensors(par):
    """part -> (center, planar tensor)."""
    out = {}
    for b in drawn_parts(par):
        if b in 'RFD':
            x, z = (0., -par['rR']) if b == 'R' else (par['w'], -par['rF'])
            P = np.diag([par['I%sxx' % b]] * 2)
        else:
            x, z = par['x' + b], par['z' + b]
            P = np.array([[par['I%sxx' % b], par['I%sxz' % b]],
                          [par['I%sxz' % b], par['I%szz' % b]]])
        out[b] = (np.array([x, z]), P)
    return out


def a_bicycle(mon, rng, i, root):
    return again.bicycle(lambda: the_bicycle(mon, rng, i, root), i % 4)


def the_bicycle(mon, rng, i, root):
    """A bicycle to draw: random, shipped, measured, or with a rider."""
    if i % 4 == 0:
        p = gen.whipple_par(rng, ['ordinary', 'wide', 'equalwheels',
                                  'reverse', 'aligned', 'smallfork'][
                                      i // 4 % 6], gv=False)
        gen.pop_profile(p)
        p['g'] = 9.81
        upright(rng, p)
        if i % 8 == 0:
            # separate handlebar and fork
            for b in 'GS':
                p['m' + b] = .5 * p['mH']
                p['x' + b] = p['xH'] + float(rng.normal() * .1)
                p['z' + b] = p['zH'] + float(rng.normal() * .1)
                (p['I%sxx' % b], p['I%sxz' % b], p['I%syy' % b],
                 p['I%szz' % b]) = gen.planar_inertia(rng, p['m' + b],
                                                      .3 * p['w'])
        if rng.random() < .5:
            p = gen.ufloatify(rng, p)
        world.make_bicycle(root, 'Randy', benchmark=p)
        return Bicycle('Randy', pathToData=root)
    if i % 4 == 1:
        names = [n for n in world.shipped_with_benchmark() if n != 'Tms']
        return Bicycle(names[i // 4 % len(names)], pathToData=world.DATA)
    if i % 4 == 2:
        names = [n for n in world.shipped_with_measured()
                 if n not in ('Tms', 'Silver')]
        n = names[i // 4 % len(names)]
        world.copy_shipped(root, bikes=[n])
        p = os.path.join(root, 'bicycles', n, 'Parameters')
        if os.path.isdir(p):
            world.shutil.rmtree(p)
        return Bicycle(n, pathToData=root)
    bike, name = [('Rigid', 'Jason'), ('Browser', 'Jason'),
                  ('Rigidcl', 'Luke'), ('Gyro', 'Child')][i // 4 % 4]
    world.copy_shipped(root, bikes=[bike], riders=[name])
    b = Bicycle(bike, pathToData=root)
    b.add_rider(name, reCalc=bool(i // 16 % 2) or bool(i // 4 % 2))
    return b


def pendulum_lines(b, par):
    """(centre, direction, length) of the axes of the pendulum."""
    if b.hasRider or not hasattr(b, 'extras'):
        return []
    ex = b.extras
    out = []
    for part in ex['slopes']:
        for m, c, n in zip(ex['slopes'][part], ex['intercepts'][part],
                           ex['pendulumInertias'][part]):
            m, c, n = (float(world.nominal(q)) for q in (m, c, n))
            e = np.array([1., m]) / np.hypot(1., m)
            com = np.array([par['x' + part], par['z' + part]])
            base = np.array([0., c])
            out.append((base + e * (e @ (com - base)), e, n))
    return out


def bicycles(mon, rng, i):
    """Drawings of bicycles."""
    root = os.path.join(mon.scratch, 'd')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        b = a_bicycle(mon, rng, i, root)
    par = world.nominal_dict(b.parameters['Benchmark'])
    if abs(np.cos(par['lam'])) < .05:
        return
    kw = dict(pendulum=bool(rng.random() < .7),
              centerOfMass=bool(rng.random() < .8),
              inertiaEllipse=bool(rng.random() < .8))
    mon.note(bicycle=b.bicycleName, par=par, options=kw,
             rider=b.riderName if b.hasRider else None)
    mon.sig(b.bicycleName, par['w'], par['mB'], *kw.values())
    before = {k: dict(v) for k, v in b.parameters.items()}
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        opened, want = shown.options(rng, True)
        fig = shown.judged(mon, 'bicycle', lambda: mon.call(
            'bicycle', b.plot_bicycle_geometry, **opened, **kw), want)
    parts = part_tensors(par)
    d = Drawing(mon, fig.axes[0], up=-1.)
    if kw['centerOfMass']:
        for q in parts:
            if q != 'D':
                symbol_of(mon, d, q, parts[q][0], 'bicycle:center')
    geometry_of(mon, d, par, key='bicycle', ground='line')
    pend = pendulum_lines(b, par) if kw['pendulum'] else []
    for c, e, n in pend:
        pts = np.array([c - e * n / 2, c + e * n / 2])
        d.line(pts, 'bicycle:pendulum')
        mon.count('pendulum')
    if pend:
        for _, e, n in pend:
            # numbered
            if d.texts:
                t = d.take('texts', lambda t: t.get_text().isdigit(),
                           'bicycle:pendulum-number')
    if b.human:
        stick(mon, d, b)
    if kw['inertiaEllipse']:
        found = {}
        for q, (c, P) in parts.items():
            def test(a):
                t = np.deg2rad(a.angle)
                e = np.array([np.cos(t), -np.sin(t)])
                n = np.array([-e[1], e[0]])
                return near(d.xz(a.center), c) and \
                    abs(a.width**2 * (e @ P @ e) /
                        (a.height**2 * (n @ P @ n)) - 1) < 1e-6 and \
                    abs(e @ P @ n) < 1e-7 * P.trace()
            a = d.take('ellipses', test, 'bicycle:ellipse', '%s %s' % (
                q, P.tolist()))
            if a is not None:
                t = np.deg2rad(a.angle)
                found[q] = (np.array([np.cos(t), -np.sin(t)]), a.width,
                            a.height)
        if found:
            momental(mon, {q: v[1] for q, v in parts.items()}, found,
                     'bicycle:ellipse')
    d.left('bicycle')
    mon.check(b.bicycleName in fig.axes[0].get_title(), 'bicycle:title')
    mon.check(fig.axes[0].get_aspect() in ('equal', 1., 1), 'bicycle:aspect')
    lo, hi = fig.axes[0].get_ylim()
    mon.check(lo <= 0. and hi >= 2 * max(par['rR'], par['rF']),
              'bicycle:in-view')
    lo, hi = fig.axes[0].get_xlim()
    mon.check(lo <= -par['rR'] + 1e-9 and hi >= par['w'] + par['rF'] - 1e-9,
              'bicycle:in-view', '%g %g' % (lo, hi))
    for k, v in before.items():
        q = b.parameters[k]
        mon.check(list(q) == list(v) and all(q[j] is v[j] for j in v),
                  'bicycle:unchanged')
    plt.close('all')


def stick(mon, d, b):
    """The rider drawn from the joints of the human model."""
    mp = world.nominal_dict(b.parameters['Measured'])
    bp = world.nominal_dict(b.parameters['Benchmark'])
    hip = saddle(mp, bp)[1]
    h = b.human

    def joint(v):
        return (hip + YEADON @ np.asarray(v, float).ravel())[::2]
    for p, q in ((h.K2.end_pos, h.K2.pos), (h.K2.pos, h.K1.pos),
                 (h.K1.pos, h.B1.pos), (h.B1.pos, h.B2.pos),
                 (h.B2.pos, h.B2.end_pos), (h.B1.pos, h.C.end_pos)):
        d.line([joint(p), joint(q)], 'bicycle:rider')
    mon.count('stick-figure')


def plotly(mon, rng, i):
    """Interactive drawings of bicycles."""
    root = os.path.join(mon.scratch, 'd')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        b = a_bicycle(mon, rng, i, root)
    if not hasattr(b, '_plot_bicycle_geometry_plotly'):
        return
    par = world.nominal_dict(b.parameters['Benchmark'])
    if abs(np.cos(par['lam'])) < .05:
        return
    kw = dict(pendulum=bool(rng.random() < .7),
              centerOfMass=bool(rng.random() < .8),
              inertiaEllipse=bool(rng.random() < .8))
    mon.note(bicycle=b.bicycleName, par=par, options=kw)
    mon.sig(b.bicycleName, par['w'], par['mB'], *kw.values())
    opened, want = shown.options(rng, True)
    fig = shown.judged(mon, 'plotly', lambda: mon.call(
        'plotly', b._plot_bicycle_geometry_plotly, **opened, **kw), want)
    figure(mon, fig, b, par, 'plotly', **kw)


def figure(mon, fig, b, par, key, pendulum=True, centerOfMass=True,
           inertiaEllipse=True):
    def traces(name):
        return [np.array([np.asarray(t.x, float), -np.asarray(t.y, float)]).T
                for t in fig.data if t.name == name]

    def one(name, k):
        t = traces(name)
        if mon.check(len(t) == 1, key + ':' + k, '%d' % len(t)):
            return t[0]
    for name, c, r in (('Rear wheel', [0., -par['rR']], par['rR']),
                       ('Front wheel', [par['w'], -par['rF']], par['rF'])):
        v = one(name, 'wheel')
        if v is not None:
            mon.close(np.linalg.norm(v - c, axis=1), r * np.ones(len(v)),
                      key + ':wheel', rtol=1e-9)
            turn = np.unwrap(np.arctan2(*(v - c).T))
            mon.check(len(v) > 20 and abs(np.ptp(turn) - 2 * np.pi) < .01,
                      key + ':wheel-closed')
    v = one('Ground', 'ground')
    if v is not None:
        mon.check(not v[:, 1].any(), key + ':ground')
        mon.close([v[:, 0].min(), v[:, 0].max()],
                  [-par['rR'], par['w'] + par['rF']], key + ':ground')
    if fig.layout.xaxis.range:
        lo, hi = map(float, fig.layout.xaxis.range)
        mon.check(lo <= -par['rR'] + 1e-9 and
                  hi >= par['w'] + par['rF'] - 1e-9, key + ':in-view')
    v = one('Bicycle', 'frame')
    if v is not None:
        framed(mon, v, par, key)
    v = one('Steer axis', 'steer-axis')
    if v is not None:
        foot = np.array([par['w'] + par['c'], 0.])
        mon.close(v[np.argmin(np.linalg.norm(v - foot, axis=1))], foot,
                  key + ':trail-point', atol=1e-6)
        axis(mon, v, par, key)
    parts = part_tensors(par)
    names = [t.name for t in fig.data if (t.name or '')[:11] == 'Inertia of ']
    mon.check(sorted(names) == sorted('Inertia of ' + q for q in parts)
              if inertiaEllipse else not names, key + ':ellipses', str(names))
    if inertiaEllipse:
        found = {}
        for q, (c, P) in parts.items():
            v = one('Inertia of ' + q, 'ellipse')
            if v is None:
                continue
            u = v - c
            # quadratic form of the curve
            Q = np.stack([u[:, 0]**2, 2 * u[:, 0] * u[:, 1], u[:, 1]**2],
                         axis=1)
            s = np.abs(u).max()
            k = np.linalg.lstsq(Q / s**2, np.ones(len(u)), rcond=None)[0]
            mon.close(Q / s**2 @ k, np.ones(len(u)), key + ':ellipse-curve',
                      rtol=1e-6)
            w, E = np.linalg.eigh(np.array([[k[0], k[1]], [k[1], k[2]]]))
            axes = s / np.sqrt(w)
            found[q] = (E[:, 0], axes[0], axes[1])
        if found:
            momental(mon, {q: x[1] for q, x in parts.items()}, found,
                     key + ':ellipse')
    coms = traces('COM')
    want = [parts[q][0] for q in parts if q != 'D'] if centerOfMass else []
    if mon.check(len(coms) == len(want), key + ':centers',
                 '%d %d' % (len(coms), len(want))):
        for c in want:
            hit = [k for k, v in enumerate(coms) if near(v, np.array([c, c]),
                                                          1e-9)]
            if mon.check(bool(hit), key + ':center', str(c)):
                coms.pop(hit[0])
    centers = [parts[q][0] for q in parts if q != 'D']
    loose = [np.array([np.asarray(t.x, float), -np.asarray(t.y, float)]).T
             for t in fig.data if not t.name and t.x is not None]
    if centerOfMass and b is not None and not b.human:
        # what is drawn without a name belongs to the symbols
        for v in loose:
            d = np.linalg.norm(v[:, None] - np.array(centers)[None], axis=2)
            mon.check(d.max(0).min() < .12,
                      key + ':symbol', str(v[:3]))
        for c in centers:
            if min([np.linalg.norm(c - x) for x in centers
                    if x is not c]) < .25 or not loose:
                continue
            v = np.concatenate(loose)
            v = v[np.linalg.norm(v - c, axis=1) < .12]
            if len(v):
                mon.close((v.min(0) + v.max(0)) / 2, c, key +
                          ':symbol-centred', rtol=0, atol=1e-3)
                rim = (v - c)[np.linalg.norm(v - c, axis=1) > .02]
                if len(rim) > 50:
                    turn = np.arctan2(*rim.T)
                    n = [np.sum(np.abs(turn - t) < .7) for t in
                         np.radians([-135., -45., 45., 135.])]
                    mon.check(min(n) > 4, key + ':symbol-round', str(n))
    notes = [(a.text, np.array([a.x, -a.y])) for a in fig.layout.annotations]
    mon.check(sorted(t for t, _ in notes) ==
              (sorted(q for q in parts if q != 'D') if centerOfMass else []),
              key + ':labels', str([t for t, _ in notes]))
    for t, x in notes:
        if t in parts:
            mon.check(np.linalg.norm(x - parts[t][0]) < .12, key + ':label',
                      t)
    pend = pendulum_lines(b, par) if pendulum else []
    drawn = traces('Pendulum')
    if mon.check(len(drawn) == len(pend), key + ':pendulum'):
        for c, e, n in pend:
            pts = np.array([c - e * n / 2, c + e * n / 2])
            hit = [k for k, v in enumerate(drawn)
                   if near(v, pts) or near(v[::-1], pts)]
            if mon.check(bool(hit), key + ':pendulum', str(pts)):
                drawn.pop(hit[0])


GROUPS = [('sets', 2400, 28800, sets), ('bicycles', 640, 9600, bicycles),
          ('plotly', 640, 9600, plotly)]
MINIMUM = {'steer-axis': 100, 'symbol': 300, 'gyration': 100,
           'ellipsoid': 100, 'momental': 200, 'pendulum': 20,
           'stick-figure': 3}
