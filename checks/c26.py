"""C26 Bode plots show the frequency response of the bicycle."""
import os
import warnings
import numpy as np
import matplotlib.pyplot as plt
from matplotlib.colors import to_rgba

from bicycleparameters import Bicycle
from bicycleparameters import plot as bpplot
from vp import again, gen, ref, world

TECHNIQUE = ('runtime monitor: curves read back from the plots, turned into '
             'complex responses and compared with those of independently '
             'derived equations of motion; continuity and labels of every '
             'curve')
LEVEL_NOTE = ('Every curve observed is compared at each of its frequencies '
              'with the response of the bicycle and speed of its label.')
RULE = ('random and shipped bicycles, plain and uncertain, with and without '
        'rider and flywheel, all inputs and outputs, speeds of any sign and '
        'type; single plots, several speeds, several bicycles, on new and '
        'on given figures; distinct by bicycle, speed and channel')
ASSUMPTIONS = ['matplotlib draws the lines it holds']

OUT = ['roll angle', 'steer angle', 'roll rate', 'steer rate']
IN = ['roll torque', 'steer torque']
EDITED = ['c', 'lam', 'g', 'mB', 'xH', 'zB', 'IBxx', 'IFyy', 'rR', 'mH', 'IHzz',
          'w']
SHIPPED = [n for n in world.shipped_with_benchmark() if n != 'Tms']


def response(p, v, u, y, w):
    A, B = ref.state_space(*ref.whipple(p), v, p['g'])
    x = np.linalg.solve(1j * w[:, None, None] * np.eye(4) - A,
                        np.broadcast_to(B[:, u:u + 1], (len(w), 4, 1)))
    return x[:, y, 0]


def curve(mon, w, mag, phase, p, v, u, y, key):
    """Magnitude in dB and phase in degrees against the reference."""
    w, mag, phase = (np.asarray(q, float) for q in (w, mag, phase))
    if not mon.check(w.shape == mag.shape == phase.shape and w.ndim == 1 and
                     len(w) > 100, key + ':shape'):
        return
    mon.check(np.all(np.diff(w) > 0) and w[0] > 0, key + ':frequencies')
    mon.close([w[0], w[-1]], [1., 100.], key + ':range', rtol=1e-9)
    G = response(p, v, u, y, w)
    # of a channel that does not respond there is only round-off
    if np.abs(G).max() < 1e-300:
        return
    noise = 1e-9 * np.abs(response_scale(p, v, u, w))
    got = 10**(mag / 20) * np.exp(1j * np.deg2rad(phase))
    bad = np.abs(got - G) > 1e-6 * np.abs(G) + noise
    k = int(np.argmax(bad))
    mon.check(not bad.any(), key + ':response', 'at %g rad/s got %s wanted '
              '%s' % (w[k], got[k], G[k]))
    clear = np.abs(G).min() > 1e3 * noise.max()
    if clear:
        mon.check(np.all(np.abs(np.diff(phase)) <= 180. + 1e-6),
                  key + ':continuous', '%g' % np.abs(np.diff(phase)).max())
    mon.count('curve')


def response_scale(p, v, u, w):
    A, B = ref.state_space(*ref.whipple(p), v, p['g'])
    x = np.linalg.solve(1j * w[:, None, None] * np.eye(4) - A,
                        np.broadcast_to(B[:, u:u + 1], (len(w), 4, 1)))
    return np.abs(x[:, :, 0]).max(axis=1)


def a_bike(mon, rng, k, root, name):
    if k % 4 == 0:
        name = SHIPPED[int(rng.integers(len(SHIPPED)))]
        b = again.bicycle(lambda: Bicycle(name, pathToData=world.DATA))
    elif k % 4 == 3:
        bike, r = [('Rigid', 'Jason'), ('Browser', 'Jason'),
                   ('Rigidcl', 'Luke')][int(rng.integers(3))]
        world.copy_shipped(root, bikes=[bike], riders=[r])

        def ridden():
            b = Bicycle(bike, pathToData=root)
            b.add_rider(r)
            return b
        b = again.bicycle(ridden)
    else:
        p = gen.whipple_par(rng, ['ordinary', 'wide', 'equalwheels',
                                  'reverse', 'aligned'][
                                      int(rng.integers(5))], gv=False)
        gen.pop_profile(p)
        p['g'] = float(rng.choice([9.81, 9.81, 3.7]))
        if rng.random() < .2:
            p.update(mD=2., IDxx=.01, IDyy=.02)
        if k % 4 == 2:
            p = gen.ufloatify(rng, p)
        world.make_bicycle(root, name, benchmark=p)
        b = again.bicycle(lambda: Bicycle(name, pathToData=root), False)
    return b


def a_speed(rng):
    v = [float(rng.uniform(0, 10)), float(rng.uniform(.5, 9)), 0.,
         float(-rng.uniform(0, 6)), int(rng.integers(0, 9)),
         np.float64(rng.uniform(1, 7))]
    return v[rng.choice(6, p=[.3, .3, .1, .1, .1, .1])]


def par_of(b):
    return world.nominal_dict(b.parameters['Benchmark'])


def keep(b):
    return {k: dict(v) for k, v in b.parameters.items()}


def unchanged(mon, b, before):
    for k, v in before.items():
        q = b.parameters[k]
        mon.check(list(q) == list(v) and all(q[j] is v[j] for j in v),
                  'bicycle-unchanged')


def lines(fig):
    return list(fig.axes[0].lines), list(fig.axes[1].lines)


def labelled(mon, fig):
    a, b = fig.axes[:2]
    mon.check('db' in a.get_ylabel().lower() and
              'mag' in a.get_ylabel().lower(), 'axes:magnitude')
    mon.check('deg' in b.get_ylabel().lower() and
              'phase' in b.get_ylabel().lower(), 'axes:phase')
    mon.check('rad/s' in b.get_xlabel(), 'axes:frequency')
    mon.check(a.get_xscale() == 'log' and b.get_xscale() == 'log',
              'axes:log')


def single(mon, rng, i):
    root = os.path.join(mon.scratch, 'd')
    b = a_bike(mon, rng, i, root, 'Randy')
    p = par_of(b)
    before = keep(b)
    fig, drawn = None, []
    other = rng.random() < .3
    for k in range(int(rng.integers(1, 4))):
        v, u, y = a_speed(rng), int(rng.integers(2)), int(rng.integers(4))
        if k and rng.random() < .4:
            # a parameter is edited, perhaps everything else stays
            q = str(rng.choice(EDITED))
            par = b.parameters['Benchmark']
            par[q] = par[q] * 1.02
            p, before = par_of(b), keep(b)
            if rng.random() < .6:
                v, u, y = drawn[-1][3:6]
            mon.count('edited')
        mon.note(bicycle=b.bicycleName, par=p, speed=float(v), u=u, y=y)
        mon.sig(b.bicycleName, float(v), u, y, p['mB'])
        kw = {}
        if rng.random() < .4:
            kw['label'] = 'curve %d' % k
        if rng.random() < .3:
            kw['color'] = 'C7'
        if rng.random() < .3:
            kw['title'] = 'A title'
        if fig is not None:
            kw['fig'] = fig
        elif other:
            kw['fig'] = plt.subplots(int(rng.integers(2, 4)), 1)[0]
        kw0 = dict(kw)
        mag, phase, fig = mon.call('bode', b.plot_bode, v, u, y, **kw)
        mon.check(kw == kw0, 'bode:options-unchanged')
        if 'fig' in kw:
            mon.check(fig is kw['fig'], 'bode:figure')
        drawn.append((mag, phase, kw, v, u, y, dict(p)))
        mon.check(np.shape(mag) == (1000,) and np.shape(phase) == (1000,),
                  'bode:shape')
        title = fig.axes[0].get_title()
        mon.check(title == 'A title' if 'title' in kw else
                  title.lower() == '%s to %s' % (IN[u], OUT[y]),
                  'bode:title', title)
    top, bottom = lines(fig)
    if mon.check(len(top) == len(bottom) == len(drawn), 'bode:curves'):
        for a, c, (mag, phase, kw, v, u, y, p) in zip(top, bottom, drawn):
            w = np.asarray(a.get_xdata(), float)
            mon.close(w, c.get_xdata(), 'bode:abscissa')
            mon.close(a.get_ydata(), mag, 'bode:drawn-magnitude')
            mon.close(c.get_ydata(), phase, 'bode:drawn-phase')
            curve(mon, w, mag, phase, p, v, u, y, 'bode')
            if 'label' in kw:
                mon.check(a.get_label() == c.get_label() == kw['label'],
                          'bode:label')
            if 'color' in kw:
                mon.check(to_rgba(a.get_color()) == to_rgba(c.get_color()) ==
                          to_rgba('C7'), 'bode:colour')
    labelled(mon, fig)
    unchanged(mon, b, before)
    plt.close('all')


def compared(mon, fig, want, key):
    """want: (label, parameters, speed, u, y) for each curve in order."""
    top, bottom = lines(fig)
    if not mon.check(len(top) == len(bottom) == len(want), key + ':curves',
                     '%d %d %d' % (len(top), len(bottom), len(want))):
        return
    for a, c, (label, p, v, u, y) in zip(top, bottom, want):
        mon.check(a.get_label() == label and c.get_label() == label,
                  key + ':label', '%s %s: %s' % (a.get_label(),
                                                c.get_label(), label))
        w = np.asarray(a.get_xdata(), float)
        mon.close(w, c.get_xdata(), key + ':abscissa')
        ph = np.asarray(c.get_ydata(), float)
        mon.check(-180. - 1e-6 <= ph[0] <= 180. + 1e-6,
                  key + ':phases-matched', '%g' % ph[0])
        curve(mon, w, a.get_ydata(), ph, p, v, u, y, key)
    leg = fig.axes[0].get_legend()
    mon.check(leg is not None and
              [t.get_text() for t in leg.get_texts()] ==
              [q[0] for q in want], key + ':legend')
    labelled(mon, fig)


def speeds(mon, rng, i):
    root = os.path.join(mon.scratch, 'd')
    b = a_bike(mon, rng, i, root, 'Randy')
    p = par_of(b)
    vs = [a_speed(rng) for _ in range(int(
        rng.integers(1, 7) if rng.random() < .9 else
        rng.integers(7, 12)))]
    u, y = i // 4 % 2, i % 4
    mon.note(bicycle=b.bicycleName, par=p, speeds=[float(v) for v in vs],
             u=u, y=y)
    mon.sig(b.bicycleName, *map(float, vs), u, y)
    before = keep(b)
    given = rng.random() < .3
    kw = {'fig': plt.subplots(int(rng.integers(2, 4)), 1)[0]} if given else {}
    vs0 = list(vs)
    fig = mon.call('speeds', b.compare_bode_speeds, vs, u, y, **kw)
    mon.check(vs == vs0, 'speeds:input-unchanged')
    if given:
        mon.check(fig is kw['fig'], 'speeds:figure')
    compared(mon, fig, [(str(v) + ' m/s', p, v, u, y) for v in vs], 'speeds')
    unchanged(mon, b, before)
    plt.close('all')


def bicycles(mon, rng, i):
    root = os.path.join(mon.scratch, 'd')
    bikes = []
    for k in range(int(rng.integers(1, 6) if rng.random() < .9 else
                       rng.integers(6, 11))):
        bikes.append(a_bike(mon, rng, int(rng.integers(4)), root,
                            'Randy%d' % k))
    v, u, y = a_speed(rng), i // 4 % 2, i % 4
    mon.note(bicycles=[b.bicycleName for b in bikes], speed=float(v), u=u,
             y=y, par=[par_of(b) for b in bikes])
    mon.sig(*[b.bicycleName for b in bikes], float(v), u, y)
    before = [keep(b) for b in bikes]
    given = rng.random() < .3
    kw = {'fig': plt.subplots(int(rng.integers(2, 4)), 1)[0]} if given else {}
    fig = mon.call('bicycles', bpplot.compare_bode_bicycles, list(bikes), v,
                   u, y, **kw)
    if given:
        mon.check(fig is kw['fig'], 'bicycles:figure')
    compared(mon, fig, [(b.bicycleName, par_of(b), v, u, y) for b in bikes],
             'bicycles')
    for b, q in zip(bikes, before):
        unchanged(mon, b, q)
    plt.close('all')


GROUPS = [('single', 256, 7680, single), ('speeds', 160, 4800, speeds),
          ('bicycles', 128, 3840, bicycles)]
MINIMUM = {'curve': 250}
