"""C10 combining bodies conserves mass, mass centre and inertia."""
import copy
import numpy as np
from uncertainties import ufloat

from bicycleparameters import com, inertia, parameter_sets as ps
from vp import again, gen, ref

TECHNIQUE = ('runtime monitor: point-cloud oracle and conservation / '
             'metamorphic relations (order, grouping, shift, rotation)')
LEVEL_NOTE = ('Every combination observed is compared with the sums over an '
              'explicit cloud of point masses, and with itself regrouped, '
              'reordered, shifted and rotated.')
RULE = ('random clouds of point masses partitioned into 1 to 8 bodies over '
        'six decades of mass and size; random symmetric, isotropic and '
        'axisymmetric tensors; tubes cut lengthwise and into shells; '
        'bicycles and riders as parameter dictionaries, plain, mixed and '
        'uncertain; distinct by the masses')


def cloud(rng, n, size, planar=False):
    """Point masses of a body: (m, r)."""
    if planar:       # mirror images about the xz plane
        m = np.exp(rng.uniform(-2, 2, n))
        r = rng.normal(size=(n, 3)) * size
        return np.concatenate([m, m]), np.concatenate([r, r * [1, -1, 1]])
    return np.exp(rng.uniform(-2, 2, n)), rng.normal(size=(n, 3)) * size


def mass_props(m, r):
    c = m @ r / m.sum()
    return m.sum(), c, about(m, r, c)


def about(m, r, p):
    return sum(ref.point_inertia(mi, ri - p) for mi, ri in zip(m, r))


def fl(I):
    return np.array([[getattr(x, 'nominal_value', x) for x in row]
                     for row in np.asarray(I)], float)


def totals(mon, rng, i):
    n = int(rng.integers(1, 9))
    size = gen.logu(rng, 1e-3, 1e3)
    m = np.exp(rng.uniform(-6, 6, n))
    c = rng.normal(size=(3, n)) * size
    if rng.random() < .2:
        m = np.ones(n)
    elif rng.random() < .2:         # whole kilograms, maybe whole metres
        m = rng.integers(1, 90, n)
        mon.count('whole-masses')
        if rng.random() < .3:
            c = rng.integers(-9, 9, (3, n))
            size = 9.
    mon.note(m=m, c=c)
    mon.sig(m)
    tol = dict(rtol=1e-11, atol=1e-11 * np.abs(c).max())
    as_list = bool(rng.random() < .3)
    wrap = (lambda x: x.tolist()) if as_list else (lambda x: x)
    m0, c0 = m.copy(), c.copy()
    cc, mm = wrap(c), wrap(m)
    mT, cT = mon.call('total', com.total_com, cc, mm)
    mon.check(np.array_equal(cc, c0) and np.array_equal(mm, m0),
              'total:input-unchanged')
    mon.close(mT, sum(m0), 'total:mass', rtol=1e-12)
    want = np.array([sum(m0[k] * c0[j, k] for k in range(n)) / sum(m0)
                     for j in range(3)])
    mon.check(np.shape(cT) == (3,), 'total:shape')
    mon.close(cT, want, 'total:com', **tol)
    mon.check(np.all(np.asarray(cT) <= c.max(axis=1) + tol['atol']) and
              np.all(np.asarray(cT) >= c.min(axis=1) - tol['atol']),
              'total:inside-hull')
    o = rng.permutation(n)
    mP, cP = mon.call('total', com.total_com, wrap(c[:, o]), wrap(m[o]))
    mon.close(cP, cT, 'total:order', **tol)
    if n > 1:
        k = int(rng.integers(1, n))
        ma, ca = com.total_com(c[:, :k], m[:k])
        mb, cb = com.total_com(c[:, k:], m[k:])
        mG, cG = com.total_com(np.array([ca, cb]).T, np.array([ma, mb]))
        mon.close(mG, mT, 'total:group-mass', rtol=1e-12)
        mon.close(cG, cT, 'total:group', **tol)
    s = rng.normal(size=3) * size
    mon.close(com.total_com(c + s[:, None], m)[1], cT + s, 'total:shift',
              rtol=1e-11, atol=1e-11 * (np.abs(c).max() + np.abs(s).max()))
    R = gen.random_rotation(rng)
    mon.close(com.total_com(R @ c, m)[1], R @ cT, 'total:rotate', **tol)
    # uncertain masses and places
    um = np.array([ufloat(x, abs(x) * .01) for x in m])
    uc = np.array([[ufloat(x, .01 * size) for x in row] for row in c])
    uT, ucT = mon.call('total-uncertain', com.total_com, uc, um)
    mon.close(uT.nominal_value, mT, 'total:uncertain-mass', rtol=1e-12)
    mon.close([x.nominal_value for x in ucT], cT, 'total:uncertain', **tol)


def axes(mon, rng, i):
    size = gen.logu(rng, 1e-2, 1e2)
    m, r = cloud(rng, int(rng.integers(3, 12)), size, rng.random() < .3)
    r = r + rng.normal(size=3) * size
    M, c, I = mass_props(m, r)
    d = rng.normal(size=3) * gen.logu(rng, 1e-3, 1e3) * size
    if rng.random() < .3:
        d[rng.integers(3)] = 0.
    mon.note(M=M, d=d, I=I)
    mon.sig(M, d)
    I0, d0 = I.copy(), d.copy()
    P = mon.call('parallel', inertia.parallel_axis, I, M, d)
    mon.check(np.array_equal(I, I0) and np.array_equal(d, d0),
              'parallel:input-unchanged')
    P = fl(P)
    sc = np.abs(I).max() + M * (d @ d)
    mon.close(P, about(m, r, c + d), 'parallel:cloud', rtol=0, atol=1e-10 * sc)
    mon.close(fl(inertia.parallel_axis(I, M, -d)), P, 'parallel:even', rtol=0,
              atol=1e-12 * sc)
    mon.check(np.linalg.eigvalsh(P - I).min() > -1e-10 * sc,
              'parallel:never-smaller')
    R = gen.random_rotation(rng)
    mon.close(fl(inertia.parallel_axis(R @ I @ R.T, M, R @ d)), R @ P @ R.T,
              'parallel:frame', rtol=0, atol=1e-10 * sc)
    # uncertain arguments
    uM = ufloat(M, M * .01)
    uP = mon.call('parallel-uncertain', inertia.parallel_axis, I, uM, d)
    mon.close(fl(uP), P, 'parallel:uncertain', rtol=0, atol=1e-12 * sc)
    # several bodies combined by hand through the library's functions
    k = int(rng.integers(1, len(m)))
    A, B = mass_props(m[:k], r[:k]), mass_props(m[k:], r[k:])
    mT, cT = com.total_com(np.array([A[1], B[1]]).T, np.array([A[0], B[0]]))
    J = fl(inertia.parallel_axis(A[2], A[0], A[1] - cT)) + fl(
        inertia.parallel_axis(B[2], B[0], B[1] - cT))
    sc = np.abs(I).max() + M * np.abs(r).max()**2
    mon.close(mT, M, 'combine:mass', rtol=1e-12)
    mon.close(cT, c, 'combine:com', rtol=0, atol=1e-11 * np.abs(r).max())
    mon.close(J, I, 'combine:inertia', rtol=0, atol=1e-10 * sc)


def rotations(mon, rng, i):
    m, r = cloud(rng, int(rng.integers(3, 9)), gen.logu(rng, 1e-2, 1e2), True)
    I = mass_props(m, r)[2]
    kind = ['general', 'planar', 'isotropic', 'axisymmetric', 'diagonal',
            'degenerate-y'][i % 6]
    if kind == 'general':
        I = mass_props(*cloud(rng, 9, .4))[2]
    elif kind == 'isotropic':
        I = np.eye(3) * I[0, 0]
    elif kind == 'axisymmetric':
        R = gen.rot_y(rng.uniform(-4, 4))
        I = R @ np.diag([I[0, 0], I[1, 1], I[1, 1]]) @ R.T
    elif kind == 'diagonal':
        I = np.diag(rng.permutation(np.diag(I)))
    elif kind == 'degenerate-y':
        I[1, 1] = np.linalg.eigvalsh(I[::2, ::2])[rng.integers(2)]
    I = (I + I.T) / 2
    sc = np.abs(I).max()
    mon.note(I=I, kind=kind)
    mon.sig(I[0])
    a = float(rng.uniform(-7, 7))
    if rng.random() < .2:
        a = float(rng.choice([0., np.pi / 2, np.pi, -np.pi / 2, 2 * np.pi]))
    I0 = I.copy()
    # vectors rotate into a frame turned by the angle about y
    C = np.array([[np.cos(a), 0, -np.sin(a)], [0, 1, 0],
                  [np.sin(a), 0, np.cos(a)]])
    J = fl(mon.call('rotate', inertia.rotate_inertia_tensor, I, a))
    mon.check(np.array_equal(I, I0), 'rotate:input-unchanged')
    mon.close(J, C @ I @ C.T, 'rotate:frame', rtol=0, atol=1e-12 * sc)
    mon.close(np.trace(J), np.trace(I), 'rotate:trace', rtol=1e-11)
    mon.close(np.linalg.eigvalsh(J), np.linalg.eigvalsh(I),
              'rotate:principal-moments', rtol=0, atol=1e-11 * sc)
    b = float(rng.uniform(-3, 3))
    mon.close(fl(inertia.rotate_inertia_tensor(J, b)),
              fl(inertia.rotate_inertia_tensor(I, a + b)), 'rotate:compose',
              rtol=0, atol=1e-11 * sc)
    mon.close(fl(inertia.rotate_inertia_tensor(J, -a)), I, 'rotate:back',
              rtol=0, atol=1e-11 * sc)
    u = mon.call('rotate-uncertain', inertia.rotate_inertia_tensor, I,
                 ufloat(a, .01))
    mon.close(fl(u), J, 'rotate:uncertain', rtol=0, atol=1e-12 * sc)
    # principal axes
    Ip, D = mon.call('principal', inertia.principal_axes, I)
    mon.check(np.array_equal(I, I0), 'principal:input-unchanged')
    Ip, D = np.asarray(Ip), np.asarray(D)
    mon.check(Ip.shape == (3,) and D.shape == (3, 3), 'principal:shape')
    mon.check(np.all(np.diff(Ip) >= -1e-12 * sc), 'principal:sorted')
    mon.close(Ip, np.linalg.eigvalsh(I), 'principal:moments', rtol=0,
              atol=1e-10 * sc)
    mon.close(D @ D.T, np.eye(3), 'principal:orthogonal', rtol=0, atol=1e-9)
    mon.close(np.linalg.det(D), 1., 'principal:right-handed', atol=1e-9)
    mon.close(D @ I @ D.T, np.diag(Ip), 'principal:diagonalises', rtol=0,
              atol=1e-9 * sc)
    mon.count('kind:' + kind)


def tubes(mon, rng, i):
    l, ro = gen.logu(rng, 1e-3, 1e2), gen.logu(rng, 1e-3, 1e1)
    ri = float(rng.choice([0., ro * rng.random(), ro]))
    m = gen.logu(rng, 1e-3, 1e3)
    mon.note(l=l, m=m, ro=ro, ri=ri)
    mon.sig(l, m, ro, ri)
    x, y, z = mon.call('tube', inertia.tube_inertia, l, m, ro, ri)
    mon.close(x, m * (ro**2 + ri**2) / 2, 'tube:axial', rtol=1e-12)
    mon.close(y, m * (3 * (ro**2 + ri**2) + l**2) / 12, 'tube:normal',
              rtol=1e-12)
    mon.close(z, y, 'tube:symmetric', rtol=1e-12)
    # cut lengthwise
    f = float(rng.uniform(.05, .95))
    a = inertia.tube_inertia(l * f, m * f, ro, ri)
    b = inertia.tube_inertia(l * (1 - f), m * (1 - f), ro, ri)
    da, db = l * (1 - f) / 2, l * f / 2
    mon.close(a[0] + b[0], x, 'tube:cut-axial', rtol=1e-10)
    mon.close(a[1] + m * f * da**2 + b[1] + m * (1 - f) * db**2, y,
              'tube:cut-normal', rtol=1e-10)
    # nested shells
    if ri < ro:
        rm = ri + f * (ro - ri)
        mi = m * (rm**2 - ri**2) / (ro**2 - ri**2)
        a = inertia.tube_inertia(l, mi, rm, ri)
        b = inertia.tube_inertia(l, m - mi, ro, rm)
        mon.close(np.add(a, b), [x, y, z], 'tube:shells', rtol=1e-9)
    u = mon.call('tube-uncertain', inertia.tube_inertia, ufloat(l, l * .01),
                 ufloat(m, m * .01), ufloat(ro, ro * .01), ri)
    mon.close([k.nominal_value for k in u], [x, y, z], 'tube:uncertain',
              rtol=1e-12)


SUFFIX = {'R': 'xx yy', 'F': 'xx yy', 'D': 'xx yy', 'B': 'xx yy zz xz',
          'H': 'xx yy zz xz', 'G': 'xx yy zz xz', 'S': 'xx yy zz xz'}


def tensors(mon, rng, i):
    """Tensors formed from parameter dictionaries."""
    p = {}
    for b, ss in SUFFIX.items():
        for s in ss.split():
            p['I' + b + s] = float(rng.normal())
    mode = ['plain', 'uncertain', 'mixed'][i % 3]
    q = dict(p)
    if mode != 'plain':
        keys = list(p) if mode == 'uncertain' else list(rng.choice(
            list(p), size=len(p) // 2, replace=False))
        q = gen.ufloatify(rng, p, keys=keys)
    if i % 5 == 4:      # documented as optional, zero if not given
        for k in ('IByy', 'IHyy'):
            del q[k]
            p[k] = 0.
    before = copy.copy(q)
    mon.note(par=p, mode=mode)
    mon.sig(p['IBxx'], mode)
    for b in SUFFIX:
        I = mon.call('tensor', inertia.part_inertia_tensor, q, b)
        xx, yy = p['I%sxx' % b], p['I%syy' % b]
        zz, xz = p.get('I%szz' % b, xx), p.get('I%sxz' % b, 0.)
        mon.close(fl(I), np.array([[xx, 0, xz], [0, yy, 0], [xz, 0, zz]]),
                  'tensor:' + mode, rtol=0, atol=1e-15)
    mon.check(q == before, 'tensor:input-unchanged')



def riders(mon, rng, i):
    """A rider combined with the rear frame of a bicycle."""
    b = gen.whipple_par(rng)
    b.pop('_profile')
    m, r = cloud(rng, int(rng.integers(2, 7)), gen.logu(rng, .05, 1.), True)
    r = r + [rng.uniform(0, 1), 0., -rng.uniform(.3, 2)]
    if i % 4 == 0:      # rider sitting slightly aside
        r = r + [0., rng.normal() * .05, 0.]
    M, c, I = mass_props(m, r)
    rp = dict(mB=M, xB=c[0], yB=c[1], zB=c[2], IBxx=I[0, 0], IByy=I[1, 1],
              IBzz=I[2, 2], IBxz=I[0, 2])
    if i % 3 == 0:
        rp['IFxx'] = 3.     # entries that do not matter
    bb, rr = b, rp
    if i % 5 == 1:
        bb = gen.ufloatify(rng, b)
    if i % 7 == 2:
        rr = gen.ufloatify(rng, {k: float(v) for k, v in rp.items()})
    mon.note(bike=b, rider=rp)
    mon.sig(b['mB'], M)
    kb, kr = copy.copy(bb), copy.copy(rr)
    out = mon.call('rider', inertia.combine_bike_rider, bb, rr)
    mon.check(bb == kb and rr == kr, 'rider:input-unchanged')
    n = {k: float(getattr(v, 'nominal_value', v)) for k, v in out.items()}
    f = (b['mB'], np.array([b['xB'], 0., b['zB']]),
         np.array([[b['IBxx'], 0, b['IBxz']], [0, b['IByy'], 0],
                   [b['IBxz'], 0, b['IBzz']]]))
    mT, cT, IT = ref.combine([f, (M, c, I)])
    sc = np.abs(IT).max() + mT * (np.abs(cT).max() + np.abs(c).max())**2
    mon.close(n['mB'], mT, 'rider:mass', rtol=1e-12)
    mon.close([n['xB'], n['zB']], cT[::2], 'rider:com', rtol=1e-11,
              atol=1e-12)
    mon.close([n['IBxx'], n['IByy'], n['IBzz'], n['IBxz']],
              [IT[0, 0], IT[1, 1], IT[2, 2], IT[0, 2]], 'rider:inertia',
              rtol=0, atol=1e-11 * sc)
    for k in b:
        if k not in ('mB', 'xB', 'zB', 'IBxx', 'IByy', 'IBzz', 'IBxz'):
            mon.check(n[k] == b[k], 'rider:other-parameters', 'changed ' + k)
    mon.check(set(n) - {'yB'} == set(b), 'rider:keys')


def sets(mon, rng, i):
    """Mass centres and tensors reported by the parameter sets."""
    if i % 2:
        p = gen.whipple_par(rng)
        p.pop('_profile')
        s = mon.call('set', again.obj, 'whipple', lambda:
                     ps.Meijaard2007ParameterSet(p, True), again.edited(p))
        bs = ref.bodies(p)
    else:
        p = gen.moore2019_par(rng)
        s = mon.call('set', again.obj, 'moore', lambda:
                     ps.Moore2019ParameterSet(p), again.edited(p))
        bs = {b: (p['m' + b], np.array([p['x' + b], 0., p['z' + b]]))
              for b in 'DHP'}
        bs['R'] = (p['mR'], np.array([0., 0., -p['rR']]))
        bs['F'] = (p['mF'], np.array([p['w'], 0., -p['rF']]))
    before = copy.deepcopy(s.parameters)
    mon.note(par=p)
    mon.sig(p['mH'], p['xH'])
    names = list(bs)
    tol = dict(rtol=1e-11, atol=1e-11)
    for b in names:
        mon.close(mon.call('mass-centre', s.mass_center_of, b), bs[b][1],
                  'set:single', **tol)
        mon.close(mon.call('mass-centre', s.form_mass_center_vector, b),
                  bs[b][1], 'set:vector', **tol)
        if len(bs[b]) == 3:
            mon.close(mon.call('tensor', s.form_inertia_tensor, b), bs[b][2],
                      'set:tensor', rtol=1e-12, atol=1e-14)
    for _ in range(4):
        k = int(rng.integers(2, len(names) + 1))
        pick = [str(x) for x in rng.permutation(names)[:k]]
        m = sum(bs[b][0] for b in pick)
        want = sum(bs[b][0] * bs[b][1] for b in pick) / m
        mon.close(mon.call('mass-centre', s.mass_center_of, *pick), want,
                  'set:several', '%s' % pick, **tol)
    mon.check(s.parameters == before, 'set:unchanged')


GROUPS = [('totals', 900, 72000, totals), ('axes', 900, 72000, axes),
          ('rotations', 1080, 86400, rotations), ('tubes', 600, 48000, tubes),
          ('tensors', 180, 14400, tensors), ('riders', 1260, 100800, riders),
          ('sets', 600, 48000, sets)]
MINIMUM = {'kind:axisymmetric': 8, 'kind:isotropic': 8}
