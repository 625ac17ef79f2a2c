"""Reference models written from the literature / from physics, not from the
code under test."""
import numpy as np


def skew(r):
    return np.array([[0., -r[2], r[1]], [r[2], 0., -r[0]], [-r[1], r[0], 0.]])


def point_inertia(m, r):
    """Inertia about a point of a mass displaced by r from it."""
    S = skew(np.asarray(r, float))
    return -m * S @ S


def bodies(p):
    """The four rigid bodies: name -> (m, com, central inertia)."""
    def T(b, xx, yy, zz, xz=0.):
        return np.array([[xx, 0., xz], [0., yy, 0.], [xz, 0., zz]], float)
    out = {}
    for b, x, r in (('R', 0., p['rR']), ('F', p['w'], p['rF'])):
        xx, yy = p['I%sxx' % b], p['I%syy' % b]
        out[b] = (p['m' + b], np.array([x, 0., -r]), T(b, xx, yy, xx))
    for b in 'BH':
        out[b] = (p['m' + b], np.array([p['x' + b], 0., p['z' + b]]),
                  T(b, p['I%sxx' % b], p.get('I%syy' % b, 1.),
                    p['I%szz' % b], p['I%sxz' % b]))
    return out


def combine(parts):
    """(m, com, central inertia) of a collection of rigid bodies."""
    m = sum(q[0] for q in parts)
    com = sum(q[0] * np.asarray(q[1], float) for q in parts) / m
    I = sum(q[2] + point_inertia(q[0], np.asarray(q[1]) - com) for q in parts)
    return m, com, I


def whipple(p):
    """Canonical matrices of the linearised Whipple-Carvallo bicycle, from
    angular momenta of rigid bodies (Meijaard et al. 2007, appendix A)."""
    bs = bodies(p)
    lam, w, c = p['lam'], p['w'], p['c']
    sl, cl = np.sin(lam), np.cos(lam)
    axis = np.array([sl, 0., cl])          # steer axis, pointing down
    P = np.array([w + c, 0., 0.])          # where it meets the ground
    mT, rT, _ = combine(list(bs.values()))
    IT = sum(I + point_inertia(m, r) for m, r, I in bs.values())
    H0 = np.zeros(3)     # angular momentum about origin for unit steer rate
    Hl = 0.
    S = 0.               # first moment of front assembly about the steer axis
    for b in 'HF':
        m, r, I = bs[b]
        v = np.cross(axis, r - P)
        H0 += I @ axis + m * np.cross(r, v)
        Hl += axis @ (I @ axis + m * np.cross(r - P, v))
        S += m * v[1]
    mu = c / w * cl
    SR, SF = p['IRyy'] / p['rR'], p['IFyy'] / p['rF']
    ST = SR + SF
    SA = S + mu * mT * rT[0]
    ITxx, ITxz, ITzz = IT[0, 0], IT[0, 2], IT[2, 2]
    Mpd = H0[0] + mu * ITxz
    M = np.array([[ITxx, Mpd],
                  [Mpd, Hl + 2 * mu * H0[2] + mu**2 * ITzz]])
    K0 = np.array([[mT * rT[2], -SA], [-SA, -SA * sl]])
    K2 = np.array([[0., (ST - mT * rT[2]) * cl / w],
                   [0., (SA + SF * sl) * cl / w]])
    C1 = np.array([[0., mu * ST + SF * cl + ITxz * cl / w - mu * mT * rT[2]],
                   [-(mu * ST + SF * cl),
                    H0[2] * cl / w + mu * (SA + ITzz * cl / w)]])
    return M, C1, K0, K2


def state_space(M, C1, K0, K2, v, g):
    A = np.zeros((4, 4))
    A[:2, 2:] = np.eye(2)
    A[2:, :2] = -np.linalg.solve(M, g * K0 + v**2 * K2)
    A[2:, 2:] = -np.linalg.solve(M, v * C1)
    B = np.zeros((4, 2))
    B[2:] = np.linalg.solve(M, np.eye(2))
    return A, B


# The benchmark bicycle and its published matrices (Meijaard et al. 2007)
BENCHMARK = dict(w=1.02, c=0.08, lam=np.pi / 10, g=9.81, v=5., rR=.3, mR=2.,
                 IRxx=.0603, IRyy=.12, xB=.3, zB=-.9, mB=85., IBxx=9.2,
                 IByy=11., IBzz=2.8, IBxz=2.4, xH=.9, zH=-.7, mH=4.,
                 IHxx=.05892, IHyy=.06, IHzz=.00708, IHxz=-.00756, rF=.35,
                 mF=3., IFxx=.1405, IFyy=.28)
BENCH_M = np.array([[80.81722, 2.31941332208709],
                    [2.31941332208709, .29784188199686]])
BENCH_K0 = np.array([[-80.95, -2.59951685249872],
                     [-2.59951685249872, -.80329488458618]])
BENCH_K2 = np.array([[0., 76.59734589573222], [0., 2.65431523794604]])
BENCH_C1 = np.array([[0., 33.86641391492494],
                     [-.85035641456978, 1.68540397397560]])
