"""The velocity fields offered by the kernels, seen uniformly: u(x,y,z) in Cartesian components, with random parameters.

draw(rng, kind=None) -> Field with
   name, L     length scale
   U           velocity scale
   f(x,y,z)    calls wiz, returns (ux,uy,uz)
   dist(x,y,z) distance to the singular set, divided by L
   args        the parameters, make(args) rebuilds f for other parameters
   strengths   names of the arguments in which the field is linear
   lengths     names of the arguments that are lengths
   curl(x,y,z) expected curl off the singular set
"""
import numpy as np
from . import gen, ref
from wiz import SelfSimilar as SS
from wiz import VortexCylinder as VC, VortexCylinderSkewed as VCS, VortexRing as VR, VortexDoublet as VD, VortexLine as VL, VortexPoint as VP


def _d_line(x, y, z, m, L=np.inf):
    """distance to the segment (m s,0,s), s in [0,L]"""
    c2 = 1 + m * m
    s = np.clip((m * x + z) / c2, 0, L)
    return np.sqrt((x - m * s) ** 2 + y ** 2 + (z - s) ** 2)


def _d_right(x, y, z, R, z1=0.0, z2=np.inf):
    r = np.hypot(x, y)
    return np.hypot(r - R, z - np.clip(z, z1, z2))


class Field(object):
    near = None
    translate = None


def _lineend_curl(x, y, z, G):
    """curl of the field of a half line starting at the origin (open vortex line): -G/(4pi) x/|x|^3 ... sign: the
    vorticity that closes the line spreads isotropically from its end"""
    d3 = (x ** 2 + y ** 2 + z ** 2) ** 1.5
    return [-G / (4 * np.pi) * v / d3 for v in (x, y, z)]


def _ringend_curl(x, y, z, g, R):
    th = (np.arange(400) + .5) * 2 * np.pi / 400
    sh = np.shape(x)
    X, Y, Z = (np.ravel(v)[:, None] for v in (x, y, z))
    dx, dy, dz = X - R * np.cos(th), Y - R * np.sin(th), Z + 0 * th
    d3 = (dx ** 2 + dy ** 2 + dz ** 2) ** 1.5
    w = -g * R / (4 * np.pi) * 2 * np.pi / 400
    return [(v / d3).sum(1).reshape(sh) * w for v in (dx, dy, dz)]


EXTRA = ['doublet_polar', 'self_similar', 'points', 'vc_far']      # not Biot-Savart fields in 3D, or restricted forms of the others
KINDS = ['vc_tang', 'vc_tang_finite', 'vc_longi', 'vc_root', 'svc_tang', 'svc_longi', 'svc_root', 'ring', 'ring_polar', 'rings', 'doublet',
         'doublet_line', 'doublet_line_skew', 'doublet_line_finite', 'vcs_tang', 'vcs_longi', 'svcs_tang', 'svcs_longi', 'svc_all']
BOUND = ('svc_tang', 'svc_longi', 'svcs_tang', 'svcs_longi', 'svc_all')   # kernels integrated with 180 points


def _polar(ur, uz, x, y):
    p = np.arctan2(y, x)
    return ur * np.cos(p), ur * np.sin(p), uz


def draw(rng, kind=None, L=None):
    F = Field()
    F.name = kind or str(rng.choice(KINDS))
    k = F.name
    L = gen.scale(rng) if L is None else L
    if k in ('doublet', 'doublet_line', 'doublet_line_skew', 'doublet_line_finite', 'svc_root', 'svc_all', 'doublet_polar') and L < 1:
        L = 1.0                                 # absolute cut-offs in these kernels
    F.L = L
    g = gen.strength(rng)
    m = float(rng.choice([gen.slog(rng, 1e-3, .1, 1)[0], rng.uniform(-1.5, 1.5)]))
    F.strengths, F.lengths = ['g'], ['R']
    zero = lambda x, y, z: [0 * x, 0 * x, 0 * x]
    F.curl = zero
    F.near = None
    F.translate = None
    if k == 'vc_tang':
        F.args = dict(g=g, R=L)
        F.call = lambda x, y, z, g, R: VC.vc_tang_u(x, y, z, gamma_t=g, R=R, polar_out=False)
        F.dist = lambda x, y, z: _d_right(x, y, z, L) / L
        F.U = abs(g)
    elif k == 'vc_tang_finite':
        z1, z2 = np.sort(rng.uniform(-2, 3, 2)) * L
        F.args = dict(g=g, R=L, z1=z1, z2=z2)
        F.lengths = ['R', 'z1', 'z2']
        F.call = lambda x, y, z, g, R, z1, z2: VC.cylinder_tang_u(x, y, z, gamma_t=g, R=R, z1=z1, z2=z2, polar_out=False)
        F.dist = lambda x, y, z: _d_right(x, y, z, L, z1, z2) / L
        F.U = abs(g)
    elif k == 'vc_longi':
        F.args = dict(g=g, R=L)
        F.call = lambda x, y, z, g, R: VC.vc_longi_u(x, y, z, gamma_l=g, R=R, polar_out=False)
        F.dist = lambda x, y, z: _d_right(x, y, z, L) / L
        F.curl = lambda x, y, z: _ringend_curl(x, y, z, g, L)
        F.U = abs(g)
    elif k == 'vc_root':
        F.args = dict(g=g)
        F.lengths = []
        F.call = lambda x, y, z, g: VC.vc_root_u(x, y, z, Gamma_r=g, polar_out=False)
        F.dist = lambda x, y, z: _d_line(x, y, z, 0.0) / L
        F.curl = lambda x, y, z: _lineend_curl(x, y, z, g)
        F.U = abs(g) / L
    elif k == 'svc_tang':
        F.args = dict(g=g, R=L, m=m)
        F.call = lambda x, y, z, g, R, m: VCS.svc_tang_u(x, y, z, gamma_t=g, R=R, m=m)
        F.dist = lambda x, y, z: ref.dist_cyl(x, y, z, L, m).reshape(np.shape(x))
        F.U = abs(g)
    elif k == 'svc_longi':
        F.args = dict(g=g, R=L, m=m)
        F.call = lambda x, y, z, g, R, m: VCS.svc_longi_u(x, y, z, gamma_l=g, R=R, m=m)
        F.dist = lambda x, y, z: ref.dist_cyl(x, y, z, L, m).reshape(np.shape(x))
        F.curl = lambda x, y, z: _ringend_curl(x, y, z, g, L)
        F.U = abs(g)
    elif k == 'svc_root':
        F.args = dict(g=g, m=m)
        F.lengths = []
        F.call = lambda x, y, z, g, m: VCS.svc_root_u(x, y, z, Gamma_r=g, m=m)
        F.dist = lambda x, y, z: _d_line(x, y, z, m) / L
        F.curl = lambda x, y, z: _lineend_curl(x, y, z, g)
        F.U = abs(g) / L
    elif k == 'svc_all':
        G = gen.strength(rng) * L
        g2 = gen.strength(rng)
        F.args = dict(gt=g, gl=g2, G=G, R=L, m=m)
        F.strengths = ['gt', 'gl', 'G']
        F.call = lambda x, y, z, gt, gl, G, R, m: VCS.svc_u_polar(np.sqrt(x ** 2 + y ** 2), np.arctan2(y, x), z, gt, gl, G, R=R, m=m)
        F.dist = lambda x, y, z: np.minimum(ref.dist_cyl(x, y, z, L, m).reshape(np.shape(x)), _d_line(x, y, z, m) / L)
        F.curl = lambda x, y, z: [a + b for a, b in zip(_lineend_curl(x, y, z, G), _ringend_curl(x, y, z, g2, L))]
        F.U = abs(g) + abs(g2) + abs(G) / L
    elif k == 'ring':
        F.args = dict(g=g, R=L)
        F.call = lambda x, y, z, g, R: VR.ring_u(x, y, z, Gamma=g, R=R, polar_out=False)
        F.dist = lambda x, y, z: np.hypot(np.hypot(x, y) - L, z) / L
        F.U = abs(g) / L
    elif k == 'ring_polar':
        z0 = rng.uniform(-2, 2) * L
        F.args = dict(g=g, R=L, z0=z0)
        F.lengths = ['R', 'z0']
        F.call = lambda x, y, z, g, R, z0: _polar(*(VR.ring_u_polar(np.sqrt(x ** 2 + y ** 2), z, Gamma=g, r0=R, z0=z0) + (x, y)))
        F.dist = lambda x, y, z: np.hypot(np.hypot(x, y) - L, z - z0) / L
        F.U = abs(g) / L
    elif k == 'rings':
        n = gen.count(rng, 4)
        G = np.array([gen.strength(rng) for _ in range(n)])
        R = rng.uniform(.3, 1, n) * L
        X, Y, Z = rng.uniform(-2, 2, (3, n)) * L
        F.args = dict(g=G, R=R, X=X, Y=Y, Z=Z)
        F.lengths = ['R', 'X', 'Y', 'Z']
        F.translate = ('X', 'Y', 'Z')
        F.call = lambda x, y, z, g, R, X, Y, Z: VR.rings_u(x, y, z, g, R, X, Y, Z, polar_out=False)
        F.dist = lambda x, y, z: np.min([np.hypot(np.hypot(x - a, y - b) - r, z - c) for r, a, b, c in zip(R, X, Y, Z)], axis=0) / L
        F.U = np.abs(G / R).sum()
    elif k == 'doublet':
        M = gen.unit(rng) * abs(g)
        x0 = rng.uniform(-2, 2, 3) * L
        F.args = dict(M=M, x0=x0)
        F.strengths, F.lengths = ['M'], ['x0']
        F.call = lambda x, y, z, M, x0: VD.doublet_u(x, y, z, M, x0)
        F.dist = lambda x, y, z: np.sqrt((x - x0[0]) ** 2 + (y - x0[1]) ** 2 + (z - x0[2]) ** 2) / L
        F.U = abs(g) / L ** 3
        F.near = lambda v, q: [a * q * L + b for a, b in zip(v, x0)]
    elif k == 'doublet_polar':
        z0 = float(rng.choice([0.0, rng.uniform(-2, 2) * L]))
        F.args = dict(g=g, z0=z0)
        F.lengths = ['z0']
        F.call = lambda x, y, z, g, z0: _polar(*(VD.doublet_u_polar(np.sqrt(x ** 2 + y ** 2), z, g, z0=z0) + (x, y)))
        F.dist = lambda x, y, z: np.sqrt(x ** 2 + y ** 2 + (z - z0) ** 2) / L
        F.U = abs(g) / L ** 3
        F.near = lambda v, q: [v[0] * q * L, v[1] * q * L, v[2] * q * L + z0]
    elif k == 'self_similar':
        F.args = dict(g=g, R=L)

        def ss(x, y, z, g, R):
            u = SS.ss_u(x, y, z, g, R=R)
            return 0 * u, 0 * u, u
        F.call = ss
        F.dist = lambda x, y, z: np.where(np.abs(z) > 1e-9 * L, 1.0, 0.0)      # discontinuous at the rotor plane
        F.U = abs(g)
        F.near = lambda v, q: [v[0] * 2 * L, v[1] * 2 * L, q * np.sign(v[2]) * L]
    elif k == 'vc_far':
        cut = float(rng.choice([6.0, rng.uniform(1.5, 9)]))
        F.args = dict(g=g, R=L)
        F.call = lambda x, y, z, g, R: VC.vc_tang_u_doublet(x, y, z, gamma_t=g, R=R, r_bar_Cut=cut, polar_out=False)
        F.dist = lambda x, y, z: np.minimum(_d_right(x, y, z, L) / L, np.abs(np.sqrt(x * x + y * y + z * z) / L - cut))     # jump where the models meet
        F.U = abs(g)
    elif k == 'points':
        nv = gen.count(rng, 4)
        G = np.array([gen.strength(rng) for _ in range(nv)])
        X, Y = rng.uniform(-2, 2, (2, nv)) * L
        S = gen.logu(rng, .02, 2, nv) * L
        mo, od = int(rng.integers(0, 3)), int(rng.choice([2, 4, 6, 8]))
        F.args = dict(g=G, X=X, Y=Y, S=S)
        F.lengths = ['X', 'Y', 'S']
        F.translate = ('X', 'Y')

        def vps(x, y, z, g, X, Y, S):
            U = VP.vps_u(np.column_stack((np.ravel(x), np.ravel(y))), np.column_stack((X, Y)), g, SmoothModel=mo, KernelOrder=od, SmoothParam=S)
            return U[:, 0].reshape(np.shape(x)), U[:, 1].reshape(np.shape(x)), 0 * x
        F.call = vps
        F.dist = lambda x, y, z: np.min([np.hypot(x - a, y - b) for a, b in zip(X, Y)], axis=0) / L
        F.U = np.abs(G).sum() / L
        F.near = lambda v, q: [v[0] * q * L + X[0], v[1] * q * L + Y[0], v[2]]
    elif k == 'doublet_line':
        F.args = dict(g=g)
        F.lengths = []
        F.call = lambda x, y, z, g: VD.doublet_line_u(x, y, z, g)
        F.dist = lambda x, y, z: _d_line(x, y, z, 0.0) / L
        F.U = abs(g) / L ** 2
    elif k == 'doublet_line_skew':
        F.args = dict(g=g, m=m)
        F.lengths = []
        F.call = lambda x, y, z, g, m: VD.doublet_line_u(x, y, z, g, m=m)
        F.dist = lambda x, y, z: np.hypot(y, (x - m * z) / np.sqrt(1 + m * m)) / L     # the extension is ill conditioned too
        F.U = abs(g) / L ** 2
    elif k == 'doublet_line_finite':
        ln = float(rng.uniform(.5, 4)) * L
        F.args = dict(g=g, m=m, L=ln)
        F.lengths = ['L']
        F.call = lambda x, y, z, g, m, L: VD.doublet_line_u(x, y, z, g, m=m, L=L)
        F.dist = lambda x, y, z: np.hypot(y, (x - m * z) / np.sqrt(1 + m * m)) / L
        F.U = abs(g) / L ** 2
    elif k in ('vcs_tang', 'vcs_longi', 'svcs_tang', 'svcs_longi'):
        nC, nr = gen.count(rng, 3, 7, .06), gen.count(rng, 2, 7, .06)
        G = np.array([gen.strength(rng) for _ in range(nC * nr)]).reshape(nC, nr)
        R = rng.uniform(.4, 1, (nC, nr)) * L
        X, Y, Z = rng.uniform(-2, 2, (3, nC)) * L
        Y = np.abs(Y)
        gr = bool(rng.random() < .4)
        F.args = dict(g=G, R=R, X=X, Y=Y, Z=Z)
        F.lengths = ['R', 'X', 'Y', 'Z']
        F.translate = ('X', 'Z') if gr else ('X', 'Y', 'Z')
        if k[0] == 's':
            mm = np.full((nC, nr), m)
            fn = VCS.svcs_tang_u if 'tang' in k else VCS.svcs_longi_u
            F.call = lambda x, y, z, g, R, X, Y, Z: fn(x, y, z, g, R, mm, X, Y, Z, Ground=gr)
        else:
            fn = VC.vcs_tang_u if 'tang' in k else VC.vcs_longi_u
            F.call = lambda x, y, z, g, R, X, Y, Z: fn(x, y, z, g, R, X, Y, Z, Ground=gr)
        ms = m if k[0] == 's' else 0.0

        def dist(x, y, z):
            d = np.full(np.shape(x), np.inf)
            for i in range(nC):
                for s in ((1, -1) if gr else (1,)):
                    for j in range(nr):
                        d = np.minimum(d, ref.dist_cyl(x - X[i], y - s * Y[i], z - Z[i], R[i, j], ms).reshape(np.shape(x)))
            return d
        F.dist = dist
        if 'longi' in k:
            def curl(x, y, z):
                c = [0.0, 0.0, 0.0]
                for i in range(nC):
                    for s in ((1, -1) if gr else (1,)):
                        for j in range(nr):
                            c = [p + q for p, q in zip(c, _ringend_curl(x - X[i], y - s * Y[i], z - Z[i], s * G[i, j], R[i, j]))]
                return c
            F.curl = curl
        F.U = np.abs(G).sum()
    else:
        raise KeyError(k)
    F.f = lambda x, y, z: F.call(x, y, z, **F.args)
    F.dmin = 0.25 if k in BOUND else 0.02
    if k in ('doublet', 'doublet_polar', 'points'):
        F.dmin = 4e-3
    if k.startswith('doublet_line_'):
        F.dmin = 0.1
    return F


def points(rng, F, n, lo=None, far=True):
    """n points, at least lo (default F.dmin) from the singular set"""
    lo = F.dmin if lo is None else lo
    N = 4 * n + 30
    P = rng.uniform(-3, 3, (3, N))
    k = rng.integers(0, 5, N)
    if far:
        v = rng.normal(size=(3, N))
        v /= np.linalg.norm(v, axis=0)
        P = np.where(k == 1, v * gen.logu(rng, 3, 40, N), P)
    P[:, :] = np.where(k == 2, P * np.array([[.4], [.4], [1]]), P)
    P *= F.L
    if F.near is not None:
        v = rng.normal(size=(3, N))
        v /= np.linalg.norm(v, axis=0)
        P = np.where(k == 3, F.near(v, gen.logu(rng, max(lo, 1e-8) * 1.01, max(lo, .3), N)), P)
    d = F.dist(*P)
    I = np.where(d > lo)[0][:n]
    return P[0, I], P[1, I], P[2, I], d[I]
