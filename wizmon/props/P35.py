"""The vortex elements agree with each other where they describe the same vorticity (only functions of wiz, no reference solution)."""
import numpy as np
from ..core import Family
from .. import gen, ref, turb
from wiz import VortexCylinder as VC, VortexCylinderSkewed as VCS, VortexRing as VR, VortexDoublet as VD, VortexLine as VL, VortexPoint as VP, SelfSimilar as SS

RULE = ('cylinders of any radius, skew (0, small, up to 1.5), strength; points at 0.25R or more from the sheet on every side, up to 30R away; '
        'distinct = different (family, element pair, skew class, region)')
ASSUMPTIONS = ['sums and integrals over elements use Gauss-Legendre or periodic trapezes with enough nodes for points 0.25R away from every element',
               'far-wake comparisons with the 2D points: the start of the wake is 1e3-1e5 R upstream and contributes (R/z)^2 or less']
PI = np.pi
GL = {n: np.polynomial.legendre.leggauss(n) for n in (16, 24)}


def skew(rng):
    k = rng.integers(0, 4)
    return 0.0 if k == 0 else float(gen.sgn(rng) * (gen.logu(rng, 1e-3, .1) if k == 1 else rng.uniform(.1, 1.5)))


def mclass(m):
    return 0 if m == 0 else int(np.sign(m)) * (1 if abs(m) < .1 else 2)


def radius(rng):
    return float(rng.choice([1.0, rng.uniform(.5, 3), rng.uniform(20, 120)]))


def cloud(rng, n, R, m, z2=None, dmin=.25, out=False):
    """points around a (finite) skewed cylinder; out: outside of its body only"""
    N = 6 * n + 60
    P = rng.uniform(-3, 3, (3, N))
    k = rng.integers(0, 5, N)
    v = rng.normal(size=(3, N))
    v /= np.linalg.norm(v, axis=0)
    P = np.where(k == 0, v * gen.logu(rng, 2.5, 30, N), P)
    P[2] = np.where((k == 1) & (z2 is not None), P[2] + (z2 or 0) / R, P[2])
    s = np.clip(P[2], 0, np.inf if z2 is None else z2 / R)
    near = rng.random(N) < .12                            # next to the axis
    f = np.where(near, gen.logu(rng, 1e-5, 1e-2, N), 1.0)
    P[:2] = P[:2] * f
    k = np.where(near, 4, k)
    P[0] = np.where(k >= 2, P[0] + m * s, P[0])          # around the skewed axis
    P = np.where(k == 3, P * np.array([[.5], [.5], [1]]) + np.array([[.5], [0], [0]]) * m * s, P)
    d = ref.dist_cyl(P[0], P[1], P[2], 1.0, m)
    if z2 is not None:                                    # distance to rings s in [0,z2]
        S = np.linspace(0, z2 / R, 200)[:, None]
        h = np.hypot(np.hypot(P[0] - m * S, P[1]) - 1, P[2] - S)
        d = h.min(0)
        if out:
            inside = (np.hypot(P[0] - m * P[2], P[1]) < 1) & (P[2] > 0) & (P[2] < z2 / R)
            d = np.where(inside, 0, d)
            dd = np.hypot(np.maximum(np.hypot(P[0] - m * S, P[1]) - 1, 0), P[2] - S).min(0)
            d = np.minimum(d, dd)
    elif out:
        d = np.where((np.hypot(P[0] - m * P[2], P[1]) < 1) & (P[2] > 0), 0, d)
        d = np.minimum(d, np.where(np.hypot(P[0], P[1]) < 1, np.abs(P[2]), np.inf))
    I = np.where(d > dmin)[0][:n]
    return P[:, I] * R, d[I]


def region(P, R, m):
    r = np.hypot(P[0] - m * np.maximum(P[2], 0), P[1]) / R
    return set((int(a), int(b)) for a, b in zip((r < 1) + 2 * (r > 5), np.sign(P[2]) * (np.abs(P[2]) > 3 * R)))


def sig(ctx, name, P, R, m):
    for r in region(P, R, m):
        ctx.sig(name, mclass(m), r)


def tang(P, g, R, m, rng=None):
    """semi-infinite tangential cylinder; straight ones through either module"""
    if m == 0 and (rng is None or rng.random() < .7):
        return np.array(VC.vc_tang_u(P[0], P[1], P[2], gamma_t=g, R=R, polar_out=False))
    nt = {} if rng is None or rng.random() < .5 else dict(ntheta=int(rng.integers(180, 800)))
    return np.array(VCS.svc_tang_u(P[0], P[1], P[2], gamma_t=g, R=R, m=m, **nt))


def f_rings(ctx):
    """a cylinder of tangential vorticity is a stack of vortex rings, straight or skewed"""
    rng = ctx.rng
    R, g, m = radius(rng), gen.strength(rng), skew(rng)
    z2 = float(R * rng.choice([rng.uniform(.2, 6), gen.logu(rng, .01, .2)]))
    P, d = cloud(rng, 10, R, m, z2)
    c = np.sqrt(1 + m * m)
    nP = int(max(1, np.ceil(z2 / R / .25)))
    x, w = GL[16]
    e = np.linspace(0, z2, nP + 1)
    zq = ((e[1:] + e[:-1])[:, None] / 2 + (e[1:] - e[:-1])[:, None] / 2 * x).ravel()
    wq = np.repeat((e[1:] - e[:-1]) / 2, 16) * np.tile(w, nP)
    q = np.array(VR.rings_u(P[0], P[1], P[2], g * c * wq, np.full(zq.size, R), m * zq, 0 * zq, zq, polar_out=False))
    S = P - np.array([[m * z2], [0], [z2]])
    if m == 0 and rng.random() < .6:
        u = np.array(VC.cylinder_tang_u(P[0], P[1], P[2], gamma_t=g, R=R, z1=0, z2=z2, polar_out=False))
        how = 'finite'
    else:
        u = tang(P, g, R, m, rng) - tang(S, g, R, m, rng)
        how = 'difference'
    # in between, the two semi-infinite sheets overlap: points near the prolongation of the finite sheet are only resolved by the closed forms
    far = np.minimum(ref.dist_cyl(*(list(P / R) + [1.0, m])), ref.dist_cyl(*(list(S / R) + [1.0, m])))
    far = np.ones_like(d, bool) if m == 0 and how == 'finite' else far > .25
    sig(ctx, 'rings|' + how, P, R, m)
    ctx.note(R=R, g=g, m=m, z2=z2)
    t = 1e-8 * abs(g) * c * (1 + 1 / d) if how == 'finite' else 3e-8 * abs(g) * c * (1 + 1 / d)
    if far.any():
        ctx.close3('cylinder_is_stack_of_rings', u[:, far], q[:, far], 1.0, t[far], points=P[:, far], m=m, how=how)


def f_lines(ctx):
    """a cylinder of longitudinal vorticity is a bundle of half lines, the root vortex is one of them"""
    rng = ctx.rng
    R, g, m = radius(rng), gen.strength(rng), skew(rng)
    P, d = cloud(rng, 4, R, m)
    c = np.sqrt(1 + m * m)
    N = 180
    th = np.arange(N) * 2 * PI / N + rng.uniform(0, 1)
    q = np.zeros(P.shape)
    for t in th:
        for j in range(P.shape[1]):
            q[:, j] += np.ravel(VL.vl_semiinf_u(P[0, j] - R * np.cos(t), P[1, j] - R * np.sin(t), P[2, j], m / c, 0.0, 1 / c, g * 2 * PI * R / N, 0, 0))
    if m == 0 and rng.random() < .5:
        u = np.array(VC.vc_longi_u(P[0], P[1], P[2], gamma_l=g, R=R))
    else:
        nt = {} if rng.random() < .5 else dict(ntheta=int(rng.integers(180, 800)))
        u = np.array(VCS.svc_longi_u(P[0], P[1], P[2], gamma_l=g, R=R, m=m, **nt))
    sig(ctx, 'lines', P, R, m)
    ctx.note(R=R, g=g, m=m)
    ctx.close3('longitudinal_is_bundle_of_lines', u, q, 1e-7, abs(g) * (1 + 1 / d), points=P, m=m)
    G = g * R
    r = np.sqrt((P[0] - m * P[2]) ** 2 / c ** 2 + P[1] ** 2)
    ok = r > .1 * R
    q = np.array([np.ravel(VL.vl_semiinf_u(p[0], p[1], p[2], m / c, 0.0, 1 / c, G, 0, 0)) for p in P.T]).T.reshape(3, -1)
    u = np.array(VCS.svc_root_u(P[0], P[1], P[2], Gamma_r=G, m=m))
    ctx.close3('root_is_half_line', u[:, ok], q[:, ok], 1e-7, abs(G) / r[ok] * (1 + 1e-3 * (P[2] / r)[ok] ** 2), points=P[:, ok], m=m)
    if m == 0:
        for f in (VC.vc_root_u, VL.vl_semiinf_straight_u):
            ctx.close3('root_is_half_line', np.array(f(P[0], P[1], P[2], Gamma_r=G))[:, ok], q[:, ok], 1e-7, abs(G) / r[ok] * (1 + 1e-3 * (P[2] / r)[ok] ** 2))


def disk(rng, R, nr=16, nt=48):
    x, w = GL[nr]
    r, wr = R * (x + 1) / 2, R * w / 2
    th = np.arange(nt) * 2 * PI / nt + rng.uniform(0, 1)
    A = (wr * r)[:, None] * np.full(nt, 2 * PI / nt)
    return np.outer(r, np.cos(th)).ravel(), np.outer(r, np.sin(th)).ravel(), A.ravel()


def f_doublets(ctx):
    """a ring is a disk of doublets, a wake seen from outside a bundle of doublet lines, a doublet line an integral of doublets"""
    rng = ctx.rng
    R, g, m = radius(rng), gen.strength(rng), skew(rng)
    c = np.sqrt(1 + m * m)
    a, b, A = disk(rng, R)
    which = ctx.k % 3
    if which == 0:
        P, _ = cloud(rng, 8, R, 0.0, 1e-6 * R, .35, True)
        q = np.zeros(P.shape)
        for i in range(a.size):
            q += np.array(VD.doublet_u(P[0], P[1], P[2], [0, 0, g * A[i]], [a[i], b[i], 0]))
        u = np.array(VR.ring_u(P[0], P[1], P[2], Gamma=g, R=R, polar_out=False))
        m = 0.0
        ctx.close3('ring_is_disk_of_doublets', u * R, q * R, 2e-5, abs(g), points=P)
    else:
        L = np.inf if which == 1 else float(R * rng.uniform(.5, 5))
        P, d = cloud(rng, 6, R, m, None if which == 1 else L, .4, True)
        far = np.ones(P.shape[1], bool)
        q = np.zeros(P.shape)
        for i in range(a.size):
            q += np.array(VD.doublet_line_u(P[0] - a[i], P[1] - b[i], P[2], g * A[i] * c, m=m, L=L))
            if m != 0 or which == 2:                       # the closed form loses digits near the prolongation of the line
                D = np.sqrt((P[0] - a[i]) ** 2 + (P[1] - b[i]) ** 2 + P[2] ** 2)
                h = np.hypot((P[0] - a[i] - m * P[2]) / c, P[1] - b[i])
                far &= h > 2e-2 * D
        if which == 1:
            u = tang(P, g, R, m, rng)
        else:
            S = P - np.array([[m * L], [0], [L]])
            u = tang(P, g, R, m) - tang(S, g, R, m)
            if m != 0:
                far &= np.minimum(ref.dist_cyl(*(list(P / R) + [1.0, m])), ref.dist_cyl(*(list(S / R) + [1.0, m]))) > .25
        if far.any():
            ctx.close3('wake_outside_is_bundle_of_doublet_lines', u[:, far], q[:, far], 3e-5, abs(g) * c, points=P[:, far], m=m, L=L)
    sig(ctx, 'disk%d' % which, P, R, m)
    ctx.note(R=R, g=g, m=m)
    # a finite doublet line is an integral of doublets
    L = float(R * rng.uniform(.3, 4))
    P = rng.uniform(-2, 3, (3, 8)) * R
    r = np.hypot(P[0] - m * P[2], P[1]) / c
    P, r = P[:, r > .3 * R], r[r > .3 * R]
    x, w = GL[24]
    nP = 8
    e = np.linspace(0, L, nP + 1)
    q = np.zeros(P.shape)
    for p in range(nP):
        for xx, ww in zip(x, w):
            s = (e[p] + e[p + 1]) / 2 + (e[p + 1] - e[p]) / 2 * xx
            q += np.array(VD.doublet_u(P[0], P[1], P[2], [0, 0, g * ww * L / nP / 2], [m * s, 0, s]))
    u = np.array(VD.doublet_line_u(P[0], P[1], P[2], g, m=m, L=L))
    ctx.close3('doublet_line_is_integral_of_doublets', u, q, 1e-7, abs(g) / r ** 2, points=P, m=m, L=L)
    if m == 0:
        up = VD.doublet_line_polar_u(np.hypot(P[0], P[1]), P[2], g)
        v = np.array(VD.doublet_line_u(P[0], P[1], P[2], g))
        w2 = np.array(VD.doublet_line_u(P[0], P[1], P[2] - L, g))
        ctx.close3('doublet_lines_add_up', u + w2, v, 1e-7, abs(g) / r ** 2, L=L)
        ctx.close('doublet_line_polar', np.hypot(up[0], 0) ** 2 + up[1] ** 2, (v ** 2).sum(0), 1e-9, (abs(g) / r ** 2) ** 2)


def f_farwake(ctx):
    """far downstream a wake is two-dimensional: vortex points on the (elliptic) cross section"""
    rng = ctx.rng
    R, m = radius(rng), skew(rng)
    gt, gl, Gr = gen.strength(rng), gen.strength(rng), gen.strength(rng) * R
    c = np.sqrt(1 + m * m)
    N = 180
    n = 6
    # positions in the plane normal to the wake axis
    k = rng.integers(0, 3, n)
    p = rng.uniform(-PI, PI, n)
    rr = np.where(k == 0, rng.uniform(.05, .65, n), rng.uniform(1.35, 4, n)) * R
    y = np.array([rr * np.cos(p) / c, rr * np.sin(p)])
    Z = R * gen.logu(rng, 1e3, 1e4)
    e, e1, e2 = np.array([m, 0, 1]) / c, np.array([1, 0, -m]) / c, np.array([0, 1.0, 0])
    P = np.outer(e, np.full(n, Z)) + np.outer(e1, y[0]) + np.outer(e2, y[1])
    th = (np.arange(N) + rng.uniform(0, 1)) * 2 * PI / N
    XV = np.array([R * np.cos(th) / c, R * np.sin(th)]).T
    inside = (y[0] * c) ** 2 + y[1] ** 2 < R ** 2
    ctx.sig('farwake', mclass(m), inside.any(), (~inside).any())
    ctx.note(R=R, m=m, gt=gt, gl=gl, Gr=Gr, Z=Z)
    d2 = 3 * (R / Z) * (1 + 0 * y[0])                       # dipole/source-like start of the wake
    def comp(u):
        return np.array([e1.dot(u), e2.dot(u), e.dot(u)])
    # tangential: the component of the vorticity along the axis drives the curled wake
    u = comp(tang(P, gt, R, m, rng))
    G = -gt * R * m * np.sin(th) / c * 2 * PI / N
    v = VP.vps_u(y.T, XV, G).T
    ctx.close3('curled_wake_of_tangential', u, np.array([v[0], v[1], np.where(inside, gt, 0.0)]), 1.0, abs(gt) * (1e-6 + d2 * R / Z), points=y, m=m)
    if m != 0:                                             # known closed form of the ellipse: uniform inside
        ctx.check('curled_wake_uniform_inside', inside.sum() < 2 or np.ptp(u[0][inside]) + np.ptp(u[1][inside]) <= abs(gt) * 4 * (1e-6 + d2[0] * R / Z), got=u[:2])
    # longitudinal
    f = (lambda *a: VC.vc_longi_u(*a, gamma_l=gl, R=R)) if m == 0 and rng.random() < .5 else (lambda *a: VCS.svc_longi_u(*a, gamma_l=gl, R=R, m=m))
    u = comp(np.array(f(P[0], P[1], P[2])))
    v = VP.vps_u(y.T, XV, np.full(N, gl * 2 * PI * R / N)).T
    ctx.close3('far_longitudinal_is_points', u, np.array([v[0], v[1], 0 * v[0]]), 1.0, abs(gl) * (1e-6 + d2 * (1 + rr / R)), points=y, m=m)
    # root
    f = VC.vc_root_u(P[0], P[1], P[2], Gamma_r=Gr) if m == 0 and rng.random() < .5 else VCS.svc_root_u(P[0], P[1], P[2], Gamma_r=Gr, m=m)
    u = comp(np.array(f))
    v = np.array([VP.vp_u(q, np.zeros(2), Gr) for q in y.T]).T
    ctx.close3('far_root_is_point', u, np.array([v[0], v[1], 0 * v[0]]), 1.0, abs(Gr) / np.hypot(*y) * (1e-6 + 4 * (rr / Z) ** 2 + 1e-15 * (Z / np.hypot(*y)) ** 2), points=y, m=m)


def f_turbine(ctx):
    """a skewed turbine far downstream against 2D points (the curled wake), for any frame, with rotor plane following the wake centre"""
    rng = ctx.rng
    c = turb.draw(rng, Model='VC', chi=float(gen.skew_angle(rng, 1e-2, .8)), ground=False, height=0.0)
    W = turb.build(c)
    g, Rs = np.ravel(W.gamma_t), np.ravel(turb.radii(W))
    if not np.any(g):
        return
    m = np.tan(turb.chi_of(c))
    cc = np.sqrt(1 + m * m)
    n = 4
    R = Rs.max()
    p = rng.uniform(-PI, PI, n)
    rr = rng.uniform(1.35, 4, n) * R
    y = np.array([rr * np.cos(p) / cc, rr * np.sin(p)])
    Z = R * gen.logu(rng, 1e3, 1e4)
    e, e1, e2 = np.array([m, 0, 1]) / cc, np.array([1, 0, -m]) / cc, np.array([0, 1.0, 0])
    P = np.outer(e, np.full(n, Z)) + np.outer(e1, y[0]) + np.outer(e2, y[1])
    X = turb.to_global(c, P)
    u = turb.axes(c).dot(np.array(W.compute_u(X[0], X[1], X[2], only_ind=True)))
    u = np.array([e1.dot(u), e2.dot(u), e.dot(u)])
    N = 180
    th = np.arange(N) * 2 * PI / N
    v = np.zeros((2, n))
    for gi, Ri in zip(g, Rs):
        XV = np.array([Ri * np.cos(th) / cc, Ri * np.sin(th)]).T
        v += VP.vps_u(y.T, XV, -gi * Ri * m * np.sin(th) / cc * 2 * PI / N).T
    turb.note(ctx, c)
    ctx.sig('turbine', turb.chi_class(turb.chi_of(c)), g.size)
    U = np.abs(g).sum()
    ctx.close3('curled_wake_of_turbine', u, np.array([v[0], v[1], 0 * v[0]]), 1.0, U * (1e-6 + 3 * (R / Z) ** 2), points=y)


def f_limits(ctx):
    """elements tend to each other: thin cylinder, small ring, distant cylinder, straight limit of the skewed ones, axis of the self-similar model"""
    rng = ctx.rng
    R, g = radius(rng), gen.strength(rng)
    P, d = cloud(rng, 10, R, 0.0, 1e-6 * R, .2)
    ctx.sig('limits', int(ctx.k % 5))
    ctx.note(R=R, g=g)
    # thin cylinder -> ring
    h = R * gen.logu(rng, 1e-4, 1e-2)
    u = np.array(VC.cylinder_tang_u(P[0], P[1], P[2], gamma_t=g, R=R, z1=-h / 2, z2=h / 2, polar_out=False)) / h
    q = np.array(VR.ring_u(P[0], P[1], P[2], Gamma=g, R=R, polar_out=False))
    ctx.close3('thin_cylinder_is_ring', u, q, 1.0, abs(g) / R * ((h / R / d) ** 2 / d + 1e-9 * R / h), points=P)
    # small or distant ring -> doublet
    D = gen.logu(rng, 8, 1e3, 10)
    V = rng.normal(size=(3, 10))
    V *= D * R / np.linalg.norm(V, axis=0)
    M = g * PI * R ** 2
    s = 1.0 if D.min() * R > 1 else 3.0
    q = np.array(VD.doublet_u(V[0] * s / R, V[1] * s / R, V[2] * s / R, [0, 0, M])) * (s / R) ** 3
    u = np.array(VR.ring_u(V[0], V[1], V[2], Gamma=g, R=R, polar_out=False))
    n = np.sqrt((q ** 2).sum(0))
    ctx.close3('distant_ring_is_doublet', u, q, 1.0, n * (6 / D ** 2 + 1e-8 * D), points=V)
    ur, uz = VD.doublet_u_polar(np.hypot(V[0], V[1]) * s / R, V[2] * s / R, M)
    vr, vz = VR.ring_u_polar(np.hypot(V[0], V[1]), V[2], Gamma=g, r0=R)
    ctx.close('distant_ring_is_doublet', np.array([vr, vz]), np.array([ur, uz]) * (s / R) ** 3, 1.0, n * (6 / D ** 2 + 1e-8 * D))
    # skewed kernels without skew, and with little of it
    P, d = cloud(rng, 8, R, 0.0)
    G = g * R
    pairs = [(VC.vc_tang_u, VCS.svc_tang_u, 'gamma_t', g, dict(R=R), dict(R=R, polar_out=False)), (VC.vc_longi_u, VCS.svc_longi_u, 'gamma_l', g, dict(R=R), dict(R=R)), (VC.vc_root_u, VCS.svc_root_u, 'Gamma_r', G, {}, {})]
    a, b, nm, val, kw, kwa = pairs[ctx.k % 3]
    m = float(rng.choice([0.0, 1e-7, -1e-7]))
    if nm == 'Gamma_r':
        r = np.hypot(P[0], P[1])
        P, r = P[:, r > .1 * R], r[r > .1 * R]
        d = r / R
    u = np.array(b(P[0], P[1], P[2], m=m, **dict(kw, **{nm: val})))
    q = np.array(a(P[0], P[1], P[2], **dict(kwa, **{nm: val})))
    t = abs(g) * (1e-7 + abs(m) * 50) * (1 + np.abs(P).max(0) / R) * (1 + 1 / d ** 2)
    ctx.close3('skewed_tends_to_straight', u, q, 1.0, t, points=P, m=m, kernel=nm)
    # self-similar model on the axis
    z = -R * gen.logu(rng, 1e-3, 50, 6)
    o = np.zeros(6)
    us = np.ravel(SS.ss_u(o, o, z, gamma_t=g, R=R))[-6:]
    ctx.close('self_similar_axis', us, np.array(VC.vc_tang_u(o, o, z, gamma_t=g, R=R, polar_out=False))[2], 1e-9, abs(g))
    # a very long solenoid is a semi-infinite cylinder
    L = R * gen.logu(rng, 1e4, 1e6)
    u = np.array(VC.cylinder_tang_u(P[0], P[1], P[2], gamma_t=g, R=R, z1=0, z2=L, polar_out=False))
    q = np.array(VC.vc_tang_u(P[0], P[1], P[2], gamma_t=g, R=R, polar_out=False))
    far = np.abs(P).max(0) < .1 * L
    ctx.close3('long_solenoid_is_semi_infinite', u[:, far], q[:, far], 1e-8 + (R / L) ** 2 + 1e-15 * L / np.hypot(P[0], P[1])[far].clip(1e-9 * R), abs(g) * (1 + 1 / ref.dist_cyl(P[0] / R, P[1] / R, P[2] / R, 1.0, 0.0)[far]), points=P[:, far])


def f_sums(ctx):
    """the functions for several elements are the sum of the functions for one (ground: plus their mirror images)"""
    rng = ctx.rng
    nC, nr = gen.count(rng, 3, 8, .06), gen.count(rng, 3, 8, .06)
    R = rng.uniform(.3, 2, (nC, nr))
    g = np.array([gen.strength(rng) for _ in range(nC * nr)]).reshape(nC, nr)
    X, Y, Z = rng.uniform(-4, 4, (3, nC))
    Y = np.abs(Y)
    gr = bool(rng.random() < .5)
    m = skew(rng)
    P = rng.uniform(-5, 5, (3, 14))
    longi = bool(rng.random() < .5)
    sk = bool(rng.random() < .6)
    if not sk:
        m = 0.0
    one = (lambda p, G, r: VCS.svc_longi_u(p[0], p[1], p[2], gamma_l=G, R=r, m=m) if longi else VCS.svc_tang_u(p[0], p[1], p[2], gamma_t=G, R=r, m=m)) if sk else \
        (lambda p, G, r: VC.vc_longi_u(p[0], p[1], p[2], gamma_l=G, R=r) if longi else VC.vc_tang_u(p[0], p[1], p[2], gamma_t=G, R=r, polar_out=False))
    q = np.zeros(P.shape)
    d = np.full(P.shape[1], 9.0)
    for i in range(nC):
        for j in range(nr):
            for s in ((1, -1) if gr else (1,)):
                p = P - np.array([[X[i]], [s * Y[i]], [Z[i]]])
                q += np.array(one(p, g[i, j] * (s if longi else 1), R[i, j]))
                d = np.minimum(d, ref.dist_cyl(p[0], p[1], p[2], R[i, j], m))
    ok = d > 1e-3
    if sk:
        f = VCS.svcs_longi_u if longi else VCS.svcs_tang_u
        u = np.array(f(P[0], P[1], P[2], g, R, np.full((nC, nr), m), X, Y, Z, Ground=gr))
    else:
        f = VC.vcs_longi_u if longi else VC.vcs_tang_u
        u = np.array(f(P[0], P[1], P[2], g, R, X, Y, Z, Ground=gr))
    ctx.sig('sums', longi, sk, gr, nC, nr, mclass(m))
    ctx.note(R=R, g=g, m=m, X=X, Y=Y, Z=Z, ground=gr)
    ctx.close3('superposition', u[:, ok], q[:, ok], 1e-11, (np.abs(q).max(0) + np.abs(g).sum())[ok], points=P[:, ok], longi=longi, ground=gr)


FAMILIES = [Family('rings', f_rings, 300, 6000), Family('lines', f_lines, 120, 2500), Family('doublets', f_doublets, 150, 3000), Family('farwake', f_farwake, 200, 4000),
            Family('turbine', f_turbine, 100, 2000), Family('limits', f_limits, 300, 6000), Family('sums', f_sums, 200, 4000)]
