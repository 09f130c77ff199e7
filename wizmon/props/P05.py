"""Skewed semi-infinite cylinder of tangential vorticity."""
import numpy as np
from ..core import Family
from .. import gen, ref
from wiz import VortexCylinderSkewed as VCS, VortexCylinder as VC

RULE = ('skew tangents m of both signs from 1e-6 to 3, radii 1e-3..1e4, points at least 0.2R from the sheet (closer, down to 0.01R, with ntheta '
        'raised accordingly), on the axis, in the rotor plane, far up- and downstream; distinct = different (family, point kind, skew decade, signs)')
ASSUMPTIONS = ['reference: azimuthal quadrature of Biot-Savart over the half-lines of the sheet, resolution chosen from the distance to the sheet',
               'the default 180-point quadrature of the code is judged only beyond 0.2R from the sheet, where its own error is below the tolerance']


def cloud(rng, n, m, dmin=0.2):
    """points/R in the frame of the skewed cylinder, at least dmin from the sheet; kinds"""
    N = 3 * n + 20
    kind = rng.integers(0, 8, N)
    x, y, z = rng.uniform(-3, 3, N), rng.uniform(-3, 3, N), rng.uniform(-4, 6, N)
    r = rng.uniform(0, 0.75, N)
    psi = rng.uniform(-np.pi, np.pi, N)
    b = kind == 1                      # inside the wake, following the skewed axis
    z = np.where(b, gen.logu(rng, 1e-3, 30, N), z)
    x = np.where(b, m * z + r * np.cos(psi), x)
    y = np.where(b, r * np.sin(psi), y)
    b = kind == 2                      # exactly on the skewed axis
    x, y = np.where(b, m * z, x), np.where(b, 0.0, y)
    b = kind == 3                      # r=0: axis of the polar frame
    x, y = np.where(b, 0.0, x), np.where(b, 0.0, y)
    b = kind == 4                      # rotor plane
    z = np.where(b, 0.0, z)
    b = kind == 5                      # far field
    D = gen.logu(rng, 5, 300, N)
    v = rng.normal(size=(3, N))
    v /= np.linalg.norm(v, axis=0)
    x, y, z = (np.where(b, D * vv, w) for vv, w in zip(v, (x, y, z)))
    b = kind == 6                      # coordinate planes
    x = np.where(b & (psi > 0), 0.0, x)
    y = np.where(b & (psi <= 0), 0.0, y)
    b = kind == 7                      # upstream, near the rotor
    z = np.where(b, -gen.logu(rng, 0.05, 3, N), z)
    d = ref.dist_cyl(x, y, z, 1.0, m)
    I = np.where(d > dmin)[0][:n]
    return x[I], y[I], z[I], kind[I], d[I]


def draw_m(rng):
    k = rng.integers(0, 4)
    if k == 0:
        return gen.sgn(rng) * float(gen.logu(rng, 1e-6, 1e-1))
    if k == 1:
        return gen.sgn(rng) * float(rng.uniform(0.1, 1))
    if k == 2:
        return gen.sgn(rng) * float(rng.uniform(1, 3) if rng.random() < .9 else gen.logu(rng, 3, 60))
    return float(np.tan(gen.skew_angle(rng, hi=float(rng.choice([1.1, 1.1, 1.1, 1.47])))))


def fold(rng, *arrs):
    """same points, random array shape and memory layout"""
    n = len(arrs[0])
    k = rng.integers(0, 5)
    s = {0: (n,), 1: (n, 1), 2: (1, n), 3: (n,), 4: (n,)}[int(k)]
    if k >= 3 and n % 2 == 0:
        s = (2, n // 2)
    return [np.array(a.reshape(s), order='F' if k == 4 else 'C') for a in arrs]


def judge(ctx, fun, funp, quad, nm, m):
    rng = ctx.rng
    R, g = gen.scale(rng), gen.strength(rng)
    dmin, nth = 0.2, None
    if rng.random() < 0.3:
        dmin, nth = [(0.06, int(rng.integers(700, 1100))), (0.02, int(rng.integers(3000, 3700))), (0.7, int(rng.integers(60, 180)))][int(rng.choice(3, p=[.45, .25, .3]))]
    x, y, z, kind, d = cloud(rng, 25 if nth is None else 8, m, dmin)
    if len(x) == 0:
        return
    x, y, z = fold(rng, x, y, z)
    for k in np.unique(kind):
        ctx.sig(k, int(np.floor(np.log10(abs(m) + 1e-9))), m > 0, g > 0, nth and nth // 1000, x.ndim)
    ctx.note(m=m, R=R, g=g, ntheta=nth, x=x.ravel()[:3], y=y.ravel()[:3], z=z.ravel()[:3])
    kw = {} if nth is None else {'ntheta': nth}
    e = quad(x * R, y * R, z * R, g, R, m)
    # quadrature error of the code: exp(-N.d) on the largest values of the integrand
    t = 2e-8 * abs(g) * (1 + abs(m))
    pts = (x, y, z)
    u = fun(x * R, y * R, z * R, g, R, m, **kw)
    ctx.close3(nm + '_cartesian', u, e, t, 1.0, points=pts, m=m)
    psi = np.arctan2(y, x)
    up = fun(x * R, y * R, z * R, g, R, m, polar_out=True, **kw)
    ep = [e[0] * np.cos(psi) + e[1] * np.sin(psi), -e[0] * np.sin(psi) + e[1] * np.cos(psi), e[2]]
    ctx.close3(nm + '_polar', up, ep, t, 1.0, points=pts, m=m)
    r = np.sqrt(x ** 2 + y ** 2)
    u2 = funp(r * R, psi, z * R, g, R, m, **kw)
    ctx.close3(nm + '_polar_in', u2, e, t, 1.0, points=pts, m=m)


def f_values(ctx):
    judge(ctx, lambda x, y, z, g, R, m, **k: VCS.svc_tang_u(x, y, z, gamma_t=g, R=R, m=m, **k),
          lambda r, p, z, g, R, m, **k: VCS.svc_tang_u_polar(r, p, z, gamma_t=g, R=R, m=m, **k), ref.svc_tang_q, 'tang', draw_m(ctx.rng))


def f_zero_skew(ctx):
    """no skew: the right cylinder"""
    rng = ctx.rng
    R, g = gen.scale(rng), gen.strength(rng)
    m = 0.0 if rng.random() < .7 else gen.sgn(rng) * 1e-10
    x, y, z, kind, d = cloud(rng, 20, 0.0)
    ctx.sig(ctx.k % 60, g > 0, m != 0)
    a = VCS.svc_tang_u(x * R, y * R, z * R, gamma_t=g, R=R, m=m)
    b = VC.vc_tang_u(x * R, y * R, z * R, gamma_t=g, R=R, polar_out=False)
    ctx.close3('zero_skew=right_cylinder', a, b, 2e-7 * abs(g), 1.0, points=(x, y, z))


def f_sym(ctx):
    """m -> -m is a reflection x -> -x; y -> -y is a symmetry"""
    rng = ctx.rng
    R, g, m = gen.scale(rng), gen.strength(rng), draw_m(rng)
    x, y, z, kind, d = cloud(rng, 20, m)
    ctx.sig(ctx.k % 60, m > 0)
    f = lambda x, y, z, m: VCS.svc_tang_u(x * R, y * R, z * R, gamma_t=g, R=R, m=m)
    a, b, c = f(x, y, z, m), f(-x, y, z, -m), f(x, -y, z, m)
    t = 4e-8 * abs(g) * (1 + abs(m))
    ctx.close3('reflect_x', b, [-a[0], a[1], a[2]], t, 1.0, points=(x, y, z), m=m)
    ctx.close3('reflect_y', c, [a[0], -a[1], a[2]], t, 1.0, points=(x, y, z), m=m)


def f_far_wake(ctx):
    """inside, far downstream: gamma_t along the axis of the wake... only the axial jump is fixed by the sheet"""
    rng = ctx.rng
    R, g = gen.scale(rng), gen.strength(rng)
    m = draw_m(rng)
    n = 8
    z = gen.logu(rng, 2e3, 1e4, n)
    r, psi = rng.uniform(0, 0.7, n), rng.uniform(-np.pi, np.pi, n)
    x, y = m * z + r * np.cos(psi), r * np.sin(psi)
    d = ref.dist_cyl(x, y, z, 1.0, m)
    b = d > 0.2
    if not b.any():
        return
    ctx.sig(ctx.k % 60, m > 0)
    x, y, z = x[b], y[b], z[b]
    u = VCS.svc_tang_u(x * R, y * R, z * R, gamma_t=g, R=R, m=m)
    e = ref.svc_tang_q(x * R, y * R, z * R, g, R, m)
    ctx.close3('far_wake', u, e, 1e-6 * abs(g) * (1 + abs(m)), 1.0, points=(x, y, z), m=m)


def f_multi(ctx):
    """svcs_tang_u: superposition over rotors, concentric cylinders with their own skew, mirror images"""
    multi(ctx, VCS.svcs_tang_u, ref.svc_tang_q, 1.0)


def multi(ctx, fun, quad, mirror_sign):
    rng = ctx.rng
    nC, nr = gen.count(rng, 3, 8, .06), gen.count(rng, 3, 8, .06)
    L = gen.scale(rng)
    R = np.sort(rng.uniform(0.2, 1, (nC, nr)), axis=1)
    g = np.array([gen.strength(rng) for _ in range(nC * nr)]).reshape(nC, nr)
    if rng.random() < 0.3:
        g[rng.integers(0, nC), rng.integers(0, nr)] = 0.0
    m = np.array([draw_m(rng) for _ in range(nC * nr)]).reshape(nC, nr)
    if rng.random() < 0.5:
        m[:] = m[0, 0]
    X, Y, Z = gen.place(rng, nC, 3, 100), np.abs(gen.place(rng, nC, 3, 100)), gen.place(rng, nC, 3, 100)
    ground = bool(rng.random() < 0.5)
    n = 8
    i = int(rng.integers(0, nC))
    x, y, z = X[i] + rng.uniform(-5, 5, n), Y[i] * (rng.random() < .7) + rng.uniform(-4, 5, n), Z[i] + rng.uniform(-5, 5, n)
    ok = np.ones(n, bool)
    e = [np.zeros(n) for _ in range(3)]
    for i in range(nC):
        for s in ((1, -1) if ground else (1,)):
            for j in range(nr):
                dx, dy, dz = x - X[i], y - s * Y[i], z - Z[i]
                ok &= ref.dist_cyl(dx, dy, dz, R[i, j], m[i, j]) > 0.2
                sg = g[i, j] * (mirror_sign if s < 0 else 1)
                for q, v in zip(e, quad(dx, dy, dz, sg, R[i, j], m[i, j])):
                    q += v
    ctx.sig(nC, nr, ground, bool(np.ptp(m) > 0))
    ctx.note(nCyl=nC, nr=nr, ground=ground, m=m, g=g, R=R, X=X, Y=Y, Z=Z, L=L)
    if not ok.any():
        return
    u = fun(x * L, y * L, z * L, g, R * L, m, X * L, Y * L, Z * L, Ground=ground)
    ctx.close3('superposition', u, e, 4e-7 * np.abs(g).sum() * (1 + np.abs(m).max()), 1.0, mask=ok, points=(x, y, z))


FAMILIES = [Family('values', f_values, 500, 15000), Family('zero_skew', f_zero_skew, 120, 2000), Family('symmetry', f_sym, 120, 2000),
            Family('far_wake', f_far_wake, 60, 1000), Family('multi', f_multi, 120, 3000)]
QUICK = 15        # cheap: more cases in the quick run
