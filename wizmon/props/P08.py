"""Point doublets and doublet lines."""
import numpy as np
from ..core import Family
from .. import gen, ref
from wiz import VortexDoublet as VD

RULE = ('doublets of any orientation, strength and position; lines straight and skewed (m to 2), semi-infinite and finite (length 0.1..1e3), points from 0.02 to '
        '1e3 away on all sides, exactly on the line and on its upstream extension; distinct = different (family, kind, skew, length, sign)')
ASSUMPTIONS = ['reference: closed-form doublet; doublet lines by Gauss quadrature of doublets after a sinh change of variable',
               'general (skewed or finite) lines: points at a relative distance below 0.02 of the line or its extension, and configurations much smaller than 1 '
               '(the code uses absolute thresholds 1e-8), are not judged',
               'point doublet: distances below 2.2e-3 (absolute cut-off of the code) are only required to be finite']


def f_point(ctx):
    rng = ctx.rng
    shp = gen.shaped(rng)
    L = float(rng.choice([1.0, rng.uniform(1, 100), gen.logu(rng, 1, 1e4)]))
    x0 = [0, 0, 0] if rng.random() < .3 else (rng.uniform(-3, 3, 3) * L).tolist()
    M = gen.unit(rng) * gen.strength(rng)
    if rng.random() < .3:
        M = np.array([0, 0, gen.strength(rng)])
    if rng.random() < .4:        # components along the coordinate axes or in the coordinate planes, of both signs
        M = np.where(rng.random(3) < .5, 0.0, M) + np.array([0, 0, 0.0])
        if not np.any(M):
            M[rng.integers(0, 3)] = gen.strength(rng)
        M = np.array([gen.sgn(rng) * v for v in M])
    d = gen.logu(rng, 3e-3 / L, 100, int(np.prod(shp))).reshape(shp) * L
    v = rng.normal(size=(3,) + shp)
    v /= np.linalg.norm(v, axis=0)
    DX, DY, DZ = v * d
    ctx.sig(len(shp), x0 == [0, 0, 0], ctx.k % 20)
    ctx.note(m=M, x0=x0, shape=shp)
    x, y, z = DX + x0[0], DY + x0[1], DZ + x0[2]
    DX, DY, DZ = x - x0[0], y - x0[1], z - x0[2]
    d = np.sqrt(DX ** 2 + DY ** 2 + DZ ** 2)
    e = ref.doublet(DX, DY, DZ, *M)
    t = np.linalg.norm(M) / d ** 3 * 1e-10
    u = VD.doublet_u(x, y, z, M, x0)
    ctx.close3('doublet', u, e, 1, t, mask=d > 2.5e-3, points=(DX, DY, DZ))
    # singular point: no velocity, no NaN
    s = VD.doublet_u(np.array([x0[0], x0[0] + L]), np.array([x0[1]] * 2), np.array([x0[2]] * 2), M, x0)
    ctx.finite('singular_point_finite', s)
    ctx.close('at_the_doublet', [c[0] for c in s], [0.0] * 3, 1e-14, 1.0)
    if rng.random() < .5:
        rr = np.hypot(DX, DY)
        mz = gen.strength(rng)
        ur, uz = VD.doublet_u_polar(rr, z, mz, z0=x0[2])
        ep = ref.doublet(rr, 0 * rr, DZ, 0.0, 0.0, mz)
        t = abs(mz) / d ** 3 * 1e-10
        ctx.close('doublet_polar_r', ur, ep[0], 1, t, mask=d > 2.5e-3)
        ctx.close('doublet_polar_z', uz, ep[2], 1, t, mask=d > 2.5e-3)


def f_straight(ctx):
    """semi-infinite straight line: a point sink at its origin"""
    rng = ctx.rng
    shp = gen.shaped(rng)
    n = int(np.prod(shp))
    L = float(rng.choice([1.0, 50.0, gen.logu(rng, 1e-2, 1e4)]))
    dm = gen.strength(rng)
    r = gen.logu(rng, float(rng.choice([1e-5, 1e-7])), 1e2, n)
    z = np.where(rng.random(n) < .5, gen.slog(rng, 1e-3, float(rng.choice([1e3, 1e5])), n), rng.uniform(-3, 3, n))
    k = rng.integers(0, 5, n)
    r = np.where(k == 0, 0.0, r)
    z = np.where(k == 1, 0.0, z)
    z = np.where(k == 2, gen.slog(rng, 1e-8, 1e-2, n), z)
    z = np.where((k == 0) & (z == 0), -1.0, z)
    r, z = (r * L).reshape(shp), (z * L).reshape(shp)
    ctx.sig(len(shp), dm > 0, int(np.log10(L)))
    ctx.note(dm=dm, L=L, shape=shp)
    ok = (r > 2e-8) | (z < -2e-8)
    ok &= (r == 0) | (r > 2e-8)
    ok &= (z == 0) | (np.abs(z) > 2e-8)
    d = np.hypot(r, z)
    e = ref.doublet_line_straight(r, 0 * r, z, dm)
    t = abs(dm) / d ** 2 * 1e-12
    ur, uz = VD.doublet_line_polar_u(r, z, dm)
    ctx.close('line_polar_r', ur, e[0], 1, t, mask=ok, points=(r, z))
    ctx.close('line_polar_z', uz, e[2], 1, t, mask=ok, points=(r, z))
    on = (r == 0) & (z >= 0)
    ctx.close('on_the_line', np.where(on, uz, 0), 0 * uz, 1e-14, 1.0)
    p = rng.uniform(-np.pi, np.pi, shp)
    x, y = r * np.cos(p), r * np.sin(p)
    u = VD.doublet_line_u(x, y, z, dm)
    ctx.close3('line_cartesian', u, [e[0] * np.cos(p), e[0] * np.sin(p), e[2]], 1, t, mask=ok, points=(x, y, z))
    ctx.finite('finite', u)


def line_points(rng, n, m, Lm):
    """points around the line x=m z: near it, near its ends, upstream, away"""
    k = rng.integers(0, 6, n)
    s = rng.uniform(-2, 6, n)
    s = np.where(k == 1, rng.uniform(-.5, .5, n), s)
    s = np.where((k == 2) & np.isfinite(Lm), (Lm if np.isfinite(Lm) else 0) + rng.uniform(-1, 1, n), s)
    s = np.where(k == 3, -gen.logu(rng, .1, 100, n), s)
    h = gen.logu(rng, 0.05, 10, n)
    if np.isfinite(Lm) and rng.random() < .3:         # far from a short line
        h = h * 10 * Lm
    h = np.where(k == 4, h * 20, h)
    p = rng.uniform(-np.pi, np.pi, n)
    x, y, z = m * s + h * np.cos(p), h * np.sin(p), s
    x = np.where(k == 5, rng.uniform(-3, 3, n), x)
    y = np.where(k == 5, 0.0, y)
    return x, y, z, k


def f_line(ctx):
    """skewed or finite line"""
    rng = ctx.rng
    n = 30
    m = float(rng.choice([0.0, rng.uniform(-2, 2), gen.slog(rng, 1e-4, 1e-1, 1)[0]]))
    Lm = np.inf if (rng.random() < .4 and m != 0) else float(gen.logu(rng, 0.1, 300))
    S = float(rng.choice([1.0, rng.uniform(1, 60)]))
    dm = gen.strength(rng)
    x, y, z, k = line_points(rng, n, m, Lm)
    c = np.sqrt(1 + m * m)
    a = np.sqrt(x ** 2 + y ** 2 + z ** 2)
    h = np.sqrt(y ** 2 + ((x - m * z) / c) ** 2)
    ok = (h > 0.02 * a) & (h > 0.02)
    for kk in np.unique(k):
        ctx.sig(kk, np.isfinite(Lm), m == 0, m > 0, dm > 0)
    ctx.note(m=m, L=Lm, S=S, dm=dm, x=x[:3], y=y[:3], z=z[:3])
    e = ref.doublet_line(x, y, z, dm, m, Lm)
    u = VD.doublet_line_u(x * S, y * S, z * S, dm, m=m, L=Lm * S)
    t = abs(dm) / S ** 2 / h ** 2 * (1 + np.abs(m)) * (1e-9 + 1e-13 * (a / h) ** 4)
    ctx.close3('line', [v for v in u], [v / S ** 2 for v in e], 1, t, mask=ok, points=(x, y, z), m=m, L=Lm)
    # exactly on the line: no velocity. On the upstream extension: a value along (m,0,1) only if straight
    s = gen.logu(rng, 1e-2, 0.9, 3) * (Lm if np.isfinite(Lm) else 10)
    v = VD.doublet_line_u(m * s * S, 0 * s, s * S, dm, m=m, L=Lm * S)
    on = np.abs(m * s * S - m * (s * S)) < 1e-9
    ctx.close3('on_the_line', v, [0 * s] * 3, 1e-14, 1.0, mask=on)
    if m == 0:
        s = -gen.logu(rng, .3, 3, 3)
        v = VD.doublet_line_u(0 * s, 0 * s, s * S, dm, m=0, L=Lm * S)
        eu = dm / (4 * np.pi) * (1 / s ** 2 - 1 / (Lm - s) ** 2) / S ** 2
        # the two primitives of the code have error terms of order eps
        ctx.close('upstream_axis', v[2], eu, 1e-8 * abs(dm) / S ** 2, 1 / s ** 2 * 10, points=(s,), L=Lm)
        s = Lm + gen.logu(rng, .3, 3, 3)
        v = VD.doublet_line_u(0 * s, 0 * s, s * S, dm, m=0, L=Lm * S)
        eu = dm / (4 * np.pi) * (1 / (s - Lm) ** 2 - 1 / s ** 2) / S ** 2
        ctx.close('downstream_axis', v[2], eu, 1e-8 * abs(dm) / S ** 2, 1 / (s - Lm) ** 2 * 10, points=(s,), L=Lm)


def f_num(ctx):
    """*_num: converges to the line, first order in the spacing of the doublets"""
    rng = ctx.rng
    m = float(rng.choice([0.0, rng.uniform(-1.5, 1.5)]))
    zmax = float(rng.uniform(2, 20))
    dm = gen.strength(rng)
    n = 12
    nQ = int(rng.integers(400, 1200))
    ds = zmax / (nQ - 1)
    x, y, z, k = line_points(rng, n, m, zmax)
    c = np.sqrt(1 + m * m)
    h = np.sqrt(y ** 2 + ((x - m * z) / c) ** 2)
    ok = h > 10 * ds
    ctx.sig(m == 0, ctx.k % 30)
    e = ref.doublet_line(x, y, z, dm, m, zmax)
    u = VD.doublet_line_u_num(x, y, z, dm, m=m, zmax=zmax, nQuad=nQ)
    # rectangle rule with both ends counted fully: half an end doublet too much on each side
    q = [0.5 * ds * (p + r) for p, r in zip(ref.doublet(x, y, z, 0, 0, dm), ref.doublet(x - m * zmax, y, z - zmax, 0, 0, dm))]
    t = abs(dm) * ds ** 2 / h ** 4 * 2 + 1e-9 * abs(dm) / h ** 2
    ctx.close3('num_line', u, [a + b for a, b in zip(e, q)], 1, t, mask=ok, points=(x, y, z), nQuad=nQ, zmax=zmax, m=m)
    if m == 0:
        z0 = float(rng.uniform(-2, 1))
        ds = (zmax - z0) / (nQ - 1)
        r = np.hypot(x, y)
        ok = r > 10 * ds
        ea = ref.doublet_line(r, 0 * r, z - z0, dm, 0.0, zmax - z0)
        q = [0.5 * ds * (p + s) for p, s in zip(ref.doublet(r, 0 * r, z - z0, 0, 0, dm), ref.doublet(r, 0 * r, z - zmax, 0, 0, dm))]
        ur, uz = VD.doublet_line_polar_u_num(r, z, dm, z0=z0, zmax=zmax, nQuad=nQ)
        t = abs(dm) * ds ** 2 / r.clip(1e-3) ** 4 * 2 + 1e-9 * abs(dm) / r.clip(1e-3) ** 2
        ctx.close('num_polar_r', ur, ea[0] + q[0], 1, t, mask=ok, points=(r, z))
        ctx.close('num_polar_z', uz, ea[2] + q[2], 1, t, mask=ok, points=(r, z))


_gl = np.polynomial.legendre.leggauss(40)


def f_integrals(ctx):
    """the closed-form line integrals"""
    rng = ctx.rng
    n = 12
    m = rng.uniform(-2, 2)
    x, y, z, k = line_points(rng, n, m, np.inf)
    c = np.sqrt(1 + m * m)
    a, b = np.sqrt(x ** 2 + y ** 2 + z ** 2), m * x + z
    h = np.sqrt(np.maximum(a ** 2 - (b / c) ** 2, 0)) / c
    ok = h > 0.05 * a
    x, y, z, a, b, h = (v[ok] for v in (x, y, z, a, b, h))
    if not len(x):
        return
    ctx.sig(ctx.k % 40)
    s0 = b / c ** 2
    I = {'30': 0, '50': 0, '51': 0, '52': 0}
    t0, t1 = np.arcsinh(-s0 / h), np.arcsinh(1e9 * a / h)
    for p in range(24):
        ta, tb = t0 + (t1 - t0) * p / 24, t0 + (t1 - t0) * (p + 1) / 24
        t = (ta + tb)[:, None] / 2 + (tb - ta)[:, None] / 2 * _gl[0]
        w = (tb - ta)[:, None] / 2 * _gl[1] * h[:, None] * np.cosh(t)
        s = s0[:, None] + h[:, None] * np.sinh(t)
        q = c ** 2 * h[:, None] ** 2 * np.cosh(t) ** 2
        I['30'] = I['30'] + (w / q ** 1.5).sum(1)
        I['50'] = I['50'] + (w / q ** 2.5).sum(1)
        I['51'] = I['51'] + (w * s / q ** 2.5).sum(1)
        I['52'] = I['52'] + (w * s * s / q ** 2.5).sum(1)
    rel = 1e-8 + 1e-13 * (a / h) ** 4
    ctx.close('I30', VD.I30(a, b, c), I['30'], 1, rel * np.abs(I['30']))
    ctx.close('3.I50', VD.tI50(a, b, c), 3 * I['50'], 1, rel * np.abs(I['50']))
    sc = rel * (np.abs(I['51']) + 1 / (a * h ** 3))
    ctx.close('3.I51', VD.tI51(a, b, c), 3 * I['51'], 1, sc)
    ctx.close('3.I52', VD.tI52(a, b, c), 3 * I['52'], 1, rel * np.abs(I['52']) * 3)


def f_additive(ctx):
    """finite line + the rest = semi-infinite line"""
    rng = ctx.rng
    m = float(rng.choice([0.0, rng.uniform(-1.5, 1.5)]))
    L = float(gen.logu(rng, 0.2, 50))
    dm = gen.strength(rng)
    n = 16
    x, y, z, k = line_points(rng, n, m, L)
    c = np.sqrt(1 + m * m)
    a = np.sqrt(x ** 2 + y ** 2 + z ** 2)
    h = np.sqrt(y ** 2 + ((x - m * z) / c) ** 2)
    ok = (h > 0.03 * np.maximum(a, np.sqrt((x - m * L) ** 2 + y ** 2 + (z - L) ** 2))) & (h > .03)
    ctx.sig(m == 0, ctx.k % 40)
    f = VD.doublet_line_u(x, y, z, dm, m=m, L=L)
    g = VD.doublet_line_u(x - m * L, y, z - L, dm, m=m)
    w = VD.doublet_line_u(x, y, z, dm, m=m)
    t = abs(dm) / h ** 2 * (1e-8 + 1e-12 * ((a + L) / h) ** 4)
    ctx.close3('finite+rest=infinite', [p + q for p, q in zip(f, g)], w, 1, t, mask=ok, points=(x, y, z), m=m, L=L)


def f_extension(ctx):
    """points exactly on the extensions of a skewed line, where the general primitives of the integrals do not exist"""
    rng = ctx.rng
    m = float(rng.choice([0.0, rng.uniform(-2, 2), gen.slog(rng, 1e-3, 1e-1, 1)[0], .75, -.5]))
    Lm = np.inf if rng.random() < .3 else float(gen.logu(rng, .1, 30))
    S = float(rng.choice([1.0, rng.uniform(.5, 10)]))
    dm = gen.strength(rng)
    n = 5
    up = rng.random(n) < .6 if np.isfinite(Lm) else np.ones(n, bool)
    # distances to both ends, in multiples of the length of the line
    s = np.where(up, -gen.logu(rng, .05, 10, n), (Lm if np.isfinite(Lm) else 0) + gen.logu(rng, .05, 10, n)) * S
    L = Lm * S
    d1 = np.where(up, -s, s - L if np.isfinite(L) else 1)
    i3 = .5 * (1 / d1 ** 2 - (0 if np.isinf(L) else 1 / (d1 + L) ** 2))
    c = np.sqrt(1 + m * m)
    k = dm / (4 * np.pi) * i3 / c ** 3
    e = [k * 3 * m / c ** 2, 0 * k, k * (3 / c ** 2 - 1)]
    x, z = m * s, s
    for v in np.unique(up):
        ctx.sig(v, np.isinf(L), m == 0, m > 0, dm > 0)
    ctx.note(m=m, L=L, dm=dm, s=s)
    ok = (np.abs(s) * c < 300)
    u = VD.doublet_line_u(x, 0 * x, z, dm, m=m, L=L)
    # if the point is not recognised as being on the extension, the general primitives lose (a/h)^4 eps: judged where they are not used
    a, b = np.sqrt(x ** 2 + z ** 2), m * x + z
    ok &= np.isinf(L) | (np.abs(b ** 2 - a ** 2 * c ** 2) < 1e-9)
    ctx.close3('extension', u, e, 1, 1e-8 * abs(dm) / d1 ** 2, mask=ok, m=m, L=L, points=(x, z))


def f_inum(ctx):
    """the integrals by quadrature are those of the closed forms, whatever the interval and number of points"""
    rng = ctx.rng
    m = float(rng.uniform(-1.5, 1.5))
    x, y, z = rng.uniform(-3, 3, 3)
    y += np.sign(y) * .5
    c = np.sqrt(1 + m * m)
    a, b = np.sqrt(x ** 2 + y ** 2 + z ** 2), m * x + z
    h = np.sqrt(a ** 2 - (b / c) ** 2) / c
    # default interval and a chosen one; the tail beyond zmax is 1/(2 c^3 zmax^2) for I30, smaller for the others
    given = rng.random() < .6
    kw = dict(zmax=float(rng.uniform(60, 400)), nQuad=int(rng.integers(4000, 12000))) if given else {}
    zm, nq = kw.get('zmax', 5000), kw.get('nQuad', 50000)
    dz = zm / (nq - 1)
    ctx.sig(given, m > 0, ctx.k % 20)
    ctx.note(x=x, y=y, z=z, m=m, **kw)
    for p, q, f, g in ((3, 0, VD.I30_num, VD.I30), (5, 0, VD.I50_num, VD.tI50), (5, 1, VD.I51_num, VD.tI51), (5, 2, VD.I52_num, VD.tI52)):
        v = f(x, y, z, m, **kw)
        e = g(a, b, c) / (1 if p == 3 else 3)
        # tail beyond zmax (first two terms of its expansion in b/(c^2 zmax)), end correction of the trapezoidal rule at 0, its exponentially small rest
        tail = zm ** (q - p + 1) / c ** p / (p - 1 - q) + p * b / c ** (p + 2) * zm ** (q - p) / (p - q)
        d0 = {0: p * b / a ** (p + 2), 1: 1 / a ** p, 2: 0}[q]
        corr = -dz ** 2 / 12 * d0
        t = 1e-9 * abs(e) + 30 * (a / zm) ** 2 * tail + dz ** 4 * 5 / (a * (h * c / a) ** 2) ** (p + 4 - q) + 8 * np.exp(-2 * np.pi * h / dz) * (1 + abs(b) + a) ** q / h ** p
        ctx.close('I%d%d_num' % (p, q), v, e - tail + corr, 1, t, nQuad=nq, zmax=zm)


FAMILIES = [Family('point', f_point, 400, 15000), Family('straight_line', f_straight, 400, 15000), Family('line', f_line, 400, 15000),
            Family('numeric', f_num, 60, 1500), Family('integrals', f_integrals, 150, 4000), Family('additive', f_additive, 150, 4000),
            Family('extension', f_extension, 300, 8000), Family('integrals_num', f_inum, 60, 2000)]
QUICK = 20        # cheap: more cases in the quick run
