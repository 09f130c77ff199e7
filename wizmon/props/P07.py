"""Vortex rings."""
import numpy as np
from ..core import Family
from .. import gen, ref
from wiz import VortexRing as VR

RULE = ('rings of radius 1e-3..1e4 and both signs; points in the bulk, on and log-close (1e-9..) to the axis, log-close (1e-7..) to the ring, in its plane, '
        'far away; ring_u, ring_u_polar, both raw forms, and superpositions of up to 6 rings; distinct = different (family, point kind, scale, sign, shape)')
ASSUMPTIONS = ['reference: closed form with complementary parameter (Carlson), cross-checked against direct Biot-Savart quadrature over the ring',
               'in the 1e-7 box around the ring itself only finiteness is required']


def tols(r, z, R, G):
    d = np.hypot(r - R, z) / R
    L = 1 + np.hypot(r, z) / R
    base = 1e-11 + 1e-14 / np.maximum(d, 1e-9) ** 2
    near = 1 / np.maximum(np.minimum(d, 1.0), 1e-9)
    tz = base * near
    tr = base * near + 3e-14 * L / np.maximum(r / R, 2e-7)
    s = abs(G) / R
    return tr * s, tz * s


def f_values(ctx):
    rng = ctx.rng
    R, G = gen.scale(rng), gen.strength(rng)
    shp = gen.shaped(rng)
    n = int(np.prod(shp))
    r, z, kind = gen.rz_cloud(rng, n, R)
    x, y = gen.polar_to_xy(rng, r, R)
    x, y, z = x.reshape(shp), y.reshape(shp), z.reshape(shp)
    r = np.sqrt(x ** 2 + y ** 2)
    for k in np.unique(kind):
        ctx.sig(k, len(shp), 'small' if R < .1 else 'mid', G > 0)
    ctx.note(R=R, Gamma=G, shape=shp, r=r.ravel()[:3], z=z.ravel()[:3])
    er, ez = ref.ring(r, z, G, R)
    ax = r < 1.1e-7 * R
    er = np.where(ax, 0, er)
    tr, tz = tols(r, z, R, G)
    ok = ~((np.abs(r - R) < 2e-7 * R) & (np.abs(z) < 2e-7 * R))
    pts = (x / R, y / R, z / R)
    ur, uz = VR.ring_u(x, y, z, Gamma=G, R=R, polar_out=True)
    ctx.close('ring_u_r', ur, er, 1, tr, mask=ok, points=pts)
    ctx.close('ring_u_z', uz, ez, 1, tz, mask=ok, points=pts)
    ux, uy, uz = VR.ring_u(x, y, z, Gamma=G, R=R, polar_out=False)
    psi = np.arctan2(y, x)
    ctx.close('ring_u_x', ux, er * np.cos(psi), 1, tr, mask=ok, points=pts)
    ctx.close('ring_u_y', uy, er * np.sin(psi), 1, tr, mask=ok, points=pts)
    ctx.close('ring_u_z', uz, ez, 1, tz, mask=ok, points=pts)
    z0 = float(rng.choice([0.0, rng.uniform(-3, 3) * R]))
    ur, uz = VR.ring_u_polar(r, z + z0, Gamma=G, r0=R, z0=z0)
    # adding and removing z0 shifts z by a few ulps of z0
    dz = 4e-16 * (abs(z0) + np.abs(z)) * abs(G) / np.maximum(np.hypot(r - R, z), 1e-9 * R) ** 2
    okp = ok & (np.hypot(r - R, z) > 1e-6 * R)
    ctx.close('ring_polar_u_r', ur, er, 1, tr + dz, mask=okp, points=pts, z0=z0)
    ctx.close('ring_polar_u_z', uz, ez, 1, tz + dz, mask=okp, points=pts, z0=z0)
    ctx.finite('finite', (ur, uz, ux, uy), points=pts)
    # exactly at the radius of the ring, just above or below its plane
    q = gen.slog(rng, 1e-6, 1e-1, 6)
    er, ez = ref.ring(R + 0 * q, q * R, G, R)
    tr, tz = tols(R + 0 * q, q * R, R, G)
    ur, uz = VR.ring_u(R + 0 * q, 0 * q, q * R, Gamma=G, R=R)
    far = np.abs(q * R) > 2e-7 * R
    ctx.close('above_the_ring_u_r', ur, er, 1, tr, mask=far, points=(q, q))
    ctx.close('above_the_ring_u_z', uz, ez, 1, tz, mask=far, points=(q, q))


def f_quad(ctx):
    """directly from Biot-Savart"""
    rng = ctx.rng
    R, G = gen.scale(rng), gen.strength(rng)
    n = 15
    r, z = rng.uniform(0, 3, n), rng.uniform(-3, 3, n)
    b = np.hypot(r - 1, z) > 0.05
    r, z = r[b], z[b]
    ctx.sig(ctx.k)
    th = np.arange(4096) * 2 * np.pi / 4096
    c, s = np.cos(th), np.sin(th)
    dx, dy, dz = r[:, None] - c, 0 * r[:, None] - s, z[:, None] + 0 * c
    d3 = (dx ** 2 + dy ** 2 + dz ** 2) ** 1.5
    w = G / (4 * np.pi) * 2 * np.pi / 4096 / R
    er, ez = (c * dz / d3).sum(1) * w, ((-s * dy - c * dx) / d3).sum(1) * w
    ur, uz = VR.ring_u(r * R, 0 * r, z * R, Gamma=G, R=R)
    ctx.close('biot_savart_u_r', ur, er, 1e-9 * abs(G) / R, 1.0, points=(r, z))
    ctx.close('biot_savart_u_z', uz, ez, 1e-9 * abs(G) / R, 1.0, points=(r, z))


def f_raw(ctx):
    """the two raw formulations agree with the law, away from axis and ring"""
    rng = ctx.rng
    R, G = gen.scale(rng), gen.strength(rng)
    n = 20
    r, z = gen.logu(rng, 1e-2, 5, n), rng.uniform(-4, 4, n)
    b = np.hypot(r - 1, z) > 0.01
    r, z = r[b], z[b]
    ctx.sig(ctx.k % 80, G > 0)
    er, ez = ref.ring(r * R, z * R, G, R)
    for nm, f in (('raw_a', VR.ring_u_polar_singular), ('raw_b', VR.ring_u_polar_singularb)):
        ur, uz = f(r * R, z * R, G, R)
        ctx.close(nm + '_u_r', ur, er, 1e-8 * abs(G) / R, 1.0, points=(r, z))
        ctx.close(nm + '_u_z', uz, ez, 1e-8 * abs(G) / R, 1.0, points=(r, z))


def f_multi(ctx):
    rng = ctx.rng
    n = int(rng.integers(1, 7))
    L = gen.scale(rng)
    G = np.array([gen.strength(rng) for _ in range(n)])
    if rng.random() < 0.3:
        G[rng.integers(0, n)] = 0
    R = rng.uniform(0.1, 2, n) * L
    X, Y, Z = (rng.uniform(-3, 3, n) * L for _ in range(3))
    co = rng.random() < 0.5       # coaxial: polar output is meaningful
    if co:
        X, Y = 0 * X, 0 * Y
    shp = gen.shaped(rng)
    x, y, z = (rng.uniform(-4, 4, shp) * L for _ in range(3))
    ctx.sig(n, co, len(shp))
    ctx.note(n=n, coaxial=co, Gamma=G, R=R)
    e = [0 * x, 0 * x, 0 * x]
    ok = np.ones(shp, bool)
    for i in range(n):
        dx, dy, dz = x - X[i], y - Y[i], z - Z[i]
        r, p = np.hypot(dx, dy), np.arctan2(dy, dx)
        er, ez = ref.ring(r, dz, G[i], R[i])
        for q, v in zip(e, (er * np.cos(p), er * np.sin(p), ez)):
            q += v
        ok &= (np.hypot(r - R[i], dz) > 1e-3 * R[i]) & (r > 1e-5 * R[i])
    t = 1e-8 * np.abs(G / R).sum()
    u = VR.rings_u(x, y, z, G, R, X, Y, Z, polar_out=False)
    ctx.close3('rings', u, e, t, 1.0, mask=ok, points=(x / L, y / L, z / L))
    if co:
        psi = np.arctan2(y, x)
        ur, uz = VR.rings_u(x, y, z, G, R, X, Y, Z, polar_out=True)
        ctx.close('rings_polar_r', ur, e[0] * np.cos(psi) + e[1] * np.sin(psi), t, 1.0, mask=ok)
        ctx.close('rings_polar_z', uz, e[2], t, 1.0, mask=ok)


def f_reg(ctx):
    """regularization: untouched outside of the core, bounded and radially still inside"""
    rng = ctx.rng
    R, G = gen.scale(rng), gen.strength(rng)
    ep = gen.logu(rng, 1e-4, 0.3)
    method = str(rng.choice(['Saffman', 'linear']))
    n = 20
    rho, a = np.concatenate((rng.uniform(0, 0.49, n // 2), gen.logu(rng, 0.51, 50, n - n // 2))) * ep, rng.uniform(-np.pi, np.pi, n)
    r, z = np.abs(1 + rho * np.cos(a)), rho * np.sin(a)
    ctx.sig(method, int(np.floor(np.log10(ep))), G > 0)
    ctx.note(R=R, eps=ep, method=method)
    ur, uz = VR.ring_u_polar(r * R, z * R, Gamma=G, r0=R, epsilon=ep * R, reg_method=method)
    er, ez = ref.ring(r * R, z * R, G, R)
    d = np.hypot(r - 1, z)
    out, inn = d > 0.505 * ep, d < 0.495 * ep
    s = abs(G) / R
    ctx.close('outside_core_u_r', ur, er, 1, tols(r, z, 1.0, s)[0], mask=out & (r > 1e-5), points=(r, z))
    ctx.close('outside_core_u_z', uz, ez, 1, tols(r, z, 1.0, s)[1], mask=out, points=(r, z))
    ctx.close('inside_core_u_r=0', ur, 0 * ur, 1e-12 * s, 1.0, mask=inn, points=(r, z))
    if method == 'Saffman':
        ctx.close('inside_core_saffman', uz, G / (4 * np.pi * R) * (np.log(16 / ep) - 0.25) + 0 * uz, 1e-10 * s * 10, 1.0, mask=inn, points=(r, z))
    else:
        lo = ref.ring(R * (1 + ep / 2), 0.0, G, R)[1]
        hi = ref.ring(R * (1 - ep / 2), 0.0, G, R)[1]
        a0, a1 = min(lo, hi), max(lo, hi)
        for v in uz[inn]:
            ctx.check('inside_core_linear_bounded', a0 - 1e-8 * abs(a0) <= v <= a1 + 1e-8 * abs(a1), got=v, bounds=(a0, a1))
    # same, ring elsewhere on the axis, and points on that axis
    z0 = float(rng.uniform(-5, 5)) * R
    rr, zz = np.concatenate((r, 0 * r[:4])) * R, np.concatenate((z, rng.uniform(-4, 4, 4))) * R
    vr, vz = VR.ring_u_polar(rr, zz + z0, Gamma=G, r0=R, z0=z0, epsilon=ep * R, reg_method=method)
    fr, fz = ref.ring(rr, zz, G, R)
    fr = np.where(rr < 1.1e-7 * R, 0, fr)
    d2 = np.hypot(rr - R, zz) / R
    t2 = tols(rr / R, zz / R, 1.0, s)
    sh = 1e-15 * (abs(z0) + np.abs(zz)) / R * s / np.maximum(d2, 1e-9) ** 2
    ctx.close('moved_ring_outside_core_u_z', vz, fz, 1, t2[1] + sh, mask=d2 > 0.505 * ep, points=(rr / R, zz / R), z0=z0)
    ctx.close('moved_ring_outside_core_u_r', vr, fr, 1, t2[0] + sh, mask=(d2 > 0.505 * ep) & ((rr > 1e-5 * R) | (rr == 0)), points=(rr / R, zz / R), z0=z0)
    # ring_u: self-induced value at the ring, nothing else changes
    ux = VR.ring_u(np.array([R]), np.array([0.0]), np.array([0.0]), Gamma=G, R=R, epsilon=ep * R)
    ctx.close('ring_u_self_induced', ux[1], G / (4 * np.pi * R) * (np.log(8 / ep) - 0.25), 1e-10 * s * 10, 1.0)
    ctx.close('ring_u_self_induced_r', ux[0], 0.0, 1e-10 * s, 1.0)
    far = (d > 1e-5)
    v = VR.ring_u(r * R, 0 * r, z * R, Gamma=G, R=R, epsilon=ep * R)
    ctx.close('ring_u_eps_elsewhere', v[1], ez, 1, tols(r, z, 1.0, s)[1], mask=far, points=(r, z))


def f_facts(ctx):
    """axis value, antisymmetries, zero circulation, empty input, dipole far field"""
    rng = ctx.rng
    R, G = gen.scale(rng), gen.strength(rng)
    n = 10
    s = abs(G) / R
    z = gen.slog(rng, 1e-4, 50, n)
    ctx.sig(ctx.k % 60, G > 0)
    ur, uz = VR.ring_u(0 * z, 0 * z, z * R, Gamma=G, R=R)
    ctx.close('axis', uz, G / (2 * R) * (1 + z ** 2) ** -1.5, 1e-12 * s, 1.0)
    ctx.close('axis_u_r', ur, 0 * z, 1e-12 * s, 1.0)
    x, y = rng.uniform(-3, 3, n), rng.uniform(-3, 3, n)
    ok = np.hypot(np.hypot(x, y) - 1, z) > 1e-3
    ok &= np.hypot(x, y) > 1e-3
    a = VR.ring_u(x * R, y * R, z * R, Gamma=G, R=R, polar_out=False)
    b = VR.ring_u(x * R, y * R, -z * R, Gamma=G, R=R, polar_out=False)
    ctx.close3('z_symmetry', b, [-a[0], -a[1], a[2]], 1e-9 * s, 1.0, mask=ok)
    D = gen.logu(rng, 100, 1000, n)
    th = rng.uniform(0.1, np.pi - .1, n)
    rr, zz = D * np.sin(th), D * np.cos(th)
    ur, uz = VR.ring_u(rr * R, 0 * rr, zz * R, Gamma=G, R=R)
    M = G * np.pi * R ** 2
    e = ref.doublet(rr * R, 0 * rr, zz * R, 0, 0, M)
    t = s * (1 / D ** 5 * 10 + 1e-14)
    ctx.close('dipole_u_r', ur, e[0], 1, t, points=(rr, zz))
    ctx.close('dipole_u_z', uz, e[2], 1, t, points=(rr, zz))
    em = VR.ring_u(np.array([]), np.array([]), np.array([]), Gamma=G, R=R, polar_out=False)
    ctx.check('empty', len(em) == 3 and all(np.size(v) == 0 for v in em))


FAMILIES = [Family('values', f_values, 700, 30000), Family('quadrature', f_quad, 100, 2000), Family('raw', f_raw, 150, 3000),
            Family('multi', f_multi, 250, 6000), Family('regularized', f_reg, 300, 6000), Family('facts', f_facts, 120, 3000)]
QUICK = 30        # cheap: more cases in the quick run
