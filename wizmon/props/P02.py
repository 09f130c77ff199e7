"""Right semi-infinite cylinder of tangential vorticity."""
import numpy as np
from ..core import Family
from .. import gen, ref
from wiz import VortexCylinder as VC

RULE = ('control points drawn in the bulk, log-close (1e-9..1e-1 R) to the axis, the sheet, the edge, the rotor plane, exactly on the axis '
        'or at r=R, and in the far field (to 1e4 R), R from 1e-3 to 1e4, strengths of both signs; distinct = different (family, point kind, region, shape dim)')
ASSUMPTIONS = ['reference: Biot-Savart closed form with scipy Carlson integrals, cross-checked against azimuthal quadrature by the monitor biot_savart_quadrature',
               'exactly at r=R (points with a zero coordinate, whose radius is not rounded) the mean of both sides of the sheet is expected, in the 1e-8 neighbourhood of the edge no value is imposed on u_r']


def tol(r, z, R):
    d2 = ((r - R) ** 2 + z ** 2) / R ** 2
    return 1e-10 + 1e-14 * np.hypot(r, z) / R + 2e-15 / np.maximum(d2, 1e-17)


def tol_r(r, z, R):
    """u_r: round-off next to the axis too (the code uses the axis formula u_r=0 below 1e-7 R)"""
    return tol(r, z, R) + 2e-14 * (R + np.hypot(r, z)) / np.maximum(r, 2e-7 * R)


def draw(ctx, shp):
    rng = ctx.rng
    R, g = gen.scale(rng), gen.strength(rng)
    N = int(np.prod(shp))
    r, z, kind = gen.rz_cloud(rng, N, R)
    x, y = gen.polar_to_xy(rng, r, R)
    ctx.note(R=R, gamma_t=g, r=r[:3], z=z[:3], shape=shp)
    for k in np.unique(kind):
        ctx.sig(k, len(shp), 'tiny' if R < .1 else 'big' if R > 1e3 else 'mid', g > 0)
    return R, g, x.reshape(shp), y.reshape(shp), z.reshape(shp)


def f_values(ctx):
    shp = gen.shaped(ctx.rng)
    R, g, x, y, z = draw(ctx, shp)
    r = np.sqrt(x ** 2 + y ** 2)
    er, ez = ref.vc_tang(r, z, g, R)
    t = tol(r, z, R) * abs(g)
    tr = tol_r(r, z, R) * abs(g)
    ur, uz = VC.vc_tang_u(x, y, z, gamma_t=g, R=R, polar_out=True)
    edge = ((r - R) ** 2 + z ** 2) < (1e-7 * R) ** 2
    ctx.close('u_r', ur, er, 1, scale=tr, mask=~edge, points=(x / R, y / R, z / R))
    fz = lambda rr: ref.vc_tang(rr, z, g, R)[1]
    ctx.close('u_z', uz, ref.nearest_side(uz, fz, x, y, R, ez), 1, scale=t, mask=~edge, points=(x / R, y / R, z / R))
    cx, cy, cz = VC.vc_tang_u(x, y, z, gamma_t=g, R=R, polar_out=False)
    psi = np.arctan2(y, x)
    ctx.close('u_x', cx, er * np.cos(psi), 1, scale=tr, mask=~edge, points=(x / R, y / R, z / R))
    ctx.close('u_y', cy, er * np.sin(psi), 1, scale=tr, mask=~edge, points=(x / R, y / R, z / R))
    ctx.close('u_z', cz, ref.nearest_side(cz, fz, x, y, R, ez), 1, scale=t, mask=~edge, points=(x / R, y / R, z / R))


def f_quad(ctx):
    """straight from Biot-Savart, no elliptic integral at all"""
    rng = ctx.rng
    R, g = gen.scale(rng), gen.strength(rng)
    N = 25
    x, y, z = rng.uniform(-2.5, 2.5, N), rng.uniform(-2.5, 2.5, N), rng.uniform(-4, 4, N)
    d = ref.dist_cyl(x, y, z, 1.0, 0.0)
    b = d > 0.03
    x, y, z = x[b] * R, y[b] * R, z[b] * R
    q = ref.svc_tang_q(x, y, z, g, R, 0.0)
    u = VC.vc_tang_u(x, y, z, gamma_t=g, R=R, polar_out=False)
    ctx.sig(ctx.k)
    ctx.close3('biot_savart_quadrature', u, q, 1e-9 * abs(g), 1.0, points=(x / R, y / R, z / R))


def f_raw(ctx):
    rng = ctx.rng
    R, g = gen.scale(rng), gen.strength(rng)
    N = 20
    r = rng.choice([rng.uniform(0.02, 0.98, N), rng.uniform(1.02, 4, N)])
    z = rng.uniform(-4, 6, N)
    psi = rng.uniform(-np.pi, np.pi, N)
    ctx.sig(r[0] < 1, g > 0, ctx.k % 50)
    ur, uz = VC.cylinder_tang_semi_inf_u_raw(r * R * np.cos(psi), r * R * np.sin(psi), z * R, gamma_t=g, R=R)
    er, ez = ref.vc_tang(r * R, z * R, g, R)
    ctx.close('raw_u_r', ur, er, 1e-9 * abs(g), 1.0, points=(r, z))
    ctx.close('raw_u_z', uz, ez, 1e-9 * abs(g), 1.0, points=(r, z))


def f_structure(ctx):
    """exact facts of the field: rotor plane, far wake, symmetry, jump across the sheet"""
    rng = ctx.rng
    R, g = gen.scale(rng), gen.strength(rng)
    n = 12
    psi = rng.uniform(-np.pi, np.pi, n)
    c, s = np.cos(psi), np.sin(psi)
    ri, ro = rng.uniform(0, 0.999, n) * R, (1 + gen.logu(rng, 1e-3, 10, n)) * R
    ctx.sig(ctx.k % 100, g > 0)
    f = lambda r, z: VC.vc_tang_u(r * c, r * s, z + 0 * r, gamma_t=g, R=R, polar_out=True)
    G = abs(g)
    ctx.close('rotor_inside=gamma/2', f(ri, 0.0)[1], g / 2, 1e-8 * G, 1.0, points=(ri / R,))
    ctx.close('rotor_outside=0', f(ro, 0.0)[1], 0 * ro, 1e-8 * G, 1.0, points=(ro / R,))
    D = 1e5 * R
    ctx.close('far_wake_inside=gamma', f(ri, D)[1], g, 1e-7 * G, 1.0, points=(ri / R,))
    ctx.close('far_wake_outside=0', f(ro, D)[1], 0 * ro, 1e-7 * G, 1.0, points=(ro / R,))
    ctx.close('far_upstream=0', f(ri, -D)[1], 0 * ro, 1e-7 * G, 1.0, points=(ri / R,))
    z = gen.logu(rng, 1e-3, 1e6, n) * rng.choice([-1, 1], n)
    a = f(rng.choice([0.0, 1e-9], n) * R, z * R)
    ctx.close('axis_u_z', a[1], g / 2 * np.where(z < 0, 1 / (np.hypot(z, 1) * (np.hypot(z, 1) + np.abs(z))), 1 + z / np.hypot(z, 1)), 1e-13 * G, 1.0, points=(z,))
    ctx.close('axis_u_r', a[0], 0 * z, 1e-8 * G, 1.0, points=(z,))
    z = gen.logu(rng, 1e-3, 50, n) * R
    for r, S, nm in ((ri, g, 'inside'), (ro, 0.0, 'outside')):
        a, b = f(r, z), f(r, -z)
        ctx.close('u_z(z)+u_z(-z)_' + nm, a[1] + b[1], S + 0 * r, 1e-8 * G, 1.0, points=(r / R, z / R))
        ctx.close('u_r_even_in_z_' + nm, a[0], b[0], 1e-8 * G, 1.0, points=(r / R, z / R))
    e = gen.logu(rng, 1e-7, 1e-6, n)
    z = gen.logu(rng, 2e-2, 20, n) * R
    up, um = f(R * (1 + e), z), f(R * (1 - e), z)
    ctx.close('jump_u_z=gamma', um[1] - up[1], g + 0 * z, 3e-4 * G, 1.0, points=(e, z / R))
    ctx.close('no_jump_u_r', um[0], up[0], 3e-4 * G, 1.0, points=(e, z / R))
    up, um = f(R * (1 + e), -z), f(R * (1 - e), -z)
    ctx.close('no_jump_upstream', um[1], up[1], 3e-4 * G, 1.0, points=(e, z / R))


def f_multi(ctx):
    """vcs_tang_u: sum over rotors and concentric cylinders, mirrored about height 0 when Ground"""
    rng = ctx.rng
    nC, nr = gen.count(rng, 3), gen.count(rng, 4)
    L = gen.scale(rng)
    R = np.sort(rng.uniform(0.1, 1, (nC, nr)), axis=1) * L
    g = np.array([gen.strength(rng) for _ in range(nC * nr)]).reshape(nC, nr)
    if rng.random() < 0.4:
        g[rng.integers(0, nC), rng.integers(0, nr)] = 0.0
    X, Y, Z = (gen.place(rng, nC, 3) * L for _ in range(3))
    Y = np.abs(Y) * (rng.random() > .08)
    ground = bool(rng.random() < 0.5)
    shp = gen.shaped(rng)
    i = int(rng.integers(0, nC))          # points around one of the rotors, possibly far from the others
    x, y, z = (c[i] * (rng.random() < .6) + rng.uniform(-5, 5, shp) * L for c in (X, Y, Z))
    ctx.sig(nC, nr, ground, len(shp))
    ctx.note(nCyl=nC, nr=nr, ground=ground, gamma_t=g, R=R, X=X, Y=Y, Z=Z)
    u = VC.vcs_tang_u(x, y, z, g, R, X, Y, Z, Ground=ground)
    e = [0.0 * x, 0.0 * x, 0.0 * x]
    d = 1e9 + 0 * x
    for i in range(nC):
        for s in ((1, -1) if ground else (1,)):
            dx, dy, dz = x - X[i], y - s * Y[i], z - Z[i]
            r = np.hypot(dx, dy)
            psi = np.arctan2(dy, dx)
            for j in range(nr):
                er, ez = ref.vc_tang(r, dz, g[i, j], R[i, j])
                e[0] = e[0] + er * np.cos(psi)
                e[1] = e[1] + er * np.sin(psi)
                e[2] = e[2] + ez
                d = np.minimum(d, np.hypot(r - R[i, j], np.where(dz > 0, 0, dz)) / R[i, j])
    ctx.close3('superposition', u, e, 1e-8 * np.abs(g).sum(), 1.0, mask=d > 1e-4, points=(x / L, y / L, z / L))


def f_eps(ctx):
    """regularization: nothing changes upstream, and little away from the sheet"""
    rng = ctx.rng
    R, g = gen.scale(rng), gen.strength(rng)
    n = 20
    r = rng.uniform(0, 3, n)
    z = rng.uniform(-3, 5, n)
    r[:3] = [0, 1e-9, 0.5]
    ep = gen.logu(rng, 1e-6, 1e-1)
    ctx.sig(int(np.log10(ep)), g > 0)
    psi = rng.uniform(-np.pi, np.pi, n)
    a = VC.vc_tang_u(r * R * np.cos(psi), r * R * np.sin(psi), z * R, gamma_t=g, R=R, polar_out=True, epsilon=ep * R)
    er, ez = ref.vc_tang(r * R, z * R, g, R)
    d = np.abs(r - 1)
    b = (z < 0) & (d > 1e-6)
    for u, e, nm in ((a[0], er, 'u_r'), (a[1], ez, 'u_z')):
        ctx.close('eps_upstream_' + nm, u, e, 1e-9 * abs(g), 1.0, mask=b, points=(r, z, ep + 0 * z))
        bb = (z >= 0) & (d > 5 * ep)
        ctx.close('eps_away_' + nm, u, e, abs(g), 1e-9 + 2 * (ep / np.maximum(d, 1e-9)) ** 2 , mask=bb, points=(r, z, ep + 0 * z))
    ctx.finite('eps_finite', a, points=(r, z))


FAMILIES = [Family('values', f_values, 900, 40000), Family('quadrature', f_quad, 200, 4000), Family('raw', f_raw, 100, 2000),
            Family('structure', f_structure, 250, 8000), Family('multi', f_multi, 250, 6000), Family('epsilon', f_eps, 200, 6000)]
QUICK = 4        # cheap: more cases in the quick run
