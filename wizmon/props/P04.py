"""Right cylinder of longitudinal vorticity and straight root vortex."""
import numpy as np
from ..core import Family
from .. import gen, ref
from wiz import VortexCylinder as VC
from wiz import VortexLine as VL
from .P02 import tol

RULE = ('control points log-close to the axis, the sheet, the edge, the rotor plane and far away, up- and downstream; R 1e-3..1e4; '
        'distinct = different (family, point kind, shape dim, strength sign)')
ASSUMPTIONS = ['reference: closed form of Biot-Savart with scipy Carlson integrals (azimuthal quadrature for r<0.3R); exactly at r=R the mean of both sides',
               'on the root vortex itself (r=0, z>=0) the documented value is 0']


def f_longi(ctx):
    rng = ctx.rng
    R, g = gen.scale(rng), gen.strength(rng)
    shp = gen.shaped(rng)
    N = int(np.prod(shp))
    r, z, kind = gen.rz_cloud(rng, N, R)
    x, y = gen.polar_to_xy(rng, r, R)
    x, y, z = x.reshape(shp), y.reshape(shp), z.reshape(shp)
    r = np.sqrt(x ** 2 + y ** 2)
    psi = np.arctan2(y, x)
    for k in np.unique(kind):
        ctx.sig('l', k, len(shp), g > 0)
    ctx.note(R=R, gamma_l=g, r=r.ravel()[:3], z=z.ravel()[:3])
    with np.errstate(all='ignore'):
        e = np.where(r == 0, 0.0, ref.vc_longi(np.where(r == 0, R, r), z, g, R))
    G = abs(g)
    edge = ((r - R) ** 2 + z ** 2) < (1e-7 * R) ** 2
    t = (tol(r, z, R) + 1e-14 * R / np.maximum(r, 1e-7 * R) * (1 + np.abs(z) / R)) * G + 3e-8 * G * (r < 2e-7 * R)
    pts = (x / R, y / R, z / R)
    up = VC.vc_longi_u(x, y, z, gamma_l=g, R=R, polar_out=True)
    e0 = e
    with np.errstate(all='ignore'):
        e = ref.nearest_side(up[1], lambda rr: np.where(rr == 0, 0.0, ref.vc_longi(np.where(rr == 0, R, rr), z, g, R)), x, y, R, e)
    ctx.close('u_psi', up[1], e, 1, scale=t, mask=~edge, points=pts)
    ctx.close('u_r=0', up[0], 0 * e, 1e-12 * G, 1.0)
    ctx.close('u_z=0', up[2], 0 * e, 1e-12 * G, 1.0)
    u = VC.vc_longi_u(x, y, z, gamma_l=g, R=R, polar_out=False)
    ctx.close('u_x', u[0], -e * np.sin(psi), 1, scale=t, mask=~edge, points=pts)
    ctx.close('u_y', u[1], e * np.cos(psi), 1, scale=t, mask=~edge, points=pts)
    ctx.close('u_z=0', u[2], 0 * e, 1e-12 * G, 1.0)
    u2 = VC.vc_longi_u_polar(r, psi, z, gamma_l=g, R=R, polar_out=True)
    ctx.close('u_psi_polar_inputs', u2[1], e0, 1, scale=t, mask=~edge, points=pts)


def f_longi_quad(ctx):
    rng = ctx.rng
    R, g = gen.scale(rng), gen.strength(rng)
    N = 25
    x, y, z = rng.uniform(-2.5, 2.5, N), rng.uniform(-2.5, 2.5, N), rng.uniform(-4, 4, N)
    d = ref.dist_cyl(x, y, z, 1.0, 0.0)
    b = d > 0.03
    x, y, z = x[b] * R, y[b] * R, z[b] * R
    q = ref.svc_longi_q(x, y, z, g, R, 0.0)
    u = VC.vc_longi_u(x, y, z, gamma_l=g, R=R)
    ctx.sig(ctx.k % 80)
    ctx.close3('biot_savart_quadrature', u, q, 1e-9 * abs(g), 1.0, points=(x / R, y / R, z / R))


def f_structure(ctx):
    rng = ctx.rng
    R, g = gen.scale(rng), gen.strength(rng)
    n = 12
    G = abs(g)
    ri, ro = rng.uniform(0.01, 0.999, n) * R, (1 + gen.logu(rng, 1e-3, 10, n)) * R
    f = lambda r, z: VC.vc_longi_u(r, 0 * r, z + 0 * r, gamma_l=g, R=R, polar_out=True)[1]
    ctx.sig(ctx.k % 80)
    ctx.close('rotor_inside=0', f(ri, 0.0), 0 * ri, 1e-8 * G, 1.0)
    ctx.close('rotor_outside', f(ro, 0.0), g / 2 * R / ro, 1e-8 * G, 1.0)
    ctx.close('far_wake_inside=0', f(ri, 1e5 * R), 0 * ri, 1e-7 * G, 1.0)
    ctx.close('far_wake_outside', f(ro, 1e5 * R), g * R / ro, 1e-7 * G, 1.0)
    ctx.close('far_upstream=0', f(ro, -1e5 * R), 0 * ro, 1e-7 * G, 1.0)
    z = gen.logu(rng, 1e-3, 50, n) * R
    for r, S in ((ri, 0.0), (ro, g * R / ro)):
        ctx.close('f(z)+f(-z)', f(r, z) + f(r, -z), S + 0 * r, 1e-8 * G, 1.0)


def f_root(ctx):
    rng = ctx.rng
    g = gen.strength(rng)
    R = gen.scale(rng)
    shp = gen.shaped(rng)
    N = int(np.prod(shp))
    kind = rng.integers(0, 6, N)
    r = gen.logu(rng, 1e-3, 10, N)
    z = rng.uniform(-5, 5, N)
    r[kind == 1] = gen.logu(rng, 1e-9, 1e-3, (kind == 1).sum())
    r[kind == 2] = 0
    z[kind == 3] = gen.slog(rng, 1e-8, 1e-2, (kind == 3).sum())
    z[kind == 4] = 0
    D = gen.logu(rng, 10, 1e4, (kind == 5).sum())
    r[kind == 5] *= D
    z[kind == 5] *= D
    b = (r == 0) & (np.abs(z) < 1e-3)
    z[b] = -1.0
    x, y = gen.polar_to_xy(rng, r * R, R)
    x, y, z = x.reshape(shp), y.reshape(shp), (z * R).reshape(shp)
    r = np.sqrt(x ** 2 + y ** 2)
    for k in np.unique(kind):
        ctx.sig('r', k, len(shp), g > 0)
    e = ref.vc_root(r, z, g)
    psi = np.arctan2(y, x)
    ctx.note(Gamma_r=g, r=r.ravel()[:3], z=z.ravel()[:3])
    # relative to the velocity of the whole line; the code uses a switch at r=1e-4|z| upstream
    with np.errstate(all='ignore'):
        t = 1e-8 * np.abs(e) + 4e-16 * abs(g) / np.maximum(r, 1e-4 * np.abs(z) + 1e-300) * 10
    pts = (x / R, y / R, z / R)
    for nm, u in (('vc_root_u', VC.vc_root_u(x, y, z, Gamma_r=g, polar_out=True)),
                  ('vl_semiinf_straight_u', VL.vl_semiinf_straight_u(x, y, z, Gamma_r=g, polar_out=True)),
                  ('polar_inputs', VL.vl_semiinf_straight_u_polar(r, psi, z, g, polar_out=True))):
        ctx.close('u_psi_' + nm, u[1], e, 1, scale=t, points=pts)
        ctx.check('no_u_r_u_z_' + nm, np.all(u[0] == 0) and np.all(u[2] == 0))
    u = VC.vc_root_u(x, y, z, Gamma_r=g, polar_out=False)
    ctx.close('u_x', u[0], -e * np.sin(psi), 1, scale=t, points=pts)
    ctx.close('u_y', u[1], e * np.cos(psi), 1, scale=t, points=pts)
    # far wake: line vortex; rotor plane: half of it; upstream and downstream add up to it
    rr = np.abs(gen.logu(rng, 0.1, 10, 8)) * R
    zz = rng.uniform(0, 5, 8) * R
    a = VC.vc_root_u(rr, 0 * rr, zz, Gamma_r=g, polar_out=True)[1] + VC.vc_root_u(rr, 0 * rr, -zz, Gamma_r=g, polar_out=True)[1]
    ctx.close('up+downstream=2D_vortex', a, g / (2 * np.pi * rr), 1e-9 * abs(g) / rr, 1.0)


def f_multi(ctx):
    rng = ctx.rng
    nC, nr = gen.count(rng, 3), gen.count(rng, 4)
    L = gen.scale(rng)
    R = np.sort(rng.uniform(0.1, 1, (nC, nr)), axis=1) * L
    g = np.array([gen.strength(rng) for _ in range(nC * nr)]).reshape(nC, nr)
    if rng.random() < 0.4:
        g[rng.integers(0, nC), rng.integers(0, nr)] = 0.0
    X, Y, Z = (gen.place(rng, nC, 3) * L for _ in range(3))
    Y = np.abs(Y) * (rng.random() > .08)
    ground = bool(rng.random() < 0.5)
    shp = gen.shaped(rng)
    i = int(rng.integers(0, nC))          # points around one of the rotors, possibly far from the others
    x, y, z = (c[i] * (rng.random() < .6) + rng.uniform(-5, 5, shp) * L for c in (X, Y, Z))
    ctx.sig('m', nC, nr, ground, len(shp))
    u = VC.vcs_longi_u(x, y, z, g, R, X, Y, Z, Ground=ground)
    e = [0.0 * x, 0.0 * x, 0.0 * x]
    d = 1e9 + 0 * x
    for i in range(nC):
        for s in ((1, -1) if ground else (1,)):
            dx, dy, dz = x - X[i], y - s * Y[i], z - Z[i]
            r = np.hypot(dx, dy)
            psi = np.arctan2(dy, dx)
            for j in range(nr):
                # the image of longitudinal vorticity in the ground has the opposite sign
                ep = ref.vc_longi(r, dz, s * g[i, j], R[i, j])
                e[0] = e[0] - ep * np.sin(psi)
                e[1] = e[1] + ep * np.cos(psi)
                d = np.minimum(d, np.hypot(r - R[i, j], np.where(dz > 0, 0, dz)) / R[i, j])
    ctx.close3('superposition', u, e, 1e-8 * np.abs(g).sum(), 1.0, mask=d > 1e-4, points=(x / L, y / L, z / L))


FAMILIES = [Family('longi', f_longi, 700, 30000), Family('longi_quad', f_longi_quad, 150, 3000), Family('structure', f_structure, 150, 4000),
            Family('root', f_root, 500, 20000), Family('multi', f_multi, 200, 5000)]
QUICK = 6        # cheap: more cases in the quick run
