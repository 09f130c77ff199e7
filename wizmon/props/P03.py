"""Finite cylinder of tangential vorticity."""
import numpy as np
from ..core import Family
from .. import gen, ref
from wiz import VortexCylinder as VC
from .P02 import tol, tol_r

RULE = ('cylinders with extents z1<z2 of every sign and of length 1e-3..1e5 R, control points as for P02 but around both ends; '
        'distinct = different (family, point kind, position of the extents, strength sign)')
ASSUMPTIONS = ['reference: difference of two semi-infinite cylinders (Biot-Savart closed form), cross-checked against a quadrature over rings']


def draw_ext(rng, R):
    k = rng.integers(0, 4)
    if k == 0:
        z1, z2 = np.sort(rng.uniform(-4, 4, 2))
    elif k == 1:
        z1 = rng.uniform(-2, 2)
        z2 = z1 + gen.logu(rng, 1e-3, 1)
    elif k == 2:
        z1 = rng.uniform(-2, 2)
        z2 = z1 + gen.logu(rng, 5, float(rng.choice([1e3, 1e5])))
    else:
        z1, z2 = 0.0, float(rng.uniform(0.5, 10))
    return float(z1 * R), float(z2 * R), int(k)


def f_values(ctx):
    rng = ctx.rng
    R, g = gen.scale(rng), gen.strength(rng)
    z1, z2, ke = draw_ext(rng, R)
    shp = gen.shaped(rng)
    N = int(np.prod(shp))
    r, z, kind = gen.rz_cloud(rng, N, R)
    z = z + np.where(rng.random(N) < 0.5, z1, z2)
    z = np.where(rng.random(N) < .05, z2 + gen.logu(rng, 1e3, 1e5, N) * R, z)
    x, y = gen.polar_to_xy(rng, r, R)
    x, y, z = x.reshape(shp), y.reshape(shp), z.reshape(shp)
    r = np.sqrt(x ** 2 + y ** 2)
    for k in np.unique(kind):
        ctx.sig(k, ke, g > 0)
    ctx.note(R=R, gamma_t=g, z1=z1, z2=z2, shape=shp)
    er, ez = ref.cyl_tang(r, z, g, R, z1, z2)
    G = abs(g)
    t = (tol(r, z - z1, R) + tol(r, z - z2, R)) * G
    tr = (tol_r(r, z - z1, R) + tol_r(r, z - z2, R)) * G
    edge = np.minimum((r - R) ** 2 + (z - z1) ** 2, (r - R) ** 2 + (z - z2) ** 2) < (1e-7 * R) ** 2
    pts = (x / R, y / R, (z - z1) / R, (z - z2) / R)
    ur, uz = VC.cylinder_tang_u(x, y, z, gamma_t=g, R=R, z1=z1, z2=z2, polar_out=True)
    # the code evaluates u_z through two non-jumping terms: next to r=R rounding of R-r is allowed for
    onR = np.abs(r - R) < 1e-12 * R
    ctx.close('u_r', ur, er, 1, scale=tr, mask=~edge, points=pts)
    ctx.close('u_z', uz, ez, 1, scale=t, mask=~edge & ~onR, points=pts)
    cx, cy, cz = VC.cylinder_tang_u(x, y, z, gamma_t=g, R=R, z1=z1, z2=z2, polar_out=False)
    psi = np.arctan2(y, x)
    ctx.close('u_x', cx, er * np.cos(psi), 1, scale=tr, mask=~edge, points=pts)
    ctx.close('u_y', cy, er * np.sin(psi), 1, scale=tr, mask=~edge, points=pts)
    ctx.close('u_z', cz, ez, 1, scale=t, mask=~edge & ~onR, points=pts)


def f_semi(ctx):
    """agreement with the code's own semi-infinite cylinder: limit z2->inf, splitting, reversal"""
    rng = ctx.rng
    R, g = gen.scale(rng), gen.strength(rng)
    z1, z2, ke = draw_ext(rng, R)
    n = 30
    r = rng.uniform(0.05, 3, n)
    r = np.where(np.abs(r - 1) < 1e-3, 0.5, r) * R
    z = rng.uniform(-5, 5, n) * R
    psi = rng.uniform(-np.pi, np.pi, n)
    x, y = r * np.cos(psi), r * np.sin(psi)
    ctx.sig(ke, ctx.k % 30, g > 0)
    G = abs(g)
    f = lambda a, b: VC.cylinder_tang_u(x, y, z, gamma_t=g, R=R, z1=a, z2=b, polar_out=False)
    ref1 = VC.vc_tang_u(x, y, z - z1, gamma_t=g, R=R, polar_out=False)
    ref2 = VC.vc_tang_u(x, y, z - z2, gamma_t=g, R=R, polar_out=False)
    c = f(z1, z2)
    ctx.close3('difference_of_semi_infinite', c, [a - b for a, b in zip(ref1, ref2)], 1e-8 * G, 1.0)
    ctx.close3('long_limit', f(z1, z1 + 3e4 * R), ref1, 1e-7 * G, 1.0)
    zm = z1 + rng.random() * (z2 - z1)
    ctx.close3('split', [a + b for a, b in zip(f(z1, zm), f(zm, z2))], c, 1e-8 * G, 1.0)
    # mirror symmetry about the middle
    cm = VC.cylinder_tang_u(x, y, z1 + z2 - z, gamma_t=g, R=R, z1=z1, z2=z2, polar_out=False)
    ctx.close('mirror_u_z', cm[2], c[2], 1e-8 * G, 1.0)
    ctx.close('mirror_u_x', cm[0], -c[0], 1e-8 * G, 1.0)


def f_rings(ctx):
    """Biot-Savart over rings, Gauss quadrature in z"""
    rng = ctx.rng
    g = gen.strength(rng)
    R = gen.scale(rng)
    z1, z2 = np.sort(rng.uniform(-2, 2, 2))
    n = 10
    r = rng.choice([rng.uniform(0, 0.8, n), rng.uniform(1.2, 3, n)])
    z = rng.uniform(-4, 4, n)
    xq, wq = np.polynomial.legendre.leggauss(40)
    e = np.linspace(z1, z2, 6)
    zq, wq = np.concatenate([(a + b) / 2 + (b - a) / 2 * xq for a, b in zip(e[:-1], e[1:])]), np.tile((z2 - z1) / 10 * wq, 5)
    U = [ref.ring(r, z - a, g * w, 1.0) for a, w in zip(zq, wq)]
    er, ez = sum(u[0] for u in U), sum(u[1] for u in U)
    ur, uz = VC.cylinder_tang_u(r * R, 0 * r, z * R, gamma_t=g, R=R, z1=z1 * R, z2=z2 * R, polar_out=True)
    ctx.sig(ctx.k % 60, r[0] < 1)
    ctx.close('rings_u_r', ur, er, 1e-8 * abs(g), 1.0, points=(r, z), z1=z1, z2=z2)
    ctx.close('rings_u_z', uz, ez, 1e-8 * abs(g), 1.0, points=(r, z), z1=z1, z2=z2)


FAMILIES = [Family('values', f_values, 900, 40000), Family('semi_infinite', f_semi, 200, 6000), Family('rings', f_rings, 120, 3000)]
QUICK = 6        # cheap: more cases in the quick run
