"""Skewed longitudinal vorticity, skewed root vortex, their combination, and the coordinate variants."""
import numpy as np
from ..core import Family
from .. import gen, ref
from wiz import VortexCylinderSkewed as VCS, VortexCylinder as VC
from .P05 import cloud, draw_m, judge, fold, multi

RULE = ('as P05; root vortex: points from 1e-3 to 1e3 around the line, on both sides of the rotor plane and in batches lying entirely in the plane, '
        'with masked (NaN) points; distinct = different (family, point kind, skew decade, signs, output form)')
ASSUMPTIONS = ['reference: azimuthal quadrature of Biot-Savart for the longitudinal sheet, closed-form half line for the root vortex',
               'points closer than 3e-5 (absolute: the code uses absolute cut-offs 1e-5..1e-6 there) to the root vortex are not judged, except on the line itself']


def f_longi(ctx):
    judge(ctx, lambda x, y, z, g, R, m, **k: VCS.svc_longi_u(x, y, z, gamma_l=g, R=R, m=m, **k),
          lambda r, p, z, g, R, m, **k: VCS.svc_longi_u_polar(r, p, z, gamma_l=g, R=R, m=m, **k), ref.svc_longi_q, 'longi', draw_m(ctx.rng))


def f_longi_multi(ctx):
    multi(ctx, VCS.svcs_longi_u, ref.svc_longi_q, -1.0)


def f_longi_zero(ctx):
    rng = ctx.rng
    R, g = gen.scale(rng), gen.strength(rng)
    x, y, z, kind, d = cloud(rng, 20, 0.0)
    ctx.sig(ctx.k % 60, g > 0)
    a = VCS.svc_longi_u(x * R, y * R, z * R, gamma_l=g, R=R, m=0)
    b = VC.vc_longi_u(x * R, y * R, z * R, gamma_l=g, R=R, polar_out=False)
    ctx.close3('zero_skew=right_cylinder', a, b, 2e-7 * abs(g), 1.0, points=(x, y, z))


def root_cloud(rng, n, m, plane=False):
    k = rng.integers(0, 6, n)
    c = np.sqrt(1 + m * m)
    z = rng.uniform(-5, 5, n)
    z = np.where(k == 1, gen.logu(rng, 1e-2, 1e3, n), z)
    z = np.where(k == 2, -gen.logu(rng, 1e-2, 1e3, n), z)
    z = np.where(k == 3, 0.0, z)
    z = np.where(k == 5, gen.slog(rng, 1e-9, 1e-2, n), z)
    r = gen.logu(rng, rng.choice([5e-3, 2e-5]), 10, n)
    if plane == 1 and rng.random() < .4:       # near and far in one batch
        r = gen.logu(rng, 3e-5, 1e6, n)
    p = rng.uniform(-np.pi, np.pi, n)
    x, y = np.where(k == 4, rng.uniform(-50, 50, n), m * z + r * np.cos(p)), r * np.sin(p)
    if plane:            # the whole batch in the rotor plane, or hardly out of it
        z = 0 * z if plane == 1 else gen.slog(rng, 1e-8, 10 ** rng.uniform(-6, -1), n)
        if plane == 3:   # as many points above as below
            z = rng.integers(1, 60, n) / 8.0
            z[n // 2:] = -z[:n - n // 2]
            z = rng.permutation(z)
        x = m * z + r * np.cos(p)
    return x, y, z


def far_enough(x, y, z, m):
    c = np.sqrt(1 + m * m)
    a = np.sqrt(x ** 2 + y ** 2 + z ** 2)
    b = (m * x + z) / c
    h = np.sqrt(np.maximum(0, y ** 2 + ((x - m * z) / c) ** 2))
    return np.where(b > 0, h, a), h, a


def f_root(ctx):
    rng = ctx.rng
    G, m = gen.strength(rng), draw_m(rng)
    plane = int(rng.choice([0, 0, 0, 1, 1, 2, 2, 3]))
    n = 24
    x, y, z = root_cloud(rng, n, m, plane)
    nan = rng.random() < 0.3
    x, y, z = fold(rng, x, y, z)
    if nan:
        j = rng.integers(0, n)
        (x if rng.random() < .5 else z).reshape(-1)[j] = np.nan
    ok = np.isfinite(x) & np.isfinite(z)
    d, h, a = far_enough(x, y, z, m)
    with np.errstate(all='ignore'):
        ok &= (d > 3e-5)
    ctx.sig(plane, nan, int(np.floor(np.log10(abs(m)))), m > 0, G > 0, x.ndim)
    ctx.note(m=m, Gamma_r=G, plane=plane, nan=nan, x=x.ravel()[:3], y=y.ravel()[:3], z=z.ravel()[:3])
    ch = m / np.sqrt(1 + m * m)
    e = ref.svc_root(x, y, z, G, m)
    # cancellation in |a|-a.e downstream close to the line
    t = abs(G) / (4 * np.pi) * (1e-9 + 1e-14 * (a / np.maximum(h, 1e-30)) ** 2) / np.maximum(d, 1e-30)
    pts = (x, y, z)
    u = VCS.svc_root_u(x, y, z, Gamma_r=G, m=m)
    ctx.close3('root_cartesian', u, e, 1, t, mask=ok, points=pts, m=m)
    psi = np.arctan2(y, x)
    ep = [e[0] * np.cos(psi) + e[1] * np.sin(psi), -e[0] * np.sin(psi) + e[1] * np.cos(psi), e[2]]
    u = VCS.svc_root_u(x, y, z, Gamma_r=G, m=m, polar_out=True)
    ctx.close3('root_polar', u, ep, 1, t, mask=ok, points=pts, m=m)
    r = np.sqrt(x ** 2 + y ** 2)
    u = VCS.svc_root_u_polar(r, psi, z, Gamma_r=G, m=m)
    ctx.close3('root_polar_in', u, e, 1, t, mask=ok, points=pts, m=m)


def f_root_zero(ctx):
    rng = ctx.rng
    G = gen.strength(rng)
    x, y, z = root_cloud(rng, 20, 0.0)
    ctx.sig(ctx.k % 60, G > 0)
    e = ref.line_semi(x, y, z, (0.0, 0.0, 1.0), G)
    t = abs(G) * 1e-9 / np.maximum(np.hypot(x, y), 1e-9)
    a = VCS.svc_root_u(x, y, z, Gamma_r=G, m=0)
    ctx.close3('zero_skew=straight_line', a, e, 1, t, points=(x, y, z))
    b = VC.vc_root_u(x, y, z, Gamma_r=G, polar_out=False)
    ctx.close3('right_root=straight_line', b, e, 1, t, points=(x, y, z))
    z0 = [np.zeros(4)] * 3
    for u in (VCS.svc_root_u(x[:4], y[:4], z[:4], Gamma_r=0, m=0.3), VC.vc_root_u(x[:4], y[:4], z[:4], Gamma_r=0, polar_out=False)):
        ctx.close3('no_circulation=no_velocity', u, z0, 1e-14, 1.0)


def f_combined(ctx):
    """svc_u_polar: the sum of the three systems, in both output forms"""
    rng = ctx.rng
    R = gen.scale(rng)
    gt, gl, G = gen.strength(rng), gen.strength(rng), gen.strength(rng) * R
    if rng.random() < 0.2:
        G = 0
    m = draw_m(rng) if rng.random() < 0.8 else 0.0
    x, y, z, kind, d = cloud(rng, 20, m, 0.25)
    dr, h, a = far_enough(x, y, z, m)
    ok = (dr > 0.05)
    x, y, z = x[ok], y[ok], z[ok]
    h, a = h[ok], a[ok]
    if R < 1e-1 or not len(x):       # absolute cut-offs of the root vortex
        R = 1.0
    po = bool(rng.random() < 0.5)
    ctx.sig(po, m == 0, m > 0, G == 0)
    ctx.note(m=m, R=R, gamma_t=gt, gamma_l=gl, Gamma_r=G, polar_out=po)
    psi = np.arctan2(y, x)
    X, Y, Z = x * R, y * R, z * R
    e = [a1 + b1 + c1 for a1, b1, c1 in zip(ref.svc_tang_q(X, Y, Z, gt, R, m), ref.svc_longi_q(X, Y, Z, gl, R, m), ref.svc_root(X, Y, Z, G, m))]
    if po:
        e = [e[0] * np.cos(psi) + e[1] * np.sin(psi), -e[0] * np.sin(psi) + e[1] * np.cos(psi), e[2]]
    u = VCS.svc_u_polar(np.hypot(X, Y), psi, Z, gt, gl, G, R=R, m=m, polar_out=po)
    S = (abs(gt) + abs(gl) + abs(G) / R) * (1 + abs(m)) * (1e-7 + 1e-13 * (a / np.maximum(h, 1e-9)) ** 2)
    ctx.close3('combined', u, e, 1, S, points=(x, y, z), m=m)


def f_legacy(ctx):
    """fV_Tangential, fV_Trailed, fV_Root: every requested number of outputs, every component"""
    rng = ctx.rng
    m = draw_m(rng)
    g = gen.strength(rng)
    x, y, z, kind, d = cloud(rng, 10, m, 0.25)
    dr, h, a = far_enough(x, y, z, m)
    ok = dr > 0.05
    x, y, z, a, h = x[ok], y[ok], z[ok], a[ok], h[ok]
    if not len(x):
        return
    r, psi = np.hypot(x, y), np.arctan2(y, x)
    c = np.sqrt(1 + m * m)
    which = int(rng.integers(0, 3))
    nout = int(rng.integers(1, 8))
    ctx.sig(which, nout, m > 0)
    if which == 0:
        out = VCS.fV_Tangential(r, psi, z, m, g, 180, nout)
        e = ref.svc_tang_q(x, y, z, g, 1.0, m)
    elif which == 1:
        out = VCS.fV_Trailed(r, psi, z, m, g, 180, nout)
        e = ref.svc_longi_q(x, y, z, g, 1.0, m)
    else:
        out = VCS.fV_Root(r, psi, z, m=m, Gamma_r=g, nout=nout)
        e = ref.svc_root(x, y, z, g, m)
    ux, uy, uz = e
    full = [uz, -ux * np.sin(psi) + uy * np.cos(psi), ux, uy, (uz + m * ux) / c, (ux - m * uz) / c, ux * np.cos(psi) + uy * np.sin(psi)]
    if nout == 1:
        out = (out,)
    if not ctx.check('number_of_outputs', len(out) == nout, got=len(out), nout=nout, which=which):
        return
    t = abs(g) * (1 + abs(m)) * (1e-7 + 1e-13 * (a / np.maximum(h, 1e-9)) ** 2)
    for j, (o, f) in enumerate(zip(out, full)):
        ctx.close('legacy_component', o, f, 1, t, which=which, component=j, m=m, points=(x, y, z))


def f_helpers(ctx):
    """skew / polar component projections are rotations"""
    rng = ctx.rng
    n = 12
    ux, uy, uz = rng.normal(size=(3, n))
    m = draw_m(rng)
    psi = rng.uniform(-10, 10, n)
    ctx.sig(ctx.k % 40)
    zeta, xi = VCS.skew_components(ux, uz, m)
    chi = np.arctan(m)
    ctx.close('u_zeta', zeta, uz * np.cos(chi) + ux * np.sin(chi), 1e-12, 5.0)
    ctx.close('u_xi', xi, -uz * np.sin(chi) + ux * np.cos(chi), 1e-12, 5.0)
    ur, up = VCS.polar_components(ux, uy, psi)
    ctx.close('u_r', ur, ux * np.cos(psi) + uy * np.sin(psi), 1e-12, 5.0)
    ctx.close('u_psi', up, -ux * np.sin(psi) + uy * np.cos(psi), 1e-12, 5.0)


FAMILIES = [Family('longi', f_longi, 400, 12000), Family('longi_multi', f_longi_multi, 120, 3000), Family('longi_zero_skew', f_longi_zero, 80, 1500),
            Family('root', f_root, 500, 15000), Family('root_zero_skew', f_root_zero, 80, 2000), Family('combined', f_combined, 200, 5000),
            Family('legacy', f_legacy, 250, 5000), Family('helpers', f_helpers, 60, 1000)]
QUICK = 15        # cheap: more cases in the quick run
