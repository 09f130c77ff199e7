"""Semi-infinite vortex line and its core models."""
import numpy as np
from ..core import Family
from .. import gen, ref
from wiz import VortexLine as VL

RULE = ('half lines of any direction, circulation of both signs, points at 0.01..1e3 around, upstream, and on the line; every core model with core size '
        '1e-3..10; distinct = different (family, core model, region, direction class, sign)')
ASSUMPTIONS = ['reference: closed form of Biot-Savart for a half line and the core factors named in the code (Rankine, Lamb-Oseen, Vatistas n=2, cut-off)',
               'points where the code applies its absolute cut-offs (|a|<1e-5, |a|(|a|-a.e)<1e-12) are only required to return no velocity or a finite one']


def f_line(ctx):
    rng = ctx.rng
    G = gen.strength(rng)
    e = gen.unit(rng) if rng.random() < .7 else np.eye(3)[rng.integers(0, 3)] * gen.sgn(rng)
    model = int(rng.integers(0, 6))
    t = float(gen.logu(rng, 1e-3, 10)) if model else 0
    b = np.eye(3)[np.argmin(np.abs(e))]
    n1 = np.cross(e, b)
    n1 /= np.linalg.norm(n1)
    n2 = np.cross(e, n1)
    reg = set()
    for i in range(10):
        k = rng.integers(0, 4)
        s = [rng.uniform(-3, 3), gen.logu(rng, .1, 100), -gen.logu(rng, .1, 100), 0.0][k]
        h = gen.logu(rng, rng.choice([1e-2, 1e-5]), 20)
        if model and rng.random() < .5:
            h = t * gen.logu(rng, rng.choice([.1, 1e-4]), 10)
        p = rng.uniform(-np.pi, np.pi)
        a = e * s + h * (np.cos(p) * n1 + np.sin(p) * n2)
        reg.add((int(k), h < t))
        na = np.sqrt(s * s + h * h)
        den = na * (h * h / (na + s) if s > 0 else na - s)
        if den < 1e-11 + 1e-13 * na ** 2 or na < 2e-5:      # next to the cut-offs of the code, and to the round-off of its denominator
            continue
        u = np.asarray(VL.vl_semiinf_u(a[0], a[1], a[2], e[0], e[1], e[2], G, model, t)).ravel()
        Kv = 1.0
        if model == 1:
            Kv = (h / t) ** 2 if h < t else 1.0
        elif model == 2:
            Kv = -np.expm1(-1.25643 * (h / t) ** 2)
        elif model == 3:
            Kv = h ** 2 / np.sqrt(t ** 4 + h ** 4)
        elif model in (4, 5):
            den = den + t
        er = G * Kv / (4 * np.pi * den) * np.cross(e, a)
        tol = abs(G) * h / (4 * np.pi * den) * (1e-9 + 1e-14 * (na / h) ** 2) + 1e-15 * abs(G) * na / den
        jump = model == 1 and abs(h / t - 1) < 1e-9
        if not jump:
            ctx.close('line', u, er, tol, 1.0, s=s, h=h, t=t, model=model, e=e)
        ctx.check('three_components', u.shape == (3,), got=u.shape)
    for r in reg:
        ctx.sig(model, r, G > 0)
    ctx.note(e=e, Gamma=G, model=model, t=t)
    # on the line: no velocity, no NaN
    s = float(gen.logu(rng, 1e-2, 1e2))
    for a in (e * s, np.zeros(3)):
        u = np.asarray(VL.vl_semiinf_u(a[0], a[1], a[2], e[0], e[1], e[2], G, model, t), float).ravel()
        ctx.check('on_the_line', u.shape == (3,) and np.all(np.isfinite(u)), got=u)
        if np.abs(e).max() == 1:
            ctx.close('on_the_line_zero', u, np.zeros(3), 1e-14, 1.0)


def f_straight(ctx):
    rng = ctx.rng
    G = gen.strength(rng) if rng.random() < .95 else 0
    shp = gen.shaped(rng)
    n = int(np.prod(shp))
    L = gen.scale(rng)
    r, z, kind = gen.rz_cloud(rng, n, L)
    k = rng.integers(0, 6, n)
    r = np.where(k == 0, 0.0, r)
    z = np.where(k == 1, -np.abs(z), z)
    r, z = r.reshape(shp), z.reshape(shp)
    psi = rng.uniform(-np.pi, np.pi, shp)
    for q in np.unique(kind):
        ctx.sig(q, len(shp), G > 0)
    ctx.note(Gamma=G, L=L, shape=shp)
    e = ref.vc_root(r, z, G)
    a = np.hypot(r, z)
    with np.errstate(all='ignore'):
        t = 1e-11 * np.abs(e) + 1e-12 * abs(G) / (4 * np.pi) / np.where(a == 0, 1, a)
        # just above the switch between the two forms of the code, upstream
        t = t + np.where((z < 0) & (r > 0), 1e-7 * np.abs(e), 0)
    o = VL.vl_semiinf_straight_u_polar(r, psi, z, G, polar_out=True)
    ctx.close3('straight_polar', o, [0 * r, e, 0 * r], 1, t, points=(r, z))
    o = VL.vl_semiinf_straight_u_polar(r, psi, z, G, polar_out=False)
    ctx.close3('straight_cartesian', o, [-e * np.sin(psi), e * np.cos(psi), 0 * r], 1, t, points=(r, z))


def f_circ(ctx):
    """Ampere: the circulation around a closed loop is Gamma times the solid-angle fraction it embraces"""
    rng = ctx.rng
    G = gen.strength(rng)
    e = gen.unit(rng)
    b = np.eye(3)[np.argmin(np.abs(e))]
    n1 = np.cross(e, b)
    n1 /= np.linalg.norm(n1)
    n2 = np.cross(e, n1)
    s, h = rng.uniform(-3, 3), rng.uniform(.2, 3)
    ctx.sig(s > 0, G > 0, ctx.k % 10)
    N = 12
    tot = 0.0
    for p in np.arange(N) * 2 * np.pi / N:
        a = e * s + h * (np.cos(p) * n1 + np.sin(p) * n2)
        tdir = -np.sin(p) * n1 + np.cos(p) * n2
        u = np.asarray(VL.vl_semiinf_u(a[0], a[1], a[2], e[0], e[1], e[2], G, 0, 0)).ravel()
        tot += np.dot(u, tdir) * h * 2 * np.pi / N
        ctx.close('no_other_component', np.linalg.norm(u - np.dot(u, tdir) * tdir), 0.0, 1e-10 * abs(G), 1.0)
    ctx.close('circulation', tot, G / 2 * (1 + s / np.hypot(s, h)), 1e-10 * abs(G), 1.0, s=s, h=h)


FAMILIES = [Family('line_cores', f_line, 800, 30000), Family('straight', f_straight, 500, 20000), Family('circulation', f_circ, 200, 4000)]
QUICK = 30        # cheap: more cases in the quick run
