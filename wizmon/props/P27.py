"""The self-similar induction zone model."""
import numpy as np
from ..core import Family
from .. import gen, ref
from wiz import SelfSimilar as SS

RULE = ('points up- and downstream, on the axis, in the rotor plane (+-0), far away (to 1e3R); radii 1e-3..1e4, both signs, custom lambda/eta; distinct = different (family, region, scale, sign, shape)')
ASSUMPTIONS = ['formulas (6), (7), (13) of Troldborg & Meyer Forsting 2016, evaluated in a cancellation-free form']


def pts(rng, R, n):
    r = R * np.where(rng.random(n) < .2, 0.0, np.where(rng.random(n) < .7, rng.uniform(0, 5, n), gen.logu(rng, 5, 60, n)))
    z = -R * np.where(rng.random(n) < .5, rng.uniform(0, 6, n), gen.logu(rng, 1e-9, 1e3, n))
    z = np.where(rng.random(n) < .15, 0.0, np.where(rng.random(n) < .3, -z, z))
    p = rng.uniform(-np.pi, np.pi, n)
    return r * np.cos(p), r * np.sin(p), z, r


def f_formula(ctx):
    rng = ctx.rng
    R, g = gen.scale(rng), gen.strength(rng)
    shp = gen.shaped(rng)
    n = int(np.prod(shp))
    x, y, z, r = pts(rng, R, n)
    lam, eta = (.587, 1.32) if rng.random() < .6 else (float(rng.uniform(.2, 1)), float(rng.uniform(.5, 3)))
    kw = {} if (lam, eta) == (.587, 1.32) else dict(lambda_=lam, eta=eta)
    ctx.sig(int(np.log10(R)), g > 0, len(shp), bool(kw))
    ctx.note(R=R, g=g, shape=shp, options=kw)
    u = SS.ss_u(x.reshape(shp), y.reshape(shp), z.reshape(shp), g, R=R, **kw)
    ctx.check('shape', np.shape(u) == shp, got=np.shape(u), expected=shp)
    with np.errstate(all='ignore'):
        e = np.where(z > 0, 0.0, ref.ss(r, z, g, R, lam, eta) / (1 + z / np.sqrt(z * z + R * R)) * ref.ss_axis_stable(z, R))
        e = np.where(1 + z / np.sqrt(z * z + R * R) == 0, 0.0, e)
    ctx.close('formula', np.ravel(u), e, 1e-12, abs(g), points=(x, y, z))
    ctx.check('downstream_is_zero', np.all(np.ravel(u)[z > 0] == 0))


def f_shape(ctx):
    """upstream: same sign as the strength, decays outwards and upstream, self-similar in r/r12"""
    rng = ctx.rng
    R, g = gen.scale(rng), gen.strength(rng)
    z = -R * float(rng.uniform(0.05, 6))
    r = np.linspace(0, 6, 40) * R
    u = SS.ss_u(r, 0 * r, z + 0 * r, g, R=R)
    ctx.sig(int(np.log10(R)), g > 0)
    ctx.note(R=R, g=g, z=z)
    ctx.check('sign', np.all(u * g > 0))
    ctx.check('decays_outwards', np.all(np.diff(np.abs(u)) < 0))
    zz = -np.linspace(0, 8, 40) * R
    a = SS.ss_u(0 * zz, 0 * zz, zz, g, R=R)
    ctx.check('decays_upstream', np.all(np.diff(np.abs(a)) < 0))
    ctx.close('rotor_centre', a[0], g / 2, 1e-12, abs(g))
    # half value where the model says it is: sech^{8/9}(sqrt2)
    r12 = R * np.sqrt(.587 * (1.32 + (z / R) ** 2))
    h = SS.ss_u(np.array([r12]), np.array([0.0]), np.array([z]), g, R=R)
    ctx.close('half_width', h / u[0], (1 / np.cosh(np.sqrt(2))) ** (8. / 9), 1e-10, 1)
    z2 = -R * float(rng.uniform(.05, 6))
    q = float(rng.uniform(.1, 2.5))
    r122 = R * np.sqrt(.587 * (1.32 + (z2 / R) ** 2))
    f1 = SS.ss_u(np.array([0, q * r12]), np.zeros(2), z + np.zeros(2), g, R=R)
    f2 = SS.ss_u(np.array([0, q * r122]), np.zeros(2), z2 + np.zeros(2), g, R=R)
    ctx.close('self_similar', f1[1] / f1[0], f2[1] / f2[0], 1e-9, 1)


FAMILIES = [Family('formula', f_formula, 1500, 40000), Family('shape', f_shape, 500, 9000)]
QUICK = 30        # cheap: more cases in the quick run
