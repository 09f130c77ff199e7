"""Fields are linear in their strengths, similar under a change of length unit, and translate with their sources."""
import numpy as np
from ..core import Family
from .. import gen, ref, fields
from wiz import VortexCylinder as VC, VortexRing as VR, VortexCylinderSkewed as VCS

RULE = ('all 19 kernels, the 2D points, the self-similar model; strength factors 1e-6..1e6 of both signs, length factors 1e-2..1e4, translations up to 1e2 L, permutations of the sources; '
        'distinct = different (family, kernel, size of the factor, sign)')
ASSUMPTIONS = ['kernels with documented absolute cut-offs (doublets, root vortex) are scaled upwards only', 'tolerance: 1e-9 of field scale / distance^2']


ALL = fields.KINDS + fields.EXTRA


def tolv(F, d):
    return F.U * (1 + 1 / np.minimum(d, 1) ** 3) * 1e-10


def f_linear(ctx):
    rng = ctx.rng
    F = fields.draw(rng, ALL[ctx.k % len(ALL)])
    x, y, z, d = fields.points(rng, F, 15)
    if not len(x):
        return
    s = gen.sgn(rng) * float(gen.logu(rng, 1e-6, 1e6))
    ctx.sig(F.name, s > 0, int(np.log10(abs(s)) / 3))
    ctx.note(kernel=F.name, args=F.args, factor=s)
    u = F.f(x, y, z)
    a2 = dict(F.args)
    for k in F.strengths:
        a2[k] = F.args[k] * s
    v = F.call(x, y, z, **a2)
    ctx.close3('homogeneous', v, [c * s for c in u], 1, tolv(F, d) * abs(s), kernel=F.name)
    # additivity in one of the strengths
    k = F.strengths[rng.integers(0, len(F.strengths))]
    a3, a4 = dict(F.args), dict(F.args)
    w = rng.uniform(-2, 2) if np.ndim(F.args[k]) == 0 else rng.uniform(-2, 2, np.shape(F.args[k]))
    for q in F.strengths:
        if q != k:
            a3[q] = F.args[q] * 0
    a3[k] = F.args[k] * w
    a4[k] = F.args[k] + a3[k]
    p, q = F.call(x, y, z, **a3), F.call(x, y, z, **a4)
    ctx.close3('additive', q, [a + b for a, b in zip(u, p)], 1, tolv(F, d) * 6, kernel=F.name)
    a0 = dict(F.args)
    for q in F.strengths:
        a0[q] = F.args[q] * 0
    o = F.call(x, y, z, **a0)
    ctx.close3('nothing_without_strength', o, [0 * x] * 3, 1e-14 * F.U, 1.0, kernel=F.name)


POW = {'vc_root': 1, 'svc_root': 1, 'ring': 1, 'ring_polar': 1, 'rings': 1, 'doublet': 3, 'doublet_line': 2, 'doublet_line_skew': 2, 'doublet_line_finite': 2,
       'doublet_polar': 3, 'points': 1}


def f_scale(ctx):
    rng = ctx.rng
    name = ALL[ctx.k % len(ALL)]
    F = fields.draw(rng, name, L=1.0)
    x, y, z, d = fields.points(rng, F, 15)
    if not len(x):
        return
    up = name in ('doublet', 'doublet_polar', 'doublet_line', 'doublet_line_skew', 'doublet_line_finite', 'svc_root', 'svc_all', 'ring', 'ring_polar', 'rings')
    s = float(gen.logu(rng, 1.0 if up else 5e-2 if name == 'vc_far' else 1e-3, 1e4))
    ctx.sig(F.name, int(np.log10(s)))
    ctx.note(kernel=F.name, args=F.args, factor=s)
    a2 = dict(F.args)
    for k in F.lengths:
        a2[k] = np.asarray(F.args[k]) * s if np.ndim(F.args[k]) else F.args[k] * s
    u = F.f(x, y, z)
    v = F.call(x * s, y * s, z * s, **a2)
    if name == 'svc_all':
        a2['G'] = F.args['G'] * s
        v = F.call(x * s, y * s, z * s, **a2)
    ctx.close3('similarity', [c * s ** POW.get(name, 0) for c in v], u, 1, tolv(F, d), kernel=F.name, factor=s)


def f_translate(ctx):
    """sources placed by their position arguments; every order of the sources"""
    rng = ctx.rng
    name = ['rings', 'vcs_tang', 'vcs_longi', 'svcs_tang', 'svcs_longi', 'doublet', 'ring_polar', 'doublet_polar', 'points'][ctx.k % 9]
    F = fields.draw(rng, name)
    x, y, z, d = fields.points(rng, F, 12)
    if not len(x):
        return
    u = F.f(x, y, z)
    t = rng.uniform(-1, 1, 3) * F.L * float(rng.choice([1, 10, 100]))
    a2 = dict(F.args)
    if name == 'doublet':
        a2['x0'] = F.args['x0'] + t
    elif name in ('ring_polar', 'doublet_polar'):
        t[:2] = 0
        a2['z0'] = F.args['z0'] + t[2]
    else:
        for k, j in zip('XYZ', range(3)):
            if k in F.translate:
                a2[k] = F.args[k] + t[j]
            else:
                t[j] = 0
    ctx.sig(name, len(F.translate or '') == 2)
    ctx.note(kernel=name, shift=t)
    v = F.call(x + t[0], y + t[1], z + t[2], **a2)
    big = 1 + np.abs(t).max() / F.L
    ctx.close3('translation', v, u, 1, tolv(F, d) * big * (10 if name in fields.BOUND else 1), kernel=name)
    if 'X' in F.args and np.ndim(F.args['X']):
        a3 = dict(F.args)
        p = rng.permutation(len(F.args['X']))
        for k in F.args:
            a3[k] = F.args[k][p]
        ctx.close3('permutation_of_sources', F.call(x, y, z, **a3), u, 1, tolv(F, d), kernel=name)
        # one source at a time
        w = [0.0, 0.0, 0.0]
        for i in range(len(p)):
            a4 = {k: v[i:i + 1] for k, v in F.args.items()}
            w = [q + c for q, c in zip(w, F.call(x, y, z, **a4))]
        ctx.close3('sum_of_single_sources', w, u, 1, tolv(F, d), kernel=name)


def f_rotate(ctx):
    """axisymmetric kernels: rotating the points about z rotates the velocity"""
    rng = ctx.rng
    name = ['vc_tang', 'vc_tang_finite', 'vc_longi', 'vc_root', 'ring', 'ring_polar', 'doublet_line', 'doublet'][ctx.k % 8]
    F = fields.draw(rng, name)
    if name == 'doublet':
        M = np.array([0, 0, gen.strength(rng)])
        F.args['M'], F.args['x0'] = M, [0.0, 0.0, 0.0]
        F.U = np.abs(M).max() / F.L ** 3
        F.dist = lambda x, y, z: np.sqrt(x * x + y * y + z * z) / F.L
    x, y, z, d = fields.points(rng, F, 15)
    if not len(x):
        return
    t = float(rng.choice([np.pi / 2, np.pi, -np.pi / 2, rng.uniform(-np.pi, np.pi)]))
    c, s = np.cos(t), np.sin(t)
    ctx.sig(name, ctx.k % 40)
    u = F.f(x, y, z)
    v = F.f(c * x - s * y, s * x + c * y, z)
    ctx.close3('axisymmetry', v, [c * u[0] - s * u[1], s * u[0] + c * u[1], u[2]], 1, tolv(F, d) * 10, kernel=name, angle=t)


FAMILIES = [Family('linear', f_linear, 900, 15000), Family('scaling', f_scale, 900, 15000), Family('translation', f_translate, 420, 8000), Family('rotation', f_rotate, 400, 6000)]
