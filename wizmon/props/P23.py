"""The velocity of a turbine is free stream + its wake system, placed and skewed as its settings say."""
import numpy as np
from ..core import Family
from .. import gen, ref, turb
from wiz.WindTurbine import WindTurbine

RULE = ('turbines in random frames, positions, yaw and wind (skew 0, 1e-6..1.1), loadings of 1-8 cylinders with/without swirl, Ct by value, distribution or function, '
        'with/without ground; every combination of tang/longi/root/only_ind; the VCFF, VD and SS models with root vortex, ground and free stream; distinct = different (family, skew class, cylinders, swirl, components, ground)')
ASSUMPTIONS = ['reference turbine of wizmon.turb: Biot-Savart closed forms (no skew) or adaptive azimuthal quadrature (skew), using the strengths the turbine itself computed '
               '(those are judged by P24-P26)',
               'points closer than 0.25R (skewed) or 0.02R (not skewed) to a sheet or to the root vortex are not judged here']


def comps(rng):
    t, l, r = [(True, False, False), (True, True, True), (False, True, False), (False, False, True), (True, True, False), (True, False, True), (False, False, False)][int(rng.integers(0, 7))]
    return dict(tang=t, longi=l, root=r)


def tol(W, d, R, chi):
    # far below R=1 the root vortex kernel uses absolute cut-offs, hence R>=0.3 there
    return turb.scale_u(W) * (1 + 1 / np.minimum(d, 1) ** 2) * (1e-7 if abs(chi) > 1e-7 else 3e-8) + 1e-12


def f_field(ctx):
    rng = ctx.rng
    c = turb.draw(rng, gamma=.4)
    if c['R'] < .3:
        c['R'] /= c['R']
        c = turb.draw(rng, R=1.0, gamma=.4)
    W = turb.build(c)
    Rs = turb.radii(W)
    X, P, d = turb.points(rng, c, int(rng.integers(3, 14)), Rs)
    if not len(d):
        return
    cp = comps(rng)
    oi = bool(rng.random() < .5)
    ctx.sig(turb.chi_class(c['chi']), len(Rs), W.gamma_l is not None, cp, c['ground'])
    turb.note(ctx, c, comps=cp)
    u = W.compute_u(X[0], X[1], X[2], only_ind=oi, **cp)
    v = turb.ref_u(c, P, np.ravel(W.gamma_t), None if W.gamma_l is None else np.ravel(W.gamma_l), W.Gamma_r, Rs, **cp)
    if not oi:
        v = v + c['U0'][:, None]
    ctx.close3('turbine_field', u, v, 1, tol(W, d, c['R'], c['chi']) + (0 if oi else 1e-12 * np.linalg.norm(c['U0'])), points=X, comps=cp, only_ind=oi)


def f_swirl(ctx):
    """same with swirl forced, all three components"""
    rng = ctx.rng
    nC = int(rng.choice([1, 2, 4, 4, rng.integers(9, 30)]))
    c = turb.draw(rng, R=gen.rotor(rng), nCyl=nC, kind='ct_array')
    c['load']['Lambda'] = float(rng.uniform(2, 12))
    if rng.random() < .3:
        c['load'] = turb.circulation(rng, c['load'], c['R'], float(np.linalg.norm(c['U0'])))
    W = turb.build(c)
    Rs = turb.radii(W)
    X, P, d = turb.points(rng, c, 10, Rs)
    if not len(d):
        return
    cp = dict(tang=bool(rng.random() < .5), longi=bool(rng.random() < .7), root=bool(rng.random() < .7))
    ctx.sig(turb.chi_class(c['chi']), nC, cp, c['ground'], np.sign(W.Gamma_r) if W.Gamma_r is not None else None)
    turb.note(ctx, c, comps=cp)
    ctx.check('swirl_present', W.gamma_l is not None and W.Gamma_r is not None)
    u = W.compute_u(X[0], X[1], X[2], only_ind=True, **cp)
    v = turb.ref_u(c, P, np.ravel(W.gamma_t), np.ravel(W.gamma_l), W.Gamma_r, Rs, **cp)
    ctx.close3('turbine_field_swirl', u, v, 1, tol(W, d, c['R'], c['chi']), points=X, comps=cp)


def f_models(ctx):
    """the other models replace the tangential vorticity only: the root vortex, the ground and the free stream are as stated"""
    rng = ctx.rng
    md = str(rng.choice(['VC', 'VCFF', 'VD', 'SS']))
    c = turb.draw(rng, chi='zero', R=gen.rotor(rng), nCyl=1, kind='ct_array', Model=md if rng.random() < .5 else 'VC')
    c['load']['Lambda'] = float(rng.uniform(2, 12))
    if rng.random() < .3:
        c['load'] = turb.circulation(rng, c['load'], c['R'], float(np.linalg.norm(c['U0'])))
    W = turb.build(c)
    Rs = turb.radii(W)
    X, P, d = turb.points(rng, c, 8, Rs)
    if not len(d):
        return
    o = dict(Model=md)
    gr = [None, True, False][int(rng.integers(0, 3))]
    ge = c['ground'] if gr is None else gr
    ctx.sig(md, c['Model'], ge, W.Gamma_r is not None)
    turb.note(ctx, c, option=md, ground_option=gr)
    f = lambda **k: np.array(W.compute_u(X[0], X[1], X[2], ground=gr, **dict(o, **k)))
    Gr = W.Gamma_r
    root = turb.ref_u(c, P, None, None, Gr, [], tang=False, root=True, ground=ge, chi=0.0)
    t = tol(W, d, c['R'], 0)
    tang = f(only_ind=True)
    ctx.close3('root_with_other_models', f(only_ind=True, tang=False, root=True), root, 1, t, points=X, model=md)
    both = f(only_ind=True, root=True)
    s = np.linalg.norm(tang, axis=0) * 1e-9
    ctx.close3('tang_and_root_with_other_models', both, tang + root, 1, t + s, points=X, model=md)
    ctx.close3('free_stream_with_other_models', f(root=True), both + c['U0'][:, None], 1, 1e-12 * (np.linalg.norm(c['U0']) + np.linalg.norm(both, axis=0)), points=X, model=md)


def f_shape(ctx):
    """grids of control points keep their shape"""
    rng = ctx.rng
    c = turb.draw(rng, R=1.0, nCyl=int(rng.choice([1, 3])))
    W = turb.build(c)
    Rs = turb.radii(W)
    X, P, d = turb.points(rng, c, 12, Rs)
    if len(d) < 12:
        return
    cp = comps(rng)
    shp = [(12,), (12, 1), (1, 12), (3, 4), (2, 3, 2)][int(rng.integers(0, 5))]
    ctx.sig(len(shp), turb.chi_class(c['chi']), len(Rs), cp)
    turb.note(ctx, c, comps=cp, shape=shp)
    u = W.compute_u(X[0].reshape(shp), X[1].reshape(shp), X[2].reshape(shp), **cp)
    ctx.check('shape', all(np.shape(a) == shp for a in u), got=[np.shape(a) for a in u], expected=shp)
    for i in rng.choice(12, 3, replace=False):
        w = W.compute_u(X[0][i:i + 1], X[1][i:i + 1], X[2][i:i + 1], **cp)
        ctx.close3('point_alone', [np.ravel(a)[i:i + 1] for a in u], w, 1, tol(W, d, 1, 0)[i])


FAMILIES = [Family('field', f_field, 500, 12000), Family('swirl', f_swirl, 300, 8000), Family('models', f_models, 300, 6000), Family('shape', f_shape, 200, 4000)]
QUICK = 4        # cheap: more cases in the quick run
