"""The alternative models approximate the vortex cylinder: how well, and where."""
import numpy as np
from ..core import Family
from .. import gen, ref, turb
from wiz import VortexCylinder as VC, VortexDoublet as VD, SelfSimilar as SS

RULE = ('VCFF with switch radii 1.5..20, VD, SS through turbines and kernels; points inside/outside the switch sphere, far away in every direction, on the axis upstream; '
        'distinct = different (family, model, decade of the distance, side, ground)')
ASSUMPTIONS = ['far field of a semi-infinite cylinder: doublet line, relative error of order (R/D)^2 away from the wake axis (constant 0.75 measured, 2.5 allowed)',
               'SS is only meant upstream; on the axis it equals the cylinder']


def frame0(rng, Model, ground=False, **kw):
    return turb.draw(rng, Model=Model, chi=0.0, nCyl=1, ground=ground, **kw)


def call(rng, c, W, P, **kw):
    X = turb.to_global(c, P)
    u = np.array(W.compute_u(X[0], X[1], X[2], only_ind=True, **kw))
    return turb.axes(c).dot(u)


def sphere(rng, R, D, n, away=True):
    """points at distance D, away from the wake axis"""
    th = np.arccos(rng.uniform(-1, .9 if away else 1, n))
    p = rng.uniform(-np.pi, np.pi, n)
    return R * D * np.array([np.sin(th) * np.cos(p), np.sin(th) * np.sin(p), np.cos(th)])


def f_vcff(ctx):
    """inside the switch sphere: the cylinder. Outside: the doublet line of the same strength"""
    rng = ctx.rng
    c = frame0(rng, 'VCFF', R=float(rng.choice([1.0, gen.logu(rng, .02, 1), rng.uniform(1, 100), gen.logu(rng, 1e2, 1e4)])))
    W = turb.build(c)
    R, g = c['R'], float(np.ravel(W.gamma_t)[0])
    cut = float(rng.choice([6.0, rng.uniform(1.5, 20), rng.uniform(.2, 1.5)], p=[.3, .5, .2]))
    kw = {} if cut == 6.0 and rng.random() < .5 else dict(R_far_field=cut)
    D = cut * np.where(rng.random(14) < .5, rng.uniform(.05, .999, 14), 1 + gen.logu(rng, 1e-3, 20, 14))
    P = sphere(rng, R, D, 14, False)
    r = np.hypot(P[0], P[1])
    d = np.hypot(r - R, np.minimum(P[2], 0)) / R
    ins = np.sqrt((P ** 2).sum(0)) < cut * R
    ok = (np.where(ins, d, r / R) > .05)
    P, d, ins = P[:, ok], d[ok], ins[ok]
    ctx.sig(int(np.log10(cut) * 4), ins.any(), (~ins).any())
    turb.note(ctx, c, cut=cut)
    u = call(rng, c, W, P, **kw)
    v = turb.field_right('tang', P[0], P[1], P[2], g, R)
    q = np.array(ref.doublet_line_straight(P[0], P[1], P[2], g * np.pi * R ** 2))
    ctx.close3('vcff_inside', u[:, ins], v[:, ins], 1e-8, abs(g) * (1 + 1 / d[ins] ** 2))
    ctx.close3('vcff_outside', u[:, ~ins], q[:, ~ins], 1e-9, (np.sqrt((q ** 2).sum(0)) + abs(g) * 1e-12)[~ins])
    w = np.array(VC.vc_tang_u_doublet(P[0], P[1], P[2], gamma_t=g, R=R, polar_out=False, r_bar_Cut=cut))
    ctx.close3('vcff_kernel', w, np.where(ins, v, q), 1e-8, abs(g) * (1 + 1 / d ** 2))
    ur, uz = VC.vc_tang_u_doublet(P[0], P[1], P[2], gamma_t=g, R=R, polar_out=True, r_bar_Cut=cut)
    p = np.arctan2(P[1], P[0])
    ctx.close3('vcff_polar', np.array([ur * np.cos(p), ur * np.sin(p), uz]), np.where(ins, v, q), 1e-8, abs(g) * (1 + 1 / d ** 2))


def f_vcff_ground(ctx):
    """with ground effect the rotor and its mirror image each have their own switch sphere, of the same radius"""
    rng = ctx.rng
    c = frame0(rng, 'VCFF', R=float(rng.choice([1.0, gen.logu(rng, .02, 1), rng.uniform(1, 100), gen.logu(rng, 1e2, 1e4)])), height=float(rng.choice([0.0, rng.uniform(.2, 6), rng.uniform(1.2, 20)])) , ground=bool(rng.random() < .5))
    if rng.random() < .5:
        h = float(rng.uniform(.2, 6)) * c['R']
        c['hub'] = c['hub'] + (h - np.dot(c['hub'], c['vert'])) * c['vert']
    W = turb.build(c)
    R, g = c['R'], float(np.ravel(W.gamma_t)[0])
    h = float(np.dot(c['hub'], c['vert']))
    cut = float(rng.choice([6.0, rng.uniform(1.5, 20)]))
    kw = dict(ground=True) if not c['ground'] or rng.random() < .5 else {}
    if cut != 6.0 or rng.random() < .5:
        kw['R_far_field'] = cut
    n = 20
    D = cut * np.where(rng.random(n) < .5, rng.uniform(.05, .999, n), 1 + gen.logu(rng, 1e-3, 20, n))
    P = sphere(rng, R, D, n, False)
    P[1, n // 2:] -= 2 * h
    img = P + np.array([[0], [2 * h], [0]])
    ok = np.ones(n, bool)
    u0 = np.zeros((3, n))
    t = np.zeros(n)
    for Q in (P, img):
        r, D = np.hypot(Q[0], Q[1]), np.sqrt((Q ** 2).sum(0))
        d = np.hypot(r - R, np.minimum(Q[2], 0)) / R
        ins = D < cut * R
        ok &= (np.where(ins, d, r / R) > .05) & (np.abs(D / R - cut) > 1e-6)
        with np.errstate(all='ignore'):
            u0 += np.where(ins, turb.field_right('tang', Q[0], Q[1], Q[2], g, R), np.array(ref.doublet_line_straight(Q[0], Q[1], Q[2], g * np.pi * R ** 2)))
        t += abs(g) * (1 + 1 / np.maximum(d, 1e-3) ** 2)
    ctx.sig(int(np.log10(cut) * 4), int(np.clip(h / R, 0, 9)))
    turb.note(ctx, c, cut=cut, kw=kw)
    u = call(rng, c, W, P[:, ok], **kw)
    ctx.close3('vcff_ground', u, u0[:, ok], 1e-8, t[ok], points=P[:, ok])
    from wiz.WindFarm import WindFarm
    X = turb.to_global(c, P[:, ok])
    v = turb.axes(c).dot(np.array(WindFarm([W]).velocity_field(X[0], X[1], X[2], **kw)))
    ctx.close3('vcff_ground_farm', v, u0[:, ok], 1e-8, t[ok], points=P[:, ok])


def f_far(ctx):
    """all models agree far from the rotor, as (R/D)^2"""
    rng = ctx.rng
    R = float(rng.choice([1.0, gen.logu(rng, .02, 1), rng.uniform(1, 100), gen.logu(rng, 1e2, 1e4)]))
    model = ['VCFF', 'VD'][ctx.k % 2]
    c = frame0(rng, model, R=R)
    W = turb.build(c)
    D = gen.logu(rng, 6.5, 200, 10)
    P = sphere(rng, R, D, 10)
    ctx.sig(model, int(np.log10(D.max()) * 4))
    turb.note(ctx, c)
    u = call(rng, c, W, P)
    v = call(rng, c, W, P, Model='VC')
    n = np.sqrt((v ** 2).sum(0))
    th = np.arctan2(np.hypot(P[0], P[1]), P[2])
    e = np.sqrt(((u - v) ** 2).sum(0)) / n * D ** 2
    ctx.close('far_field_rate', e, 0 * e, 2.5 / np.minimum(np.sin(np.minimum(th, np.pi / 2)), 1) ** 2 + 1e-9 * D ** 4, 1, model=model, points=P)


def f_vd(ctx):
    rng = ctx.rng
    gr = bool(rng.random() < .4)
    c = frame0(rng, 'VD', R=float(rng.choice([1.0, gen.logu(rng, .02, 1), rng.uniform(1, 100), gen.logu(rng, 1e2, 1e4)])), ground=gr)
    W = turb.build(c)
    R, g = c['R'], float(np.ravel(W.gamma_t)[0])
    P = sphere(rng, R, gen.logu(rng, .2, 100, 12), 12, False)
    h = np.dot(c['hub'], c['vert'])
    img = P + np.array([[0], [2 * h], [0]])
    ok = (np.hypot(P[0], P[1]) > .05 * R) & (np.hypot(img[0], img[1]) > .05 * R)
    P, img = P[:, ok], img[:, ok]
    ctx.sig(gr)
    turb.note(ctx, c)
    u = call(rng, c, W, P)
    q = np.array(ref.doublet_line_straight(P[0], P[1], P[2], g * np.pi * R ** 2))
    if gr:
        q = q + np.array(ref.doublet_line_straight(img[0], img[1], img[2], g * np.pi * R ** 2))
    ctx.close3('vd_is_doublet_line', u, q, 1e-8, np.abs(q).max(0) + abs(g) * 1e-9)


def f_ss(ctx):
    rng = ctx.rng
    gr = bool(rng.random() < .3)
    c = frame0(rng, 'SS', R=float(rng.choice([1.0, rng.uniform(.01, 100)])), ground=gr)
    W = turb.build(c)
    R, g = c['R'], float(np.ravel(W.gamma_t)[0])
    n = 14
    P = R * np.array([rng.uniform(-4, 4, n), rng.uniform(-4, 4, n), rng.uniform(-6, 3, n)])
    P[:2, :3] = 0
    P[2, :3] = -np.abs(P[2, :3])
    h = np.dot(c['hub'], c['vert'])
    ctx.sig(gr)
    turb.note(ctx, c)
    u = call(rng, c, W, P)
    q = ref.ss(np.hypot(P[0], P[1]), P[2], g, R)
    if gr:
        q = q + ref.ss(np.hypot(P[0], P[1] + 2 * h), P[2], g, R)
    z = np.zeros(n)
    ctx.close3('ss_turbine', u, np.array([z, z, q]), 1e-9, abs(g))
    if not gr:
        v = call(rng, c, W, P[:, :3], Model='VC')
        ctx.close('ss_axis_is_cylinder', u[2, :3], v[2], 1e-8, abs(g))
        # upstream: never more than the axis value, slowing down
        ax = g / 2 * ref.ss_axis_stable(P[2], R)
        up = P[2] < 0
        ctx.check('ss_bounded', np.all(np.abs(u[2][up]) <= np.abs(ax[up]) * (1 + 1e-9) + 1e-300))


def f_override(ctx):
    """the Model argument overrides the attribute, and does not change it"""
    rng = ctx.rng
    ms = ['VC', 'VCFF', 'VD', 'SS']
    a, b = ms[int(rng.integers(0, 4))], ms[int(rng.integers(0, 4))]
    c = frame0(rng, a, R=1.0)
    ca = turb.build(c)
    cb = turb.build(dict(c, Model=b))
    P = sphere(rng, 1.0, rng.uniform(1.2, 9, 8), 8)
    ctx.sig(a, b)
    turb.note(ctx, c, override=b)
    u0 = call(rng, c, ca, P)
    u = call(rng, c, ca, P, Model=b)
    v = call(rng, c, cb, P)
    ctx.check('model_override', np.allclose(u, v, rtol=1e-12, atol=1e-14), a=a, b=b)
    ctx.check('override_is_not_kept', np.array_equal(call(rng, c, ca, P), u0), a=a, b=b)
    if a != b:
        w = call(rng, c, ca, P)
        ctx.count('models_differ', int(np.abs(w - u).max() > 1e-12))
    try:
        call(rng, c, ca, P, Model='nope')
        ok = False
    except Exception:
        ok = True
    ctx.check('unknown_model_refused', ok)


def f_unsupported(ctx):
    """a model that cannot represent the situation says so instead of answering something"""
    rng = ctx.rng
    m = ['VCFF', 'VD', 'SS'][ctx.k % 3]
    c = turb.draw(rng, Model=m, chi=float(gen.skew_angle(rng, 1e-2, 1)), nCyl=1, R=1.0, ground=False)
    W = turb.build(c)
    P = sphere(rng, 1.0, rng.uniform(1.2, 9, 4), 4)
    ctx.sig(m)
    turb.note(ctx, c)
    try:
        u = call(rng, c, W, P)
        ok = not np.any(W.gamma_t) and u is not None
    except Exception:
        ok = True
    ctx.check('skew_refused', ok, Model=m)
    W.gamma_l, W.Gamma_r = np.array([.3]), None
    for cc in (W, turb.build(dict(c, U0=np.ravel(W.e_shaft_g) * 9.0))):
        cc.gamma_l, cc.Gamma_r = np.array([.3]), None
        try:
            u = call(rng, c, cc, P, tang=False, longi=True)
            ok = np.any(u)
        except Exception:
            ok = True
        ctx.check('longitudinal_refused_or_given', ok, Model=m)
    c = turb.draw(rng, Model=m, chi=0.0, yaw=0.0, nCyl=3, R=1.0, ground=False, kind='ct_array')
    W = turb.build(c)
    try:
        call(rng, c, W, P)
        ok = False
    except Exception:
        ok = True
    ctx.check('several_cylinders_refused', ok, Model=m)


def f_root(ctx):
    """with any model the root vortex (and its image) is the same, and comes on top of the model"""
    rng = ctx.rng
    m = ['VCFF', 'VD', 'SS', 'VC'][ctx.k % 4]
    gr = bool(rng.random() < .6)
    c = frame0(rng, m, R=float(rng.choice([1.0, gen.logu(rng, .02, 1), rng.uniform(1, 100), gen.logu(rng, 1e2, 1e4)])), ground=gr)
    h = float(rng.uniform(.2, 6)) * c['R']
    if gr and rng.random() < .7:
        c['hub'] = c['hub'] + (h - np.dot(c['hub'], c['vert'])) * c['vert']
    h = float(np.dot(c['hub'], c['vert']))
    W = turb.build(c)
    R = c['R']
    G = float(gen.strength(rng)) * R
    W.Gamma_r = G if rng.random() < .5 else -G
    P = sphere(rng, R, gen.logu(rng, .3, 30, 12), 12, False)
    img = P + np.array([[0], [2 * h], [0]])
    ok = np.ones(12, bool)
    for Q in ((P, img) if gr else (P,)):
        r = np.hypot(Q[0], Q[1])
        ok &= (r > .05 * R) & (np.hypot(r - R, np.minimum(Q[2], 0)) > .05 * R) & (np.abs(np.sqrt((Q ** 2).sum(0)) / R - 6) > 1e-6) & (np.abs(Q[2]) > 1e-9 * R)
    P, img = P[:, ok], img[:, ok]
    ctx.sig(m, gr)
    turb.note(ctx, c, Gamma_r=W.Gamma_r)
    given = bool(rng.random() < .3)
    kw = dict(ground=gr) if given else {}
    u = call(rng, c, W, P, root=True, **kw) - call(rng, c, W, P, root=False, **kw)
    q = turb.field_right('root', P[0], P[1], P[2], W.Gamma_r, None)
    t = abs(G) / np.hypot(P[0], P[1])
    if gr:
        q = q + turb.field_right('root', img[0], img[1], img[2], -W.Gamma_r, None)
        t = t + abs(G) / np.hypot(img[0], img[1])
    s = np.abs(np.ravel(W.gamma_t)).max() * 400
    ctx.close3('root_on_top_of_model', u, q, 1.0, 1e-8 * t + 1e-13 * s, points=P, model=m)
    v = call(rng, c, W, P, root=True, tang=False, **kw)
    ctx.close3('root_alone', v, q, 1.0, 1e-8 * t, points=P, model=m)


FAMILIES = [Family('vcff', f_vcff, 500, 12000), Family('vcff_ground', f_vcff_ground, 300, 8000), Family('far', f_far, 300, 8000), Family('vd', f_vd, 300, 6000), Family('ss', f_ss, 300, 6000), Family('root', f_root, 200, 4000), Family('override', f_override, 200, 3000),
            Family('unsupported', f_unsupported, 90, 1000)]
QUICK = 8        # cheap: more cases in the quick run
