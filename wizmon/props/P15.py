"""A turbine has no preferred frame, unit of length or unit of speed."""
import numpy as np
from ..core import Family
from .. import gen, ref, turb

RULE = ('turbines in random frames (a third along coordinate axes) moved rigidly by random rotations and translations, mirrored laterally, scaled in length (1e-2..1e3) and '
        'speed (1e-2..1e2); all models, no_wake, ground, 1-8 cylinders; distinct = different (family, model, skew class, cylinders, swirl, ground)')
ASSUMPTIONS = ['with ground effect, the motions are rotations of everything about the global origin, and translations along the ground',
               'points at the boundary of the no_wake zone and at the switch radius of VCFF are left out']


def setup(rng, models=True):
    Model = str(rng.choice(['VC', 'VCFF', 'VD', 'SS'], p=[.55, .15, .15, .15])) if models else 'VC'
    if Model == 'VC':
        c = turb.draw(rng, R=gen.rotor(rng))
    else:
        c = turb.draw(rng, R=gen.rotor(rng), chi=0.0, Model=Model, nCyl=1)
    c['opts'] = dict(tang=True, longi=bool(rng.random() < .6) and Model == 'VC', root=bool(rng.random() < .6), no_wake=bool(rng.random() < .25))
    return c


def keep(c, X, P, d):
    R = c['R']
    r = np.hypot(P[0], P[1])
    ok = np.abs(r / R - 1.001) > 1e-6
    ok &= np.abs(P[2] / R + .6) > 1e-6
    h = np.dot(c['hub'], c['vert'])
    for y in (P[1], P[1] + 2 * h):
        D = np.sqrt(P[0] ** 2 + y ** 2 + P[2] ** 2)
        ok &= np.abs(D / R - 6) > 1e-6
        if c['Model'] == 'SS':
            ok &= np.abs(P[2]) / R > 1e-9
        if c['Model'] == 'VD':
            ok &= (np.hypot(P[0], y) > .05 * R)
    return X[:, ok], P[:, ok], d[ok]


def run(c, X, **kw):
    W = turb.build(c)
    return np.array(W.compute_u(X[0], X[1], X[2], **dict(c['opts'], **kw))), W


def sig(ctx, c, W):
    ctx.sig(c['Model'], turb.chi_class(c['chi']), len(turb.radii(W)), W.gamma_l is not None, c['ground'])


def tol(W, d):
    return (turb.scale_u(W) * (1 + 1 / np.minimum(d, 1) ** 3) + np.linalg.norm(W.U0_g) * 1e-3) * 1e-9


def f_rigid(ctx):
    rng = ctx.rng
    c = setup(rng)
    W0 = turb.build(c)
    X, P, d = keep(c, *turb.points(rng, c, 10, turb.radii(W0)))
    if not len(d):
        return
    u, W = run(c, X)
    Q = ref.rot(gen.unit(rng), rng.uniform(-np.pi, np.pi))
    if rng.random() < .3:
        A = np.eye(3)[rng.permutation(3)]
        Q = A * np.linalg.det(A)
    t = rng.uniform(-10, 10, 3) * c['R']
    v2 = Q.dot(c['vert'])
    if c['ground']:
        t = t - np.dot(t, v2) * v2
    c2 = dict(c, shaft=Q.dot(c['shaft']), vert=v2, U0=Q.dot(c['U0']), hub=Q.dot(c['hub']) + t)
    sig(ctx, c, W)
    turb.note(ctx, c, opts=c['opts'], Q=Q, t=t)
    u2, W2 = run(c2, Q.dot(X) + t[:, None])
    ctx.close3('rigid_motion', u2, Q.dot(u), 1, tol(W, d), points=X, Model=c['Model'])
    ctx.close('loading_same', np.ravel(W2.gamma_t), np.ravel(W.gamma_t), 1e-9, np.max(np.abs(W.gamma_t)) + 1e-300)


def f_mirror(ctx):
    """reflection of the wind and points across the vertical plane through the unyawed shaft: tangential vorticity only, or all with reversed swirl"""
    rng = ctx.rng
    c = setup(rng)
    X, P, d = keep(c, *turb.points(rng, c, 10, turb.radii(turb.build(c))))
    if not len(d):
        return
    h = np.cross(c['vert'], c['shaft'])
    M = np.eye(3) - 2 * np.outer(h, h)
    c2 = dict(c, U0=M.dot(c['U0']), yaw=-c['yaw'], hub=M.dot(c['hub']))
    for opts, sgn in ((dict(tang=True, longi=False, root=False), 1), (dict(tang=False, longi=c['opts']['longi'], root=True), -1)):
        o = dict(opts, only_ind=True, no_wake=c['opts']['no_wake'])
        u, W = run(c, X, **o)
        u2, W2 = run(c2, M.dot(X), **o)
        ctx.close3('lateral_mirror', u2, sgn * M.dot(u), 1, tol(W, d), points=X, Model=c['Model'], opts=o)
    sig(ctx, c, W)
    turb.note(ctx, c)


def f_scale(ctx):
    rng = ctx.rng
    c = setup(rng)
    if 'gamma_t_Ct' in c['load']:
        del c['load']['gamma_t_Ct']
    X, P, d = keep(c, *turb.points(rng, c, 10, turb.radii(turb.build(c))))
    if not len(d):
        return
    if c['opts']['no_wake'] or rng.random() < .2:
        # next to the boundary of the zone without induction
        a, n = rng.uniform(-np.pi, np.pi, 8), 8
        rr = c['R'] * (1.001 + rng.choice([-1, 1], n) * gen.logu(rng, 1e-4, .1, n))
        zz = c['R'] * np.where(rng.random(n) < .5, -.6 + rng.choice([-1, 1], n) * gen.logu(rng, 1e-4, .1, n), rng.uniform(-1, 3, n))
        zz[::3] = c['R'] * rng.uniform(.02, .2)
        Pb = np.array([rr * np.cos(a), rr * np.sin(a), zz])
        Pb[:2, ::4] *= rng.uniform(0, .9)
        if c['chi'] == 0:
            db = turb.dist(c, Pb, turb.radii(turb.build(c)), 0.0)
            I = db > 1e-3
            Xb, Pb, db = keep(c, turb.to_global(c, Pb[:, I]), Pb[:, I], db[I])
            X, P, d = np.hstack((X, Xb)), np.hstack((P, Pb)), np.concatenate((d, db))
    u, W = run(c, X)
    L = float(gen.logu(rng, 1e-4, 1e3)) / c['R'] ** .5
    s = float(gen.logu(rng, 1e-2, 1e2))
    ld = dict(c['load'])
    if ld['r'] is not None:
        ld['r'] = ld['r'] * L
    c2 = dict(c, R=c['R'] * L, hub=c['hub'] * L, U0=c['U0'] * s, load=ld)
    sig(ctx, c, W)
    turb.note(ctx, c, L=L, s=s)
    u2, W2 = run(c2, X * L)
    ctx.close3('length_and_speed_units', u2 / s, u, 1, tol(W, d), points=X, Model=c['Model'], L=L, s=s)


def f_frame_free(ctx):
    """describing the same turbine by another zero-yaw direction changes nothing"""
    rng = ctx.rng
    c = setup(rng)
    X, P, d = keep(c, *turb.points(rng, c, 10, turb.radii(turb.build(c))))
    if not len(d):
        return
    a = rng.uniform(-np.pi, np.pi)
    if c['Model'] != 'VC':
        return
    c2 = dict(c, shaft=ref.rot(c['vert'], a).dot(c['shaft']), yaw=c['yaw'] - a)
    u, W = run(c, X)
    u2, W2 = run(c2, X)
    sig(ctx, c, W)
    turb.note(ctx, c, offset=a)
    ctx.close3('zero_yaw_reference', u2, u, 1, tol(W, d) * 10, points=X)


FAMILIES = [Family('rigid', f_rigid, 500, 12000), Family('mirror', f_mirror, 300, 8000), Family('scale', f_scale, 400, 9000), Family('reference', f_frame_free, 200, 5000)]
