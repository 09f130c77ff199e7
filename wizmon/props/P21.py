"""no_wake: a turbine induces nothing on itself nor in its wake tube, and exactly the same as before everywhere else."""
import numpy as np
from ..core import Family
from .. import gen, ref, turb
from wiz.WindFarm import WindFarm

RULE = ('turbines of every model, skew, ground and loading; points inside the tube (downstream of 0.6R upstream of the rotor, within R), on the rotor disk, just beyond its limits, elsewhere; farms; '
        'distinct = different (family, model, skew class, cylinders, ground, side)')
ASSUMPTIONS = ['tube: the code (radius 1.001R, from -0.6R) is only judged up to margins: inside 0.999R and downstream of -0.595R the induction must be 0, beyond 1.01R or upstream of -0.605R it must be untouched']


def draw(rng):
    Model = str(rng.choice(['VC', 'VCFF', 'VD', 'SS'], p=[.55, .15, .15, .15]))
    kw = dict(R=float(rng.choice([gen.rotor(rng), gen.logu(rng, 1e-3, 1e3)])))
    if Model != 'VC':
        kw.update(chi=0.0, nCyl=1, Model=Model)
    return turb.draw(rng, **kw)


def inside(rng, R, n):
    r = R * rng.choice([0.0, .5, .999], n) * rng.uniform(.9, 1, n)
    r = np.where(rng.random(n) < .4, R * np.sqrt(rng.uniform(0, .99, n)), r)
    z = R * np.where(rng.random(n) < .4, rng.uniform(-.595, 0, n), gen.logu(rng, 1e-3, float(rng.choice([50, 50, 5000])), n))
    z = np.where(rng.random(n) < .15, 0.0, z)
    p = rng.uniform(-np.pi, np.pi, n)
    return np.array([r * np.cos(p), r * np.sin(p), z])


def outside(rng, R, n):
    r = R * (1.01 + gen.logu(rng, 1e-3, 10, n))
    z = R * rng.uniform(-5, 8, n)
    up = rng.random(n) < .4
    r = np.where(up, R * rng.uniform(0, 3, n), r)
    z = np.where(up, -R * (.605 + gen.logu(rng, 1e-3, 10, n)), z)
    r = np.where(up & (rng.random(n) < .25), 0.0, r)          # upstream, on the axis
    p = rng.uniform(-np.pi, np.pi, n)
    return np.array([r * np.cos(p), r * np.sin(p), z])


def opts(rng, c):
    vc = c['Model'] == 'VC'
    return dict(tang=bool(rng.random() < .75), longi=vc and bool(rng.random() < .5), root=bool(rng.random() < .5))


def sig(ctx, c, side):
    ctx.sig(c['Model'], turb.chi_class(c['chi']), c['load']['nCyl'], c['ground'], side)


def f_inside(ctx):
    rng = ctx.rng
    c = draw(rng)
    W = turb.build(c)
    X = turb.to_global(c, inside(rng, c['R'], 15))
    o = opts(rng, c)
    sig(ctx, c, 'in')
    turb.note(ctx, c, opts=o)
    u = np.array(W.compute_u(X[0], X[1], X[2], only_ind=True, no_wake=True, **o))
    ctx.close('no_induction_in_tube', u, 0 * X, 0, points=X)
    v = np.array(W.compute_u(X[0], X[1], X[2], no_wake=True, **o))
    ctx.close('free_stream_in_tube', v, c['U0'][:, None] + 0 * X, 0, points=X)


def f_outside(ctx):
    rng = ctx.rng
    c = draw(rng)
    W = turb.build(c)
    X = turb.to_global(c, outside(rng, c['R'], 15))
    o = opts(rng, c)
    oi = bool(rng.random() < .5)
    sig(ctx, c, 'out')
    turb.note(ctx, c, opts=o)
    u = np.array(W.compute_u(X[0], X[1], X[2], only_ind=oi, no_wake=True, **o))
    v = np.array(W.compute_u(X[0], X[1], X[2], only_ind=oi, **o))
    ctx.close('unchanged_elsewhere', u, v, 1e-12, turb.scale_u(W) + np.abs(v), points=X)
    w = np.array(W.compute_u(X[0], X[1], X[2], only_ind=oi, no_wake=False, **o))
    ctx.check('default_is_off', np.array_equal(v, w, equal_nan=True))


def f_mixed(ctx):
    """one batch holding both kinds, any shape, and masked points"""
    rng = ctx.rng
    c = draw(rng)
    W = turb.build(c)
    n = 12
    P = np.where(rng.random(n) < .5, inside(rng, c['R'], n), outside(rng, c['R'], n))
    ins = (np.hypot(P[0], P[1]) < 1.0005 * c['R']) & (P[2] > -.6 * c['R'])
    X = turb.to_global(c, P)
    shp = [(12,), (3, 4), (12, 1), (2, 2, 3)][int(rng.integers(0, 4))]
    o = opts(rng, c)
    sig(ctx, c, 'mixed%d' % len(shp))
    turb.note(ctx, c, opts=o)
    u = np.array(W.compute_u(*[a.reshape(shp) for a in X], only_ind=True, no_wake=True, **o)).reshape(3, n)
    v = np.array(W.compute_u(*X, only_ind=True, **o))
    ctx.close('mixed_batch', u, np.where(ins, 0.0, v), 1e-9, (turb.scale_u(W) + np.abs(v)), points=X)


def f_farm(ctx):
    """each turbine is blind in its own tube only: turbine i feels the others"""
    rng = ctx.rng
    fr = (np.array([0, 0, 1.]), np.array([0, 1., 0]))
    n = int(rng.integers(2, 5))
    cs = []
    for i in range(n):
        c = turb.draw(rng, R=1.0, frame=fr, chi=0.0, yaw=0.0, nCyl=1, ground=False, height=2.0, U=10.0)
        c['hub'] = np.array([4.0 * i, 2.0, float(rng.uniform(-1, 1))])
        cs.append(c)
    Ws = [turb.build(c) for c in cs]
    WF = WindFarm(Ws)
    P = inside(rng, 1.0, 6)
    P[2] = np.minimum(P[2], 5)
    ctx.sig(n)
    ctx.note(n=n, hubs=[c['hub'] for c in cs])
    for i in range(n):
        X = turb.to_global(cs[i], P)
        u = np.array(WF.velocity_field(X[0], X[1], X[2], no_wake=True))
        v = np.sum([np.array(W.compute_u(X[0], X[1], X[2], only_ind=True)) for j, W in enumerate(Ws) if j != i], axis=0)
        ctx.close('farm_no_self_induction', u, v, 1e-9, sum(turb.scale_u(W) for W in Ws), points=X)


FAMILIES = [Family('inside', f_inside, 600, 15000), Family('outside', f_outside, 600, 15000), Family('mixed', f_mixed, 400, 9000), Family('farm', f_farm, 150, 3000)]
QUICK = 5        # cheap: more cases in the quick run
