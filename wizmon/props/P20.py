"""The velocity field of a farm is the sum of the inductions of its turbines, plus the free stream once."""
import re
import numpy as np
from ..core import Family
from .. import gen, ref, turb
from wiz.WindTurbine import WindTurbine
from wiz.WindFarm import WindFarm

RULE = ('farms of 0-6 turbines with their own frames, yaw, winds, loadings, ground and models; every option passed through; shapes of control points; random list manipulations (append, pop, '
        'insert, reorder, moving turbines, layout assignment); distinct = different (family, number of turbines, options, operations)')
ASSUMPTIONS = ['rounding of the sum: 1e-12 of the sum of the magnitudes']


def turbine(rng, simple=False, **kw):
    if simple:
        kw.update(chi=0.0, nCyl=1)
    c = turb.draw(rng, R=float(rng.uniform(.8, 2)), **kw)
    return c, turb.build(c)


def pts(rng, n=9):
    far = rng.random() < .15           # all of them far away
    return rng.uniform(-12, 12, (3, n)) * (1.0 if not far else float(gen.logu(rng, 30, 3000)))


def opts(rng):
    return dict(longi=bool(rng.random() < .5), root=bool(rng.random() < .5), tang=bool(rng.random() < .8))


def total(Ws, X, **kw):
    u, mag = np.zeros(X.shape), np.zeros(X.shape[1:])
    for W in Ws:
        v = np.array(W.compute_u(X[0], X[1], X[2], only_ind=True, **kw))
        u = u + v
        mag = mag + np.abs(v).max(0)
    return u, mag


def f_sum(ctx):
    rng = ctx.rng
    n = int(rng.integers(0, 6))
    Ws = [turbine(rng)[1] for _ in range(n)]
    o = opts(rng)
    if rng.random() < .3:
        # every turbine with the model it was given
        o = dict(tang=True)
        Ws = [turbine(rng, md != 'VC', Model=md)[1] for md in rng.choice(['VC', 'VCFF', 'VD', 'SS'], n)]
    X = pts(rng)
    nw = bool(rng.random() < .4)
    if rng.random() < .3:
        o['ground'] = bool(rng.random() < .5)
    U0 = None if rng.random() < .4 else rng.uniform(-10, 10, 3)
    if U0 is not None and rng.random() < .4:       # along one axis, or nothing
        U0[rng.choice(3, int(rng.integers(1, 4)), replace=False)] = 0
    if U0 is not None and rng.random() < .5:
        U0 = list(U0)
    WF = WindFarm(Ws, name='f')
    ctx.sig(n, o, nw, U0 is None)
    ctx.note(n=n, opts=o, no_wake=nw, U0=U0)
    u = np.array(WF.velocity_field(X[0], X[1], X[2], no_wake=nw, U0=U0, **o))
    v, mag = total(Ws, X, no_wake=nw, **o)
    add = np.zeros(3) if U0 is None else np.array(U0)
    ctx.close('farm_is_sum', u, v + add[:, None], 1, (mag + np.abs(add).max()) * 1e-12 + 1e-300)
    if n == 0:
        ctx.close('empty_farm', u, add[:, None] + 0 * X, 0)
    p = rng.permutation(n)
    w = np.array(WindFarm([Ws[i] for i in p]).velocity_field(X[0], X[1], X[2], no_wake=nw, U0=U0, **o))
    ctx.close('order_of_turbines', w, u, 1, (mag + np.abs(add).max()) * 1e-12 + 1e-300)
    k = int(rng.integers(0, n + 1))
    a = np.array(WindFarm(Ws[:k]).velocity_field(X[0], X[1], X[2], no_wake=nw, **o))
    b = np.array(WindFarm(Ws[k:]).velocity_field(X[0], X[1], X[2], no_wake=nw, **o))
    ctx.close('union_of_farms', a + b + add[:, None], u, 1, (mag + np.abs(add).max()) * 1e-12 + 1e-300)


def f_shape(ctx):
    rng = ctx.rng
    Ws = [turbine(rng)[1] for _ in range(int(rng.integers(0, 3)))]
    WF = WindFarm(Ws)
    shp = [(12,), (12, 1), (3, 4), (2, 2, 3)][int(rng.integers(0, 4))]
    X = pts(rng, 12)
    Y = X.reshape((3,) + shp)
    form = ['array', 'list', 'strided'][int(rng.integers(0, 3))]
    Z = [Y[i] for i in range(3)]
    if form == 'list':
        Z = [z.tolist() for z in Z]
    elif form == 'strided':
        Z = [np.stack([z, z], -1)[..., 0] for z in Z]
    ctx.sig(len(Ws), len(shp), form)
    ctx.note(n=len(Ws), shape=shp, form=form)
    u = WF.velocity_field(*Z)
    ctx.check('shape', all(np.shape(a) == shp for a in u), got=[np.shape(a) for a in u], expected=shp)
    v = WF.velocity_field(X[0], X[1], X[2])
    ctx.close('layout_of_points', np.array([np.ravel(a) for a in u]), np.array(v), 1e-9, np.abs(v).max() + 1e-12)


def f_model(ctx):
    """per-call model and far-field radius reach the turbines"""
    rng = ctx.rng
    Ws = [turbine(rng, True)[1] for _ in range(int(rng.integers(1, 4)))]
    WF = WindFarm(Ws)
    X = pts(rng)
    o = dict(Model=['VC', 'VCFF', 'VD', 'SS'][ctx.k % 4])
    if o['Model'] == 'VCFF':
        o['R_far_field'] = float(rng.uniform(1.5, 8))
    ctx.sig(len(Ws), o['Model'])
    ctx.note(n=len(Ws), opts=o)
    u = np.array(WF.velocity_field(X[0], X[1], X[2], **o))
    v, mag = total(Ws, X, **o)
    ctx.close('model_passed', u, v, 1, mag * 1e-12 + 1e-300)
    if o['Model'] != 'VC':
        w = np.array(WF.velocity_field(X[0], X[1], X[2]))
        if np.abs(w - u).max() > 1e-9 * np.abs(w).max():
            ctx.count('models_differ')


def f_far(ctx):
    """a turbine far away does nothing; two halves of a rotor make one"""
    rng = ctx.rng
    c, W = turbine(rng, True, ground=False)
    X, P, d = turb.points(rng, c, 8, turb.radii(W), far=False, dmin=.05)
    if not len(d):
        return
    WF = WindFarm([W])
    u = np.array(WF.velocity_field(X[0], X[1], X[2]))
    h = np.cross(c['vert'], c['shaft'])
    c2 = dict(c, hub=c['hub'] + 1e4 * h * c['R'])
    WF.append(turb.build(c2))
    v = np.array(WF.velocity_field(X[0], X[1], X[2]))
    g = turb.scale_u(W)
    ctx.sig(c['ground'])
    turb.note(ctx, c)
    ctx.close('far_turbine', v, u, 1, g * 1e-6)
    H1, H2 = turb.build(c), turb.build(c)
    a = float(rng.uniform(.1, .9))
    H1.gamma_t, H2.gamma_t = W.gamma_t * a, W.gamma_t * (1 - a)
    w = np.array(WindFarm([H1, H2]).velocity_field(X[0], X[1], X[2]))
    ctx.close('shared_strength', w, u, 1e-9, g * (1 + 1 / np.minimum(d, 1) ** 2))


def f_list(ctx):
    """list operations, layout, and positions"""
    rng = ctx.rng
    pool = [turbine(rng, True)[1] for _ in range(5)]
    ints = bool(rng.random() < .4)
    if ints:
        # hub positions given as integers
        for w in pool:
            h = rng.integers(-9, 9, 3)
            w.update_position([h, h.tolist(), tuple(h.tolist()), h.reshape(3, 1)][int(rng.integers(0, 4))])
        if rng.random() < .5:
            pool = [WindTurbine(R=w.R, r_hub=[int(v) for v in np.ravel(w.r_hub)], U0=[0, 0, 9], Ct=None, Lambda=9) for w in pool]
            for w in pool:
                w.update_loading(Ct=.5)
    model = [pool[i] for i in rng.choice(5, int(rng.integers(0, 4)), replace=False)]
    WF = WindFarm(model)
    X = pts(rng)
    ops = []
    for _ in range(int(rng.integers(1, 9))):
        op = ['append', 'pop', 'insert', 'move', 'layout', 'reverse', 'wind', 'field', 'extend'][int(rng.integers(0, 9))]
        ops.append(op)
        if op == 'append':
            w = pool[rng.integers(0, 5)]
            WF.append(w)
            model = model + [w]
        elif op == 'pop' and model:
            i = int(rng.integers(0, len(model)))
            WF.pop(i)
            model = model[:i] + model[i + 1:]
        elif op == 'insert':
            i = int(rng.integers(0, len(model) + 1))
            w = pool[rng.integers(0, 5)]
            WF.insert(i, w)
            model = model[:i] + [w] + model[i:]
        elif op == 'extend':
            WF.extend(pool[:2])
            model = model + pool[:2]
        elif op == 'move' and model:
            model[int(rng.integers(0, len(model)))].update_position(rng.uniform(-9, 9, 3))
        elif op == 'layout' and model and len(set(map(id, model))) == len(model):
            L = rng.uniform(-9, 9, (len(model), 3)) if rng.random() < .6 else rng.integers(-9, 9, (len(model), 3))
            if rng.random() < .3:          # hardly moved, or moved far
                L = np.array(WF.layout) + gen.slog(rng, 1e-9, 1e-3, L.shape) if rng.random() < .6 else gen.slog(rng, 1e3, 1e7, L.shape)
            WF.layout = L if rng.random() < .5 else L.tolist()
            ctx.close('layout_set', WF.layout, L, 0)
            for w, l in zip(model, L):
                ctx.close('turbine_moved', np.ravel(w.r_hub), l, 0)
        elif op == 'reverse':
            WF.reverse()
            model = model[::-1]
        elif op == 'wind' and model:
            # the wind of the turbines is not added to the farm field
            w = model[int(rng.integers(0, len(model)))]
            w.update_wind(np.ravel(w.U0_g) * rng.uniform(.5, 2))
        elif op == 'field':
            WF.velocity_field(X[0], X[1], X[2], U0=[1, 2, 3])
    ctx.sig(','.join(sorted(set(ops))), len(model), ints)
    ctx.note(ops=ops, n=len(model))
    ctx.check('count', WF.nWT == len(model) and len(WF) == len(model) and all(a is b for a, b in zip(WF, model)), ops=ops)
    ctx.check('layout_shape', np.shape(WF.layout) == (len(model), 3))
    for i, w in enumerate(model):
        ctx.close('layout_get', WF.layout[i], np.ravel(w.r_hub), 0)
    # the report names the number of turbines and their positions
    for rep in (WF.tostring(), repr(WF), str(WF)):
        nums = [float(t) for t in re.findall(r'(?<![\w.])[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?', rep)]
        P = np.round(np.array([np.ravel(w.r_hub) for w in model]).ravel(), 8)
        ctx.check('report_number', len(model) in nums, report=rep)
        ctx.check('report_positions', all(min(abs(t - q) for t in nums) <= 1e-2 * (1 + abs(q)) for q in P), report=rep, positions=P)
    u = np.array(WF.velocity_field(X[0], X[1], X[2]))
    v, mag = total(model, X)
    ctx.close('field_after_operations', u, v, 1, mag * 1e-12 + 1e-300, ops=ops)
    n = len(WF)
    for bad in (None, 3, 'x', np.zeros(3)):
        try:
            WF.append(bad)
            ok = False
        except Exception:
            ok = len(WF) == n
        ctx.check('only_turbines', ok, bad=str(bad))
    L0 = np.array(WF.layout)
    try:
        WF.layout = np.ones((n + 1, 3)) * 77
        ok = False
    except Exception:
        ok = True
    ctx.check('layout_shape_enforced', ok)
    ctx.check('layout_unchanged_on_error', np.array_equal(L0, WF.layout))


FAMILIES = [Family('sum', f_sum, 250, 6000), Family('shape', f_shape, 200, 4000), Family('model', f_model, 160, 4000), Family('far', f_far, 150, 3000), Family('list', f_list, 300, 8000)]
