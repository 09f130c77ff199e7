"""A turbine is its settings: the order and number of updates, evaluations and displays that led to them do not matter."""
import copy
import numpy as np
from ..core import Family
from .. import gen, ref, turb
from wiz.WindTurbine import WindTurbine

PI = np.pi
RULE = ('random sequences of 2 to 14 operations (yaw, wind, position, loading, prescribed and released skew, ground, model, zero-yaw frame, evaluations with random options, reading of every '
        'property, printing, deep copies), then a comparison with a turbine made directly in the final state; distinct = different (family, set of operations, last operation)')
ASSUMPTIONS = ['the loading is computed with the wind speed at the time of update_loading (as documented: "when the turbine loading is updated")']


class Model(object):
    """the settings, as a user keeps track of them"""

    def __init__(self, c):
        self.c = dict(c)
        self.Uload = c['U0']
        self.chi = None

    def fresh(self):
        c = self.c
        W = WindTurbine(R=c['R'], r_hub=c['hub'].copy(), e_shaft_yaw0=c['shaft'].copy(), e_vert=c['vert'].copy(), U0=self.Uload.copy(), Ground=c['ground'], Model=c['Model'])
        W.update_loading(**c['load'])
        W.update_wind(c['U0'].copy())
        W.update_yaw_pos(c['yaw'])
        if self.chi is not None:
            W.set_chi(self.chi)
        return W


def wind(rng, c):
    h = np.cross(c['vert'], c['shaft'])
    a = c['yaw'] + (0.0 if rng.random() < .25 else gen.skew_angle(rng))
    if rng.random() < .15:                 # hardly any change
        return ref.rot(c['vert'], gen.slog(rng, 1e-7, 1e-2, 1)[0]).dot(c['U0']) * (1 + gen.slog(rng, 1e-9, 1e-3, 1)[0])
    U = float(np.linalg.norm(c['U0'])) if rng.random() < .3 else float(rng.uniform(3, 25))       # sometimes only the direction changes
    return U * (np.cos(a) * c['shaft'] + np.sin(a) * h)


def skew(M):
    """skew angle of the current settings"""
    return M.chi if M.chi is not None else turb.chi_of(M.c)


OPS = ['copy', 'yaw', 'wind', 'position', 'loading', 'compute', 'compute', 'read', 'print', 'chi', 'release', 'ground', 'disk', 'same', 'frame', 'model']


def apply(rng, W, M, op, X):
    c = M.c
    turb_yaw = c['yaw']
    if op == 'yaw':
        # keep the skew within what the model is meant for
        w = np.arctan2(np.dot(c['U0'], np.cross(c['vert'], c['shaft'])), np.dot(c['U0'], c['shaft']))
        c['yaw'] = float(w - (0.0 if rng.random() < .2 else gen.skew_angle(rng)))
        if rng.random() < .1:
            c['yaw'] += 2 * PI * int(rng.integers(-3, 4))
        if rng.random() < .15:             # hardly any change
            c['yaw'] = float(turb_yaw + gen.slog(rng, 1e-7, 1e-2, 1)[0])
        W.update_yaw_pos(c['yaw'])
    elif op == 'wind':
        c['U0'] = wind(rng, c)
        W.update_wind(list(c['U0']) if rng.random() < .5 else c['U0'].copy())
    elif op == 'position':
        c['hub'] = c['hub'] + rng.uniform(-1, 1, 3) * c['R'] * float(rng.choice([1.0, 1e-2, 1e-4, 100.0]))
        if rng.random() < .3:              # whole numbers, only one coordinate changes
            h = np.round(c['hub'])
            h[int(rng.integers(0, 3))] += float(rng.integers(-9, 10))
            W.update_position([int(a) for a in np.round(c['hub'])])
            W.update_position([int(a) for a in h] if rng.random() < .5 else np.array(h, int))
            c['hub'] = h
            return
        W.update_position(list(c['hub']) if rng.random() < .5 else c['hub'].copy())
    elif op == 'loading':
        ld = turb.loading(rng, c['R'])
        if rng.random() < .2:              # one cylinder per given station
            n = int(rng.integers(1, 6))
            x = np.sort(rng.uniform(.1, 1, n)) if n > 1 else np.array([.995])
            ld = dict(r=x * c['R'], Ct=gen.ct(rng, 1.0) * np.linspace(1, .7, n), Lambda=gen.lam(rng), nCyl=None)
        elif rng.random() < .25:
            ld = turb.circulation(rng, ld, c['R'], float(np.linalg.norm(c['U0'])))
        if rng.random() < .35:             # the tip-speed ratio is kept when it is not given
            W.update_loading(**{k: v for k, v in ld.items() if k != 'Lambda'})
            ld['Lambda'] = c['load']['Lambda']
        else:
            W.update_loading(**ld)
        c['load'] = ld
        M.Uload = c['U0']
    elif op == 'compute':
        o = dict(tang=bool(rng.random() < .8), longi=bool(rng.random() < .5), root=bool(rng.random() < .5), only_ind=bool(rng.random() < .5),
                 no_wake=bool(rng.random() < .3), ground=[None, True, False][int(rng.integers(0, 3))])
        if len(np.atleast_1d(W.gamma_t)) == 1 and abs(skew(M)) < 1e-12 and rng.random() < .3:
            o['Model'] = ['VC', 'VCFF', 'VD', 'SS'][int(rng.integers(0, 4))]
            o['longi'] = False
            if abs(W.yaw_wind - W.yaw_pos) > 1e-9:
                o['Model'] = 'VC'
        if c['Model'] != 'VC' and not alternative(W, M):
            o.setdefault('Model', 'VC')    # the other models have one straight cylinder
        elif c['Model'] != 'VC' and o.get('Model') != 'VC':
            o['longi'] = False
        u = W.compute_u(X[0], X[1], X[2], **o)
        for a in u:
            a += 17.0          # the caller owns what was returned
    elif op == 'read':
        W.yaw_wind, W.yaw_error
    elif op == 'print':
        str(W), W.tostring(short=False)
    elif op == 'chi':
        M.chi = float(rng.choice([0.0, gen.skew_angle(rng, 1e-3, 1.0)], p=[.3, .7]))
        W.set_chi(M.chi)
    elif op == 'release':
        M.chi = None
        W.set_chi(None)
    elif op == 'ground':
        c['ground'] = not c['ground']
        W.Ground = c['ground']
    elif op == 'model':
        c['Model'] = str(rng.choice(['VC', 'VC', 'VCFF', 'VD', 'SS']))
        W.Model = c['Model']
    elif op == 'disk':
        P = W.rotor_disk_points(nP=int(rng.integers(2, 12)))
        P += 3.0
    elif op == 'same':
        W.update_yaw_pos(c['yaw'])
        W.update_wind(c['U0'])
        W.update_position(c['hub'])
    elif op == 'frame':
        # a rotation of the zero yaw frame about the vertical; the yaw position becomes zero
        a = rng.uniform(-.7, .7)
        c['shaft'] = ref.rot(c['vert'], a).dot(turb.axes(c)[2])
        c['yaw'] = 0.0
        W.set_yaw0_coord(c['shaft'].copy(), c['vert'].copy())
        if abs(skew(M)) > 1.2:
            c['U0'] = wind(rng, c)
            W.update_wind(c['U0'].copy())


def alternative(W, M):
    return len(np.atleast_1d(W.gamma_t)) == 1 and abs(skew(M)) < 1e-12 and (M.chi is not None or abs(ref.wrap(W.yaw_wind - W.yaw_pos)) < 5e-8)


def compare(ctx, W, M, ops, X):
    F = M.fresh()
    o = dict(longi=True, root=True)
    if M.c['Model'] != 'VC':
        o = dict(root=True) if alternative(F, M) else dict(o, Model='VC')
    a, b = np.array(W.compute_u(X[0], X[1], X[2], **o)), np.array(F.compute_u(X[0], X[1], X[2], **o))
    P = turb.to_local(M.c, X)
    d = turb.dist(M.c, P, turb.radii(F), np.tan(skew(M)))
    ok = d > .02
    t = (turb.scale_u(F) * (1 + 1 / np.maximum(d, .02) ** 3) + np.linalg.norm(M.c['U0'])) * 1e-6
    ctx.close3('same_as_fresh', a[:, ok], b[:, ok], 1, t[ok], ops=ops, skew=skew(M))
    ctx.close('same_loading', np.ravel(W.gamma_t), np.ravel(F.gamma_t), 1e-12, np.max(np.abs(F.gamma_t)) + 1e-300, ops=ops)
    for k in ('gamma_l', 'Gamma_r', 'Lambda', 'r'):
        a, b = getattr(W, k), getattr(F, k)
        ctx.check('same_loading_attributes', (a is None and b is None) or np.array_equal(np.asarray(a, float), np.asarray(b, float), equal_nan=True) or
                  (a is not None and b is not None and np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-12)), attribute=k, got=a, expected=b, ops=ops)
    ctx.check('same_angles', abs(ref.wrap(W.yaw_wind - F.yaw_wind)) < 1e-6 and abs(ref.wrap(W.yaw_error - F.yaw_error)) < 1e-6, ops=ops)
    ctx.close('same_disk', W.rotor_disk_points(nP=7), F.rotor_disk_points(nP=7), 1e-9, M.c['R'] + np.linalg.norm(M.c['hub']), ops=ops)


def f_history(ctx):
    rng = ctx.rng
    c = turb.draw(rng, R=gen.rotor(rng), gamma=.2)
    M = Model(c)
    W = turb.build(c)
    X, P, d = turb.points(rng, c, 5, turb.radii(W), dmin=0.1)
    if not len(d):
        return
    ops = [str(o) for o in rng.choice(OPS, int(rng.integers(2, 15)))]
    turb.note(ctx, c, ops=ops)
    left = []
    for i, op in enumerate(list(ops)):
        if op == 'copy':                   # a copy goes on as the turbine would have; the turbine left behind is not concerned by what follows
            left.append((W, copy.deepcopy(M), ops[:i + 1]))
            W = copy.deepcopy(W)
            continue
        apply(rng, W, M, op, X)
        if rng.random() < .15:
            compare(ctx, W, M, ops[:i + 1], X)
    ctx.sig(','.join(sorted(set(ops))), ops[-1])
    if left and rng.random() < .5:         # both go on
        W0, M0, o = left[-1]
        more = [str(a) for a in rng.choice(OPS[1:], 3)] + [str(a) for a in rng.choice(['frame', 'yaw', 'wind', 'loading', 'position'], 3)]
        for op in more:
            apply(rng, W0, M0, op, X)
            op = str(rng.choice(['yaw', 'wind', 'loading', 'position', 'compute']))
            apply(rng, W, M, op, X)
            ops.append(op)
        left[-1] = (W0, M0, o + more)
    compare(ctx, W, M, ops, X)
    for W0, M0, o in left[-1:]:
        ctx.count('copies')
        compare(ctx, W0, M0, o, X)


def f_idempotent(ctx):
    """evaluating twice gives the same field, bit for bit"""
    rng = ctx.rng
    c = turb.draw(rng, R=1.0)
    W = turb.build(c)
    X, P, d = turb.points(rng, c, 6, turb.radii(W))
    if not len(d):
        return
    o = dict(longi=bool(rng.random() < .5), root=bool(rng.random() < .5), no_wake=bool(rng.random() < .3), only_ind=bool(rng.random() < .5))
    a = np.array(W.compute_u(X[0], X[1], X[2], **o))
    str(W), W.yaw_error
    W.compute_u(2 * X[0], X[1], X[2], ground=not c['ground'], tang=False, root=True)
    b = np.array(W.compute_u(X[0], X[1], X[2], **o))
    ctx.sig(turb.chi_class(c['chi']), len(turb.radii(W)), o)
    turb.note(ctx, c, opts=o)
    ctx.check('repeatable', np.array_equal(a, b, equal_nan=True), a=a, b=b)


def f_two(ctx):
    """turbines do not share state: what happens to one leaves the other alone"""
    rng = ctx.rng
    c1, c2 = turb.draw(rng, R=1.0), turb.draw(rng, R=2.0)
    load = c1['load']
    W1 = turb.build(c1)
    X, P, d = turb.points(rng, c1, 5, turb.radii(W1), dmin=.1)
    if not len(d):
        return
    a = np.array(W1.compute_u(X[0], X[1], X[2], longi=True))
    c2 = dict(c2, load=dict(load, r=None if load['r'] is None else load['r'] * 2))
    W2 = turb.build(c2)
    M = Model(c2)
    ops = [str(o) for o in rng.choice(OPS[1:], 6)]
    for op in ops:
        apply(rng, W2, M, op, X)
    b = np.array(W1.compute_u(X[0], X[1], X[2], longi=True))
    ctx.sig(','.join(sorted(set(ops))))
    turb.note(ctx, c1, ops=ops)
    ctx.check('independent_turbines', np.array_equal(a, b, equal_nan=True), ops=ops)
    W3 = WindTurbine(R=1.0)
    ctx.check('default_position', np.array_equal(np.ravel(W3.r_hub), [0, 0, 0]) and np.array_equal(np.ravel(W3.U0_g), [0, 0, 10]) and
              np.array_equal(np.ravel(W3.e_shaft_g), [0, 0, 1]) and np.array_equal(np.ravel(W3.e_vert_g), [0, 1, 0]))


FAMILIES = [Family('history', f_history, 700, 20000), Family('repeat', f_idempotent, 250, 5000), Family('two', f_two, 250, 5000)]
