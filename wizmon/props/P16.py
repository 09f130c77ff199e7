"""Yaw, wind and skew follow one convention: positive about the vertical, and the wake goes where the wind goes."""
import numpy as np
from ..core import Family
from .. import gen, ref, turb
from wiz.WindTurbine import WindTurbine

PI = np.pi
RULE = ('random frames; yaw over the full turn, yaw differences from 1e-6 to 1.4 of both signs, exact alignment, wind given with or without round-off, wind speeds 1e-2..1e2; '
        'distinct = different (family, skew class, frame kind, quadrant of yaw)')
ASSUMPTIONS = ['angles are recovered through arccos by the code: an absolute accuracy of 5e-7 rad is asked for, or 1e-9/angle away from 0 and pi',
               'horizontal shaft (no tilt)']


def atol(a):
    """accuracy of arccos"""
    s = np.maximum(np.abs(np.sin(a)), 1e-9)
    return float(np.minimum(5e-7, 1e-13 / s) + 2e-12)


def f_angles(ctx):
    rng = ctx.rng
    c = turb.draw(rng, R=1.0, U=float(gen.logu(rng, 1e-2, 1e2)))
    W = turb.build(c, load=False)
    w = c['yaw'] + c['chi']
    ctx.sig(turb.chi_class(c['chi']), int(np.floor(ref.wrap(c['yaw']) * 2 / PI)), bool(np.any(c['shaft'] == 1) or np.any(c['shaft'] == -1)))
    turb.note(ctx, c)
    yw = W.yaw_wind
    ctx.check('yaw_wind', np.isfinite(yw) and abs(ref.wrap(yw - w)) <= atol(w), got=yw, expected=ref.wrap(w))
    ctx.check('yaw_wind_range', abs(yw) <= PI + 1e-12, got=yw)
    ye = W.yaw_error
    ctx.check('yaw_error', np.isfinite(ye) and abs(ref.wrap(ye + c['chi'])) <= atol(c['chi']), got=ye, expected=-c['chi'])
    ctx.close('shaft_follows_yaw', np.ravel(W.e_shaft_g), ref.rot(c['vert'], c['yaw']).dot(c['shaft']), 1e-13)
    ctx.close('vertical_fixed', np.ravel(W.e_vert_g), c['vert'], 0)
    T = np.asarray(W.T_F2g)
    ctx.close('fast_frame', T.T.dot(T), np.eye(3), 1e-12)
    ctx.close('fast_frame_axes', np.array([T[:, 0], T[:, 2]]), np.array([c['shaft'], c['vert']]), 1e-12)
    ctx.check('fast_frame_right_handed', np.linalg.det(T) > 0)
    T = np.dot(W.T_wt2g, W.T_c2wt)
    A = turb.axes(c)
    ctx.close('cylinder_frame', T.T, A, 1e-12)


def f_headings(ctx):
    """any wind heading, opposite to the shaft and across it included"""
    rng = ctx.rng
    c = turb.draw(rng, R=1.0, U=float(gen.logu(rng, 1e-2, 1e2)))
    if rng.random() < .5:
        # axes along the coordinate axes: alignment and opposition without round-off
        I = np.eye(3)[rng.permutation(3)] * rng.choice([-1., 1.], 3)[:, None]
        c.update(shaft=I[0], vert=I[1], yaw=0.0 if rng.random() < .6 else c['yaw'])
    k = int(rng.integers(0, 6))
    w = [0.0, PI, -PI / 2, PI / 2, float(rng.uniform(-PI, PI)), float(rng.choice([-1, 1]) * (PI - gen.logu(rng, 1e-9, 1e-1)))][k]   # from the shaft at zero yaw
    if rng.random() < .5:
        w = w + c['yaw']                                                                                                         # from the shaft
    U = float(np.linalg.norm(c['U0']))
    d = ref.rot(c['vert'], w).dot(c['shaft'])
    if k < 4 and abs(ref.wrap(w) * 2 / PI - round(ref.wrap(w) * 2 / PI)) < 1e-12 and set(np.abs(c['shaft'])) == {0.0, 1.0}:
        d = np.round(d)
    c['U0'] = U * d
    W = turb.build(c, load=False)
    if rng.random() < .3:
        W.update_wind([0.3, 0.2, 10.0])
        W.update_wind(c['U0'].tolist())
    ctx.sig(k, c['yaw'] == 0, set(np.abs(c['shaft'])) == {0.0, 1.0}, turb.chi_class(ref.wrap(w)))
    ctx.note(shaft=c['shaft'], vert=c['vert'], yaw=c['yaw'], U0=c['U0'], w=w)
    yw, ye = W.yaw_wind, W.yaw_error
    ctx.check('yaw_wind', np.isfinite(yw) and abs(ref.wrap(yw - w)) <= atol(w), got=yw, expected=ref.wrap(w))
    e = c['yaw'] - w
    ctx.check('yaw_error', np.isfinite(ye) and abs(ref.wrap(ye - e)) <= atol(e), got=ye, expected=ref.wrap(e))
    ctx.check('range', abs(yw) <= PI + 1e-12 and abs(ye) <= PI + 1e-12, got=(yw, ye))


def f_wake(ctx):
    """where the induced velocity of the far wake is found"""
    rng = ctx.rng
    chi = gen.skew_angle(rng, .05, 1.1) if rng.random() < .8 else 0.0
    c = turb.draw(rng, R=gen.rotor(rng), chi=chi, nCyl=1, ground=False)
    W = turb.build(c)
    presc = rng.random() < .3
    if presc:
        chi = float(gen.skew_angle(rng, .05, 1.1))
        W.set_chi(chi)
    A = turb.axes(c)
    m = np.tan(chi)
    d = A[2] + m * A[0]
    if not presc:
        ctx.close('wake_direction_is_wind', d / np.linalg.norm(d), c['U0'] / np.linalg.norm(c['U0']), 1e-9)
    R, g = c['R'], float(np.ravel(W.gamma_t)[0])
    s = float(rng.uniform(60, 300)) * R
    off = A[1] * rng.uniform(-.6, .6) * R
    X = np.array([c['hub'] + s * d + off]).T
    ctx.sig(turb.chi_class(chi), presc, len(turb.radii(W)))
    turb.note(ctx, c, s=s)
    u = np.array(W.compute_u(X[0], X[1], X[2], only_ind=True))[:, 0]
    # inside the far wake the axial velocity is that of the infinite oblique cylinder
    ctx.close('far_wake_axial', np.dot(u, A[2]), g, 2e-3, abs(g))
    if abs(m) * s > 3 * R:
        for name, e in (('opposite', A[2] - m * A[0]), ('straight', A[2])):
            Y = c['hub'] + s * e
            v = np.array(W.compute_u(Y[:1], Y[1:2], Y[2:], only_ind=True))[:, 0]
            ctx.check('no_wake_elsewhere', abs(np.dot(v, A[2])) <= .3 * abs(g) * (R / (abs(m) * s)) , where=name, got=v, g=g)
    # upstream there is no wake
    Y = c['hub'] - 50 * R * d
    v = np.array(W.compute_u(Y[:1], Y[1:2], Y[2:], only_ind=True))[:, 0]
    ctx.check('no_wake_upstream', np.linalg.norm(v) <= 1e-3 * abs(g), got=v, g=g)


def f_yaw_equals_wind(ctx):
    """yawing the rotor by -b while the wind stands still = the wind turning by b, seen from the rotor"""
    rng = ctx.rng
    c = turb.draw(rng, R=1.0, ground=False, chi=0.0, yaw=float(rng.uniform(-PI, PI)))
    b = float(gen.skew_angle(rng, 1e-5, 1.1))
    c1 = dict(c, U0=ref.rot(c['vert'], b).dot(c['U0']))
    c2 = dict(c, yaw=c['yaw'] - b)
    W1, W2 = turb.build(c1), turb.build(c2)
    c1['chi'] = c2['chi'] = b
    X, P, d = turb.points(rng, c1, 8, turb.radii(W1))
    if not len(d):
        return
    ctx.sig(turb.chi_class(b), len(turb.radii(W1)))
    turb.note(ctx, c, b=b)
    u1 = np.array(W1.compute_u(X[0], X[1], X[2], longi=True, root=True))
    X2 = turb.to_global(c2, P)
    u2 = np.array(W2.compute_u(X2[0], X2[1], X2[2], longi=True, root=True))
    t = (turb.scale_u(W1) * (1 + 1 / np.minimum(d, 1) ** 3) + np.linalg.norm(c['U0'])) * 3e-7
    ctx.close3('yaw_equals_wind', turb.axes(c2).dot(u2), turb.axes(c1).dot(u1), 1, t, points=P)


def f_modulo(ctx):
    """a full turn of yaw is no yaw; the skew angle is taken modulo a turn"""
    rng = ctx.rng
    aligned = bool(rng.random() < .35)
    c = turb.draw(rng, R=1.0, ground=False, chi=0.0, nCyl=1) if aligned else turb.draw(rng, R=1.0, ground=False)
    n = int(rng.choice([-3, -2, -1, 1, 2, 3]))
    c2 = dict(c, yaw=c['yaw'] + 2 * PI * n)
    W1, W2 = turb.build(c), turb.build(c2)
    X, P, d = turb.points(rng, c, 6, turb.radii(W1))
    if not len(d):
        return
    ctx.sig(turb.chi_class(c['chi']), n)
    turb.note(ctx, c, turns=n)
    u1, u2 = (np.array(W.compute_u(X[0], X[1], X[2])) for W in (W1, W2))
    ctx.close3('full_turn', u2, u1, 1, turb.scale_u(W1) * (1 + 1 / np.minimum(d, 1) ** 3) * 3e-7 + 1e-9, points=X)
    if aligned:        # the models for aligned rotors apply
        for Model in ('VCFF', 'VD', 'SS'):
            try:
                v1, v2 = (np.array(W.compute_u(X[0], X[1], X[2], Model=Model, only_ind=True)) for W in (W1, W2))
            except NotImplementedError as e:
                ctx.check('aligned_after_full_turn', False, model=Model, error=str(e), chi=[W1.chi, W2.chi])
                continue
            ctx.check('aligned_after_full_turn', True)
            # axis of the line and edge of the half spaces are kept apart
            ok = (np.hypot(P[0], P[1]) > 1e-3) & (np.abs(P[2]) > 1e-3) & (np.abs(np.sqrt((P ** 2).sum(0)) - 6) > 1e-3)
            if ok.any():
                q = np.sqrt((P ** 2).sum(0))[ok]
                ctx.close3('full_turn_' + Model, v2[:, ok], v1[:, ok], 1, turb.scale_u(W1) * (1 + 1 / np.minimum(d[ok], 1) ** 3 + 1 / np.minimum(q, 1) ** 3) * 3e-7 + 1e-9, points=X[:, ok])


def f_inclined(ctx):
    """a wind that is not horizontal: the wake follows its horizontal direction, the whole wind is added to the induction"""
    rng = ctx.rng
    c = turb.draw(rng, R=gen.rotor(rng), U=float(gen.logu(rng, 1e-1, 30)), ground=False, nCyl=1)
    h = np.asarray(c['U0'], float)
    v = float(rng.uniform(-.6, .6)) * np.linalg.norm(h)
    W1, W2 = turb.build(c), turb.build(c)
    W2.update_wind(h + v * c['vert'])
    w = c['yaw'] + c['chi']
    ctx.sig(turb.chi_class(c['chi']), int(np.floor(ref.wrap(c['yaw']) * 2 / PI)), v > 0)
    turb.note(ctx, c, vertical=v)
    yw = W2.yaw_wind
    ctx.check('yaw_of_horizontal_wind', np.isfinite(yw) and abs(ref.wrap(yw - w)) <= 2 * atol(w), got=yw, expected=ref.wrap(w))
    ye = W2.yaw_error
    a = np.arccos(np.clip(np.cos(c['chi']) * np.linalg.norm(h) / np.hypot(v, np.linalg.norm(h)), -1, 1))
    ctx.check('angle_to_shaft', abs(abs(ye) - a) <= 2e-6 and (abs(c['chi']) < 1e-6 or np.sign(ye) == -np.sign(c['chi'])), got=ye, expected=-np.sign(c['chi']) * a)
    X, P, d = turb.points(rng, c, 6, turb.radii(W1))
    if not len(d):
        return
    u1, u2 = (np.array(W.compute_u(X[0], X[1], X[2], only_ind=True)) for W in (W1, W2))
    t = turb.scale_u(W1) * (1 + 1 / np.minimum(d, 1) ** 3) * 3e-7 + 1e-9
    ctx.close3('wake_of_horizontal_wind', u2, u1, 1, t, points=X)
    u3 = np.array(W2.compute_u(X[0], X[1], X[2]))
    ctx.close('whole_wind_added', u3 - u2, np.outer(h + v * c['vert'], np.ones(len(d))), 1e-10, np.linalg.norm(h) + np.abs(u2))


FAMILIES = [Family('inclined', f_inclined, 300, 6000), Family('angles', f_angles, 1500, 40000), Family('headings', f_headings, 1500, 40000), Family('wake', f_wake, 400, 10000), Family('yaw_equals_wind', f_yaw_equals_wind, 300, 8000), Family('full_turn', f_modulo, 150, 3000)]
QUICK = 6        # cheap: more cases in the quick run
