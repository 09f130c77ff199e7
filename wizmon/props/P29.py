"""Rotations, orthonormal vectors, changes of frame, and the rotor disk."""
import numpy as np
from ..core import Family
from .. import gen, ref, turb
from wiz.WindTurbine import RotMat_AxisAngle, orth_vect, transform, transform_T, WindTurbine
from wiz.VortexCylinderSkewed import skew_components, polar_components

RULE = ('random and axis-aligned axes (also with components at 1/2, 1/sqrt(3), +-0, tiny), angles of all sizes; arrays of all shapes; turbines in random frames at several yaw angles; '
        'distinct = different (family, shape, class of the axis, number of points)')
ASSUMPTIONS = ['the rotation is right handed (Rodrigues formula)']


def axis(rng):
    k = rng.integers(0, 6)
    if k == 0:
        return np.eye(3)[rng.integers(0, 3)] * gen.sgn(rng), 'basis'
    if k == 1:
        v = np.ones(3) * np.where(rng.random(3) < .5, 1, -1)
        return v / np.linalg.norm(v), 'diagonal'
    if k == 2:
        a = .5 + gen.slog(rng, 1e-17, 1e-3, 1)[0]
        b = rng.uniform(-1, 1) * np.sqrt(1 - a * a)
        v = np.array([a, b, np.sqrt(max(0, 1 - a * a - b * b))]) * np.where(rng.random(3) < .5, 1, -1)
        return rng.permutation(v) / np.linalg.norm(v), 'half'
    if k == 3:
        v = np.zeros(3)
        p = rng.uniform(-np.pi, np.pi)
        i, j = rng.permutation(3)[:2]
        v[i], v[j] = np.cos(p), np.sin(p)
        return v, 'plane'
    if k == 4:
        v = gen.unit(rng)
        v[rng.integers(0, 3)] *= gen.logu(rng, 1e-17, 1e-3)
        return v / np.linalg.norm(v), 'nearly plane'
    return gen.unit(rng), 'any'


def f_rot(ctx):
    rng = ctx.rng
    u, cl = axis(rng)
    t = float(rng.choice([rng.uniform(-np.pi, np.pi), rng.uniform(-20, 20), gen.slog(rng, 1e-12, 1e-2, 1)[0], 0, np.pi, np.pi / 2, -np.pi]))
    ctx.sig(cl, np.sign(t), t == 0)
    ctx.note(axis=u, angle=t)
    T = RotMat_AxisAngle(u, t)
    ctx.check('shape', np.shape(T) == (3, 3))
    ctx.close('rodrigues', T, ref.rot(u, t), 1e-13, 1)
    ctx.close('orthonormal', T.dot(T.T), np.eye(3), 1e-13, 1)
    ctx.close('proper', np.linalg.det(T), 1, 1e-13, 1)
    ctx.close('axis_fixed', T.dot(u), u, 1e-13, 1)
    s = float(rng.uniform(-3, 3))
    ctx.close('angles_add', RotMat_AxisAngle(u, s).dot(T), RotMat_AxisAngle(u, s + t), 1e-12, 1)
    ctx.close('inverse', RotMat_AxisAngle(u, -t), T.T, 1e-13, 1)
    ctx.close('column_axis', RotMat_AxisAngle(u.reshape(3, 1), t) if rng.random() < 0 else RotMat_AxisAngle(list(u), t), T, 1e-15, 1)
    v = orth_vect(u * float(rng.choice([1, gen.logu(rng, 1e-6, 1e6)])))
    ctx.check('orth_shape', np.shape(v) == (3, 1), got=np.shape(v))
    v = np.ravel(v)
    ctx.close('orth_unit', v.dot(v), 1, 1e-13, 1)
    ctx.close('orth_orthogonal', v.dot(u), 0, 1e-13, 1)
    w = np.ravel(orth_vect(u.reshape(3, 1)))
    ctx.close('orth_column', w.dot(u), 0, 1e-13, 1)


def f_transform(ctx):
    rng = ctx.rng
    s, v = gen.frame(rng, .3)
    T = np.array([np.cross(v, s), v, s])
    shp = gen.shaped(rng)
    X = rng.normal(size=(3,) + shp) * 10 ** rng.uniform(-3, 3)
    ctx.sig(len(shp))
    ctx.note(T=T, shape=shp)
    L = float(np.abs(X).max())
    a = transform(T, *X)
    b = transform_T(T, *X)
    ctx.close('a_to_b', np.array(a), np.tensordot(T, X, 1), 1e-13, L)
    ctx.close('b_to_a', np.array(b), np.tensordot(T.T, X, 1), 1e-13, L)
    ctx.close('round_trip', np.array(transform_T(T, *a)), X, 1e-13, L)
    ctx.close('round_trip_b', np.array(transform(T, *b)), X, 1e-13, L)
    M = rng.normal(size=(3, 3))                      # also for matrices that are no rotation
    ctx.close('any_matrix', np.array(transform(M, *X)), np.tensordot(M, X, 1), 1e-13, 10 * L)
    ctx.close('any_matrix_T', np.array(transform_T(M, *X)), np.tensordot(M.T, X, 1), 1e-13, 10 * L)
    # components of the skewed cylinders
    m = float(rng.uniform(-3, 3))
    chi = np.arctan(m)
    ze, xi = skew_components(X[0], X[2], m)
    ctx.close('skew_zeta', ze, X[2] * np.cos(chi) + X[0] * np.sin(chi), 1e-13, 2 * L)
    ctx.close('skew_xi', xi, -X[2] * np.sin(chi) + X[0] * np.cos(chi), 1e-13, 2 * L)
    psi = rng.uniform(-7, 7, shp)
    ur, up = polar_components(X[0], X[1], psi)
    ctx.close('polar_r', ur, X[0] * np.cos(psi) + X[1] * np.sin(psi), 1e-13, 2 * L)
    ctx.close('polar_psi', up, -X[0] * np.sin(psi) + X[1] * np.cos(psi), 1e-13, 2 * L)


def f_disk(ctx):
    rng = ctx.rng
    c = turb.draw(rng)
    W = turb.build(c, load=False)
    n = int(rng.choice([2, 3, 5, 50, rng.integers(2, 200), rng.integers(200, 1200)]))
    R = c['R']
    for step in range(int(rng.integers(1, 4))):
        es = turb.axes(c)[2]
        P = W.rotor_disk_points(n)
        ctx.check('shape', np.shape(P) == (3, n), got=np.shape(P))
        ctx.sig(n if n < 6 else 'n', step, gen.np.sign(c['yaw']))
        ctx.note(R=R, yaw=c['yaw'], n=n, shaft=c['shaft'], vert=c['vert'], hub=c['hub'])
        D = P - c['hub'][:, None]
        L = R + np.abs(c['hub']).max()
        ctx.close('radius', np.linalg.norm(D, axis=0), R, 1e-12, L)
        ctx.close('in_the_rotor_plane', es.dot(D), 0 * D[0], 1e-12, L)
        ctx.close('closed', D[:, 0], D[:, -1], 1e-12, L)
        if n > 3:
            # equally spaced, right handed about the shaft, once around
            a = np.cross(D[:, :-1].T, D[:, 1:].T).dot(es) / R ** 2
            b = (D[:, :-1] * D[:, 1:]).sum(0) / R ** 2
            ctx.close('equally_spaced', np.arctan2(a, b), 2 * np.pi / (n - 1), 1e-9 * (1 + L / R), 1)
        if rng.random() < .5:
            c['yaw'] = float(rng.uniform(-np.pi, np.pi))
            W.update_yaw_pos(c['yaw'])
        else:
            c['hub'] = c['hub'] + rng.normal(size=3) * R
            W.update_position(c['hub'].copy())
    d = W.rotor_disk_points()
    ctx.check('default_100', np.shape(d) == (3, 100))


FAMILIES = [Family('rotation', f_rot, 2500, 60000), Family('transform', f_transform, 600, 20000), Family('disk', f_disk, 500, 15000)]
QUICK = 6        # cheap: more cases in the quick run
