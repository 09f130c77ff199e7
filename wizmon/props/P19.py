"""With ground effect no air crosses the ground: the image system is the mirror image of every vortex."""
import numpy as np
from ..core import Family
from .. import gen, ref, turb
from wiz import VortexCylinder as VC, VortexCylinderSkewed as VCS
from wiz.WindFarm import WindFarm

RULE = ('turbines (1-8 cylinders, skewed or not, swirl or not, random frames) and cylinder superpositions with ground effect; points on the ground plane, mirrored pairs of points, '
        'points everywhere; hub heights from 0 to 3R; distinct = different (family, component, skew class, cylinders, hub height class)')
ASSUMPTIONS = ['the ground is the plane of height 0 along e_vert', 'points nearer than 0.02R (0.25R with skew) to a sheet or its image are left out']
COMP = [('tang', dict(tang=True)), ('longi', dict(tang=False, longi=True)), ('root', dict(tang=False, root=True)), ('all', dict(tang=True, longi=True, root=True))]


def make(rng, Model='VC', nCyl=None):
    R = float(rng.choice([1.0, 30.0]))
    hgt = [None, None, None, None, float(gen.logu(rng, 5, 80)) * R, -float(rng.uniform(0, 3)) * R][int(rng.integers(0, 6))]     # also far above the ground, and below it
    c = turb.draw(rng, R=R, ground=True, nCyl=nCyl, kind='ct_array', Model=Model, height=hgt,
                  **(dict(chi=0.0, yaw=0.0) if Model != 'VC' else {}))
    c['load']['Lambda'] = float(rng.uniform(2, 14))
    return c


def tol(W, d):
    return turb.scale_u(W) * (1 + 1 / np.minimum(d, 1) ** 3) * 3e-8


def reflect(c, X):
    v = c['vert']
    return X - 2 * np.outer(v, v.dot(X))


def f_plane(ctx):
    """no velocity through the ground"""
    rng = ctx.rng
    Model = str(rng.choice(['VC', 'VCFF', 'VD'], p=[.7, .15, .15]))
    c = make(rng, Model, 1 if Model != 'VC' else None)
    W = turb.build(c)
    Rs = turb.radii(W)
    X, P, d = turb.points(rng, c, 30, Rs)
    v = c['vert']
    X = X - np.outer(v, v.dot(X))
    P = turb.to_local(c, X)
    d = turb.dist(c, P, Rs, np.tan(turb.chi_of(c)))
    ok = d > (.25 if abs(c['chi']) > 1e-7 else .05)
    X, d = X[:, ok], d[ok]
    if not ok.any():
        return
    nm, o = COMP[int(rng.integers(0, 4))] if Model == 'VC' else [COMP[0], ('tang+root', dict(root=True))][int(rng.integers(0, 2))]
    h = np.dot(c['hub'], v) / c['R']
    ctx.sig(nm, Model, turb.chi_class(c['chi']), len(Rs), int(np.clip(h, -1, 5)))
    turb.note(ctx, c, comp=nm)
    u = np.array(W.compute_u(X[0], X[1], X[2], only_ind=True, **o))
    ctx.close('no_penetration', v.dot(u), 0 * d, 1, tol(W, d), vorticity=nm, Model=Model, points=X)
    if np.linalg.norm(u, axis=0).max() > 1e-6 * turb.scale_u(W):
        ctx.count('ground_plane_with_flow')


def f_symmetric(ctx):
    """the flow above is the mirror image of the flow below"""
    rng = ctx.rng
    c = make(rng)
    W = turb.build(c)
    X, P, d = turb.points(rng, c, 8, turb.radii(W))
    if not len(d):
        return
    nm, o = COMP[int(rng.integers(0, 4))]
    ctx.sig(nm, turb.chi_class(c['chi']), len(turb.radii(W)))
    turb.note(ctx, c, comp=nm)
    Y = reflect(c, X)
    u = np.array(W.compute_u(X[0], X[1], X[2], only_ind=True, **o))
    w = np.array(W.compute_u(Y[0], Y[1], Y[2], only_ind=True, **o))
    ctx.close3('mirror_symmetric', w, reflect(c, u), 1, tol(W, d), vorticity=nm, points=X)


def f_image(ctx):
    """with ground = without ground + the reflected field of the same turbine"""
    rng = ctx.rng
    c = make(rng)
    W = turb.build(c)
    X, P, d = turb.points(rng, c, 8, turb.radii(W))
    if not len(d):
        return
    nm, o = COMP[int(rng.integers(0, 4))]
    ctx.sig(nm, turb.chi_class(c['chi']), len(turb.radii(W)))
    turb.note(ctx, c, comp=nm)
    Y = reflect(c, X)
    on = np.array(W.compute_u(X[0], X[1], X[2], only_ind=True, **o))
    off = np.array(W.compute_u(X[0], X[1], X[2], only_ind=True, ground=False, **o))
    img = np.array(W.compute_u(Y[0], Y[1], Y[2], only_ind=True, ground=False, **o))
    ctx.close3('image_system', on, off + reflect(c, img), 1, tol(W, d), vorticity=nm, points=X)
    W.Ground = False
    on2 = np.array(W.compute_u(X[0], X[1], X[2], only_ind=True, ground=True, **o))
    ctx.close3('ground_argument', on2, on, 1, tol(W, d), vorticity=nm)
    off2 = np.array(W.compute_u(X[0], X[1], X[2], only_ind=True, **o))
    ctx.close3('ground_attribute', off2, off, 1, tol(W, d), vorticity=nm)


def f_total(ctx):
    """free stream parallel to the ground included"""
    rng = ctx.rng
    c = make(rng)
    W = turb.build(c)
    X, P, d = turb.points(rng, c, 30, turb.radii(W))
    v = c['vert']
    X = X - np.outer(v, v.dot(X))
    d = turb.dist(c, turb.to_local(c, X), turb.radii(W), np.tan(turb.chi_of(c)))
    ok = d > .25
    if not ok.any():
        return
    X, d = X[:, ok], d[ok]
    WF = WindFarm([W])
    c2 = make(rng)
    for k in ('shaft', 'vert', 'U0'):
        c2[k] = c[k]
    c2['yaw'] = c['yaw']
    c2['hub'] = c['hub'] + np.cross(v, c['shaft']) * 200 * max(c['R'], c2['R'])
    WF.append(turb.build(c2))
    ok = turb.dist(c2, turb.to_local(c2, X), turb.radii(WF[1]), np.tan(turb.chi_of(c2))) > .25      # its wake may come back
    if not ok.any():
        return
    X, d = X[:, ok], d[ok]
    u = np.array(WF.velocity_field(X[0], X[1], X[2], U0=c['U0'], longi=True, root=True))
    ctx.sig(turb.chi_class(c['chi']))
    turb.note(ctx, c)
    ctx.close('farm_no_penetration', v.dot(u), 0 * d, 1, tol(W, d) + turb.scale_u(WF[1]) * 1e-7 + np.linalg.norm(c['U0']) * 1e-13)


def f_kernels(ctx):
    """the ground option of the superposition functions: ground is y=0"""
    rng = ctx.rng
    nC, nr = gen.count(rng, 3, 8, .06), gen.count(rng, 3, 8, .06)
    g = rng.uniform(-3, 3, (nC, nr))
    R = np.sort(rng.uniform(.3, 1, (nC, nr)), axis=1)
    Xc, Zc = rng.uniform(-4, 4, (2, nC))
    Yc = rng.uniform(0, 3, nC)
    m = float(rng.uniform(-1, 1))
    X = np.array([rng.uniform(-6, 6, 30), 0 * np.zeros(30), rng.uniform(-6, 6, 30)])
    kind = ['vcs_tang', 'vcs_longi', 'svcs_tang', 'svcs_longi'][ctx.k % 4]
    d = np.min([ref.dist_cyl(X[0] - Xc[i], X[1] - Yc[i], X[2] - Zc[i], R[i, j], m if kind[0] == 's' else 0.0) * R[i, j] for i in range(nC) for j in range(nr)], axis=0)
    ok = d > .3
    if not ok.any():
        return
    X, d = X[:, ok], d[ok]

    def run(P, G):
        if kind[0] == 's':
            f = VCS.svcs_tang_u if 'tang' in kind else VCS.svcs_longi_u
            return np.array(f(P[0], P[1], P[2], g, R, m + 0 * g, Xc, Yc, Zc, Ground=G))
        f = VC.vcs_tang_u if 'tang' in kind else VC.vcs_longi_u
        return np.array(f(P[0], P[1], P[2], g, R, Xc, Yc, Zc, Ground=G))
    t = np.abs(g).sum() * (1 + 1 / np.minimum(d, 1) ** 3) * 1e-9
    u = run(X, True)
    ctx.sig(kind, nC, nr)
    ctx.note(kind=kind, g=g, R=R, Xc=Xc, Yc=Yc, Zc=Zc, m=m)
    ctx.close('kernel_no_penetration', u[1], 0 * d, 1, t, kind=kind, points=X)
    Q = X + np.array([[0], [.7], [0]])
    dq = np.min([ref.dist_cyl(Q[0] - Xc[i], Q[1] - s * Yc[i], Q[2] - Zc[i], R[i, j], m if kind[0] == 's' else 0.0) * R[i, j]
                 for i in range(nC) for j in range(nr) for s in (1, -1)], axis=0)
    ok = dq > .3
    if ok.any():
        Q, t = Q[:, ok], np.abs(g).sum() * (1 + 1 / np.minimum(dq[ok], 1) ** 3) * 1e-9
        M = Q * np.array([[1], [-1], [1]])
        ctx.close3('kernel_image', run(Q, True), run(Q, False) + run(M, False) * np.array([[1], [-1], [1]]), 1, t, kind=kind)


FAMILIES = [Family('plane', f_plane, 500, 12000), Family('symmetric', f_symmetric, 300, 6000), Family('image', f_image, 300, 6000), Family('farm', f_total, 150, 3000),
            Family('kernels', f_kernels, 240, 6000)]
