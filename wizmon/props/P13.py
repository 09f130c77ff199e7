"""Each control point is evaluated on its own: batches, shapes, memory layouts, order and masked neighbours do not matter."""
import numpy as np
from ..core import Family
from .. import gen, ref, fields, turb
from wiz import elliptic, VortexCylinder as VC, SelfSimilar as SS, VortexDoublet as VD
from wiz.WindFarm import WindFarm

RULE = ('all 19 kernels and the self-similar model: the same points as one batch, one by one, permuted, split, reshaped (1D, 2D, 3D, column, row), strided/'
        'Fortran/read-only/integer arrays, and next to NaN, inf or singular points; distinct = different (family, kernel, variant)')
ASSUMPTIONS = ['two evaluations of the same point may differ by 1e-10 of the field scale/distance^3 (the elliptic integral iterates until a whole batch converged)']

KINDS = fields.KINDS + ['doublet_polar', 'points', 'self_similar', 'vcff', 'line_num', 'line_num_polar', 'turbine', 'farm']

# kernels that are evaluated in closed form: large batches are cheap
QUICKK = ['vc_tang', 'vc_longi', 'vc_root', 'ring', 'doublet', 'doublet_line', 'self_similar', 'vcff', 'line', 'svc_root']


def get(rng, k):
    name = KINDS[k % len(KINDS)]
    if name in fields.KINDS + ['doublet_polar', 'points']:
        return fields.draw(rng, name)
    F = fields.Field()
    if name in ('turbine', 'farm'):
        return machines(rng, F, name)
    F.name, F.L = name, gen.scale(rng)
    if name in ('line_num', 'line_num_polar'):
        F.L = max(F.L, 1.0)
    g = gen.strength(rng)
    F.U, F.dmin = abs(g), .02
    F.args = dict(g=g, R=F.L)
    if name == 'self_similar':
        F.f = lambda x, y, z: (0 * x, 0 * y, SS.ss_u(x, y, z, g, R=F.L))
        F.dist = lambda x, y, z: np.maximum(np.abs(z) / F.L, np.hypot(x, y) / F.L)
    elif name == 'line_num':
        m, zm, nq = rng.uniform(-1, 1), rng.uniform(1, 30) * F.L, int(rng.integers(2, 40))
        F.U = abs(g) / F.L ** 2
        F.args.update(m=m, zmax=zm, nQuad=nq)
        F.f = lambda x, y, z: VD.doublet_line_u_num(np.asarray(x), y, z, g, m=m, zmax=zm, nQuad=nq)
        F.dist = lambda x, y, z: fields._d_line(x, y, z, m) / F.L
    elif name == 'line_num_polar':
        z0, zm, nq = rng.uniform(-2, 2) * F.L, rng.uniform(3, 30) * F.L, int(rng.integers(2, 40))
        F.U = abs(g) / F.L ** 2
        F.args.update(z0=z0, zmax=zm, nQuad=nq)
        F.f = lambda x, y, z: fields._polar(*(VD.doublet_line_polar_u_num(np.sqrt(np.asarray(x) ** 2 + np.asarray(y) ** 2), z, g, z0=z0, zmax=zm, nQuad=nq) + (x, y)))
        F.dist = lambda x, y, z: np.hypot(x, y) / F.L
    else:
        F.f = lambda x, y, z: VC.vc_tang_u_doublet(x, y, z, gamma_t=g, R=F.L, polar_out=False)
        # its cut between near and far formulas is a jump: keep points off it
        F.dist = lambda x, y, z: np.where(np.abs(np.sqrt(x * x + y * y + z * z) / F.L - 6) < 1e-6, 0, fields._d_right(x, y, z, F.L) / F.L)
    return F


def machines(rng, F, name):
    """a turbine, or a farm of two or three, seen as a field around (the first) hub with z along the wake"""
    F.name = name
    md = str(rng.choice(['VC', 'VC', 'VCFF']))
    n = 1 if name == 'turbine' else int(rng.integers(2, 4))
    R = gen.scale(rng)
    F.L = R
    cs = [turb.draw(rng, Model=md, R=R, chi='zero', ground=False, nCyl=1 if md != 'VC' else None) for _ in range(n)]
    for c in cs[1:]:
        for q in ('shaft', 'vert', 'yaw', 'U0'):
            c[q] = cs[0][q]
    A = turb.axes(cs[0])
    hub0 = np.array(cs[0]['hub'], float)
    off = [np.array([k * rng.uniform(2.5, 4) * R, 0, rng.uniform(-4, 4) * R]) for k in range(n)]
    for c, o in zip(cs, off):
        c['hub'] = hub0 + A.T.dot(o)
    Ws = [turb.build(c) for c in cs]
    comp = dict(longi=bool(md == 'VC' and rng.random() < .4), root=bool(rng.random() < .4))
    F.args = dict(model=md, n=n, **comp)
    F.U = sum(turb.scale_u(W) for W in Ws)
    T = A.T

    def f(x, y, z):
        x, y, z = np.asarray(x), np.asarray(y), np.asarray(z)
        if np.all(A == np.eye(3)) and np.all(hub0 == 0):
            X, Y, Z = x, y, z
        else:
            X, Y, Z = [T[i, 0] * x + T[i, 1] * y + T[i, 2] * z + hub0[i] for i in range(3)]
        if name == 'turbine':
            return Ws[0].compute_u(X, Y, Z, Model=md, only_ind=True, **comp)
        fm = WindFarm(name='f')
        for W in Ws:
            fm.append(W)
        return fm.velocity_field(X, Y, Z, Model=md, **comp)
    F.f = f

    def dist(x, y, z):
        P = np.array([np.asarray(v, float) + 0 * np.asarray(x, float) for v in (x, y, z)])
        sh = P[0].shape
        P = P.reshape(3, -1)
        d = np.full(P.shape[1], np.inf)
        for W, o in zip(Ws, off):
            Q = P - o[:, None]
            for r in np.append(turb.radii(W), 0.0):
                d = np.minimum(d, fields._d_right(Q[0], Q[1], Q[2], r) / R)
            if md != 'VC':
                for r in turb.radii(W):      # the switch between near and far formulas is a jump
                    d = np.where(np.abs(np.sqrt((Q ** 2).sum(0)) / r - 6) < 1e-6, 0, d)
        return d.reshape(sh)
    F.dist = dist
    F.dmin = .02
    return F


def flat(u):
    return [np.ravel(np.asarray(c, float)) for c in u]


def f_batch(ctx):
    rng = ctx.rng
    F = get(rng, ctx.k)
    x, y, z, d = fields.points(rng, F, int(rng.integers(4, 13)))
    n = len(x)
    if not n:
        return
    var = ['single', 'permuted', 'split', 'repeated'][int(rng.integers(0, 4))]
    ctx.sig(F.name, var)
    ctx.note(kernel=F.name, args=F.args, variant=var, n=n)
    u = F.f(x, y, z)
    t = F.U * (1 + 1 / np.minimum(d, 1) ** 3) * 1e-10
    if var == 'single':
        v = [np.concatenate(c) for c in zip(*[flat(F.f(x[i:i + 1], y[i:i + 1], z[i:i + 1])) for i in range(n)])]
    elif var == 'permuted':
        p = rng.permutation(n)
        q = np.argsort(p)
        v = [np.asarray(c)[q] for c in F.f(x[p], y[p], z[p])]
    elif var == 'split':
        k = rng.integers(0, n) if n > 1 else 0
        v = [np.concatenate((a, b)) for a, b in zip(flat(F.f(x[:k], y[:k], z[:k])) if k else [np.zeros(0)] * 3, flat(F.f(x[k:], y[k:], z[k:])))]
    else:
        v = [np.asarray(c)[n:] for c in F.f(np.concatenate((x, x)), np.concatenate((y, y)), np.concatenate((z, z)))]
    ctx.close3('batch_' + var, v, u, 1, t, kernel=F.name)
    w = F.f(x, y, z)
    ctx.check('deterministic', all(np.array_equal(a, b) for a, b in zip(u, w)), kernel=F.name)


def f_crowd(ctx):
    """a few points among many others which are all alike: far, upstream, in the wake, on the axis, in the rotor plane, on the rim, all the same"""
    rng = ctx.rng
    F = get(rng, ctx.k)
    x, y, z, d = fields.points(rng, F, int(rng.integers(1, 5)))
    n = len(x)
    if not n:
        return
    kind = ['far', 'near', 'upstream', 'wake', 'axis', 'plane', 'same', 'sphere', 'nan'][int(rng.integers(0, 9))]
    N = int(rng.choice([12, 60, 300, 1500])) if F.name in QUICKK else int(rng.choice([12, 40, 100]))
    L = F.L
    a = rng.uniform(-np.pi, np.pi, N)
    r, zz = rng.uniform(.1, .9, N), rng.uniform(-2, 4, N)
    if kind == 'far':
        r, zz = rng.uniform(15, 90, N), rng.uniform(-60, 60, N)
    elif kind == 'near':
        zz = rng.uniform(-.3, .3, N)
    elif kind == 'upstream':
        r, zz = rng.uniform(.1, 3, N), rng.uniform(-5, -.1, N)
    elif kind == 'wake':
        zz = rng.uniform(.1, 6, N)
    elif kind == 'axis':
        r = 0 * r
    elif kind == 'plane':
        r, zz = rng.uniform(.1, 3, N), 0 * zz
    elif kind == 'same':
        r, a, zz = r[0] + 0 * r, a[0] + 0 * a, zz[0] + 0 * zz
    elif kind == 'sphere':
        t = rng.uniform(0, np.pi, N)
        D = rng.choice([5.5, 6.5])
        r, zz = D * np.sin(t), D * np.cos(t)
    elif kind == 'nan':
        zz = zz * np.nan
    Q = np.array([r * np.cos(a), r * np.sin(a), zz]) * L
    i = np.sort(rng.choice(N + n, n, replace=False))
    rest = np.setdiff1d(np.arange(N + n), i)
    X = np.zeros((3, N + n))
    X[:, i], X[:, rest] = np.array([x, y, z]), Q
    ctx.sig(F.name, kind, N)
    ctx.note(kernel=F.name, args=F.args, crowd=kind, N=N, at=i)
    u = F.f(x, y, z)
    v = F.f(X[0], X[1], X[2])
    ctx.close3('crowd', [np.asarray(c)[i] for c in v], u, 1, F.U * (1 + 1 / np.minimum(d, 1) ** 3) * 1e-10, kernel=F.name, crowd=kind)
    if rng.random() < .4:
        # the same, as two dimensional array with the points in one row
        k = int(np.ceil((N + n) / 7.)) * 7
        Y = np.concatenate((X, np.repeat(X[:, :1], k - N - n, axis=1)), axis=1).reshape(3, 7, -1)
        w = np.array([np.ravel(c) for c in F.f(Y[0], Y[1], Y[2])])
        ctx.close3('crowd_grid', w[:, i], u, 1, F.U * (1 + 1 / np.minimum(d, 1) ** 3) * 1e-10, kernel=F.name, crowd=kind)


def f_scales(ctx):
    """points at very different distances in one call; a point alone gives the same as in company"""
    rng = ctx.rng
    F = get(rng, ctx.k)
    n = int(rng.integers(2, 7))
    lo = max(1e-3, F.dmin * .1) if F.name not in ('svc_tang', 'svc_longi', 'svcs_tang', 'svcs_longi', 'svc_all') else F.dmin
    D = gen.logu(rng, lo, float(rng.choice([1e2, 1e4, 1e6])), n)
    side = ['any', 'axis', 'plane', 'tube', 'tube_far'][int(rng.integers(0, 5))]
    v = rng.normal(size=(3, n))
    v /= np.linalg.norm(v, axis=0)
    a, r = rng.uniform(-np.pi, np.pi, n), rng.uniform(.05, 1.6, n)
    sg = rng.choice([-1, 1], n)
    if side == 'axis':
        P = np.array([.03 * v[0], .03 * v[1], sg * D])
    elif side == 'plane':
        P = np.array([r * np.cos(a), r * np.sin(a), sg * np.where(rng.random(n) < .5, D * float(rng.choice([1.0, 1e4])), gen.logu(rng, 1e-3, .1, n))])
    elif side == 'tube':
        P = np.array([r * np.cos(a), r * np.sin(a), sg * D])
    elif side == 'tube_far':
        P = np.array([r * np.cos(a), r * np.sin(a), sg * D * 500])
    else:
        P = v * D
    P = P * F.L
    d = F.dist(*P)
    I = np.where(d > lo)[0]
    if len(I) < 2:
        return
    x, y, z, d, n = P[0, I], P[1, I], P[2, I], d[I], len(I)
    ctx.sig(F.name, side, n, int(np.log10(d.max())))
    ctx.note(kernel=F.name, args=F.args, side=side, x=x, y=y, z=z)
    u = F.f(x, y, z)
    w = [np.concatenate(c) for c in zip(*[flat(F.f(x[i:i + 1], y[i:i + 1], z[i:i + 1])) for i in range(n)])]
    ctx.close3('scales', u, w, 1, F.U * (1 + 1 / np.minimum(d, 1) ** 3) * 1e-10, kernel=F.name, side=side)
    # and next to one ordinary point
    p = np.array([[.4], [.3], [.7]]) * F.L
    if F.dist(*p)[0] > F.dmin:
        q = [flat(F.f(*[np.append(c[i:i + 1], b) for c, b in zip((x, y, z), p)])) for i in range(n)]
        q = [np.array([c[j][0] for c in q]) for j in range(3)]
        ctx.close3('company', q, w, 1, F.U * (1 + 1 / np.minimum(d, 1) ** 3) * 1e-10, kernel=F.name, side=side)


def f_shape(ctx):
    rng = ctx.rng
    F = get(rng, ctx.k)
    shp = [(12,), (12, 1), (1, 12), (3, 4), (2, 3, 2), (4, 3), (1, 1, 12), (3, 3), (2, 2), (4, 4), (3, 2), (2, 3), (2, 2, 2), (3, 3, 2), (1,), (1, 1), (1, 3), (3, 1)]
    shp = shp[int(rng.integers(0, len(shp)))] if rng.random() < .7 else (3, 3)
    n = int(np.prod(shp))
    x, y, z, d = fields.points(rng, F, n)
    if len(x) < n:
        return
    lay = ['C', 'F', 'strided', 'readonly', 'negative'][int(rng.integers(0, 5))]
    ctx.sig(F.name, shp, lay)
    ctx.note(kernel=F.name, args=F.args, shape=shp, layout=lay)

    def mk(a):
        a = a.reshape(shp)
        if lay == 'F':
            a = np.asfortranarray(a)
        elif lay == 'strided':
            b = np.full(shp + (2,), 7.0)
            b[..., 0] = a
            a = b[..., 0]
        elif lay == 'readonly':
            a = a.copy()
            a.flags.writeable = False
        elif lay == 'negative':
            a = a[::-1].copy()[::-1]
        return a
    u = F.f(x, y, z)
    t = F.U * (1 + 1 / np.minimum(d, 1) ** 3) * 1e-10
    v = F.f(mk(x), mk(y), mk(z))
    ctx.check('shape_kept', all(np.shape(c) == shp for c in v), shapes=[np.shape(c) for c in v], expected=shp, kernel=F.name)
    ctx.close3('layout', flat(v), flat(u), 1, t, kernel=F.name, layout=lay)


def f_int(ctx):
    """integer coordinates are legitimate input"""
    rng = ctx.rng
    F = get(rng, ctx.k)
    if not 0.3 < F.L < 1e3:
        return
    N = 60
    P = (rng.integers(-4, 5, (3, N)) * max(1, int(F.L))).astype(int)
    d = F.dist(*P.astype(float))
    I = np.where(d > max(F.dmin, .1))[0][:10]
    if not len(I):
        return
    P, d = P[:, I], d[I]
    ctx.sig(F.name)
    ctx.note(kernel=F.name, args=F.args, points=P)
    u, v = F.f(*P.astype(float)), F.f(*P)
    ctx.close3('integer_input', v, u, 1, F.U * (1 + 1 / np.minimum(d, 1) ** 3) * 1e-10, kernel=F.name)


def f_poison(ctx):
    """a masked (NaN), infinite or singular neighbour leaves the other points alone"""
    rng = ctx.rng
    F = get(rng, ctx.k)
    x, y, z, d = fields.points(rng, F, 10)
    n = len(x)
    if n < 4:
        return
    bad = ['nan', 'nan_z', 'inf', 'origin', 'axis', 'edge'][int(rng.integers(0, 6))]
    u = F.f(x, y, z)
    X, Y, Z = x.copy(), y.copy(), z.copy()
    j = rng.choice(n, int(rng.integers(1, 3)), replace=False)
    if bad == 'nan':
        X[j] = np.nan
        Y[j] = np.nan
        Z[j] = np.nan
    elif bad == 'nan_z':
        Z[j] = np.nan
    elif bad == 'inf':
        X[j] = np.inf
    elif bad == 'origin':
        X[j] = Y[j] = Z[j] = 0
    elif bad == 'axis':
        X[j] = Y[j] = 0
        Z[j] = F.L * rng.uniform(-3, 3)
    else:
        X[j], Y[j], Z[j] = F.L, 0, 0
    ctx.sig(F.name, bad)
    ctx.note(kernel=F.name, args=F.args, poison=bad, at=j)
    v = F.f(X, Y, Z)
    ok = np.ones(n, bool)
    ok[j] = False
    ctx.close3('neighbours', [np.asarray(c)[ok] for c in v], [np.asarray(c)[ok] for c in u], 1,
               (F.U * (1 + 1 / np.minimum(d, 1) ** 3) * 1e-10)[ok], kernel=F.name, poison=bad)
    if bad == 'nan':
        # a masked point never comes back as an ordinary number (a component that is zero everywhere may stay zero)
        w = np.array([np.asarray(c, float)[j] for c in v])
        ctx.check('masked_stays_masked', np.all(np.isnan(w) | (w == 0)) and np.all(np.any(np.isnan(w), axis=0)) or F.name in ('doublet',), got=w, kernel=F.name)


def f_pi(ctx):
    """the complete elliptic integral itself"""
    rng = ctx.rng
    n = int(rng.integers(2, 30))
    m = rng.uniform(0, .999, n)
    nn = np.where(rng.random(n) < .5, rng.uniform(-20, 0, n), rng.uniform(0, .999, n))
    p = elliptic.ellipticPiCarlson(nn, m)
    q = np.array([np.ravel(elliptic.ellipticPiCarlson(nn[i:i + 1], m[i:i + 1]))[0] for i in range(n)])
    ctx.sig(n)
    ctx.close('elliptic_batch', np.ravel(p), q, 1e-9, np.abs(q))
    m2 = m.copy()
    j = rng.integers(0, n)
    m2[j] = np.nan
    r = np.ravel(elliptic.ellipticPiCarlson(nn, m2))
    ok = np.arange(n) != j
    ctx.close('elliptic_neighbours', r[ok], q[ok], 1e-9, np.abs(q[ok]))


LISTS = ['VC.cylinder_tang_u', 'VC.vc_longi_u_polar', 'VC.vc_tang_u', 'VC.vcs_longi_u', 'VC.vcs_tang_u', 'VCS.svcs_longi_u', 'VCS.svcs_tang_u', 'VD.doublet_line_polar_u_num',
         'VD.doublet_u', 'VL.vl_semiinf_straight_u_polar', 'VR.ring_u', 'VR.ring_u_polar', 'VR.rings_u', 'WF.windfarm_gridlayout_CTconst']
SCALARS = LISTS + ['VC.cylinder_tang_semi_inf_u_raw', 'VC.vc_longi_u', 'VC.vc_root_u', 'VCS.svc_longi_u', 'VCS.svc_root_u', 'VCS.svc_tang_u', 'VD.doublet_line_polar_u',
                   'VD.doublet_u_polar', 'VL.vl_semiinf_straight_u', 'VR.ring_u_polar_singular', 'VR.ring_u_polar_singularb']


def f_forms(ctx):
    """lists, tuples and single numbers, for the functions that convert their input"""
    from .P33 import T, flat as fl
    rng = ctx.rng
    form = ['list', 'tuple', 'scalar', 'scalar'][int(rng.integers(0, 4))]
    names = SCALARS if form == 'scalar' else LISTS
    name = names[ctx.k % len(names)]
    f, req, opt = T[name]
    kw = {q: opt[q][1](rng) for q in sorted(opt) if rng.random() < .5}
    for q in kw:
        if q.lower().startswith(('gamma', 'dmz')) and rng.random() < .2:
            kw[q] = 0.0
    a = req(rng)
    nc = 3 if len(a) > 2 and isinstance(a[2], np.ndarray) else 2
    ctx.sig(name, form, ','.join(kw))
    ctx.note(function=name, form=form, given=kw)
    if form == 'scalar':
        i = int(rng.integers(0, 9))
        b = [float(v[i]) if j < nc else v for j, v in enumerate(a)]
        a = [v[i:i + 1] if j < nc else v for j, v in enumerate(a)]
    else:
        t = list if form == 'list' else tuple
        b = [t(v.tolist()) if j < nc else v for j, v in enumerate(a)]
    A, B = fl(f(*a, **kw)), fl(f(*b, **kw))
    ctx.check('same_size', A.shape == B.shape, got=B.shape, expected=A.shape, function=name)
    ok = np.isfinite(A)
    ctx.close('same_values', B[ok], A[ok], 1e-10, np.abs(A[ok]).max() if ok.any() else 1, function=name, form=form)


FAMILIES = [Family('batch', f_batch, 840, 12000), Family('crowd', f_crowd, 840, 12000), Family('scales', f_scales, 540, 9000), Family('shape', f_shape, 840, 12000), Family('integer', f_int, 420, 4000),
            Family('poison', f_poison, 840, 12000), Family('elliptic', f_pi, 150, 3000), Family('forms', f_forms, 600, 9000)]
