"""The helpers of the blockage article: farms and turbines they build, surveys they extract, error measures."""
import os, sys, tempfile, importlib.util
import numpy as np
from ..core import Family
from .. import gen, ref
import wiz
from wiz.WindTurbine import WindTurbine
from wiz.WindFarm import WindFarm
from wiz.Solver import Ct_const_cutoff

_p = os.path.join(os.path.dirname(os.path.abspath(wiz.__file__)), 'article_blockage', 'helper_functions.py')
_s = importlib.util.spec_from_file_location('article_blockage_helper_functions', _p)
H = importlib.util.module_from_spec(_s)
_s.loader.exec_module(H)

RULE = ('farms of 1-4 x 1-4 turbines with different CT, spacings, hub heights on both sides of the ground switch; single turbines with constant CT or swirl, yawed or not, ground or not, '
        'four surveys; made-up planes of data for the look-up classes; distinct = different (family, layout, ground, survey, yaw)')
ASSUMPTIONS = ['the data files of the article are not in the repository: the look-up classes are given data in memory', 'CT<=0.87 where the cylinder strength is compared with the 1D formula']


def pts_off(rng, C, R, n, shaft):
    P = np.concatenate([rng.uniform(-4, 4, (3, n)) * R + C[:, rng.integers(0, C.shape[1], n)], rng.uniform(-30, 30, (3, n)) * R], axis=1)
    d = np.full(P.shape[1], np.inf)
    for q in C.T:
        D = P - q[:, None]
        s = D[shaft]
        r = np.sqrt(np.maximum((D ** 2).sum(0) - s ** 2, 0))
        d = np.minimum(d, np.hypot(r - R, np.minimum(s, 0)))
    return P[:, d > .03 * R]


def farm_ref(C, gam, R, P, shaft):
    """axial velocity of cylinders along +shaft axis; global components"""
    u = np.zeros(P.shape)
    o = [i for i in range(3) if i != shaft]
    for q, g in zip(C.T, gam):
        D = P - q[:, None]
        r = np.hypot(D[o[0]], D[o[1]])
        ur, uz = ref.vc_tang(r, D[shaft], g, R)
        with np.errstate(all='ignore'):
            u[o[0]] += np.where(r > 0, ur * D[o[0]] / r, 0)
            u[o[1]] += np.where(r > 0, ur * D[o[1]] / r, 0)
        u[shaft] += uz
    return u


def f_farm(ctx):
    rng = ctx.rng
    nx, ny = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    CT = rng.uniform(.05, .87, (nx, ny))
    S = float(rng.uniform(1.2, 9))
    HH = float(rng.choice([rng.uniform(.6, 3), rng.uniform(3, 9.9), 999.0, rng.uniform(10.1, 50), 10.0]))
    c = None if rng.random() < .6 else float(rng.uniform(.2, 2))
    kw = {} if c is None else dict(gamma_t_Ct=lambda x: -c * x)
    ctx.sig(nx, ny, HH < 10, c is None)
    ctx.note(nx=nx, ny=ny, CT=CT, S=S, HH=HH, relation=c)
    CT0 = CT.copy()
    F = H.VCFarmFromFloris(CT, HH, S, **kw)
    ctx.check('input_kept', np.array_equal(CT, CT0))
    ctx.check('number', len(F) == nx * ny, got=len(F))
    # lateral index i, streamwise index j
    pos = np.array([(j * S, (i - nx // 2) * S, HH) for j in range(ny) for i in range(nx)])
    ct = np.array([CT[i, j] for j in range(ny) for i in range(nx)])
    ctx.close('layout', F.layout, pos, 1e-12, 100.)
    gam = -(1 - np.sqrt(1 - ct)) if c is None else -c * ct
    ctx.close('strengths', np.array([np.ravel(W.gamma_t)[0] for W in F]), gam, 1e-12, 1)
    ground = HH < 10
    C = pos.T
    A, G = C, gam
    if ground:
        A, G = np.concatenate([C, C * np.array([[1], [1], [-1]])], axis=1), np.concatenate([gam, gam])
    P = pts_off(rng, A, .5, 15, 0)
    if ground:
        P[2] = np.abs(P[2])
        keep = pts_ok(P, A)
        P = P[:, keep]
    u = np.array(F.velocity_field(P[0], P[1], P[2], U0=[1, 0, 0]))
    e = farm_ref(A, G, .5, P, 0) + np.array([[1.], [0], [0]])
    ctx.close('velocity', u, e, 2e-7, 1 + np.abs(G).sum(), points=P)
    # the same turbines, as data of actuator disks
    n = P.shape[1] // 2
    if n:
        xyz = np.zeros((n, 3, 2))
        xyz[:, :, 0], xyz[:, :, 1] = P[:, :n].T, P[:, n:2 * n].T
        D = dict(xyz_wt=pos.copy(), ct_wt=ct.copy(), xyz=xyz.copy())
        mid, top = H.ADFarm2VCFarm(D, 'f', **kw)
        ctx.close('as_ADFarm_mid', mid, e[0, :n], 2e-7, 1 + np.abs(G).sum())
        ctx.close('as_ADFarm_top', top, e[0, n:2 * n] if nx * ny > 1 else 0 * mid, 2e-7, 1 + np.abs(G).sum())
        ctx.check('data_kept', np.array_equal(D['xyz'], xyz) and np.array_equal(D['xyz_wt'], pos) and np.array_equal(D['ct_wt'], ct))


def pts_ok(P, A, R=.5):
    d = np.full(P.shape[1], np.inf)
    for q in A.T:
        D = P - q[:, None]
        d = np.minimum(d, np.hypot(np.hypot(D[1], D[2]) - R, np.minimum(D[0], 0)))
    return d > .03 * R


def survey(VC, kind, v, hz):
    if kind == 'axial':
        return VC.fAxial(v), (0 * v, 0 * v, v)
    if kind == 'radial':
        z0 = float(hz)
        return VC.fRadial(v, z0=z0), ((v, 0 * v, z0 + 0 * v) if VC.Horizontal else (0 * v, v, z0 + 0 * v))
    if kind == 'points':
        q = (np.cos(3 * v) * v, np.sin(5 * v) * v, v[::-1].copy())
        return VC.fU(*q), q
    b = np.linspace(-3, -.3, 4)
    if kind == 'horz':
        o = VC.fHorz(v, b)
        X, Z = np.meshgrid(v, b)
        return o, (X, 0 * X, Z)
    o = VC.fVert(v, b)
    Y, Z = np.meshgrid(v, b)
    return o, (0 * Y, Y, Z)


def f_model(ctx):
    rng = ctx.rng
    CT = float(rng.choice([rng.uniform(.1, .87), rng.uniform(.87, .99)], p=[.85, .15]))
    HH = float(rng.choice([9999, rng.uniform(1.2, 8)]))
    hor = bool(rng.random() < .5)
    Lam = float(rng.choice([np.inf, 99, 6, rng.uniform(7, 29.9)], p=[.45, .3, .12, .13]))
    Yaw = float(rng.choice([0, rng.uniform(-40, 40), 15], p=[.5, .3, .2])) if Lam > 30 else 0.0
    U0 = float(rng.choice([1.0, rng.uniform(.5, 12)]))
    g = None if rng.random() < .7 else -float(rng.uniform(.1, 1.5))
    Model = 'VC'
    ctx.note(CT=CT, HH=HH, horizontal=hor, Lambda=Lam, yaw=Yaw, U0=U0, gamma_t=g)
    kw = dict(CT=CT, HH=HH, Lambda=Lam, Horizontal=hor, Yaw=Yaw, U0=U0, Model=Model)
    if g is not None and Lam > 30:
        kw['gamma_t'] = g
    VC = H.setupModel(**kw)
    kind = str(rng.choice(['axial', 'radial', 'points', 'horz', 'vert']))
    v = rng.uniform(-3, 3, 9)
    o, q = survey(VC, kind, v, rng.uniform(-2, -.2))
    ctx.sig(kind, hor, HH < 9, Lam > 20, np.sign(Yaw), g is None)
    chi = Yaw * (1 + .3 * (1 - np.sqrt(1 - CT))) * np.pi / 180
    ctx.close('skew', VC.WT.chi, chi, 1e-12, 1)
    a = Yaw * np.pi / 180
    W = WindTurbine(R=1, e_shaft_yaw0=[0, 0, 1], e_vert=[0, 1, 0], r_hub=[0, HH, 0], Ground=HH < 9, U0=[U0 * np.sin(a), 0, U0 * np.cos(a)])
    W.set_chi(chi)
    rb = np.linspace(0, 1, 100)
    if Lam < 30:
        W.update_loading(r=rb, Ct=Ct_const_cutoff(CT, .1, rb), Lambda=Lam, nCyl=30)
    else:
        W.update_loading(r=rb, Ct=Ct_const_cutoff(CT, 0., rb), Lambda=Lam, nCyl=1)
    if 'gamma_t' in kw:
        W.gamma_t = np.array([g])
    e = np.array(W.compute_u(q[0], q[1] + HH, q[2]))
    if kind in ('horz', 'vert'):
        A, B, V, Wz = o
        ctx.check('mesh', np.allclose(B, q[2]) and np.allclose(A, q[0] if kind == 'horz' else q[1]))
        got, exp = np.array([V, Wz]), np.array([e[0 if kind == 'horz' else 1], e[2]])
    else:
        got, exp = np.array(o), e
    s = U0 + np.abs(W.gamma_t).sum()
    ok = np.abs(exp) < 10 * s                 # on a sheet anything goes
    ctx.close('survey', got, exp, 1e-10, s, mask=ok, survey=kind)
    if Lam > 30 and Yaw == 0 and CT < .87:
        G = g if 'gamma_t' in kw else -U0 * (1 - np.sqrt(1 - CT))
        ctx.close('strength', np.ravel(VC.WT.gamma_t), G, 1e-10, U0)
        C = np.array([[0.0, 0], [HH, -HH], [0, 0]])[:, :2 if HH < 9 else 1]
        P = np.array([q[0].ravel(), q[1].ravel() + HH, q[2].ravel()])
        d = np.full(P.shape[1], np.inf)
        for c in C.T:
            d = np.minimum(d, np.hypot(np.hypot(P[0] - c[0], P[1] - c[1]) - 1, np.minimum(P[2], 0)))
        f = farm_ref(C, [G] * C.shape[1], 1.0, P, 2) + np.array([[0], [0], [U0]])
        ff = f.reshape((3,) + q[0].shape)
        x = ff if kind not in ('horz', 'vert') else ff[[0 if kind == 'horz' else 1, 2]]
        m = np.broadcast_to((d > .02).reshape(q[0].shape), x.shape)
        ctx.close('flow', got, x, 3e-7, s * 3, mask=m, survey=kind)


def plane(rng, vertical, CT=None, HH=9999., Yaw=0., Lam=99):
    """a plane of made-up data, linear in both coordinates: every interpolation must be exact"""
    o = H.OutputAD()
    a = np.sort(np.unique(np.round(np.concatenate([[0.0], rng.uniform(-3, 3, 8)]), 3)))
    z = np.sort(np.unique(np.round(np.concatenate([[0.0], rng.uniform(-5, 5, 9)]), 3)))
    A, Z = np.meshgrid(a, z)
    K = rng.uniform(-1, 1, (3, 3))
    f = [K[i, 0] + K[i, 1] * A + K[i, 2] * Z for i in range(3)]
    o.U, o.V, o.W = f
    o.O = 0 * A
    o.z, o.Z = z, Z
    if vertical:
        o.y, o.Y, o.x, o.X = a, A, 0, 0 * A
    else:
        o.x, o.X, o.y, o.Y = a, A, 0, 0 * A
    o.CT, o.HH, o.Lambda, o.Horizontal, o.Vertical, o.Yaw = CT, HH, Lam, not vertical, vertical, Yaw
    return o, a, z, K


def f_plane(ctx):
    rng = ctx.rng
    ve = bool(rng.random() < .5)
    HH = float(rng.choice([9999., 1.5, 2.0]))
    o, a, z, K = plane(rng, ve, HH=HH)
    ctx.sig(ve, HH > 9)
    ctx.note(vertical=ve, HH=HH, a=a, z=z)
    lin = lambda i, p, q: K[i, 0] + K[i, 1] * p + K[i, 2] * q
    ctx.close('centre', o.fCenter(), lin(2, 0, 0), 1e-12, 1)
    q = rng.uniform(z[0], z[-1], 8)
    for i, c in enumerate(o.fAxial(q)):
        ctx.close('axial', c, lin(i, 0, q), 1e-12, 10)
    p = rng.uniform(a[0], a[-1], 8)
    z0 = float(rng.choice(z))
    for i, c in enumerate(o.fRadial(p, z0=z0)):
        ctx.close('radial', c, lin(i, p, z0), 1e-12, 10)
    z1 = float(rng.uniform(z[0] - 1, z[-1] + 1))
    zn = np.sort(np.abs(z - z1))
    if zn[1] - zn[0] > 1e-9:                                   # between two rows: the nearest one
        for i, c in enumerate(o.fRadial(p, z0=z1)):
            ctx.close('radial_nearest', c, lin(i, p, z[np.argmin(np.abs(z - z1))]), 1e-12, 10)
    for f, refused in ((o.fHorz, ve and HH <= 9), (o.fVert, (not ve) and HH <= 9)):
        try:
            r = f(None, None)
            ctx.check('plane_available', not refused)
            ctx.check('plane_data', r[3] is o.W and r[1] is o.Z and r[0] is (o.Y if ve else o.X) and r[2] is (o.V if ve else o.U))
        except Exception as e:
            ctx.check('plane_available', refused, why=str(e))
    arr = rng.permutation(np.round(rng.uniform(-5, 5, 30), 3))
    x = float(rng.uniform(-6, 6))
    val, i = H.find_nearest(list(arr), x)
    ctx.check('nearest', val == arr[i] and np.abs(arr - x).min() == abs(val - x))


def f_errors(ctx):
    rng = ctx.rng
    X = np.sort(np.concatenate([[-8.0, 8.0], rng.uniform(-7, 7, 40)]))
    U1, U2 = 1 + .2 * np.sin(X), 1 + .2 * np.sin(X + rng.uniform(0, 1)) * rng.uniform(.5, 1)
    ctx.sig('errors', int(rng.integers(0, 9)))
    ctx.note(X=X[:4])
    ctx.check('no_error_with_itself', H.relerrinduction(X, U1, U1) == 0 and H.relerrinduction_mid(X, U1, U1) == 0 and H.relerrinduction_25(X, U1, U1) == 0)
    x1, x2 = sorted(rng.uniform(-6, 2, 2))
    p = np.linspace(x1, x2, 100)
    a, b = np.interp(p, X, U1), np.interp(p, X, U2)
    ctx.close('relerr', H.relerrinduction(X, U1, U2, x1, x2), 100 * np.mean(np.abs(a - b) / a), 1e-12, 100)
    p = np.linspace(-4.99, -1, 100)
    a, b = np.interp(p, X, U1), np.interp(p, X, U2)
    ctx.close('relerr_default', H.relerrinduction(X, U1, U2), 100 * np.mean(np.abs(a - b) / a), 1e-12, 100)
    for f, x in ((H.relerrinduction_mid, 0.0), (H.relerrinduction_25, -2.5)):
        a, b = np.interp(x, X, U1), np.interp(x, X, U2)
        ctx.close('relerr_at', f(X, U1, U2), 100 * abs(a - b) / a, 1e-12, 100)
    # gamma_t as a polynomial of CT
    c = rng.uniform(-1, 1, 4)
    ct = rng.uniform(0, 1, 7)
    ctx.close('gamma_of_CT', H.gamma_CT_fun(ct, *c), -2 * (c[0] * ct + c[1] * ct ** 2 + c[2] * ct ** 3 + c[3] * ct ** 4), 1e-12, 10)
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'o')
        H.save_obj({'a': X, 'b': 'text'}, f)
        o = H.load_obj(f)
        ctx.check('saved_object', np.array_equal(o['a'], X) and o['b'] == 'text')


def f_match(ctx):
    """a cylinder matched to the centre velocity of given data reproduces it"""
    rng = ctx.rng
    CT = float(rng.uniform(.1, .9))
    o, a, z, K = plane(rng, bool(rng.random() < .5), CT=CT, HH=9999., Yaw=float(rng.choice([0.0, rng.uniform(-30, 30)])))
    U0 = float(rng.uniform(.5, 3))
    VC = H.setupModel(o, MatchMidVel=True, U0=U0)
    ctx.sig('match', o.Vertical, o.Yaw == 0)
    ctx.note(CT=CT, yaw=o.Yaw, U0=U0)
    u = VC.fAxial(np.array([0.0]))
    ctx.close('centre_velocity', np.ravel(u[2]), o.fCenter(), 1e-7, 1 + U0)
    ctx.check('keeps_the_case', VC.CT == CT and VC.HH == o.HH and VC.Yaw == o.Yaw and VC.Horizontal == o.Horizontal)


FAMILIES = [Family('farm', f_farm, 150, 4000), Family('model', f_model, 150, 4000), Family('plane', f_plane, 200, 4000), Family('errors', f_errors, 60, 1000), Family('match', f_match, 80, 2000)]
QUICK = 6        # cheap: more cases in the quick run
