"""Omitted arguments mean the defaults the signatures announce, for every function and whatever the other arguments are."""
import numpy as np
from ..core import Family
from .. import gen, turb
from wiz import (VortexCylinder as VC, VortexCylinderSkewed as VCS, VortexRing as VR, VortexDoublet as VD, VortexLine as VL, VortexPoint as VP,
                 SelfSimilar as SS, Solver as SO, WindFarm as WFm)
from wiz.WindTurbine import WindTurbine
from wiz.WindFarm import WindFarm
from wiz import plotting_functions as PF

RULE = ('every public function with optional arguments: a random subset of them omitted and the others given random values, against the same call with the documented defaults written out; '
        'turbines, farms, solvers, grid layouts and colour maps as well; distinct = different (function, arguments omitted)')
ASSUMPTIONS = ['the defaults are those of the signatures (README and examples rely on them)', 'the two calls agree to 1e-10 of the largest value, NaN and inf at the same places']


def fl(lo, hi):
    return lambda r: float(r.uniform(lo, hi))


def pick(*a):
    return lambda r: a[int(r.integers(0, len(a)))]


def xyz(r, n=9):
    P = r.uniform(-3, 3, (3, n))
    P[:, :2] *= 4
    return [P[0], P[1], P[2]]


def rpz(r, n=9):
    x, y, z = xyz(r, n)
    return [np.hypot(x, y), np.arctan2(y, x), z]


def rz(r, n=9):
    x, y, z = xyz(r, n)
    return [np.hypot(x, y), z]


BOOL = pick(True, False)
G, RR, MM, EPS = fl(-3, 3), fl(.3, 2.5), fl(-1.2, 1.2), pick(0.0, .02, .2)
NT = pick(40, 90, 121)


def cyls(r, n=3):
    return [r.uniform(-2, 2, (n, 2)), np.sort(r.uniform(.3, 1.5, (n, 2))), r.uniform(-4, 4, n), r.uniform(1, 4, n), r.uniform(-4, 4, n)]


def scyls(r, n=3):
    c = cyls(r, n)
    return c[:2] + [r.uniform(-1, 1, (n, 2))] + c[2:]


def rings(r, n=3):
    return [r.uniform(-2, 2, n), r.uniform(.4, 1.5, n)] + [r.uniform(-3, 3, n) for _ in range(3)]


# function, required arguments, {optional argument: (default, other values)}
T = {
    'VC.vc_tang_u': (VC.vc_tang_u, xyz, dict(gamma_t=(-1, G), R=(1, RR), polar_out=(True, BOOL), epsilon=(0, EPS))),
    'VC.vc_tang_u_doublet': (VC.vc_tang_u_doublet, xyz, dict(gamma_t=(-1, G), R=(1, RR), r_bar_Cut=(6, fl(1.5, 9)), polar_out=(True, BOOL))),
    'VC.vc_longi_u_polar': (VC.vc_longi_u_polar, rpz, dict(gamma_l=(-1, G), R=(1, RR), polar_out=(False, BOOL))),
    'VC.vc_longi_u': (VC.vc_longi_u, xyz, dict(gamma_l=(-1, G), R=(1, RR), polar_out=(False, BOOL))),
    'VC.vc_root_u': (VC.vc_root_u, xyz, dict(Gamma_r=(-1, G), polar_out=(False, BOOL))),
    'VC.cylinder_tang_semi_inf_u_raw': (VC.cylinder_tang_semi_inf_u_raw, xyz, dict(gamma_t=(-1, G), R=(1, RR))),
    'VC.cylinder_tang_u': (VC.cylinder_tang_u, xyz, dict(gamma_t=(-1, G), R=(1, RR), z1=(-2, fl(-5, 0)), z2=(2, fl(.1, 5)), polar_out=(True, BOOL), epsilon=(0, EPS))),
    'VC.vcs_tang_u': (VC.vcs_tang_u, lambda r: xyz(r) + cyls(r), dict(epsilon=(0, EPS), Ground=(False, BOOL))),
    'VC.vcs_longi_u': (VC.vcs_longi_u, lambda r: xyz(r) + cyls(r), dict(Ground=(False, BOOL))),
    'VCS.svc_tang_u_polar': (VCS.svc_tang_u_polar, rpz, dict(gamma_t=(-1, G), R=(1, RR), m=(0, MM), ntheta=(180, NT), polar_out=(False, BOOL))),
    'VCS.svc_longi_u_polar': (VCS.svc_longi_u_polar, rpz, dict(gamma_l=(-1, G), R=(1, RR), m=(0, MM), ntheta=(180, NT), polar_out=(False, BOOL))),
    'VCS.svc_root_u_polar': (VCS.svc_root_u_polar, rpz, dict(Gamma_r=(-1, G), m=(0, MM), polar_out=(False, BOOL))),
    'VCS.svc_u_polar': (VCS.svc_u_polar, lambda r: rpz(r) + [G(r), G(r), G(r)], dict(R=(1, RR), m=(0, MM), ntheta=(180, NT), polar_out=(False, BOOL))),
    'VCS.svc_tang_u': (VCS.svc_tang_u, xyz, dict(gamma_t=(-1, G), R=(1, RR), m=(0, MM), ntheta=(180, NT), polar_out=(False, BOOL))),
    'VCS.svc_longi_u': (VCS.svc_longi_u, xyz, dict(gamma_l=(-1, G), R=(1, RR), m=(0, MM), ntheta=(180, NT), polar_out=(False, BOOL))),
    'VCS.svc_root_u': (VCS.svc_root_u, xyz, dict(Gamma_r=(-1, G), m=(0, MM), polar_out=(False, BOOL))),
    'VCS.svcs_tang_u': (VCS.svcs_tang_u, lambda r: xyz(r) + scyls(r), dict(ntheta=(180, NT), Ground=(False, BOOL))),
    'VCS.svcs_longi_u': (VCS.svcs_longi_u, lambda r: xyz(r) + scyls(r), dict(ntheta=(180, NT), Ground=(False, BOOL))),
    'VCS.fV_Trailed': (VCS.fV_Trailed, lambda r: rpz(r) + [MM(r), G(r), NT(r)], dict(nout=(7, pick(1, 2, 3, 5, 7)))),
    'VCS.fV_Tangential': (VCS.fV_Tangential, lambda r: rpz(r) + [MM(r), G(r), NT(r)], dict(nout=(7, pick(1, 2, 3, 5, 7)))),
    'VCS.fV_Root': (VCS.fV_Root, rpz, dict(m=(0, MM), Gamma_r=(-1, G), nout=(1, pick(1, 2, 4, 7)))),
    'VR.ring_u_polar_singular': (VR.ring_u_polar_singular, rz, dict(Gamma=(-1, G), r0=(1, RR))),
    'VR.ring_u_polar_singularb': (VR.ring_u_polar_singularb, rz, dict(Gamma=(-1, G), r0=(1, RR))),
    'VR.ring_u_polar': (VR.ring_u_polar, rz, dict(Gamma=(-1, G), r0=(1, RR), z0=(0, G), epsilon=(0, EPS), reg_method=('Saffman', pick('Saffman', 'linear')))),
    'VR.ring_u': (VR.ring_u, xyz, dict(Gamma=(-1, G), R=(1, RR), polar_out=(True, BOOL), epsilon=(0, EPS))),
    'VR.rings_u': (VR.rings_u, lambda r: xyz(r) + rings(r), dict(polar_out=(True, BOOL), epsilon=(0, EPS))),
    'VD.doublet_u': (VD.doublet_u, lambda r: xyz(r) + [list(r.uniform(-1, 1, 3))], dict(x0=([0, 0, 0], lambda r: list(r.uniform(-1, 1, 3))))),
    'VD.doublet_u_polar': (VD.doublet_u_polar, lambda r: rz(r) + [G(r)], dict(z0=(0, G))),
    'VD.doublet_line_polar_u_num': (VD.doublet_line_polar_u_num, lambda r: rz(r) + [G(r)], dict(z0=(0, G), zmax=(1000, fl(5, 500)), nQuad=(100, pick(30, 80, 200)))),
    'VD.doublet_line_polar_u': (VD.doublet_line_polar_u, lambda r: rz(r) + [G(r)], {}),
    'VD.doublet_line_u': (VD.doublet_line_u, lambda r: xyz(r) + [G(r)], dict(m=(0, MM), L=(np.inf, fl(.5, 30)))),
    'VD.doublet_line_u_num': (VD.doublet_line_u_num, lambda r: xyz(r) + [G(r)], dict(m=(0, MM), zmax=(1000, fl(5, 500)), nQuad=(100, pick(30, 80, 200)))),
    'VL.vl_semiinf_straight_u_polar': (VL.vl_semiinf_straight_u_polar, rpz, dict(Gamma_r=(-1, G), polar_out=(False, BOOL))),
    'VL.vl_semiinf_straight_u': (VL.vl_semiinf_straight_u, xyz, dict(Gamma_r=(-1, G), polar_out=(False, BOOL))),
    'VP.vp_u': (VP.vp_u, lambda r: [r.uniform(-2, 2, 2), r.uniform(-2, 2, 2)], dict(Gamma=(1, G))),
    'VP.vps_u': (VP.vps_u, lambda r: [r.uniform(-2, 2, (6, 2)), r.uniform(-2, 2, (4, 2)), r.uniform(-2, 2, 4)],
                 dict(SmoothModel=(0, pick(0, 1, 2)), KernelOrder=(2, pick(2, 4, 6, 8)), SmoothParam=(None, lambda r: r.uniform(.3, 2, 4)))),
    'SS.ss_u': (SS.ss_u, lambda r: xyz(r) + [G(r)], dict(R=(1, RR), lambda_=(.587, fl(.3, 1)), eta=(1.32, fl(1, 2)))),
    'PF.get_cmap': (PF.get_cmap, lambda r: [float(r.uniform(.3, .85)), float(r.uniform(1.01, 1.3))], dict(alpha=(1, fl(.1, 1)))),
    'WF.gridLayout': (WFm.gridLayout, lambda r: [int(r.integers(1, 5)), G(r), int(r.integers(1, 5)), G(r)], dict(hub_height=(0, fl(1, 4)), mirror=(False, BOOL))),
    'WF.windfarm_gridlayout_CTconst': (WFm.windfarm_gridlayout_CTconst, lambda r: xyz(r) + [RR(r), float(r.uniform(.1, .9)), float(r.uniform(3, 12)), int(r.integers(1, 4)), 3.3, int(r.integers(1, 4)), 5.1],
                                       dict(hub_height=(0, fl(1, 4)), mirror=(False, BOOL))),
    'SO.Ct_const_cutoff': (SO.Ct_const_cutoff, lambda r: [float(r.uniform(.2, 1)), float(r.uniform(.05, .3)), np.linspace(0, 1, 40)], dict(r_bar_tip=(None, fl(.7, .95)))),
}
NAMES = sorted(T)
# the value of an optional argument that only makes sense with another one
NEEDS = {'VP.vps_u': lambda kw: kw['SmoothModel'] == 0 or kw['SmoothParam'] is not None}


def flat(u):
    if isinstance(u, (tuple, list)):
        return np.concatenate([flat(v) for v in u]) if len(u) else np.zeros(0)
    if isinstance(u, dict):
        return flat([u[k] for k in sorted(u)])
    if u is None:
        return np.array([np.nan])
    if hasattr(u, 'N') and callable(u):          # colour map
        return np.ravel(u(np.linspace(0, 1, 41)))
    if isinstance(u, str):
        return np.array([float(sum(map(ord, u)))])
    return np.ravel(np.asarray(u, float))


def nest(u):
    if isinstance(u, (tuple, list)):
        return tuple(nest(v) for v in u)
    return np.shape(u) if not (hasattr(u, 'N') and callable(u)) else 'cmap'


def same(ctx, name, a, b, **kw):
    A, B = flat(a), flat(b)
    ctx.check('same_outputs', A.shape == B.shape and nest(a) == nest(b), function=name, got=nest(a), expected=nest(b), **kw)
    if A.shape == B.shape:
        fin = np.isfinite(B)
        ctx.check('same_undefined', np.array_equal(np.isnan(A), np.isnan(B)) and np.array_equal(A[np.isinf(B)], B[np.isinf(B)]), function=name, **kw)
        s = np.abs(B[fin]).max() if fin.any() else 1.0
        ctx.close('omitted_is_default', A[fin], B[fin], 1e-10, s, function=name, **kw)


def f_func(ctx):
    rng = ctx.rng
    name = NAMES[ctx.k % len(NAMES)]
    f, req, opt = T[name]
    for _ in range(20):
        keys = sorted(opt)
        om = [k for k in keys if rng.random() < .5] or [keys[int(rng.integers(0, len(keys)))]] if keys else []
        given = {k: opt[k][1](rng) for k in keys if k not in om}
        full = dict(given, **{k: opt[k][0] for k in om})
        if name not in NEEDS or NEEDS[name](full):
            break
    else:
        return
    a = req(rng)
    ctx.sig(name, ','.join(om))
    ctx.note(function=name, omitted=om, given=given)
    ra = f(*[np.copy(v) if isinstance(v, np.ndarray) else v for v in a], **given)
    rb = f(*[np.copy(v) if isinstance(v, np.ndarray) else v for v in a], **full)
    same(ctx, name, ra, rb, omitted=om, given=given)


SPECIAL = [n for n in NAMES if 'epsilon' in T[n][2] or n in ('VC.vc_longi_u', 'VD.doublet_u', 'VL.vl_semiinf_straight_u', 'VCS.svc_tang_u', 'VC.cylinder_tang_semi_inf_u_raw')]


def f_special(ctx):
    """the same at points on or next to the singular sets, where a regularisation would show"""
    rng = ctx.rng
    name = SPECIAL[ctx.k % len(SPECIAL)]
    f, req, opt = T[name]
    keys = sorted(opt)
    om = [k for k in keys if k == 'epsilon' or rng.random() < .5] or keys[:1]
    given = {k: opt[k][1](rng) for k in keys if k not in om}
    full = dict(given, **{k: opt[k][0] for k in om})
    a = req(rng)
    n = len(a[0])
    R = np.full(n, float(full.get('R', full.get('r0', 1.0))))
    c = np.zeros((3, n))
    if name in ('VR.rings_u', 'VC.vcs_tang_u'):
        i = rng.integers(0, 3, n)
        R = a[4][i] if name == 'VR.rings_u' else a[4][i, 0]
        c = np.array([a[5][i], a[6][i], a[7][i]])
    th = rng.choice([0, np.pi / 2, 1.0, 2.5, -.3], n)
    e = np.where(rng.random(n) < .5, 0, gen.logu(rng, 1e-9, 1e-1, n))
    r = R * (1 + rng.choice([-1, 1], n) * e)
    z = np.where(rng.random(n) < .5, 0, rng.choice([-1, 1], n) * gen.logu(rng, 1e-9, 1e-1, n)) * R + full.get('z0', full.get('z2', 0))
    if req is rz:
        a[:2] = [r, z]
    else:
        a[:3] = [r * np.cos(th) + c[0], r * np.sin(th) + c[1], z + c[2]]
    ctx.sig(name, 'special', ','.join(om))
    ctx.note(function=name, omitted=om, given=given, points=a[:3])
    with np.errstate(all='ignore'):
        ra = f(*[np.copy(v) if isinstance(v, np.ndarray) else v for v in a], **given)
        rb = f(*[np.copy(v) if isinstance(v, np.ndarray) else v for v in a], **full)
    A, B = flat(ra), flat(rb)
    fin = np.isfinite(B)
    ctx.check('same_undefined', np.array_equal(np.isnan(A), np.isnan(B)) and np.array_equal(A[np.isinf(B)], B[np.isinf(B)]), function=name, omitted=om, given=given)
    ctx.close('omitted_is_default_singular', A[fin], B[fin], 1e-10, np.abs(B[fin]) + 1e-12, function=name, omitted=om, given=given)


def f_gamma(ctx):
    """loading by circulation: the tip-speed ratio, when omitted, is the one of the turbine"""
    rng = ctx.rng
    R = float(rng.uniform(.5, 60))
    lam = float(rng.uniform(2, 14))
    U = float(rng.uniform(3, 15))
    n = int(rng.integers(10, 40))
    r = np.linspace(0 if rng.random() < .5 else .02, 1, n) * R
    k = float(rng.uniform(.2, 1.0)) * np.clip(r / R / .2, 0, 1)
    if rng.random() < .5:
        k[-1] = 0
    Gam = k * np.pi * U * R / lam
    nC = int(rng.integers(2, 7))
    ctx.sig('gamma', nC)
    ctx.note(R=R, Lambda=lam, U0=U, nCyl=nC)
    W = [WindTurbine(R=R, U0=[0, 0, U], Lambda=q) for q in (lam, lam, float(rng.uniform(2, 14)))]
    if rng.random() < .5:
        W[2] = WindTurbine(R=R, U0=[0, 0, U])
    W[0].update_loading(r=r.copy(), Gamma=Gam.copy(), nCyl=nC)
    W[1].update_loading(r=r.copy(), Gamma=Gam.copy(), nCyl=nC, Lambda=lam)
    W[2].update_loading(r=r.copy(), Gamma=Gam.copy(), nCyl=nC, Lambda=lam)
    for w in W[1:]:
        same(ctx, 'update_loading(Gamma)', [W[0].gamma_t, W[0].gamma_l, W[0].Gamma_r], [w.gamma_t, w.gamma_l, w.Gamma_r])


def f_zspacing(ctx):
    """the row spacing of a grid may only be left out when it plays no role, and says so otherwise"""
    rng = ctx.rng
    nx, s = int(rng.integers(1, 6)), G(rng)
    ctx.sig(nx)
    ctx.note(nx=nx, spacing=s)
    try:
        a = WFm.gridLayout(nx, s, 1)
    except Exception:
        a = None
    if a is not None:
        b = WFm.gridLayout(nx, s, 1, s)
        same(ctx, 'gridLayout', a, b)


def f_turbine(ctx):
    """constructor, loading, disk points and evaluation"""
    rng = ctx.rng
    R = float(rng.uniform(.5, 2))
    C = dict(r_hub=([0, 0, 0], lambda r: r.uniform(-3, 3, 3)), U0=([0, 0, 10], lambda r: np.array([r.uniform(-2, 2), 0, r.uniform(4, 9)])), Ct=(None, lambda r: None),
             name=('', pick('', 'a')), Ground=(False, BOOL), Model=('VC', pick('VC', 'VCFF', 'SS', 'VD')))
    C['Lambda'] = (np.inf, lambda r: float(r.uniform(3, 12)))
    if rng.random() < .5:
        C.update(e_shaft_yaw0=([0, 0, 1], lambda r: [0, 0, 1]), e_vert=([0, 1, 0], lambda r: [0, 1, 0]))
    om = [k for k in sorted(C) if rng.random() < .5]
    given = {k: C[k][1](rng) for k in sorted(C) if k not in om}
    full = dict(given, **{k: C[k][0] for k in om})
    ctx.sig('turbine', ','.join(om))
    W1, W2 = WindTurbine(R, **given), WindTurbine(R, **full)
    for at in ('R', 'r_hub', 'U0_g', 'Ground', 'Model', 'e_shaft_g', 'e_vert_g', 'name', 'yaw_pos'):
        if hasattr(W2, at):
            a, b = getattr(W1, at), getattr(W2, at)
            ok = np.array_equal(np.ravel(a), np.ravel(b)) if not isinstance(b, str) else a == b
            ctx.check('constructor_default', ok, attribute=at, got=a, expected=b, omitted=om)
    ctx.check('report_default', W1.tostring() == W2.tostring() and repr(W1) == repr(W2), omitted=om, got=repr(W1), expected=repr(W2))
    # loading
    n = 25
    r = np.linspace(0, 1, n) * R
    CT = float(rng.uniform(.2, .85))
    simple = bool(rng.random() < .5) and W2.Model != 'VC'
    L = dict(nCyl=(1, lambda q: 1 if W2.Model != 'VC' else int(q.integers(2, 5))), Lambda=(None, lambda q: float(q.uniform(3, 12))), gamma_t_Ct=(None, lambda q: turb.GammaOfCt(.4)))
    lom = [k for k in sorted(L) if rng.random() < .6]
    lg = {k: L[k][1](rng) for k in sorted(L) if k not in lom}
    lf = dict(lg, **{k: L[k][0] for k in lom})
    base = dict(Ct=CT) if simple else dict(r=r, Ct=CT * np.clip(r / R / .1, 0, 1))
    ctx.note(R=R, constructor=om, loading=lom, given=given, Ct=CT)
    W1.update_loading(**dict(base, **lg))
    W2.update_loading(**dict(base, **lf))
    for at in ('gamma_t', 'gamma_l', 'Gamma_r', 'r'):
        same(ctx, 'update_loading.' + at, getattr(W1, at), getattr(W2, at), omitted=lom)
    # an omitted tip-speed ratio is the one of the turbine
    if 'Lambda' in lom:
        W3 = WindTurbine(R, **full)
        W3.update_loading(**dict(base, **dict(lf, Lambda=full['Lambda'])))
        same(ctx, 'update_loading Lambda of the turbine', [W1.gamma_t, W1.gamma_l, W1.Gamma_r], [W3.gamma_t, W3.gamma_l, W3.Gamma_r], omitted=lom)
    # disk points
    if rng.random() < .5:
        same(ctx, 'rotor_disk_points', W1.rotor_disk_points(), W2.rotor_disk_points(nP=100), omitted=['nP'])
    # evaluation
    X = rng.uniform(-4, 4, (3, 9))
    X[1] += 2
    O = dict(only_ind=(False, BOOL), longi=(False, BOOL), tang=(True, BOOL), root=(False, BOOL), no_wake=(False, BOOL), ground=(None, BOOL), Model=(None, pick('VC', 'VCFF', 'SS', 'VD')),
             R_far_field=(6, fl(1.5, 5)))
    if W2.Model != 'VC':
        O['longi'] = (False, lambda q: False)
    oom = [k for k in sorted(O) if rng.random() < .6]
    og = {k: O[k][1](rng) for k in sorted(O) if k not in oom}
    if og.get('Model', 'VC') != 'VC':
        og.pop('longi', None)
        if 'longi' not in oom:
            oom.append('longi')
    of = dict(og, **{k: O[k][0] for k in oom})
    ctx.sig('evaluate', ','.join(oom))
    try:
        u2 = W2.compute_u(*X, **of)
    except NotImplementedError:
        u2 = None
    if u2 is not None:
        same(ctx, 'compute_u', W1.compute_u(*X, **og), u2, omitted=oom, given=og)
        # no ground argument: the ground of the turbine; no model: the model of the turbine
        if 'ground' in oom or 'Model' in oom:
            od = dict(of)
            if 'ground' in oom:
                od['ground'] = W2.Ground
            if 'Model' in oom:
                od['Model'] = W2.Model
            same(ctx, 'compute_u settings of the turbine', u2, W2.compute_u(*X, **od), omitted=oom, given=og)
        # farm: no free stream unless given
        F = WindFarm([W1]) if rng.random() < .5 else WindFarm()
        if not len(F):
            F.append(W1)
        kw = {k: v for k, v in of.items() if k not in ('only_ind', 'no_wake')}
        nw = of['no_wake']
        a = F.velocity_field(*X, **(dict(kw, no_wake=nw) if nw or rng.random() < .5 else kw))
        same(ctx, 'velocity_field', a, W2.compute_u(*X, **dict(of, only_ind=True)), given=kw)


def f_explicit(ctx):
    """an argument given explicitly replaces the setting of the turbine for that call, whatever the two values are, and only for that call"""
    rng = ctx.rng
    R = float(rng.uniform(.5, 2))
    a = dict(Ground=bool(rng.random() < .5), Model=str(rng.choice(['VC', 'VCFF', 'SS', 'VD'])), Lambda=float(rng.choice([np.inf, 5., 9.])))
    b = dict(Ground=bool(rng.random() < .5), Model=str(rng.choice(['VC', 'VCFF', 'SS', 'VD'])), Lambda=float(rng.choice([np.inf, 4., 9.])))
    hub = np.array([rng.uniform(-3, 3), rng.uniform(.5, 3), rng.uniform(-3, 3)])
    multi = a['Model'] == b['Model'] == 'VC' and rng.random() < .5
    r = np.linspace(0, 1, 25) * R
    CT = float(rng.uniform(.2, .85))
    base = dict(r=r, Ct=CT * np.clip(r / R / .1, 0, 1), nCyl=4) if multi else dict(Ct=CT)
    WA = WindTurbine(R=R, r_hub=hub, U0=[0, 0, 9], **a)
    WB = WindTurbine(R=R, r_hub=hub, U0=[0, 0, 9], **b)
    WA.update_loading(**dict(base, Lambda=b['Lambda']))
    WB.update_loading(**base)
    ctx.sig(a, b, multi)
    ctx.note(turbine=a, given=b, nCyl=len(WA.gamma_t), hub=hub, R=R, Ct=CT)
    same(ctx, 'update_loading(Lambda)', [WA.gamma_t, WA.gamma_l, WA.Gamma_r], [WB.gamma_t, WB.gamma_l, WB.Gamma_r])
    X = hub[:, None] + rng.uniform(-4, 4, (3, 9)) * R
    X[2] = np.where(np.abs(np.hypot(X[0] - hub[0], X[1] - hub[1]) / R - 1) < .1, hub[2] - R, X[2])
    o = dict(longi=bool(rng.random() < .5) and b['Model'] == a['Model'] == 'VC', root=bool(rng.random() < .5), only_ind=bool(rng.random() < .5))
    u0 = WA.compute_u(*X, **o)
    g = b['Ground'] if rng.random() < .6 else int(b['Ground']) if rng.random() < .5 else np.bool_(b['Ground'])
    same(ctx, 'compute_u(ground, Model)', WA.compute_u(*X, **dict(o, ground=g, Model=b['Model'])), WB.compute_u(*X, **o), turbine=a, given=b)
    same(ctx, 'for one call only', WA.compute_u(*X, **o), u0, turbine=a, given=b)
    ctx.check('settings_kept', WA.Ground == a['Ground'] and WA.Model == a['Model'], turbine=a, given=b)
    o.pop('only_ind')
    FA, FB = WindFarm([WA, WB]), WindFarm([WB, WB])
    kw = dict(o, ground=g, Model=b['Model'])
    same(ctx, 'velocity_field(ground, Model)', FA.velocity_field(*X, **kw), FB.velocity_field(*X, **o), turbine=a, given=b)


def f_solver(ctx):
    rng = ctx.rng
    R, U0 = float(rng.uniform(.5, 80)), float(rng.uniform(3, 15))
    lam = float(rng.uniform(3, 12))
    n = int(rng.integers(8, 40))
    rb = np.linspace(.02, 1, n)
    k = float(rng.uniform(.3, 1.05)) * np.clip(rb / .2, 0, 1)
    Om = lam * U0 / R
    Gam = k * np.pi * U0 ** 2 / Om
    sw = bool(rng.random() < .5)
    which = ['cont', 'incont', 'discr'][ctx.k % 3]
    if which == 'cont':
        f, a, opt = SO.WakeVorticityFromCirculation_Cont, [rb * R, Gam, R, U0, Om, sw], dict(method=('analytical', pick('analytical')), bHighThrustCorr=(True, BOOL))
    elif which == 'incont':
        f, a, opt = SO.InductionsFromCirculation_VC_Cont, [rb, lam * rb, k, sw], dict(method=('analytical', pick('analytical')), bHighThrustCorr=(True, BOOL), Cq=(None, lambda r: None))
    else:
        rc = (np.concatenate([[0], (rb[:-1] + rb[1:]) / 2]) * R)
        f, a = SO.WakeVorticityFromCirculation_Discr, [rb * R, Gam, R, U0, Om, int(rng.integers(1, 5)), sw]
        opt = dict(method=('analytical', pick('analytical')), bTanInd_k=(True, BOOL), bHighThrustCorr=(True, BOOL))
    om = [q for q in sorted(opt) if rng.random() < .5]
    given = {q: opt[q][1](rng) for q in sorted(opt) if q not in om}
    full = dict(given, **{q: opt[q][0] for q in om})
    ctx.sig(which, ','.join(om), sw)
    ctx.note(function=f.__name__, omitted=om, given=given, n=n, lam=lam, swirl=sw)
    cp = lambda: [np.copy(v) if isinstance(v, np.ndarray) else v for v in a]
    same(ctx, f.__name__, f(*cp(), **given), f(*cp(), **full), omitted=om, given=given)


def f_helpers(ctx):
    """the optional arguments of the article helpers"""
    from .P32 import H
    rng = ctx.rng
    O = dict(U0=(1, fl(.5, 12)), Model=('VC', pick('VC', 'SS', 'VD')), gamma_t=(None, fl(-1, -.1)), MatchMidVel=(None, pick(False)), AD=(None, lambda r: None))
    om = [q for q in sorted(O) if rng.random() < .6]
    given = {q: O[q][1](rng) for q in sorted(O) if q not in om}
    full = dict(given, **{q: O[q][0] for q in om})
    base = dict(CT=float(rng.uniform(.1, .85)), HH=float(rng.choice([9999, 3.0])), Lambda=99, Horizontal=BOOL(rng), Yaw=float(rng.choice([0., 20.])) if full['Model'] == 'VC' else 0.0)
    ctx.sig('setupModel', ','.join(om))
    ctx.note(omitted=om, given=given, base=base)
    A, B = H.setupModel(**dict(base, **given)), H.setupModel(**dict(base, **full))
    v = rng.uniform(-3, 3, 7)
    q = (np.cos(3 * v) * v, np.sin(5 * v) * v, v[::-1].copy())
    same(ctx, 'setupModel', A.fU(*q), B.fU(*q), omitted=om, given=given)
    same(ctx, 'OutputVC.fRadial', B.fRadial(v), B.fRadial(v, z0=0))
    a = float(rng.uniform(0, 1))
    M = H.getModelsCMAP()
    for i in (1, 2):
        same(ctx, 'getModelsCMAP', M[i], H.getModelsCMAP(alpha=.3)[i])
    ctx.close('transparency', np.array(H.getModelsCMAP(a)[1])[:, 3], a, 1e-12)
    ctx.close('transparency', np.array(H.getModelsCMAP(a)[2])[:, 3], 1, 1e-12)
    X = np.sort(rng.uniform(-8, 8, 30))
    U1, U2 = 1 + .1 * np.sin(X), 1 + .2 * np.cos(X)
    k = dict(x1=(-4.99, fl(-6, -2)), x2=(-1, fl(-1.5, 2)))
    om = [q for q in sorted(k) if rng.random() < .5]
    given = {q: k[q][1](rng) for q in sorted(k) if q not in om}
    same(ctx, 'relerrinduction', H.relerrinduction(X, U1, U2, **given), H.relerrinduction(X, U1, U2, **dict(given, **{q: k[q][0] for q in om})), omitted=om)
    CT = rng.uniform(.1, .8, (2, 2))
    F = H.VCFarmFromFloris(CT, 2., 4., **(dict(Model='VC') if rng.random() < .5 else dict(gamma_t_Ct=None)))
    G_ = H.VCFarmFromFloris(CT, 2., 4.)
    same(ctx, 'VCFarmFromFloris', G_.velocity_field(*q), F.velocity_field(*q))


FAMILIES = [Family('function', f_func, 1800, 40000), Family('special', f_special, 300, 8000), Family('gamma', f_gamma, 150, 3000), Family('spacing', f_zspacing, 20, 200), Family('turbine', f_turbine, 500, 9000), Family('explicit', f_explicit, 400, 8000), Family('solver', f_solver, 300, 6000),
            Family('helpers', f_helpers, 200, 3000)]
