"""Every velocity is a finite number, and no larger than the nearest vortex element can make it."""
import numpy as np
from ..core import Family
from .. import gen, ref, fields, turb
from wiz import VortexCylinder as VC, VortexRing as VR, VortexDoublet as VD, VortexLine as VL, VortexPoint as VP, SelfSimilar as SS
from wiz.WindTurbine import WindTurbine
from wiz.WindFarm import WindFarm

RULE = ('all 19 kernels at points that make expressions degenerate (exactly on the axis, in the rotor plane, x=0, y=0, on the prolongation of the wake, '
        'at distances 1e-12..1e6 rotor radii), regular kernels exactly on their sheets, edges and rings, turbines of every model at hub, axis, rotor disk, '
        'tower; distinct = different (family, kernel or model, kind of point, decade of scale)')
ASSUMPTIONS = ['upper bounds: U(5+2 log(1/d)+1/d^p), p=0 for tangential sheets, 1 for lines and rings, 3 for doublets (2 for lines of doublets), d distance/size, U sheet strength',
               'a skewed cylinder is only asked for off its sheet (0.05R), a doublet line off the straight line that carries it']
POW = dict(vc_tang=0, vc_tang_finite=0, vc_longi=0, vc_root=1, svc_tang=1, svc_longi=1, svc_root=1, ring=1, ring_polar=1, rings=1, doublet=3,
           doublet_line=2, doublet_line_skew=3, doublet_line_finite=3, vcs_tang=0, vcs_longi=0, svcs_tang=1, svcs_longi=1, svc_all=1)
KIND = ['axis', 'plane', 'x0', 'y0', 'tiny', 'wake', 'far', 'bulk', 'ends']


def hostile(rng, F, n):
    L = F.L
    P = rng.uniform(-3, 3, (3, n))
    k = rng.integers(0, len(KIND), n)
    P[:2, k == 0] = 0
    P[2, k == 1] = 0
    P[0, k == 2] = 0
    P[1, k == 3] = 0
    b = k == 4
    P[:, b] = np.where(rng.random((3, b.sum())) < .5, gen.slog(rng, 1e-12, 1e-2, 3 * b.sum()).reshape(3, -1), P[:, b])
    b = k == 5
    m = float(F.args.get('m', 0.0))
    P[0, b] = m * P[2, b] + rng.choice([0, .3, -.3], b.sum())
    P[1, b] = rng.choice([0, .2], b.sum())
    b = k == 6
    v = rng.normal(size=(3, b.sum()))
    v = np.where(rng.random(v.shape) < .2, 0, v) + np.array([[0], [0], [1e-9]])
    P[:, b] = v / np.linalg.norm(v, axis=0) * gen.logu(rng, 10, 1e6, b.sum())
    b = k == 8
    P[:, b] = rng.choice([0, 1, -1, .5, -.5, 2, 1e-8, 1 + 1e-9], (3, b.sum()))
    return P * L, k


def f_kernels(ctx):
    rng = ctx.rng
    F = fields.draw(rng, fields.KINDS[ctx.k % len(fields.KINDS)])
    (x, y, z), k = hostile(rng, F, 90)
    d = F.dist(x, y, z)
    lo = .05 if F.name in fields.BOUND else (1e-6 if F.name in ('vc_tang', 'vc_tang_finite', 'vc_longi', 'vc_root', 'ring', 'ring_polar', 'rings') else
                                             .1 if F.name.startswith('doublet_line_') else 1e-2 if F.name.startswith('doublet') else 1e-4)
    ok = d > lo
    x, y, z, d, k = x[ok], y[ok], z[ok], d[ok], k[ok]
    if not len(x):
        return
    for j in np.unique(k):
        ctx.sig(F.name, KIND[j], int(np.floor(np.log10(F.L))))
    ctx.note(kernel=F.name, args=F.args, L=F.L)
    u = [np.asarray(c, float) for c in F.f(x, y, z)]
    if not ctx.finite('finite', u, points=(x / F.L, y / F.L, z / F.L, d), kernel=F.name):
        return
    dd = np.minimum(d, 1)
    b = F.U * (5 + 2 * np.log(1 / dd) + (dd ** -POW[F.name] if POW[F.name] else 0))
    if POW[F.name] == 1 and F.name in fields.BOUND:
        b = b * np.sqrt(1 + F.args.get('m', 0) ** 2)
    sp = np.sqrt(sum(c ** 2 for c in u))
    if POW[F.name] == 0 or F.name in fields.BOUND or F.name == 'rings':
        # angular singularity of polar decomposition and superposition of near elements
        b = b * 2
    ctx.close('bounded', sp, 0 * sp, 1, b, points=(x / F.L, y / F.L, z / F.L, d), kernel=F.name)


def f_singular(ctx):
    """the right kernels answer with a number on their own vortex elements as well"""
    rng = ctx.rng
    L, g = gen.scale(rng), gen.strength(rng)
    R = L
    p = np.concatenate([rng.uniform(-np.pi, np.pi, 4), [0, np.pi / 2, np.pi, -np.pi / 2]])
    zz = np.concatenate([[0, 0, 0], rng.uniform(-3, 5, 4), [1e-30, -1e-30, 1e6]]) * R
    q = float(rng.choice([1.0, 0.0, rng.uniform(.2, .9)]))
    P, Z = [v.ravel() for v in np.meshgrid(p, zz)]
    if q == 1.0 and rng.random() < .6:        # a few units in the last place beside the sheet, hardly out of the plane
        q = q + rng.integers(-6, 7, P.size) * 1.2e-16 * 10 ** rng.uniform(0, 3)
        Z = np.where(rng.random(P.size) < .5, gen.slog(rng, 1e-20, 1e-7, P.size) * R, Z)
    x, y = q * R * np.cos(P), q * R * np.sin(P)
    x[np.abs(np.abs(P) - np.pi / 2) < 1e-9] = 0
    y[(P == 0) | (P == np.pi)] = 0
    z1, z2 = np.sort(rng.uniform(-2, 2, 2)) * R
    lab = 'sheet+' if np.ndim(q) else q if q in (0.0, 1.0) else 'in'
    q = 1.0 if np.ndim(q) else q
    zf = np.where(Z == 0, np.where(rng.random(Z.size) < .5, z1, z2), Z)
    ctx.sig(int(np.log10(R)), g > 0, lab)
    ctx.note(R=R, g=g, q=q, z1=z1, z2=z2)
    r = np.sqrt(x ** 2 + y ** 2)
    pts = (x, y, Z)
    T = [('vc_tang_u', lambda: VC.vc_tang_u(x, y, Z, g, R, polar_out=False), 3), ('vc_tang_u polar', lambda: VC.vc_tang_u(x, y, Z, g, R), 2),
         ('cylinder_tang_u', lambda: VC.cylinder_tang_u(x, y, zf, g, R, z1, z2, polar_out=False), 3),
         ('vc_longi_u', lambda: VC.vc_longi_u(x, y, Z, g, R), 3), ('vc_longi_u polar', lambda: VC.vc_longi_u(x, y, Z, g, R, polar_out=True), 3),
         ('vc_root_u', lambda: VC.vc_root_u(x, y, Z, g), 3), ('vl_semiinf_straight_u', lambda: VL.vl_semiinf_straight_u(x, y, Z, g), 3),
         ('ring_u', lambda: VR.ring_u(x, y, Z, g, R, polar_out=False), 3), ('ring_u_polar', lambda: VR.ring_u_polar(r, Z, g, R), 2),
         ('doublet_u', lambda: VD.doublet_u(x, y, Z, [g, 0, g]), 3), ('doublet_line_u', lambda: VD.doublet_line_u(x, y, Z, g), 3),
         ('vc_tang_u_doublet', lambda: VC.vc_tang_u_doublet(x, y, Z, g, R, polar_out=False), 3), ('ss_u', lambda: (SS.ss_u(x, y, Z, g, R),), 1)]
    for nm, f, nc in T:
        u = [np.asarray(c, float) for c in f()]
        ctx.check('components', len(u) == nc and all(c.shape == x.shape for c in u), kernel=nm, shapes=[c.shape for c in u])
        ctx.finite('finite_on_the_element', u, points=pts, kernel=nm)
        # nothing that could be on a sheet of a right cylinder has more than a logarithm to offer
        if nm in ('vc_tang_u', 'vc_longi_u') and q != 1.0:
            ctx.close('bounded', np.sqrt(sum(c ** 2 for c in u)), 0 * x, 1, abs(g) * 8, kernel=nm)
    return


def f_turbine(ctx):
    """hub, axis, rotor plane, tower, ground: all models give numbers"""
    rng = ctx.rng
    Model = str(rng.choice(['VC', 'VCFF', 'VD', 'SS']))
    kw = {}
    if Model != 'VC':
        kw = dict(chi=0.0, yaw=0.0, nCyl=1, kind='ct_scalar')
    c = turb.draw(rng, Model=Model, **kw)
    W = turb.build(c)
    chi = turb.chi_of(c)
    m = np.tan(chi)
    R = c['R']
    t = np.array([0, -.3, -1, -5, -50, .2, 1.3, 4, 30])
    h = np.dot(c['hub'], c['vert']) / R
    loc = [np.array([0 * t, 0 * t, t]), np.array([m * t, 0 * t, t]), np.array([.37 * np.cos(t), .37 * np.sin(t), 0 * t]), np.array([0 * t, -h + 0 * t, t]),
           np.array([0 * t, -h * np.linspace(0, 1, 9), 0 * t]), np.array([t, 0 * t, 0 * t]), np.array([1.7 * np.cos(t), 1.7 * np.sin(t), t])]
    P = np.concatenate(loc, axis=1) * R
    # the doublet models are singular in the hub and on the wake axis: ok as long as they are finite
    d = turb.dist(c, P, turb.radii(W), m, line=True)
    right = abs(c['chi']) < 1e-8
    tang = turb.dist(c, P, turb.radii(W), m, line=False) > (1e-9 if right else .06)
    full = d > (1e-9 if right else .06)
    X = turb.to_global(c, P)
    ng = bool(rng.random() < .3)
    ctx.sig(Model, turb.chi_class(c['chi']), c['ground'], len(turb.radii(W)), ng)
    turb.note(ctx, c, no_wake=ng)
    s = turb.scale_u(W)
    u = np.array(W.compute_u(X[0], X[1], X[2], only_ind=True, no_wake=ng))
    ctx.finite('finite', u[:, tang], points=P[:, tang] / R, Model=Model)
    v = np.array(W.compute_u(X[0], X[1], X[2], only_ind=False, no_wake=ng))
    ctx.close('plus_free_stream', v[:, tang], u[:, tang] + c['U0'][:, None], 1e-9, s * 20 + np.linalg.norm(c['U0']))
    # (the point itself can be up to round-off beside the axis)
    if Model in ('VC', 'SS'):
        b = s * (10 + 3 * np.log(1 / np.clip(d, 1e-9, 1)) + (0 if right else 1 / np.clip(d, .06, 1)))
        ctx.close('bounded', np.linalg.norm(u, axis=0)[tang], 0 * d[tang], 1, b[tang], points=P[:, tang] / R, Model=Model)
    if Model == 'VC':
        w = np.array(W.compute_u(X[0], X[1], X[2], only_ind=True, longi=True, root=True, no_wake=ng))
        ctx.finite('finite_with_swirl', w[:, full], points=P[:, full] / R)
    F = WindFarm([W])
    f = np.array(F.velocity_field(X[0], X[1], X[2], no_wake=ng))
    ctx.finite('farm_finite', f[:, tang])
    Rd = W.rotor_disk_points(int(rng.integers(2, 40)))
    ctx.finite('rotor_disk', [Rd])


def f_points(ctx):
    """the 2D vortex points, smoothed, at their own position; half lines with cores at their origin"""
    rng = ctx.rng
    n = int(rng.integers(1, 12))
    nd = int(rng.choice([2]))
    X = rng.uniform(-1, 1, (n, nd))
    G = np.array([gen.strength(rng) for _ in range(n)])
    CP = np.vstack([X, rng.uniform(-1, 1, (5, nd)), X + 1e-12])
    sm = int(rng.choice([0, 1, 2]))
    ctx.sig('points', sm, n)
    ctx.note(n=n, smooth=sm)
    par = np.full(n, float(gen.logu(rng, 1e-3, 1)))
    kw = dict(SmoothModel=sm, KernelOrder=2, SmoothParam=par if sm else None)
    u = VP.vps_u(CP.copy(), X.copy(), G.copy(), **kw)
    if sm:
        ctx.finite('finite_points', [u], smooth=sm)
        ctx.close('bounded_points', u, 0 * u, 1, np.abs(G).sum() / par.min() * 2)
    else:
        ctx.finite('finite_points', [u[n:n + 5]], smooth=sm)
    vm = int(rng.choice([1, 2, 3, 4]))
    e = gen.unit(rng)
    P = np.concatenate([np.outer(e, rng.uniform(-3, 3, 8)), rng.uniform(-2, 2, (3, 8)), np.zeros((3, 1))], axis=1)
    for p in P.T:
        w = VL.vl_semiinf_u(p[0], p[1], p[2], e[0], e[1], e[2], 1.3, vm, .1)
        ctx.finite('finite_half_line', [np.ravel(np.array(w, float))], model=vm)


FAMILIES = [Family('kernels', f_kernels, 900, 30000), Family('singular', f_singular, 250, 6000), Family('turbine', f_turbine, 250, 6000), Family('points', f_points, 150, 3000)]
QUICK = 4        # cheap: more cases in the quick run
