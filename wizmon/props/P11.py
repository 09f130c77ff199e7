"""Every field is a Biot-Savart field: no mass source, the vorticity it should have and nowhere else."""
import numpy as np
from ..core import Family
from .. import gen, ref, fields, turb
from wiz import VortexCylinder as VC
from wiz.WindFarm import WindFarm

RULE = ('all 19 kernels and the global field of turbines (every vortex model, skew, ground, one or several cylinders) and farms, derivatives from 4th order differences around points at random distances of the singular sets; closed surfaces '
        'and loops that cut through the vortex sheets; distinct = different (family, kernel, sign, skew) and case of closed surface/loop')
ASSUMPTIONS = ['finite differences: tolerance 2e-4 of (local velocity + field scale)/distance',
               'an open vortex line must have the isotropic closing vorticity of Biot-Savart at its end (curl of root and longitudinal fields)']


def derivs(F, x, y, z, h):
    """gradient tensor J[i][j] = du_i/dx_j, 4th order"""
    J = [[None] * 3 for _ in range(3)]
    n = len(x)
    X, W = [], []
    off = [(-2, 1 / 12.), (-1, -8 / 12.), (1, 8 / 12.), (2, -1 / 12.)]
    P = []
    for j in range(3):
        for o, w in off:
            q = [x, y, z]
            q[j] = q[j] + o * h
            P.append(q)
    u = F.f(np.concatenate([p[0] for p in P]), np.concatenate([p[1] for p in P]), np.concatenate([p[2] for p in P]))
    u = [np.asarray(c).reshape(12, n) for c in u]
    for i in range(3):
        for j in range(3):
            J[i][j] = sum(off[k][1] * u[i][4 * j + k] for k in range(4)) / h
    return J, u


def f_diff(ctx):
    rng = ctx.rng
    F = fields.draw(rng, fields.KINDS[ctx.k % len(fields.KINDS)])
    lo = {True: .45, False: .08}[F.name in fields.BOUND]
    x, y, z, d = fields.points(rng, F, 10, lo, far=False)
    if not len(x):
        return
    ctx.sig(F.name, F.args.get('m', 0) > 0)
    ctx.note(kernel=F.name, args=F.args, L=F.L, x=x[:2], y=y[:2], z=z[:2])
    h = 0.03 * np.minimum(d, 1.0) * F.L
    J, u = derivs(F, x, y, z, h)
    um = np.max([np.abs(c).max(0) for c in u], axis=0)
    sc = (um + F.U) / (np.minimum(d, 1.0) * F.L)
    t = 2e-4 * sc
    pts = (x / F.L, y / F.L, z / F.L, d)
    ctx.close('divergence', J[0][0] + J[1][1] + J[2][2], 0 * x, 1, t, points=pts, kernel=F.name)
    c = F.curl(x, y, z)
    ctx.close('curl_x', J[2][1] - J[1][2], c[0], 1, t, points=pts, kernel=F.name)
    ctx.close('curl_y', J[0][2] - J[2][0], c[1], 1, t, points=pts, kernel=F.name)
    ctx.close('curl_z', J[1][0] - J[0][1], c[2], 1, t, points=pts, kernel=F.name)


_gl = np.polynomial.legendre.leggauss(60)


def seg(a, b):
    return (a + b) / 2 + (b - a) / 2 * _gl[0], (b - a) / 2 * _gl[1]


def right(rng):
    R, g = gen.scale(rng), gen.strength(rng)
    if rng.random() < .5:
        z1, z2 = np.sort(rng.uniform(-2, 2, 2)) * R
        if z2 - z1 < .2 * R:
            z2 = z1 + .2 * R
        f = lambda r, z: VC.cylinder_tang_u(r, 0 * r, z + 0 * r, gamma_t=g, R=R, z1=z1, z2=z2, polar_out=True)
        return R, g, f, (z1, z2), 'finite'
    return R, g, lambda r, z: VC.vc_tang_u(r, 0 * r, z + 0 * r, gamma_t=g, R=R, polar_out=True), (0.0, np.inf), 'semi'


def f_mass(ctx):
    """net flux through a can that cuts the sheet"""
    rng = ctx.rng
    R, g, f, (e1, e2), nm = right(rng)
    a = rng.choice([rng.uniform(.2, .9), rng.uniform(1.1, 3)]) * R
    za, zb = np.sort(rng.uniform(-3, 4, 2)) * R
    for e in (e1, e2):
        if np.isfinite(e):
            if abs(za - e) < .1 * R:
                za -= .25 * R
            if abs(zb - e) < .1 * R:
                zb += .25 * R
    ctx.sig(nm, a > R, za < e1, zb > e1, zb > e2, g > 0)
    tot = 0.0
    for z, s in ((za, -1), (zb, 1)):
        for lo, hi in ((0, min(a, R)), (R, a)):
            if hi > lo:
                r, w = seg(lo, hi)
                tot += s * (f(r, z)[1] * 2 * np.pi * r * w).sum()
    cuts = sorted([za, zb] + [e for e in (e1, e2) if za < e < zb])
    for lo, hi in zip(cuts[:-1], cuts[1:]):
        z, w = seg(lo, hi)
        tot += (f(a + 0 * z, z)[0] * 2 * np.pi * a * w).sum()
    ctx.close('mass_conservation', tot / R ** 2, 0.0, 2e-5 * abs(g), 1.0, a=a / R, za=za / R, zb=zb / R, ends=(e1 / R, e2 / R), case=nm)


def f_stokes(ctx):
    """circulation around a meridian rectangle = sheet strength x length of sheet it embraces"""
    rng = ctx.rng
    R, g, f, (e1, e2), nm = right(rng)
    a, b = rng.uniform(.1, .85) * R, rng.uniform(1.15, 3) * R
    if rng.random() < .25:
        b = rng.uniform(.1, .85) * R
        a, b = min(a, b), max(a, b)
    za, zb = np.sort(rng.uniform(-3, 4, 2)) * R
    for e in (e1, e2):
        if np.isfinite(e):
            if abs(za - e) < .1 * R:
                za -= .25 * R
            if abs(zb - e) < .1 * R:
                zb += .25 * R
    ctx.sig(nm, b > R, za < e1, zb > e1, zb > e2, g > 0)
    tot = 0.0
    for r, s in ((a, 1), (b, -1)):
        cuts = sorted([za, zb] + [e for e in (e1, e2) if za < e < zb])
        for lo, hi in zip(cuts[:-1], cuts[1:]):
            z, w = seg(lo, hi)
            tot += s * (f(r + 0 * z, z)[1] * w).sum()
    for z, s in ((zb, 1), (za, -1)):
        for lo, hi in ((a, min(b, R)), (R, b)):
            if hi > lo:
                r, w = seg(lo, hi)
                tot += s * (f(r, z)[0] * w).sum()
    exp = g * max(0.0, min(zb, e2) - max(za, e1)) if b > R else 0.0
    ctx.close('circulation', tot / R, exp / R, 2e-5 * abs(g), 1.0, a=a / R, b=b / R, za=za / R, zb=zb / R, ends=(e1 / R, e2 / R), case=nm)


def f_swirl(ctx):
    """longitudinal sheet and root vortex: azimuthal velocity only, circulation = embraced circulation x fraction of the half lines"""
    rng = ctx.rng
    R, g = gen.scale(rng), gen.strength(rng)
    n = 40
    # azimuthal mean of the solid-angle fraction seen from the loop: quadrature over the sheet
    a = rng.choice([rng.uniform(.15, .8), rng.uniform(1.2, 3)])
    z = rng.uniform(-3, 4)
    ctx.sig(a > 1, z > 0, g > 0)
    p = np.arange(n) * 2 * np.pi / n
    x, y = a * R * np.cos(p), a * R * np.sin(p)
    u = VC.vc_longi_u(x, y, z * R + 0 * x, gamma_l=g, R=R, polar_out=False)
    up = -u[0] * np.sin(p) + u[1] * np.cos(p)
    ctx.close('no_radial', u[0] * np.cos(p) + u[1] * np.sin(p), 0 * p, 1e-10 * abs(g), 1.0)
    ctx.close('no_axial', u[2], 0 * p, 1e-10 * abs(g), 1.0)
    # flux of the vorticity (sheet + closing field) through the disk of radius a at z
    fl = 0.0
    e = sorted({0.0, a} | {b for b in (.7, .9, 1.0, 1.1, 1.3) if b < a})
    for lo, hi in zip(e[:-1], e[1:]):
        r, w = seg(lo, hi)
        cz = fields._ringend_curl(r, 0 * r, z + 0 * r, g, 1.0)[2]
        fl += (cz * 2 * np.pi * r * w).sum()
    fl += (2 * np.pi * g if (a > 1 and z > 0) else 0.0)
    if abs(z) > .1:
        ctx.close('stokes_longi', up.mean() * 2 * np.pi * a, fl, 1e-6 * abs(g), 1.0, a=a, z=z)
    G = g * R
    u = VC.vc_root_u(x, y, z * R + 0 * x, Gamma_r=G, polar_out=False)
    up = -u[0] * np.sin(p) + u[1] * np.cos(p)
    ctx.close('stokes_root', up.mean() * 2 * np.pi * a, g / 2 * (1 + z / np.hypot(a, z)), 1e-9 * abs(g), 1.0, a=a, z=z)


def grad(f, P, h):
    """J[i,j] = du_i/dx_j at the points P (3,n), 4th order, step h (n,)"""
    n = P.shape[1]
    off = [(-2, 1 / 12.), (-1, -8 / 12.), (1, 8 / 12.), (2, -1 / 12.)]
    Q = np.concatenate([P + np.eye(3)[:, [j]] * o * h for j in range(3) for o, w in off], axis=1)
    u = np.array(f(Q[0], Q[1], Q[2])).reshape(3, 12, n)
    return np.array([[sum(off[k][1] * u[i, 4 * j + k] for k in range(4)) / h for j in range(3)] for i in range(3)]), u


def f_turbine(ctx):
    """the field that a turbine or a farm returns, in global coordinates"""
    rng = ctx.rng
    model = ['VC', 'VC', 'VCFF', 'VD'][ctx.k % 4]
    kw = {} if model == 'VC' else dict(chi=0.0, yaw=0.0 if rng.random() < .3 else None, nCyl=1, kind='ct_scalar')
    c = turb.draw(rng, Model=model, R=float(rng.choice([1.0, gen.logu(rng, .1, 100)])), **kw)
    if model != 'VC':
        a = c['yaw']
        c['U0'] = np.linalg.norm(c['U0']) * turb.axes(c)[2]
    W = turb.build(c)
    R, m = c['R'], np.tan(turb.chi_of(c))
    if abs(m) < 1e-7 and c['chi']:
        return
    opt = dict(longi=bool(rng.random() < .4), root=bool(rng.random() < .4)) if model == 'VC' else {}
    if rng.random() < .3:
        opt['only_ind'] = True
    rs = turb.radii(W)
    h = np.dot(c['hub'], c['vert'])
    n = 8
    X, P, d = turb.points(rng, c, n, rs, far=False, dmin=.45 if m else .08, line=bool(opt.get('root')) or model != 'VC')
    if not m and model != 'VD' and not opt.get('root'):    # next to the axis, and on it
        Pa = np.array([rng.normal(size=n), rng.normal(size=n), rng.uniform(-3, 4, n)])
        Pa[:2] *= gen.logu(rng, 1e-4, .1, n) * (rng.random(n) < .8)
        Pa *= R
        da = turb.dist(c, Pa, rs, m, line=c['ground'])
        Pa, da = Pa[:, da > .08], da[da > .08]
        X, P, d = np.concatenate([X, turb.to_global(c, Pa)], 1), np.concatenate([P, Pa], 1), np.concatenate([d, da])
    d = np.minimum(d, 1)
    st = .03 * d * R
    if model == 'VCFF':          # inside or outside of the switch spheres, not across
        ok = np.ones(len(d), bool)
        for y in ((0, 2 * h) if c['ground'] else (0,)):
            D = np.sqrt(P[0] ** 2 + (P[1] + y) ** 2 + P[2] ** 2) / R
            ok &= (np.abs(D - 3) > .2) & ((D < 3) | (P[2] < 0) | (np.hypot(P[0], P[1] + y) > .3 * R))
        opt['R_far_field'] = 3
        X, P, d, st = X[:, ok], P[:, ok], d[ok], st[ok]
    if not len(d):
        return
    ctx.sig(model, m == 0, c['ground'], len(rs) > 1, opt.get('longi'), opt.get('root'))
    turb.note(ctx, c, opt=opt)
    farm = model == 'VC' and not opt['longi'] and not opt['root'] and rng.random() < .3
    f = (lambda x, y, z: WindFarm([W]).velocity_field(x, y, z)) if farm else (lambda x, y, z: W.compute_u(x, y, z, **opt))
    J, u = grad(f, X, st)
    U = turb.scale_u(W) + np.sqrt((u ** 2).sum(0)).max(0)
    t = 3e-5 * U / (d * R)
    if model == 'VD':
        t = t / np.minimum(1, d) ** 2
    ctx.close('turbine_divergence', J[0, 0] + J[1, 1] + J[2, 2], 0 * d, 1, t, points=P / R, model=model, farm=bool(farm))
    if not opt.get('longi') and not opt.get('root'):
        for i, j in ((0, 1), (1, 2), (2, 0)):
            ctx.close('turbine_curl', J[i, j] - J[j, i], 0 * d, 1, t, points=P / R, model=model, farm=bool(farm))


FAMILIES = [Family('differential', f_diff, 760, 12000), Family('turbine', f_turbine, 300, 6000), Family('mass', f_mass, 300, 6000), Family('stokes', f_stokes, 300, 6000), Family('swirl', f_swirl, 200, 3000)]
