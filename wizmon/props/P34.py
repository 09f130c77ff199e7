"""Reference data of the blockage study: files are read as stored, slices and look-ups are those asked for, models are compared with them point by point."""
import os, tempfile, contextlib
import numpy as np
import scipy.io
from ..core import Family
from .. import ref
from .P32 import H, farm_ref

RULE = ('made-up data files written in a scratch directory: planes in the formats the study uses (one .mat per case, or .csv sets above the ground), 3D boxes, lines of farms; CT, heights, tip-speed '
        'ratios and yaw vary, other cases are stored next to the requested one; drawn planes; distinct = different (family, format, orientation, options)')
ASSUMPTIONS = ['the data files are not shipped: their formats are those the code reads', 'linear data are reproduced by any interpolation, 1e-8']


@contextlib.contextmanager
def scratch():
    old = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        os.makedirs(os.path.join(d, 'data', 'Ground'))
        os.makedirs(os.path.join(d, 'data', 'ProjCorr'))
        os.makedirs(os.path.join(d, 'work'))
        os.chdir(os.path.join(d, 'work'))
        try:
            yield os.path.join(d, 'data')
        finally:
            os.chdir(old)


def grid(rng, lo, hi, n):
    return np.sort(np.unique(np.round(np.concatenate([[0.0], np.linspace(lo, hi, n) + rng.uniform(-.02, .02, n)]), 3)))


def linear(rng, A, B, smooth=False):
    K = rng.uniform(-1, 1, (4, 3))
    f = [K[i, 0] + K[i, 1] * A + K[i, 2] * B for i in range(4)]
    f[2] = 3 + .1 * f[2]
    K[2] *= .1
    K[2, 0] += 3
    return f, K


def store(rng, d, CT, HH, Lam, hor, Yaw):
    """writes one case, returns its grid vectors and fields"""
    L = 99 if Lam > 20 else int(Lam)
    h = 9.9 if HH > 9 else HH
    base = 'CT0%d_HH%02d_Lambda%02d_Yaw%02d' % (round(CT * 100), round(h * 10), L, -Yaw)
    z = grid(rng, -5, 3, 14)
    if HH > 9:
        x = grid(rng, -2, 2, 11)
        X, Z = np.meshgrid(x, z)
        f, K = linear(rng, X, Z)
        scipy.io.savemat(os.path.join(d, 'AD_' + base + '.mat'), dict(x=X, z=Z, u=f[0], v=f[1], w=f[2]))
        return x, z, f, K
    g = os.path.join(d, 'Ground')
    sd = 'Horizontal' if hor else 'Vertical'
    fa = os.path.join(g, 'Horizontal_X.csv' if hor else ('Vertical_Y_HH20.csv' if HH == 2.0 else 'Vertical_Y_HH15.csv'))
    fz = os.path.join(g, sd + '_Z.csv')
    if os.path.exists(fa):
        a = np.genfromtxt(fa, delimiter=',')
    else:
        a = grid(rng, -1.2, 2, 12)
        np.savetxt(fa, a, delimiter=',', fmt='%.3f')
    if os.path.exists(fz):
        z = np.genfromtxt(fz, delimiter=',')
    else:
        np.savetxt(fz, z, delimiter=',', fmt='%.3f')
    A, Z = np.meshgrid(a, z)
    f, K = linear(rng, A, Z)
    for n, q in zip(('U', 'V', 'W', 'Om'), f):
        np.savetxt(os.path.join(g, '%s_%s_%s.csv' % (base, sd, n)), q, delimiter=',', fmt='%.14e')
    return a, z, f, K


def case(rng):
    CT = int(rng.integers(10, 100)) / 100.
    far = bool(rng.random() < .5)
    HH = float(rng.choice([9999., 99., 9.9])) if far else float(rng.choice([1.5, 2.0]))
    hor = True if far else bool(rng.random() < .5)
    Yaw = -int(rng.choice([0, 10, 30])) if far else 0
    Lam = float(rng.choice([99, np.inf, 30])) if (not far or Yaw) else 99
    if far and Yaw == 0 and rng.random() < .4:
        Lam = 6
    if not far and rng.random() < .4:
        Lam = 6
    if far and Yaw == 0 and rng.random() < .2:
        Lam = int(rng.choice([20, 12, 21]))
    return CT, HH, Lam, hor, Yaw


def f_plane(ctx):
    rng = ctx.rng
    CT, HH, Lam, hor, Yaw = case(rng)
    ctx.sig(HH > 9, hor, Yaw, Lam)
    ctx.note(CT=CT, HH=HH, Lambda=Lam, horizontal=hor, yaw=Yaw)
    with scratch() as d:
        a, z, f, K = store(rng, d, CT, HH, Lam, hor, Yaw)
        for c2 in (CT - .01, CT + .01):                       # neighbouring cases exist as well
            store(rng, d, c2, HH, Lam, hor, Yaw)
        if HH < 9:
            store(rng, d, CT, 3.5 - HH, Lam, hor, Yaw)
            store(rng, d, CT, HH, Lam, not hor, Yaw)
        AD = H.loadPlane(CT, HH, Lam, hor, Yaw)
        if HH > 9:
            ctx.check('missing_case', H.loadPlane(CT, HH, Lam, False, Yaw) is None)
            if Yaw:                                            # the opposite yaw is another case
                try:
                    ctx.check('missing_case', H.loadPlane(CT, HH, Lam, hor, -Yaw) is None, asked=-Yaw)
                except (IOError, OSError):
                    ctx.check('missing_case', True)
        else:
            ctx.check('missing_case', H.loadPlane(CT, HH, Lam, hor, -10) is None and H.loadPlane(CT, HH, 8, hor, 0) is None)
    for i, q in enumerate((AD.U, AD.V, AD.W) + ((AD.O,) if HH < 9 else ())):
        ctx.close('stored_field', q, f[i], 1e-12, 1 + np.abs(f[i]), component='UVWO'[i])
    A = AD.X if hor else AD.Y
    ctx.close('stored_grid', A, np.meshgrid(a, z)[0], 1e-9)
    ctx.close('stored_grid', AD.Z, np.meshgrid(a, z)[1], 1e-9)
    ctx.close('stored_vectors', AD.z, z, 1e-9)
    ctx.close('stored_vectors', AD.x if hor else AD.y, a, 1e-9)
    ctx.close('plane', AD.Y if hor else AD.X, 0 * A, 0)
    ctx.check('case_recorded', AD.CT == CT and AD.Horizontal == hor and AD.Vertical == (not hor) and AD.Yaw == Yaw, CT=AD.CT)
    # look-ups anywhere in the plane
    AD.setupInterpolants()
    shp = (4, 3)
    p, q = rng.uniform(a.min(), a.max(), shp), rng.uniform(z.min(), z.max(), shp)
    lin = lambda i: K[i, 0] + K[i, 1] * p + K[i, 2] * q
    args = (p, 7 + 0 * p, q) if hor else (7 + 0 * p, p, q)
    if rng.random() < .5:                                     # same values, other storage
        args = tuple(np.asfortranarray(t) for t in args)
    U, V, W = AD.fU(*args)
    ctx.close('look_up_axial', W, lin(2), 1e-8, 1)
    ctx.close('look_up_lateral', U if hor else V, lin(0 if hor else 1), 1e-8, 1)
    ctx.close('look_up_axial', AD.fW(*args)[2], lin(2), 1e-8, 1)
    j, k = int(np.argmin(np.abs(a))), int(np.argmin(np.abs(z)))
    ctx.close('centre', AD.fCenter(), f[2][k, j], 1e-12)


def f_proj(ctx):
    rng = ctx.rng
    CT, hor, HH = int(rng.integers(10, 100)) / 100., bool(rng.random() < .5), float(rng.choice([0, 1.2, .75, 9.9, 99.]))
    suf = str(rng.choice(['_a', '_rev1_df01R_noGE', '_b']))
    x, y, z = grid(rng, -4, 8, 9), grid(rng, -4 + rng.uniform(-1, .5), 4, 8), grid(rng, -1.1 + rng.uniform(-.5, .9), 2.5, 7) + HH
    if rng.random() < .5:          # no grid plane through the hub
        y, z = y[np.abs(y) > .05], z[np.abs(z - HH) > .05]
    ctx.sig(hor, HH, suf)
    ctx.note(CT=CT, HH=HH, suffix=suf, horizontal=hor)
    X, Y, Z = np.meshgrid(x, y, z, indexing='ij')
    c = rng.uniform(-1, 1, (3, 4))
    u, v, w = (q[0] + q[1] * X + q[2] * Y + q[3] * Z for q in c)
    with scratch() as d:
        for k, s in ((0, suf), (1, '_c')):
            np.savez(os.path.join(d, 'ProjCorr', 'Layout1x1_CT0%02d%s.npz' % (round(CT * 100), s)), x1=x, y1=y, z1=z, u=u + k, v=v + k, w=w + k)
        P = H.OutputProj(CT, HH=HH, Lambda=99, Horizontal=hor, Yaw=0, suffix=suf) if suf != '_rev1_df01R_noGE' or rng.random() < .5 else H.OutputProj(CT, HH=HH, Lambda=99, Horizontal=hor, Yaw=0)
    j, k = int(np.argmin(np.abs(y))), int(np.argmin(np.abs(z - HH)))
    e = u[:, :, k] if hor else u[:, j, :]
    ctx.close('slice_axial', P.W, e, 1e-12)
    ctx.close('slice_coordinates', P.Z, X[:, :, k] if hor else X[:, j, :], 1e-12)
    ctx.close('slice_coordinates', P.X if hor else P.Y, Y[:, :, k] if hor else Z[:, j, :] - HH, 1e-12)
    ctx.check('case_recorded', P.CT == CT and P.HH == HH and P.Horizontal == hor and P.Vertical == (not hor))
    o = P.fVert(None, None)
    ctx.close('plane_axial', o[3], e, 1e-12)
    ctx.close('plane_lateral', o[2], v[:, :, k] if hor else w[:, j, :], 1e-12)
    ctx.close('normal_component', P.V if hor else P.U, w[:, :, k] if hor else v[:, j, :], 1e-12)
    ctx.close('plane_axial', o[1], P.Z, 0)
    P.setupInterpolants()
    b = y if hor else z - HH
    p, q = rng.uniform(b.min(), b.max(), (3, 4)), rng.uniform(x.min(), x.max(), (3, 4))
    W = P.fW(*((p, 0 * p, q) if hor else (0 * p, p, q)))[2]
    lin = c[0, 0] + c[0, 1] * q + (c[0, 2] * p + c[0, 3] * z[k] if hor else c[0, 2] * y[j] + c[0, 3] * (p + HH))
    ctx.close('look_up_axial', W, lin, 1e-8, 10)


def f_lines(ctx):
    rng = ctx.rng
    db = {}
    x0 = float(rng.choice([0, rng.uniform(-3, 3)]))
    for S in (0, 2, 3, 5):
        for L in ('1x1', '3x2', '2x4'):
            if (L == '1x1') != (S == 0):
                continue
            for CT in (.4, .65):
                for HH in (2.0, 999.0):
                    nx, ny = (int(t) for t in L.split('x'))
                    n = nx * ny
                    x = np.sort(rng.uniform(-9, 9, 40))
                    p = np.array([(i * S + x0, j * S, HH) for j in range(ny) for i in range(nx)], float)
                    db['d%d_%s_ct%4.2f_hh%4.2f' % (S, L, CT, HH)] = dict(xyz_wt=p, ct_wt=rng.uniform(.2, .9, n), xyz=np.stack([np.stack([x] * 3, 1), np.stack([x + .5] * 3, 1)], -1),
                                                                      uvw=rng.uniform(.5, 1, (40, 3, 2)))
    S, CT, HH = int(rng.choice([2, 3, 5])), float(rng.choice([.4, .65])), float(rng.choice([2.0, 999.0]))
    L = str(rng.choice(['1x1', '3x2', '2x4']))
    ctx.sig(S, L, CT, HH)
    ctx.note(S=S, layout=L, CT=CT, HH=HH)
    with scratch() as d:
        o = os.path.join(d, 'CFD_AD_Farm_lines_All')
        H.save_obj(db, o)
        D = H.OutputADLines()
    e = db['d%d_%s_ct%4.2f_hh%4.2f' % (0 if L == '1x1' else S, L, CT, HH)]
    ctx.check('all_cases', len(D) == len(db))
    F, X, U = D.getSim(S, L, CT, HH)
    ctx.close('middle_line', np.array([X, U]), np.array([e['xyz'][:, 0, 0], e['uvw'][:, 0, 0]]), 0)
    ctx.close('case_data', np.concatenate([np.ravel(F['xyz_wt']), F['ct_wt']]), np.concatenate([np.ravel(e['xyz_wt']), e['ct_wt']]), 0)
    ctx.close('upstream_2.5', D.get25(S, L, CT, HH), np.interp(-2.5, X, U), 1e-12)
    if L != '1x1':
        F, X, U = D.getSimTop(S, L, CT, HH)
        ctx.close('top_line', np.array([X, U]), np.array([e['xyz'][:, 0, 1], e['uvw'][:, 0, 1]]), 0)
    x, C = D.getSimCTs(S, L, CT, HH)
    nx, ny = (int(t) for t in L.split('x'))
    ctx.check('one_line_per_row', np.shape(C) == (ny, nx), shape=np.shape(C))
    ctx.close('thrust_coefficients', np.ravel(C), e['ct_wt'], 0)
    ctx.close('rows', x, np.arange(nx) + x0 / S if L != '1x1' else 0, 1e-12)
    for f in (D.getSim, D.getSimTop, D.get25):
        if L != '1x1':
            try:
                f(S + .5, L, CT, HH)
                ctx.check('other_spacing_refused', False, f=f.__name__)
            except Exception:
                ctx.check('other_spacing_refused', True)


def rewrite(d, far, A, Z, f, K):
    w = K[2, 0] + K[2, 1] * A + K[2, 2] * Z
    if far:
        n = [q for q in os.listdir(d) if q.endswith('.mat')][0]
        scipy.io.savemat(os.path.join(d, n), dict(x=A, z=Z, u=f[0], v=f[1], w=w))
    else:
        g = os.path.join(d, 'Ground')
        n = [q for q in os.listdir(g) if q.endswith('_W.csv')][0]
        np.savetxt(os.path.join(g, n), w, delimiter=',', fmt='%.14e')


def f_compare(ctx):
    """models against the reference plane, along rays and offsets"""
    rng = ctx.rng
    far = bool(rng.random() < .6)
    CT = int(rng.integers(10, 88)) / 100.
    HH, hor = (9999., True) if far else (float(rng.choice([1.5, 2.0])), False)
    match = bool(rng.random() < .4)
    use = bool(rng.random() < .5)
    gp_hh = 0.0
    rho = -np.sort(rng.uniform(.4, 2., 5))
    ang = rng.uniform(-.4, .4, 3)
    off = rng.uniform(-.9, .9, 3)
    ctx.sig(far, match, use)
    ctx.note(CT=CT, HH=HH, match=match, rays=use)
    names = ['VC', 'VD', 'SS', 'AD', 'GP']
    M = [dict(name=n) for n in rng.permutation(names)[:int(rng.integers(2, 6))]]
    with scratch() as d:
        a, z, f, K = store(rng, d, CT, HH, 99, hor, 0)
        if match:
            # make the centre velocity a plausible one
            K[2] = [rng.uniform(.6, .9), rng.uniform(-.05, .05), rng.uniform(-.03, .03)]
            A, Z = np.meshgrid(a, z)
            rewrite(d, far, A, Z, f, K)
        elif rng.random() < .4:                                # slow flow in the reference plane
            K[2] = [rng.uniform(.1, .25), rng.uniform(-.01, .01), rng.uniform(-.01, .01)]
            A, Z = np.meshgrid(a, z)
            rewrite(d, far, A, Z, f, K)
        x, y, zz = grid(rng, -6, 6, 9), grid(rng, -4, 4, 8), grid(rng, -3, 3, 7)
        X, Y, Z = np.meshgrid(x, y, zz, indexing='ij')
        c = rng.uniform(-.1, .1, 4)
        u = 1 + c[0] + c[1] * X + c[2] * Y + c[3] * Z
        np.savez(os.path.join(d, 'ProjCorr', 'Layout1x1_CT0%02d%s.npz' % (round(CT * 100), '_q')), x1=x, y1=y, z1=zz, u=u, v=u * 0, w=u * 0)
        lam = [dict(), dict(Lambda=np.inf), dict(Lambda=99.)][int(rng.integers(0, 3))]
        RE, MRE = H.getModelsRelErr(ang, off, rho, use, CT, M, match, HH=HH, Horizontal=hor, suffix_GP='_q', HH_GP=gp_hh, **lam)
    gam = -(1 - (K[2, 0])) * 2 if match else -(1 - np.sqrt(1 - CT))
    ctx.check('one_per_model', len(RE) == len(M) and len(MRE) == len(M))
    for m, r, mr in zip(M, RE, MRE):
        e = np.zeros((3, 5))
        bad = np.zeros((3, 5), bool)
        for i in range(3):
            s = -rho * np.sin(ang[i]) if use else rho * 0 + off[i]
            t = rho * np.cos(ang[i]) if use else rho
            adw = K[2, 0] + K[2, 1] * s + K[2, 2] * t
            P = np.array([s, 0 * s, t]) if hor else np.array([0 * s, s, t])
            C = np.array([[0.0, 0], [0, -2 * HH], [0, 0]])[:, :2 if HH < 9 else 1]
            if m['name'] == 'AD':
                w = adw
            elif m['name'] == 'GP':
                w = 1 + c[0] + c[1] * t + (c[2] * s if hor else c[3] * s)
            elif m['name'] == 'VC':
                w = 1 + farm_ref(C, [gam] * C.shape[1], 1.0, P, 2)[2]
            elif m['name'] == 'VD':
                w = 1 + sum(ref_doublet(P, q, gam) for q in C.T)
            else:
                w = 1 + sum(ref_ss(P, q, gam) for q in C.T)
            e[i] = (w - adw) / adw * 100
        ctx.close('relative_error', r, e, 1e-6, 1 + np.abs(e), model=m['name'], rays=use, matched=match)
        ctx.close('mean_over_directions', mr, np.mean(r, axis=0), 1e-12, 1 + np.abs(e).max(), model=m['name'])


def ref_doublet(P, q, g):
    D = P - q[:, None]
    return -g * np.pi / (4 * np.pi) * D[2] / (D ** 2).sum(0) ** 1.5


def ref_ss(P, q, g):
    D = P - q[:, None]
    z, r = D[2], np.hypot(D[0], D[1])
    half = np.sqrt(.587 * (1.32 + z ** 2))
    return np.where(z <= 0, g / 2 * (1 + z / np.sqrt(1 + z ** 2)) / np.cosh(np.sqrt(2) * r / half) ** (8 / 9.), 0)


def f_draw(ctx):
    """what is drawn is what was given"""
    import matplotlib.pyplot as plt
    rng = ctx.rng

    class D(object):
        pass
    o = D()
    hor = bool(rng.random() < .5)
    comp = str(rng.choice(['Axial', 'Speed', 'Vorticity']))
    a, z = np.sort(rng.uniform(-2, 2, 7)) + float(rng.choice([0, rng.uniform(0, 5)])), np.sort(rng.uniform(-5, 3, 9))
    A, o.Z = np.meshgrid(a, z)
    if hor:
        o.X = A
    else:
        o.Y = A
    o.U, o.V, o.W, o.O = rng.uniform(.1, 1, (4,) + A.shape)
    L = None
    if rng.random() < .5 and comp != 'Speed':                 # linear: contours are known exactly
        L = np.array([.55, rng.uniform(-.1, .1), rng.uniform(-.05, .05)])
        o.W = o.O = L[0] + L[1] * A + L[2] * o.Z
        o.O = o.O.copy()
    if L is None and rng.random() < .3:
        o.W[int(rng.integers(0, 9)), int(rng.integers(0, 7))] = np.nan
    vert = bool(rng.random() < .4) and comp != 'Vorticity'
    lim = {} if rng.random() < .4 or np.isnan(o.W).any() and comp != 'Vorticity' else dict(minSpeed=float(rng.choice([.2, 0.0])), maxSpeed=.9)
    if lim and rng.random() < .4 and not np.isnan(o.W).any():  # one limit only
        lim.pop(str(rng.choice(['minSpeed', 'maxSpeed'])))
    mode = ['mesh', 'contour', 'none'][int(rng.integers(0, 3))]
    lev = {} if mode == 'mesh' else dict(levelsContour=np.linspace(.15, .95, 6) if mode == 'contour' else [])
    if rng.random() < .3:
        lev['levelsLines'] = np.linspace(.2, .8, 4)
    ctx.sig(hor, comp, vert, bool(lim), mode)
    ctx.note(horizontal=hor, component=comp, vertical=vert, limits=lim, mode=mode)
    keep = [q.copy() for q in (o.U, o.V, o.W, o.O)]
    lat = o.U if hor else o.V
    fig0, ax0 = plt.subplots()
    ax = ax0 if rng.random() < .6 else None
    try:
        if vert:
            im, ax1, fig = H.plotPlaneVert(A, o.Z, lat, o.W, ax=ax, component=comp, **dict(lim, **lev))
        else:
            im, ax1, fig = H.plotPlane(o, ax=ax, component=comp, Horizontal=hor, **dict(lim, **lev))
        S = {'Axial': keep[2], 'Speed': np.sqrt(keep[2] ** 2 + lat ** 2), 'Vorticity': keep[3]}[comp]
        ctx.check('axes', (ax1 is ax0) == (ax is not None) and (fig is None) == (ax is not None))
        ctx.check('data_kept', all(np.array_equal(p, q, equal_nan=True) for p, q in zip(keep, (o.U, o.V, o.W, o.O))))
        if mode == 'none':
            ctx.check('nothing_drawn', im is None)
            return
        if lim and (mode == 'mesh' or len(lim) == 2):
            ctx.close('limits', im.get_clim(), [lim.get('minSpeed', np.nanmin(S)), lim.get('maxSpeed', np.nanmax(S))], 1e-12)
        elif mode == 'mesh' and not np.isnan(S).any():
            ctx.close('limits', im.get_clim(), [S.min(), S.max()], 1e-12)
        if L is not None:
            val = lambda q: L[0] + L[1] * q[..., 1] + L[2] * q[..., 0]
            if mode == 'contour':
                e = np.asarray(lev['levelsContour'])
                q = np.stack([rng.uniform(z[0], z[-1], 40), rng.uniform(a[0], a[-1], 40)], -1)
                for i in range(len(e) - 1):
                    ins = np.zeros(len(q), bool)
                    for g in im.collections[i].get_paths():
                        ins |= g.contains_points(q)
                    w = val(q)
                    sure = np.abs(w[:, None] - e).min(1) > 1e-6
                    ctx.check('contour_where', np.array_equal(ins[sure], ((w > e[i]) & (w < e[i + 1]))[sure]), level=e[i])
            ll = lev.get('levelsLines')
            if ll is not None and np.any((np.asarray(ll) > S.min() + 1e-9) & (np.asarray(ll) < S.max() - 1e-9)):   # (matplotlib chooses another level otherwise)
                own = [im] if mode == 'mesh' else list(im.collections)
                ls = [c for c in ax1.collections if not any(c is o2 for o2 in own)]
                ctx.check('line_levels', len(ls) == len(ll))
                for c, t in zip(ls, ll):
                    pts = [v for g in c.get_paths() for v in g.vertices]
                    ctx.check('line_present', bool(pts) or not (S.min() + 1e-9 < t < S.max() - 1e-9), level=t)
                    if pts:
                        ctx.close('line_where', val(np.array(pts)), t, 1e-9, 1)
        if mode == 'contour':
            ctx.close('contour_levels', im.levels, lev['levelsContour'], 1e-12)
        else:
            # every cell drawn carries the value of its control point
            g = np.ma.filled(np.ma.asarray(im.get_array(), float), np.nan)
            C = im._coordinates
            T = C.shape[0] - 1 if C.shape[0] != S.shape[0] else C.shape[0]
            g = g.reshape(S.T.shape if vert else S.shape)
            ctx.close('drawn_values', g[~np.isnan(S.T if vert else S)], (S.T if vert else S)[~np.isnan(S.T if vert else S)], 1e-12)
            ctx.check('masked', np.array_equal(np.isnan(g), np.isnan(S.T if vert else S)))
            lo, hi = C.reshape(-1, 2).min(0), C.reshape(-1, 2).max(0)
            ctx.check('drawn_where', lo[0] <= z[0] + 1e-9 and hi[0] >= z[-1] - 1e-9 and lo[1] <= a[0] + 1e-9 and hi[1] >= a[-1] - 1e-9, lo=lo, hi=hi)
    finally:
        plt.close('all')


FAMILIES = [Family('plane', f_plane, 300, 5000), Family('box', f_proj, 250, 4000), Family('lines', f_lines, 150, 2500), Family('compare', f_compare, 300, 5000), Family('draw', f_draw, 160, 2400)]
QUICK = 8        # cheap: more cases in the quick run
