"""The shipped figure scripts, examples and coupling helpers show what the models give.

The scripts are run as they are (Agg backend), a tap on matplotlib records every field and line they draw, and the
recorded numbers are compared with the fields computed independently at the drawn coordinates."""
import os, sys, types, tempfile, contextlib, importlib.util
import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import matplotlib.axes
from matplotlib.colorbar import Colorbar
import wiz
from ..core import Family
from .. import gen, ref

ROOT = os.path.dirname(os.path.abspath(wiz.__file__))
REPO = os.path.dirname(ROOT)

RULE = ('every script of article_blockage and every example that runs with the installed packages, all drawn fields and lines; made-up planes for the coupling helpers; random ellipses of vorticity for the '
        'curled-wake functions; distinct = different (script, drawn object) or (family, options)')
ASSUMPTIONS = ['scripts have fixed parameters: what varies are the drawn points (thousands per figure)', 'floris is not installed: the coupling helpers are given a stand-in that serves made-up planes',
               'the advanced examples (line integral convolution) need packages that are not installed', 'Colorbar.set_clim, gone from matplotlib, is replaced by a stand-in']
NAMES = ('contourf', 'contour', 'pcolormesh', 'plot', 'streamplot')


@contextlib.contextmanager
def tapped(paths=(), mods=()):
    """records what is drawn; plots are closed and sys.path/modules restored afterwards"""
    rec = []
    A = matplotlib.axes.Axes
    old = {n: getattr(A, n) for n in NAMES}

    def make(n):
        def f(self, *a, **k):
            b = [np.ma.filled(np.ma.array(v, dtype=float), np.nan).copy() if isinstance(v, (np.ndarray, list)) else v for v in a]
            rec.append((n, self, b, k))
            if n == 'streamplot':
                return None                                 # slow, and what it integrates is recorded
            return old[n](self, *a, **k)
        return f
    cb = not hasattr(Colorbar, 'set_clim')
    if cb:                                                      # removed from matplotlib: sets the limits of the bar only
        Colorbar.set_clim = lambda self, *a, **k: None
    kept = {m: sys.modules.pop(m) for m in ('helper_functions', 'tictoc') if m in sys.modules}
    op, oc = list(sys.path), os.getcwd()
    for n in NAMES:
        setattr(A, n, make(n))
    sys.path[:0] = list(paths)
    for m, o in mods:
        sys.modules[m] = o
    plt.close('all')
    try:
        with tempfile.TemporaryDirectory() as d:
            os.chdir(d)
            try:
                yield rec
            finally:
                os.chdir(oc)
    finally:
        if cb:
            del Colorbar.set_clim
        for n in NAMES:
            setattr(A, n, old[n])
        sys.path[:] = op
        for m in ['helper_functions', 'tictoc'] + [m for m, _ in mods]:
            sys.modules.pop(m, None)
        sys.modules.update(kept)
        plt.close('all')


_n = [0]


def load(path, mods=()):
    _n[0] += 1
    s = importlib.util.spec_from_file_location('wizmon_script_%d' % _n[0], path)
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return m


def script(rel):
    p = os.path.join(ROOT, rel)
    with tapped([os.path.dirname(p)]) as rec:
        m = load(p)
        if hasattr(m, 'main'):
            m.main()
    return rec


def bar(ax):
    return ax.get_label() == '<colorbar>' or hasattr(ax, '_colorbar')


def fields(rec):
    """drawn fields: (axes, x, y, values) with x, y made two-dimensional"""
    out = []
    for n, ax, a, k in rec:
        if n in ('contourf', 'contour', 'pcolormesh') and len(a) >= 3:
            x, y, f = a[:3]
            if bar(ax):
                continue
            if np.ndim(x) == 1:
                x, y = np.meshgrid(x, y)
            out.append((n, ax, x, y, f, k))
    return out


def lines(rec, ax=None):
    return [(a, k, x) for n, x, a, k in rec if n == 'plot' and (ax is None or x is ax) and not bar(x)]


def tang(x, y, z, g, R, m=0.0):
    """cylinder along z, off its sheet; (3,...) """
    if m == 0:
        r = np.hypot(x, y)
        ur, uz = ref.vc_tang(r, z, g, R)
        with np.errstate(all='ignore'):
            return np.array([np.where(r > 0, ur * x / r, 0), np.where(r > 0, ur * y / r, 0), uz])
    return np.array(ref.svc_tang_q(x, y, z, g, R, m))


def away(x, y, z, R, m, d):
    return (ref.dist_cyl(x, y, z, R, m) > d).reshape(np.shape(x))


def gam(CT, U0=1.0):
    return -2 * ref.ax_ind(CT) * U0


def f_task01(ctx):
    rec = script('article_blockage/Task01_Contours_NonYawed.py')
    F = fields(rec)
    ctx.check('fields_drawn', len(F) >= 2, n=len(F))
    cts = set()
    for n, ax, x, y, f, k in F:
        t = ax.get_title()
        CT = int(t.split('_CT0')[1][:2]) / 100.0
        cts.add(CT)
        e = 1 + tang(y, 0 * y, x, gam(CT), 1.0)[2]
        ctx.sig('task01', CT, n)
        ctx.close('task01_field', f, e, 1e-6, 1, mask=away(y, 0 * y, x, 1.0, 0.0, .02), CT=CT, points=(x, y))
    ctx.check('task01_cases', cts == {.4, .95}, got=sorted(cts))


def f_task02(ctx):
    rec = script('article_blockage/Task02_Axis_And_Rotor.py')
    seen = set()
    for a, k, ax in lines(rec):
        x, v = np.ravel(a[0]), np.ravel(a[1])
        if x.size < 10:
            continue
        t = ax.get_title()
        col = tuple(np.round(matplotlib.colors.to_rgb(k['color']), 6)) if 'color' in k else None
        lab = str(k.get('label', ''))
        seen.add((t, lab, col))
        if t == 'TwoCtsAxis':
            CT = .95 if '0.95' in lab else .4
            ctx.sig('task02', t, CT)
            ctx.close('task02_axis', v, 1 + gam(CT) / 2 * (1 + x / np.sqrt(1 + x ** 2)), 1e-8, 1, CT=CT, points=(x,))
        elif t == 'TwoCtsRotor':
            same = [str(kk.get('label', '')) for aa, kk, ax2 in lines(rec, ax) if kk.get('label') and tuple(np.round(matplotlib.colors.to_rgb(kk['color']), 6)) == col]
            CT = .95 if '0.95' in same[0] else .4
            u = tang(x, 0 * x, 0 * x, gam(CT), 1.0)
            ctx.sig('task02', t, CT, bool(lab))
            ctx.close('task02_rotor', v, 1 + u[2] if lab else u[0], 1e-6, 1, mask=np.abs(np.abs(x) - 1) > .02, CT=CT, points=(x,))
    ctx.check('task02_lines', len(seen) == 6, got=len(seen))


def f_task03(ctx):
    rec = script('article_blockage/Task03_Axis_And_Rotor_Yaw.py')
    c30 = np.cos(np.pi / 6)
    n = 0
    for a, k, ax in lines(rec):
        x, v = np.ravel(a[0]), np.ravel(a[1])
        if x.size < 10:
            continue
        n += 1
        lab, t = str(k.get('label', '')), ax.get_title()
        CT = .95 if '0.95' in lab else .4
        chi = -np.pi / 6 * (1 + .3 * (1 - np.sqrt(1 - CT)))
        m = np.tan(chi)
        g = gam(CT)
        ctx.sig('task03', t, CT, 'straight' in lab)
        if t == 'TwoCtsAxisYaw' and 'straight' in lab:
            ctx.close('task03_straight', v, 1 + g / c30 / 2 * (1 + x / np.sqrt(1 + x ** 2)), 1e-9, 1, CT=CT, points=(x,))
        elif t == 'TwoCtsAxisYaw':
            z = x * np.cos(chi)
            u = tang(m * z, 0 * z, z, g, 1.0, m)
            ctx.close('task03_axis', v, 1 + u[2] / c30, 1e-6, 1, CT=CT, points=(x,))
        else:
            ok = np.abs(np.abs(x) - 1) > .15
            u = tang(x, 0 * x, 0 * x, g, 1.0, m)
            ctx.close('task03_rotor', v, 1 + u[2] / c30, 1e-6, 1, mask=ok, CT=CT, points=(x,))
    ctx.check('task03_lines', n == 6, got=n)


def yawed(ctx, rec, name, R, cases):
    """figures 8 of the article: axial velocity over the normal wind, in the horizontal plane"""
    c30 = np.cos(np.pi / 6)
    F = fields(rec)
    ctx.check(name + '_drawn', len(F) >= 2, n=len(F))
    axes = []
    for n, ax, x, y, f, k in F:
        if ax not in axes:
            axes.append(ax)
    ctx.check(name + '_cases', len(axes) == len(cases), got=len(axes))
    for n, ax, x, y, f, k in F:
        CT, g = cases[axes.index(ax)]
        m = np.tan(-np.pi / 6 * (1 + .3 * (1 - np.sqrt(1 - CT))))
        ok = away(y, 0 * y, x, 1.0, m, .15)
        I = np.argwhere(ok)
        I = I[ctx.rng.permutation(len(I))[:1500]]
        p = tuple(I.T)
        u = tang(y[p], 0 * y[p], x[p], g, 1.0, m)
        ctx.sig(name, CT, n)
        ctx.close(name + '_field', f[p], 1 + u[2] / c30, 2e-5, 1, CT=CT, points=(x[p], y[p]))
    for a, k, ax in lines(rec):
        x, y = np.ravel(a[0]), np.ravel(a[1])
        if ax in axes and x.size >= 10:
            CT, g = cases[axes.index(ax)]
            m = np.tan(-np.pi / 6 * (1 + .3 * (1 - np.sqrt(1 - CT))))
            e = y - m * x
            ctx.check(name + '_wake_lines', min(np.abs(e - o).max() for o in (-1, 0, 1)) < 1e-9 * max(1, np.abs(x).max()), offset=e[:3])
    return axes


def f_task04(ctx):
    rec = script('article_blockage/Task04_Countours_Yawed.py')
    axes = yawed(ctx, rec, 'task04', 1.0, [(.4, -.21341), (.95, -.60414)])
    ctx.check('task04_titles', [a.get_title()[-2:] for a in axes] == ['40', '95'], got=[a.get_title() for a in axes])


def f_ex_yawed(ctx):
    yawed(ctx, script('examples/WindTurbineYawed_ArticlePlot.py'), 'ex_yawed', 10.0, [(.4, -.21341), (.95, -.60414)])


def ct_cut(CT, r):
    """constant thrust between the cut-off radii of the examples (.11 and .90), linear to zero outside"""
    return CT * np.clip(np.minimum(r / .11, (1 - r) / .1), 0, 1)


def f_ex_article(ctx):
    """yawed turbine, one cylinder of the mean thrust: absolute axial speed over the normal wind"""
    rec = script('examples/WindTurbine_ArticlePlot.py')
    F = fields(rec)
    ctx.check('ex_article_drawn', len(F) >= 1)
    CT = ct_cut(.95, np.linspace(0, 1, 100)).mean()
    m = np.tan(-np.pi / 6)                                   # the wake follows the wind
    g = gam(CT)
    for n, ax, x, y, f, k in F:
        ok = away(y, 0 * y, x, 1.0, m, .15)
        I = np.argwhere(ok)
        I = I[ctx.rng.permutation(len(I))[:1500]]
        p = tuple(I.T)
        ctx.sig('ex_article', n)
        u = tang(y[p], 0 * y[p], x[p], g, 1.0, m)
        ctx.close('ex_article_field', f[p], np.abs(1 + u[2] / np.cos(np.pi / 6)), 1e-4, 1, points=(x[p], y[p]))


def f_ex_farm(ctx):
    """two turbines side by side above the ground; speed in units of m/s, cut at 1.5 U0"""
    rec = script('examples/WindFarm.py')
    F = fields(rec)
    ctx.check('ex_farm_drawn', len(F) >= 1)
    g = gam(.8, 10.0)
    C = [(s * 3.0, h) for s in (-1, 1) for h in (1.5, -1.5)]
    for n, ax, x, y, f, k in F:
        u = sum(tang(y - c[0], 1.5 - c[1] + 0 * y, x, g, 1.0) for c in C)
        e = np.minimum(np.hypot(10 + u[2], u[0]), 15)
        ok = np.ones(x.shape, bool)
        for c in C:
            ok &= away(y - c[0], 1.5 - c[1] + 0 * y, x, 1.0, 0.0, .03)
        ctx.sig('ex_farm', n)
        ctx.close('ex_farm_field', f, e, 1e-6, 10, mask=ok, points=(x, y))
    L = sorted([(float(np.mean(a[1][:-1])), float(np.ptp(a[0])), float(np.ptp(a[1]))) for a, k, ax in lines(rec) if np.size(a[0]) > 10])
    ctx.check('ex_farm_rotors', len(L) == 2 and np.allclose(L, [(-3, 0, 2), (3, 0, 2)], atol=2e-2), got=L)
    for n, ax, a, k in rec:
        if n == 'streamplot':
            X, Y = np.meshgrid(a[0], a[1])
            u = sum(tang(Y - c[0], 1.5 - c[1] + 0 * Y, X, g, 1.0) for c in C)
            ok = np.ones(X.shape, bool)
            for c in C:
                ok &= away(Y - c[0], 1.5 - c[1] + 0 * Y, X, 1.0, 0.0, .03)
            ctx.close('ex_farm_stream', a[2], 10 + u[2], 1e-6, 10, mask=ok)
            ctx.close('ex_farm_stream', a[3], u[0], 1e-6, 10, mask=ok)


def f_ex_turbine(ctx):
    """nearly constant thrust without swirl: nested cylinders whose strengths are the steps of the induction"""
    r = np.linspace(.005, .995, 15)
    for rel, CT, hub, dirs in (('examples/WindTurbine.py', .8, 0.0, 'x'), ('examples/WindTurbineGround.py', .94, 1.5, 'y')):
        rec = script(rel)
        F = fields(rec)
        nm = rel.split('/')[1][:-3]
        ctx.check('ex_turbine_drawn', len(F) >= 1, script=nm)
        ct = np.interp(r, np.linspace(0, 1, 100), ct_cut(CT, np.linspace(0, 1, 100)))
        g = -20 * (-np.diff(np.append(ref.ax_ind(ct), 0)))

        def vel(z, s):
            c = [s] if not hub else [s - hub, s + hub]
            return sum(tang(q, 0 * q, z, gi, ri) for q in c for gi, ri in zip(g, r))

        def off(z, s):
            ok = np.ones(np.shape(z), bool)
            for q in ([s] if not hub else [s - hub, s + hub]):
                for ri in r:
                    ok &= away(q, 0 * q, z, ri, 0.0, .02)
            return ok
        for n, ax, x, y, f, k in F:
            ctx.sig(nm, n)
            u = vel(x, y)
            e = np.minimum(np.hypot(10 + u[2], u[0]), 15)
            ctx.close('ex_turbine_field', f, e, 2e-3, 10, mask=off(x, y), script=nm, points=(x, y))
        L = [a for a, k, ax in lines(rec) if np.size(a[0]) > 10]
        ok = len(L) == 1 and np.abs(np.asarray(L[0][0])).max() < 1e-9
        box = [np.min(L[0][1]), np.max(L[0][1])] if ok else [9, 9]
        # known: the horizontal coordinate of the rotor points drawn in place of the vertical one, exactly that
        kf = 'WindTurbineGround:rotor-line' if hub and ok and np.allclose(box, [-1, 1], atol=1e-3) else None
        ctx.check('ex_turbine_rotor', ok and np.allclose(box, [hub - 1, hub + 1], atol=2e-2), finding=kf, script=nm, got=[[np.min(q), np.max(q)] for a in L for q in a[:2]])
        for n, ax, a, k in rec:
            if n == 'streamplot':
                X, Y = np.meshgrid(a[0], a[1])
                u = vel(X, Y)
                ctx.close('ex_turbine_stream', a[2], 10 + u[2], 2e-3, 10, mask=off(X, Y), script=nm)
                ctx.close('ex_turbine_stream', a[3], u[0], 2e-3, 10, mask=off(X, Y), script=nm)


def f_ex_curled(ctx):
    """planes downstream of a yawed turbine: full cylinder, vortex points and ellipse integral show the same curled wake"""
    rec = script('examples/CurledWake_2D.py')
    F = fields(rec)
    ctx.check('curled2d_panels', len(F) == 4, got=len(F))
    if len(F) != 4:
        return
    by = {}
    for n, ax, x, y, f, k in F:
        by[ax.get_title().split(' ')[0] + ax.get_title().split('(')[-1][:5]] = (x, y, f)
    ctx.sig('curled2d')
    x, y, full = [v for k, v in by.items() if k.startswith('Full')][0]
    pts = [v for k, v in by.items() if 'Vortex' in k][0][2]
    ana = [v for k, v in by.items() if k.startswith('Anal')][0][2]
    lon = [v for k, v in by.items() if k.startswith('Longi')][0][2]
    c30 = np.cos(np.pi / 6)
    out = np.hypot(x / c30, y) > 1.5                         # where the smoothing of the points does not reach
    s = np.nanmax(full[out])
    ctx.close('curled_points_are_ellipse', pts, ana, 1e-9, s)
    ctx.check('curled_magnitude', .05 < s < 3, got=s)
    ctx.close('curled_far_is_2d', lon, ana, 1e-2, s, mask=out)
    # the wake is displaced sideways by the skew: the panels agree on the magnitude away from it, to the displacement
    ctx.check('curled_full_vs_2d', np.nanmax(full[out]) < 3 * np.nanmax(ana[out]) + 1e-9 and np.nanmax(ana[out]) < 3 * np.nanmax(full[out]) + 1e-9, got=[np.nanmax(full[out]), np.nanmax(ana[out])])


def pick(rng, ok, n):
    I = np.argwhere(ok)
    return tuple(I[rng.permutation(len(I))[:n]].T)


def planes_behind(ctx, name, th, m, U0, cyl, clim, kinds, npt):
    """planes normal to the wind at the rotor and 4 diameters behind it, of a skewed wake"""
    rec = script('examples/%s.py' % name)
    F = fields(rec)
    ctx.check(name + '_drawn', len(F) == 2 * kinds, n=len(F))
    if len(F) != 2 * kinds:
        return
    c, s = np.cos(th), np.sin(th)
    for i, (n, ax, x, y, f, k) in enumerate(F):
        zw = [0.0, 8.0][i // kinds]
        xc, yc, zc = x * c + zw * s, y, -x * s + zw * c
        ok = np.ones(x.shape, bool)
        for R, g in cyl:
            if g != 0:
                ok &= away(xc, yc, zc, R, m, .1 if i % kinds else .06)
        p = pick(ctx.rng, ok, npt)
        u = sum(tang(xc[p], yc[p], zc[p], g, R, m) for R, g in cyl if g != 0)
        e = np.clip(np.abs((u[0] + U0 * s) * s + (u[2] + U0 * c) * c), *clim)
        ctx.sig(name, i)
        ctx.close(name + '_field', f[p], e, 4e-3 if i % kinds else 2e-4, 1, plane=zw, points=(x[p], y[p]))
        a = lines(rec, ax)
        ctx.check(name + '_rotor', len(a) == 1 and np.abs((np.ravel(a[0][0][0]) / c) ** 2 + np.ravel(a[0][0][1]) ** 2 - 1).max() < 1e-9)
        st = [q for q in rec if q[0] == 'streamplot' and q[1] is ax]
        ctx.check(name + '_streamlines', len(st) == 1)
        for q in st:
            ex = (u[0] + U0 * s) * c - (u[2] + U0 * c) * s
            ctx.close(name + '_in_plane', np.array([q[2][2][p], q[2][3][p]]), np.array([ex, u[1]]), 4e-3 if i % kinds else 2e-4, 1, plane=zw)


def f_ex_skewed(ctx):
    th = np.pi / 6
    planes_behind(ctx, 'VortexCylinderSkewed', th, np.tan(th * (1 + .3 * (1 - np.sqrt(.4)))), 1.0, [(1.0, -.4), (.1, .4)], (.4, 1.1), 2, 60)


def f_ex_superp(ctx):
    th = -25 * np.pi / 180
    h, t = .05, .4
    q = np.linspace(0, .5, 100)
    d = 1 / t / np.cos(q / t) ** 2 * np.exp(-np.tan(q * np.pi) / t)
    r = np.concatenate((q, .5 + q)) * (1 - h) + h
    R = np.linspace(1, h, 10)
    g = .4 * np.interp(R, r, np.concatenate((d, -d[::-1]))) * .1
    planes_behind(ctx, 'VortexCylinderSkewedSuperp', th, np.tan(th), 1.0, list(zip(R, g)), (.3, 1.1), 1, 80)


def f_ex_curled3(ctx):
    """axial velocity in planes at the rotor and ten diameters behind a yawed turbine"""
    rec = script('examples/CurledWake.py')
    F = fields(rec)
    ctx.check('curled_drawn', len(F) == 2, n=len(F))
    if len(F) != 2:
        return
    from wiz.WindTurbine import WindTurbine
    from wiz.Solver import Ct_const_cutoff
    R, r = 65.0, np.linspace(0, 1, 100)
    W = WindTurbine(R=R, e_shaft_yaw0=[1, 0, 0], e_vert=[0, 0, 1])
    W.update_yaw_pos(-np.pi / 6)
    W.update_wind([10., 0, 0])
    W.update_loading(r=r * R, Ct=Ct_const_cutoff(.8, .11, r, .9), Lambda=6, nCyl=1)
    c, s, m = np.cos(-np.pi / 6), np.sin(-np.pi / 6), np.tan(np.pi / 6)      # the wake goes along the wind, x
    g = float(np.ravel(W.gamma_t)[0])
    for i, (n, ax, x, y, f, k) in enumerate(F):
        xw = [0.0, 20 * R][i]
        Y, Z = x * R, y * R
        zs, xs = xw * c + Y * s, -xw * s + Y * c
        p = pick(ctx.rng, away(xs, Z, zs, R, m, .06), 400)
        v = tang(xs[p], Z[p], zs[p], g, R, m)
        u = np.array([v[2] * c - v[0] * s + 10, v[2] * s + v[0] * c, v[1]])
        ctx.sig('curled3', i)
        ctx.close('curled_field', f[p], np.abs(u[0]), 5e-4, 10, plane=xw)
        st = [q for q in rec if q[0] == 'streamplot' and q[1] is ax]
        for q in st:
            ctx.close('curled_in_plane', np.array([q[2][2][p], q[2][3][p]]), u[1:], 5e-4, 10, plane=xw)


def f_ex_doublets(ctx):
    """the comparisons of doublets with cylinders, rings and numerical integrals"""
    g = -10.0
    # line of doublets and cylinder, upstream
    F = fields(script('examples/VortexDoublet_CompareCylinder.py'))
    ctx.check('compare_cylinder_drawn', len(F) == 4, n=len(F))
    R, dm = 10.0, g * 100 * np.pi
    for i, (n, ax, x, y, f, k) in enumerate(F):
        p = pick(ctx.rng, (x < -.02) & (np.abs(y - 1) > .05), 600)
        q = np.array([y[p] * R, 0 * y[p], x[p] * R])
        d = ref.doublet_line_straight(*q, dm)
        if i == 0:                                              # the cylinder within six radii, the doublets outside
            d = np.where(np.hypot(q[0], q[2]) < 6 * R, tang(*q, g, R), d)
            p = tuple(t[np.abs(np.hypot(q[0], q[2]) / R - 6) > 1e-3] for t in p)
            d = d[:, np.abs(np.hypot(q[0], q[2]) / R - 6) > 1e-3]
        if i < 2:
            ctx.close('compare_cylinder_speed', f[p], np.sqrt(d[0] ** 2 + d[2] ** 2), 2e-4, 5, panel=i)
        ctx.sig('compare_cylinder', i)
    # analytical and numerical lines
    F = fields(script('examples/VortexDoublet_CompareNumTheory.py'))
    ctx.check('compare_line_drawn', len(F) == 2, n=len(F))
    for i, (n, ax, x, y, f, k) in enumerate(F):
        p = pick(ctx.rng, np.ones(x.shape, bool), 600)
        d = ref.doublet_line_straight(y[p], 0 * y[p], x[p], g * np.pi)
        ctx.close('compare_line_speed', f[p], np.log(np.sqrt(d[0] ** 2 + d[2] ** 2)), 1.2e-1 if i else 1e-4, 1, panel=i)
        ctx.sig('compare_line', i)
    # skewed ones, and the skewed cylinder
    F = fields(script('examples/VortexDoublet_CompareNumTheory_Skew.py'))
    ctx.check('compare_skew_drawn', len(F) == 3, n=len(F))
    m = np.tan(-np.pi / 6)
    for i, (n, ax, x, y, f, k) in enumerate(F):
        a = y - m * x
        ok = (np.abs(a) > [.5, 1.2][i]) | (x < [-.5, -1.5][i]) if i < 2 else away(y, 0 * y, x, 1.0, m, .15)
        p = pick(ctx.rng, ok, 200)
        if i < 2:
            e = ref.doublet_line(y[p], 0 * y[p], x[p], -.6 * np.pi, m)
        else:
            e = tang(y[p], 0 * y[p], x[p], -.6, 1.0, m)
        ctx.close('compare_skew_axial', f[p], 1 + e[2], [1e-3, 6e-2, 1e-3][i], 1, panel=i)
        ctx.sig('compare_skew', i)
    # ring and doublet
    F = fields(script('examples/VortexRing_CompareDoublet.py'))
    ctx.check('compare_ring_drawn', len(F) == 2, n=len(F))
    for i, (n, ax, x, y, f, k) in enumerate(F):
        r = np.hypot(x, np.abs(y) - 1) if i == 0 else np.hypot(x, y)
        p = pick(ctx.rng, r > .1, 600)
        if i == 0:
            ur, uz = ref.ring(np.abs(y[p]), x[p], g, 1.0)
        else:
            d = ref.doublet(y[p], 0 * y[p], x[p], 0, 0, g * np.pi)
            ur, uz = d[0], d[2]
        ctx.close('compare_ring_speed', f[p], np.log(np.sqrt(ur ** 2 + uz ** 2)), 2e-4, 1, panel=i)
        ctx.sig('compare_ring', i)


_cw = []


def curled():
    if not _cw:
        with tapped():
            _cw.append(load(os.path.join(ROOT, 'examples', 'CurledWake_2D.py')))
    return _cw[0]


def f_ellipse(ctx):
    """the two functions of the curled-wake example for any radius, angle and distribution"""
    rng = ctx.rng
    M = curled()
    R = float(rng.choice([1.0, rng.uniform(.5, 100)]))
    ty = float(rng.choice([0.0, rng.uniform(-1, 1)]))
    N = 361
    th = np.linspace(0, 2 * np.pi, N)
    a = rng.uniform(-1, 1, 4)
    g = a[0] + a[1] * np.sin(th) + a[2] * np.cos(th) + a[3] * np.sin(2 * th)
    n = 12
    p = rng.uniform(-np.pi, np.pi, n)
    s = np.where(rng.random(n) < .4, rng.uniform(0, .6, n), rng.uniform(1.5, 5, n)) * R
    c = np.cos(ty)
    y, z = s * np.cos(p) * c, s * np.sin(p)
    shp = [(n,), (3, 4), (2, 6)][int(rng.integers(0, 3))]
    ctx.sig('ellipse', np.sign(ty), shp)
    ctx.note(R=R, theta=ty, a=a)
    ye, ze = R * np.cos(th[:-1]) * c, R * np.sin(th[:-1])
    G = g[:-1] * R * 2 * np.pi / (N - 1)
    dy, dz = y[:, None] - ye, z[:, None] - ze
    d2 = dy ** 2 + dz ** 2
    q = np.array([(-dz / d2 * G).sum(1), (dy / d2 * G).sum(1)]) / (2 * np.pi)
    u = np.array(M.ve_u(y.reshape(shp), z.reshape(shp), R, th, ty, g))
    ctx.check('ellipse_shape', u.shape == (2,) + shp, got=u.shape)
    ctx.close('ellipse_2d', u.reshape(2, -1), q, 1e-9, 1 + np.abs(g).max())
    # half lines along x from the rim of the tilted disk
    x = rng.uniform(-4, 6, n) * R
    xe = -R * np.cos(th[:-1]) * np.sin(ty)
    q = np.zeros((2, n))
    for j in range(N - 1):
        v = np.array(ref.line_semi(x - xe[j], y - ye[j], z - ze[j], (1.0, 0.0, 0.0), G[j]))
        q += v[1:]
    u = np.array(M.vcl_u(x.reshape(shp), y.reshape(shp), z.reshape(shp), R, th, ty, g))
    ctx.close('half_lines', u.reshape(2, -1), q, 1e-7, 1 + np.abs(g).max(), points=(x, y, z))
    # smoothing does not reach far away
    sg = R * float(rng.uniform(.01, .1))
    for f, aa in ((M.ve_u, (y, z)), (M.vcl_u, (x, y, z))):
        u = np.array(f(*(aa + (R, th, ty, g))))
        w = np.array(f(*(aa + (R, th, ty, g)), sigma=np.full(N, sg)))
        far = np.sqrt(d2.min(1)).reshape(np.shape(y)) > 6 * sg
        ctx.close('smoothing_is_local', w[:, far], u[:, far], 1e-6, 1 + np.abs(g).max())
        ctx.check('smoothed_finite', np.all(np.isfinite(w)))


# ---------------------------------------------------------------- coupling helpers
class Vec3(object):
    def __init__(self, *a):
        self.a = a


class Fake(object):
    """serves one made-up plane the way floris does"""
    def __init__(self, log, x, y, u, v, hub):
        self.log, self.d, self.hub = log, (x, y, u, v), hub

    def modules(self):
        S = self

        class FI(object):
            def __init__(self, f):
                S.log.append(('input', f))
                t = types.SimpleNamespace(hub_height=S.hub)
                self.floris = types.SimpleNamespace(farm=types.SimpleNamespace(turbines=[t, types.SimpleNamespace(hub_height=-1)]))

            def calculate_wake(self, Ind_Opts=None):
                S.log.append(('wake', dict(Ind_Opts)))

            def get_flow_data(self, resolution=None, Ind_Opts=None, bounds_to_set=None):
                S.log.append(('flow', resolution, dict(Ind_Opts), bounds_to_set))
                return 'flow'

        def HorPlane(flow, h):
            S.log.append(('plane', flow, h))
            x, y, u, v = S.d
            return types.SimpleNamespace(x1_lin=x, x2_lin=y, u_mesh=u.ravel(), v_mesh=v.ravel(), resolution=(x.size, y.size))
        fl = types.ModuleType('floris')
        to = types.ModuleType('floris.tools')
        ut = types.ModuleType('floris.utilities')
        to.floris_utilities = types.SimpleNamespace(FlorisInterface=FI)
        to.cut_plane = types.SimpleNamespace(HorPlane=HorPlane)
        ut.Vec3 = Vec3
        fl.tools, fl.utilities = to, ut
        return [('floris', fl), ('floris.tools', to), ('floris.utilities', ut)]


def f_planes(ctx):
    """planes of the coupled model are fetched, stored, read back and drawn unchanged (up to the requested normalisation)"""
    rng = ctx.rng
    nx, ny = int(rng.integers(2, 9)), int(rng.integers(2, 9))
    x, y = np.sort(rng.uniform(-5, 5, nx)), np.sort(rng.uniform(-5, 5, ny))
    u, v = rng.uniform(-3, 9, (2, ny, nx))
    if rng.random() < .3:
        u[0, 0] = np.nan
    U0 = None if rng.random() < .4 else float(rng.choice([1.0, rng.uniform(.5, 12), 6]))
    s = 1.0 if U0 is None else U0
    hub = float(rng.uniform(.5, 200))
    log = []
    opts = {'Ground': bool(rng.random() < .5), 'no_induction': bool(rng.random() < .5)}
    fk = Fake(log, x, y, u, v, hub)
    eq = lambda a, b: np.array_equal(np.asarray(a, float), np.asarray(b, float), equal_nan=True)
    with tapped(mods=fk.modules()) as rec:
        M = load(os.path.join(REPO, 'coupling_examples', 'helper_functions.py'))
        b = [0.0, 5.0, 1.0, 2.0, 89, 90] if rng.random() < .5 else None
        res = Vec3(nx, ny, 2)
        p = M.get_HH_plane_vel('in.json', opts, res, b) if rng.random() < .5 else M.get_HH_plane_vel('in.json', opts, resolution=res, bounds_to_set=b)
        ctx.check('plane_fetched', eq(p[0], x) and eq(p[1], y) and eq(p[2], u) and eq(p[3], v))
        fl = [l for l in log if l[0] == 'flow']
        ctx.check('plane_request', ('input', 'in.json') in log and ('wake', opts) in log and len(fl) == 1 and fl[0][1] is res and fl[0][2] == opts and fl[0][3] == b and ('plane', 'flow', hub) in log and
                  [l[0] for l in log].index('wake') < [l[0] for l in log].index('flow'), log=[str(l)[:80] for l in log])
        cp = [np.array(q, copy=True) for q in p[:4]]
        base = str(rng.choice(['a_', 'sub/b', './c_0_', 'sub/../sub/d']))
        os.makedirs('sub', exist_ok=True)
        if rng.random() < .5:
            M.savePlane(p, base, U0=U0) if U0 is not None or rng.random() < .5 else M.savePlane(p, base)
        else:
            M.savePlane(x, y, u, v, base, U0) if rng.random() < .5 else M.savePlane(x, y, u=u, v=v, base=base, U0=U0)
        ctx.check('saved_plane_kept', all(eq(a, c) for a, c in zip(p[:4], cp)))
        other = M.savePlane(x + 1, y + 1, u + 1, v + 1, 'sub/other', None)
        q = M.loadPlane(base)
        ctx.close('plane_back', np.ravel(q[0]), x, 0, 1)
        ctx.close('plane_back', np.ravel(q[1]), y, 0, 1)
        ok = np.isfinite(u)
        ctx.close('plane_back', q[2], u / s, 1e-14, 10, mask=ok)
        ctx.close('plane_back', q[3], v / s, 1e-14, 10)
        ctx.sig('planes', U0 is None, b is None, base[:3], np.isnan(u).any())
        ctx.note(nx=nx, ny=ny, U0=U0, base=base)
        fig, ax = plt.subplots()
        axial = bool(rng.random() < .5)
        S = u if axial else np.sqrt(u ** 2 + v ** 2)
        kw = dict(axial=True) if axial else {}
        lim = None
        if rng.random() < .5 or np.isnan(S).any():
            lim = sorted(rng.uniform(-3, 9, 2))
            if rng.random() < .3:
                lim[0] = 0.0
                lim[1] = abs(lim[1]) + 1
            kw.update(minSpeed=lim[0], maxSpeed=lim[1])
            if not np.isnan(S).any() and rng.random() < .4:      # one limit only
                i = int(rng.integers(0, 2))
                lim[i] = [S.min(), S.max()][i]
                kw.pop(['minSpeed', 'maxSpeed'][i])
                if lim[0] >= lim[1]:
                    lim = None
                    kw.pop(['minSpeed', 'maxSpeed'][1 - i])
        lev = None
        if rng.random() < .5 and nx > 2 and ny > 2:
            lev = np.sort(rng.uniform(0, 6, 3))
            kw['levelsLines'] = lev
        im = M.plotPlane(x, y, u, v, ax, **kw)
        got = np.ma.filled(np.ma.array(im.get_array(), dtype=float), np.nan).reshape(ny, nx)
        ctx.check('plane_drawn', eq(np.isnan(got), np.isnan(S)) and np.allclose(got[ok], S[ok], rtol=1e-14, atol=1e-14), axial=axial)
        ctx.check('plane_limits', np.allclose(im.get_clim(), lim if lim else [S.min(), S.max()]), got=im.get_clim())
        d = [r for r in rec if r[0] == 'contour']
        ctx.check('plane_levels', (lev is None and not d) or (lev is not None and len(d) == 1 and np.allclose(d[0][3].get('levels', d[0][2][3] if len(d[0][2]) > 3 else np.nan), lev)))


FAMILIES = [Family('task01', f_task01, 1, 1), Family('task02', f_task02, 1, 1), Family('task03', f_task03, 1, 1), Family('task04', f_task04, 1, 3), Family('ex_yawed', f_ex_yawed, 1, 3),
            Family('ex_article', f_ex_article, 1, 1), Family('ex_farm', f_ex_farm, 1, 1), Family('ex_turbine', f_ex_turbine, 1, 1), Family('ex_curled', f_ex_curled, 1, 1), Family('ex_skewed', f_ex_skewed, 1, 2), Family('ex_superp', f_ex_superp, 1, 2),
            Family('ex_curled3', f_ex_curled3, 1, 3), Family('ex_doublets', f_ex_doublets, 1, 3),
            Family('ellipse', f_ellipse, 60, 1500), Family('planes', f_planes, 60, 1500)]
