"""The colour maps and contour levels of the figures."""
import numpy as np
from ..core import Family
from .. import gen
from wiz.plotting_functions import get_contours, make_colormap, get_cmap

RULE = ('2-12 colours with or without transparency, increasing positions in [0,1] or default ones; speed ranges 0.01-0.89 .. 1.002-3; distinct = different (family, number of colours, '
        'alpha, explicit values)')
FINE = 2 ** 14 + 1


def fine(cm):
    """the same map with a table so long that its steps do not matter (None when it is not made of segments)"""
    import matplotlib.colors as mc
    return cm.resampled(FINE) if isinstance(cm, mc.LinearSegmentedColormap) and hasattr(cm, 'resampled') else None


ASSUMPTIONS = ['also evaluated with a 2^14-entry table (when the map is a segmented one), tolerance 1e-6', 'colours are looked up away from the end bins of the 256-entry table; tolerance one table step']


def f_map(ctx):
    rng = ctx.rng
    n, nc = int(rng.integers(2, 12)), int(rng.choice([3, 4]))
    C = [tuple(float(v) for v in rng.random(nc)) for _ in range(n)]
    vals = None
    if rng.random() < .6:
        vals = np.concatenate([[0], np.sort(rng.uniform(.02, .98, n - 2)), [1]])
    ctx.sig(n, nc, vals is None)
    ctx.note(n=n, components=nc, values=vals)
    c0 = list(C)
    v0 = None if vals is None else vals.copy()
    cm = make_colormap(C, values=vals)
    ctx.check('input_kept', C == c0 and (vals is None or np.array_equal(vals, v0)))
    v = np.linspace(0, 1, n) if vals is None else vals
    A = np.array(C)
    # piecewise linear between the colours, one step of the table as tolerance
    q = np.concatenate([rng.uniform(0, 1, 60), v])
    got = np.array(cm(q))
    e = np.array([np.interp(q, v, A[:, i]) for i in range(nc)]).T
    st = 1.5 / 255
    slope = np.array([[np.max(np.abs(np.diff(np.interp(np.clip([x - st, x - st / 2, x, x + st / 2, x + st], 0, 1), v, A[:, i]))), initial=0) for i in range(nc)] for x in q])
    near = np.array([np.ptp(np.interp(np.clip(np.linspace(x - st, x + st, 31), 0, 1), v, A[:, i])) for x in q for i in range(nc)]).reshape(len(q), nc)
    fm = fine(cm)
    if fm is not None:
        w = 2.0 / FINE
        F = np.array(fm(q))[:, :nc]
        tol = np.array([np.ptp(np.interp(np.clip([x - w, x, x + w], 0, 1), v, A[:, i])) for x in q for i in range(nc)]).reshape(len(q), nc)
        ctx.close('interpolates_fine', F, e, 1, tol + 1e-6)
    ctx.close('interpolates', got[:, :nc], e, 1, near + slope + 2e-3)
    if nc == 3:
        ctx.check('opaque', np.all(got[:, 3] == 1))
    ctx.close('first', np.array(cm(0.0))[:nc], A[0], 1e-9, 1)
    ctx.close('last', np.array(cm(1.0))[:nc], A[-1], 1e-9, 1)


WHITE = np.ones(3)


def f_cmap(ctx):
    """undisturbed flow is white, slower is blue to orange, faster is red"""
    rng = ctx.rng
    lo, hi = float(rng.uniform(.05, .88)), float(rng.choice([rng.uniform(1.01, 1.2), rng.uniform(1.1, 2.5)]))
    al = float(rng.choice([1.0, rng.uniform(.1, 1)]))
    ctx.sig(int(lo * 10), int(hi * 10), al == 1)
    ctx.note(lo=lo, hi=hi, alpha=al)
    cm, v = get_cmap(lo, hi, al)
    v = np.asarray(v)
    ctx.check('values_do_not_decrease', np.all(np.diff(v) >= 0), values=v)
    ctx.close('first_value', v[0], lo, 5.1e-3, 1)
    ctx.close('last_value', v[-1], hi, 1e-12, 1)
    f = lambda s: np.array(cm((s - lo) / (hi - lo)))
    st = (hi - lo) / 255
    ctx.close('alpha', np.array(cm(np.linspace(0, 1, 99)))[:, 3], al, 1e-9, 1)
    ctx.close('slowest', f(lo)[:3], np.array([63, 63, 153]) / 255., 1e-9, 1)
    ctx.close('fastest', f(hi)[:3], np.array([138, 42, 93]) / 255., 1e-9, 1)
    # 0.98..1 goes to white and 1..hi goes away from it: within a step of the table the colour is nearly white
    d = np.abs(f(1.0)[:3] - WHITE).max()
    ctx.close('free_stream_white', d, 0, 1, 1.6 * st * max(1 / .02, 1 / (hi - 1)) + 2e-3)
    # nodes: light blue at 0.90, light green at 0.95, light orange at 0.98 (one table step off)
    N = [(lo, (63, 63, 153)), (.9, (159, 159, 204)), (.95, (158, 204, 170)), (.98, (255, 212, 96)), (.999, (255, 255, 255)), (1.001, (255, 255, 255)), (hi, (138, 42, 93))]
    xs = np.array([n[0] for n in N])
    cs = np.array([n[1] for n in N]) / 255.
    q = np.concatenate([rng.uniform(lo, hi, 60), rng.uniform(max(lo, .85), 1.02 if hi > 1.02 else hi, 60)])
    got = np.array(cm((q - lo) / (hi - lo)))[:, :3]
    e = np.array([np.interp(q, xs, cs[:, i]) for i in range(3)]).T
    fm = fine(cm)
    if fm is not None:
        w = 2.0 / FINE * (hi - lo)
        F = np.array(fm((q - lo) / (hi - lo)))[:, :3]
        tol = np.array([np.ptp(np.interp(np.clip([x - w, x, x + w], lo, hi), xs, cs[:, i])) for x in q for i in range(3)]).reshape(len(q), 3)
        ctx.close('colours_of_the_speeds_fine', F, e, 1, tol + 1e-6)
        for sp, col in N[1:4]:
            ctx.close('published_colour', np.array(fm((sp - lo) / (hi - lo)))[:3], np.array(col) / 255., 1, 2e-3 * max(1, hi - lo))
        ctx.close('white_at_free_stream', np.array(fm((1 - lo) / (hi - lo)))[:3], 1, 1e-6, 1)
    ctx.check('legend_values', all(np.min(np.abs(x - np.array([.9, .95, .98, 1.0]))) < 1e-9 for x in v[1:-1]), values=v)
    if al == 1:
        ctx.check('opaque_by_default', np.array_equal(np.array(get_cmap(lo, hi)[0](q)), np.array(cm(q))))
    near = np.array([np.ptp(np.interp(np.clip(np.linspace(x - 1.6 * st, x + 1.6 * st, 41), lo, hi), xs, cs[:, i])) for x in q for i in range(3)]).reshape(len(q), 3)
    ctx.close('colours_of_the_speeds', got, e, 1, near + 4e-3, points=None)


def f_contours(ctx):
    rng = ctx.rng
    CT = float(rng.choice([.95, .4, .64, .8, rng.uniform(.01, 1.3)]))
    ctx.sig(CT == .95)
    ctx.note(CT=CT)
    a, b = get_contours(CT)
    a, b = np.asarray(a), np.asarray(b)
    ctx.check('lines_increase', np.all(np.diff(b) > 0))
    ctx.check('contours_increase', np.all(np.diff(a) > 0))
    ctx.check('contours_contain_lines', all(np.any(a == v) for v in b))
    ctx.check('range', a[0] == .2 and a[-1] == 1.4 and len(a) == len(b) + 2, levels=a)
    e = [0.5, 0.6, 0.7, 0.8, 0.9, 0.95, 0.98, 0.99, 1., 1.01] if CT == .95 else [0.7, 0.8, 0.85, 0.9, 0.95, 0.98, 0.99, 0.995, 1.01]
    ctx.close('levels', b, e, 1e-12, 1)


FAMILIES = [Family('map', f_map, 300, 8000), Family('cmap', f_cmap, 200, 6000), Family('contours', f_contours, 60, 500)]
