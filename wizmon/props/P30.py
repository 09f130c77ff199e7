"""The rotor plane functions Kzt and Kxit of the skewed tangential vorticity."""
import numpy as np
from ..core import Family
from .. import gen, ref
from wiz.VortexCylinderSkewed import fKxit, fKzt, svc_tang_u_polar, skew_components

RULE = ('r in [0,0.97], tan(chi) of both signs from 1e-2 to 10, arrays of 1-12 radii in any order; against the Biot-Savart integral of the skewed cylinder in the rotor plane, '
        'their own quadratures and the velocity functions; distinct = different (family, decade and sign of tan(chi), nout)')
ASSUMPTIONS = ['closed forms lose about 1/m^2 digits for small skew; tolerance 1e-9+2e-14/m^2 with a factor 1/(1-r)', 'quadrature columns: trapezes of 1000 points, r<=0.97']


def radii(rng):
    n = int(rng.integers(1, 12))
    r = np.where(rng.random(n) < .8, rng.uniform(.001, .97, n), gen.logu(rng, 1e-6, 1e-2, n))
    return r


def skew(rng, steep=True):
    return float(gen.sgn(rng) * rng.choice([rng.uniform(.05, 2), gen.logu(rng, 1e-4, .1), rng.uniform(1, 3), gen.logu(rng, 3, 10 if steep else 3)]))


def tol(r, m, base=1e-9):
    return (base + 2e-14 / m ** 2) / (1 - r) * (1 + abs(m))


def kref(r, m):
    """2u_z/gamma-1 and -(2u_xi/gamma+tan(chi/2)) of the skewed cylinder at psi=0 in the rotor plane"""
    ux, uy, uz = ref.svc_tang_q(r, 0 * r, 0 * r, 1.0, 1.0, m)
    chi = np.arctan(m)
    xi = -uz * np.sin(chi) + ux * np.cos(chi)
    return 2 * uz - 1, -(2 * xi + np.tan(chi / 2))


def f_kzt(ctx):
    rng = ctx.rng
    r, m = radii(rng), skew(rng)
    if abs(m) > 3:
        r = np.minimum(r, .88)
    nout = int(rng.integers(2, 7))
    ctx.sig('z', int(np.floor(np.log10(abs(m)))), m > 0, nout)
    ctx.note(r=r, m=m, nout=nout)
    r0 = r.copy()
    K = fKzt(r, m, nout)
    ctx.check('input_kept', np.array_equal(r, r0))
    ctx.check('outputs', len(K) == nout, got=len(K))
    e = kref(r, m)[0]
    ctx.close('closed_form', K[0], e, tol(r, m), points=(r,))
    ctx.close('coleman', K[1], e, tol(r, m, 3e-8), points=(r,))
    if nout > 2:
        ctx.close('oye', K[2], .5 * (r + .4 * r ** 3 + .4 * r ** 5), 1e-13, 1)
    for j in (3, 4, 5):
        if nout > j:
            ctx.close('form%d' % (j + 1), K[j], e, tol(r, m, 3e-8), points=(r,))
    q = 1 - gen.logu(rng, 5e-3 if abs(m) < 3 else 2e-2, 3e-2 if abs(m) < 3 else .1, 4)           # close to the rim
    ctx.close('closed_form_rim', fKzt(q, m)[0], kref(q, m)[0], 10 * tol(q, m), points=(q,))
    one = np.ravel(fKzt(r, m, 1))
    ctx.close('nout1', one, K[0], 1e-14, 1)
    ctx.close('odd_in_skew', np.asarray(fKzt(r, -m)[0]), -np.asarray(K[0]), 1e-12, 1 + np.abs(e))
    try:
        fKzt(r, 0)
        ctx.check('refuses_no_skew', False)
    except Exception:
        ctx.check('refuses_no_skew', True)


def f_kxit(ctx):
    rng = ctx.rng
    r = radii(rng)
    m = 0.0 if rng.random() < .2 else skew(rng)
    if abs(m) > 3:
        r = np.minimum(r, .88)
    ctx.sig('xi', 'zero' if m == 0 else int(np.floor(np.log10(abs(m)))), m > 0)
    if rng.random() < .3:
        r = np.concatenate([[0.0], r])
    ctx.note(r=r, m=m)
    r0 = r.copy()
    K, N, O = fKxit(r, m)
    ctx.check('input_kept', np.array_equal(r, r0))
    ctx.check('shapes', K.shape == r.shape and N.shape == r.shape and O.shape == r.shape)
    if m == 0:
        e = -2 * ref.vc_tang(r, 0 * r, 1.0, 1.0)[0]
        t = tol(r, 1.0)
        K_tol = np.where(r < 1e-2, 2e-5, t)         # 2-k2)K-2E cancels near the axis
        ctx.close('closed_form_no_skew', K, e, K_tol, points=(r,))
        ctx.close('quadrature', N, e, tol(r, 1.0, 3e-8), points=(r,))
    else:
        e = np.where(r > 0, kref(np.where(r > 0, r, .5), m)[1], 0)
        ctx.close('closed_form', K, e, np.where(r < 1e-6, 2e-7, tol(r, m)), points=(r,))
        ctx.close('quadrature', N, e, tol(r, m, 3e-8), points=(r,))
        q = 1 - gen.logu(rng, 5e-3 if abs(m) < 3 else 2e-2, 3e-2 if abs(m) < 3 else .1, 4)
        ctx.close('closed_form_rim', fKxit(q, m)[0], kref(q, m)[1], 10 * tol(q, m), points=(q,))
        ctx.close('even_in_skew', fKxit(r, -m)[0], K, 1e-12, 1 + np.abs(e))
    ctx.close('oye', O, .5 * (r + .4 * r ** 3 + .4 * r ** 5), 1e-13, 1)
    ctx.check('positive', np.all(K[r > 1e-2] > 0))


def f_flow(ctx):
    """the expansions give the flow of the velocity functions in the rotor plane, at psi=0 and psi=pi"""
    rng = ctx.rng
    m, g, R = skew(rng, False), gen.strength(rng), float(rng.choice([1, rng.uniform(20, 100)]))
    r = rng.uniform(.02, .85, 5)
    ctx.sig('flow', int(np.floor(np.log10(abs(m)))), m > 0, g > 0)
    ctx.note(m=m, g=g, R=R, r=r)
    chi = np.arctan(m)
    n = 720
    for psi, s in ((0.0, 1), (np.pi, -1)):
        ux, uy, uz = svc_tang_u_polar(r * R, psi + 0 * r, 0 * r, g, R=R, m=m, ntheta=n)
        ze, xi = skew_components(ux, uz, m)
        t = 2e-9 + 2e-13 / m ** 2
        ctx.close('uz', uz, g / 2 * (1 + s * fKzt(r, m)[0]), t, abs(g) * 5)
        ctx.close('uxi', xi, -g / 2 * (np.tan(chi / 2) + s * fKxit(r, m)[0]), t, abs(g) * 5)
        ctx.close('uzeta', ze, g / 2, 2e-9, abs(g) * 5)
        ctx.close('uy', uy, 0 * r, 1e-9, abs(g) * 5)


FAMILIES = [Family('kzt', f_kzt, 300, 9000), Family('kxit', f_kxit, 300, 9000), Family('flow', f_flow, 300, 9000)]
