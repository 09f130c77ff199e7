"""Complete elliptic integral of the third kind."""
import numpy as np
from scipy.special import ellipk, ellipe
from ..core import Family
from .. import gen, ref
from wiz import elliptic as E

RULE = ('(n,m) drawn in n<1, m<1: bulk, large negative (to -1e4), n and m log-close to 0 and to 1 (to the last representable values), '
        'n=m, n=0, m=0, in arrays of 1 to 80 elements of any dimension; distinct = different (family, regime of n, regime of m, ndim)')
ASSUMPTIONS = ['reference: scipy.special elliprf/elliprj (Boost/Carlson), same double precision arguments']


def _axis(rng, n):
    k = rng.integers(0, 6, n)
    v = rng.uniform(-1, 0.999, n)
    v[k == 1] = -gen.logu(rng, 1e-3, 1e4, (k == 1).sum())
    v[k == 2] = 1 - gen.logu(rng, 1e-10, 1e-1, (k == 2).sum())
    b = (k == 2) & (rng.random(n) < 0.3)
    v[b] = 1 - rng.integers(1, 4000, b.sum()) * 2.0 ** -53      # the last representable values below 1
    v[k == 3] = gen.slog(rng, 1e-12, 1e-1, (k == 3).sum())
    v[k == 4] = 0.0
    return v, k


def truth(n, m):
    return ref.pi_carlson(n, m)


def tol(n, t):
    # the code sums RF and n/3 RJ, whose iterations stop on an absolute change of 1e-12
    return 2e-11 * np.abs(t) + 1e-13 * np.abs(n)


def f_values(ctx):
    rng = ctx.rng
    shp = gen.shaped(rng) if rng.random() < 0.97 else (int(rng.integers(900, 3000)),)
    N = int(np.prod(shp))
    n, kn = _axis(rng, N)
    m, km = _axis(rng, N)
    n, m = n.reshape(shp), m.reshape(shp)
    n0, m0 = n.copy(), m.copy()
    got = E.ellipticPiCarlson(n, m)
    ctx.note(n=n.ravel()[:4], m=m.ravel()[:4], shape=shp)
    for a, b in zip(kn, km):
        ctx.sig(a, b, len(shp))
    t = truth(n, m)
    # conditioning with respect to the rounding of 1-n and 1-m is in the reference too (same arguments)
    ctx.close('equals_integral', got, t, 1, scale=tol(n, t), points=(n, m))
    ctx.check('arguments_unmodified', np.array_equal(n, n0) and np.array_equal(m, m0))
    i = rng.integers(0, N)
    one = E.ellipticPiCarlson(np.array([n.ravel()[i]]), np.array([m.ravel()[i]]))
    ctx.close('element_alone', got.ravel()[i:i + 1], one, 1, scale=tol(n.ravel()[i:i + 1], one))
    # scalars and 0-d
    s = E.ellipticPiCarlson(float(n.ravel()[i]), float(m.ravel()[i]))
    ctx.close('scalar', np.asarray(s).ravel(), one, 2e-9, scale=np.abs(one))


def f_integral(ctx):
    """the defining integral, by quadrature of the smooth periodic integrand"""
    rng = ctx.rng
    N = 12
    n = rng.uniform(-3, 0.9, N)
    m = rng.uniform(-3, 0.9, N)
    t = (np.arange(400) + 0.5) * np.pi / 2 / 400
    s2 = np.sin(t) ** 2
    q = (1 / ((1 - n[:, None] * s2) * np.sqrt(1 - m[:, None] * s2))).sum(1) * np.pi / 2 / 400
    ctx.sig(ctx.k)
    ctx.note(n=n[:3], m=m[:3])
    ctx.close('defining_integral', E.ellipticPiCarlson(n, m), q, 1e-9, scale=q, points=(n, m))


def f_ident(ctx):
    rng = ctx.rng
    N = 20
    m, km = _axis(rng, N)
    n, kn = _axis(rng, N)
    for a in km:
        ctx.sig(a)
    K = ref.elliprf(0.0, 1 - m, 1.0)
    g = E.ellipticPiCarlson(0 * m, m)
    ctx.close('Pi(0,m)=K(m)', g, K, 1e-9, scale=K, points=(m,))
    g = E.ellipticPiCarlson(m, m)
    e = ellipe(m) / (1 - m)
    ctx.close('Pi(m,m)=E/(1-m)', g, e, 1e-8, scale=np.abs(e), points=(m,))
    g = E.ellipticPiCarlson(n, 0 * n)
    e = np.pi / (2 * np.sqrt(1 - n))
    ctx.close('Pi(n,0)', g, e, 1, scale=tol(n, e), points=(n,))
    ns = np.sort(n)
    g = E.ellipticPiCarlson(ns, 0 * ns + m[0])
    ctx.check('increasing_with_n', np.all(np.diff(g) >= -1e-8 * np.abs(g[1:]) - 1e-11 * np.abs(ns[1:])), m=m[0], n=ns)


def f_complement(ctx):
    """the complementary parameter 1-n handed over (characteristics closer to 1 than round-off)"""
    rng = ctx.rng
    shp = gen.shaped(rng)
    N = int(np.prod(shp))
    nc = gen.logu(rng, 1e-60, 0.9, N)
    m, km = _axis(rng, N)
    nc, m = nc.reshape(shp), m.reshape(shp)
    c0, m0 = nc.copy(), m.copy()
    ctx.note(nc=nc.ravel()[:4], m=m.ravel()[:4])
    for a, b in zip(km, nc.ravel()):
        ctx.sig(a, int(np.log10(b)) // 5)
    t = ref.pi_carlson(1 - nc, m, nc)
    ctx.close('equals_integral_with_complement', E.ellipticPiCarlson(1 - nc, m, nc), t, 2e-11, scale=np.abs(t), points=(nc, m))
    ctx.check('arguments_unmodified', np.array_equal(nc, c0) and np.array_equal(m, m0))


def f_batch(ctx):
    rng = ctx.rng
    N = int(rng.integers(3, 60))
    n, _ = _axis(rng, N)
    m, _ = _axis(rng, N)
    t = truth(n, m)
    n2, m2 = n.copy(), m.copy()
    bad = rng.integers(0, N, max(1, N // 5))
    which = rng.integers(0, 3)
    if which == 0:
        n2[bad] = np.nan
    elif which == 1:
        m2[bad] = np.nan
    else:
        n2[bad] = 1.0
    ok = np.ones(N, bool)
    ok[bad] = False
    ctx.sig(which, N // 10)
    g = E.ellipticPiCarlson(n2, m2)
    ctx.close('neighbours_of_singular_elements', g[ok], t[ok], 1, scale=tol(n[ok], t[ok]), points=(n[ok], m[ok]))
    if which == 2:
        ctx.check('n=1_is_infinite', np.all(np.isinf(g[bad])))
    else:
        ctx.check('nan_stays_nan', np.all(np.isnan(g[bad])))
    e = E.ellipticPiCarlson(np.array([]), np.array([]))
    ctx.check('empty', np.asarray(e).size == 0)
    p = rng.permutation(N)
    g1 = E.ellipticPiCarlson(n[p], m[p])
    ctx.close('permutation', g1, t[p], 1, scale=tol(n[p], t[p]))


FAMILIES = [Family('values', f_values, 800, 40000), Family('integral', f_integral, 150, 4000),
            Family('identities', f_ident, 300, 10000), Family('batch', f_batch, 300, 10000),
            Family('complement', f_complement, 200, 8000)]
QUICK = 8        # cheap: more cases in the quick run
