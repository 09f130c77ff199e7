"""Reference velocity fields, written from Biot-Savart's law, used as oracles. Nothing here uses wiz.

Conventions (the ones documented by the code): a semi-infinite vortex cylinder of radius R starts in
the plane z=0, its axis is x=m.z, gamma_t is the tangential sheet strength (positive along +psi),
gamma_l the longitudinal one (positive along the axis, going downstream).
"""
import numpy as np
from scipy.special import elliprf, elliprj, ellipe, ellipk

PI = np.pi

# ---------------------------------------------------------------- elliptic helpers
_t64 = (np.arange(96) + 0.5) * PI / 2 / 96
_s2 = np.sin(_t64) ** 2
_s2c2 = _s2 * (1 - _s2)


def ell_C(mc):
    """((2-m)K-2E)/m^2 with m=1-mc, without cancellation for small m"""
    mc = np.asarray(mc, dtype=float)
    m = 1 - mc
    out = np.empty(mc.shape)
    small = m < 0.8
    ms = m[small]
    out[small] = (_s2c2 / (1 - ms[..., None] * _s2) ** 1.5).sum(-1) * (PI / 2 / 96)
    mb, mcb = m[~small], mc[~small]
    K = elliprf(0.0, mcb, 1.0)
    E = ellipe_c(mcb)
    out[~small] = ((2 - mb) * K - 2 * E) / mb ** 2
    return out


def ellipe_c(mc):
    """E as function of the complementary parameter"""
    return ellipe(1 - np.asarray(mc))


def pi_carlson(n, m, nc=None, mc=None):
    n = np.asarray(n, dtype=float)
    m = np.asarray(m, dtype=float)
    nc = 1 - n if nc is None else nc
    mc = 1 - m if mc is None else mc
    return elliprf(0.0, mc, 1.0) + n / 3 * elliprj(0.0, mc, 1.0, nc)


# ---------------------------------------------------------------- right cylinder, closed forms
def _axisym(r, z, R):
    r, z = np.broadcast_arrays(np.asarray(r, float), np.asarray(z, float))
    rho2 = np.sqrt((R + r) ** 2 + z ** 2)
    mc = ((R - r) ** 2 + z ** 2) / rho2 ** 2
    nc = ((R - r) / (R + r)) ** 2
    n = 4 * r * R / (R + r) ** 2
    return r, z, rho2, mc, n, nc


def vc_tang(r, z, g, R):
    """ur, uz of a semi-infinite right cylinder. On the sheet r==R: mean of both sides."""
    r, z, rho2, mc, n, nc = _axisym(r, z, R)
    with np.errstate(all='ignore'):
        K = elliprf(0.0, mc, 1.0)
        sgnPi = np.where(r == R, 0.0, (R - r) / (R + r) * (K + n / 3 * elliprj(0.0, mc, 1.0, np.where(r == R, 1.0, nc))))
        T = np.where(r < R, 1.0, np.where(r == R, 0.5, 0.0))
        Kz = np.where(mc == 0, 0.0, z * K)
        uz = g / 2 * (T + (Kz + z * sgnPi) / (PI * rho2))
        ur = -g / (2 * PI) * 8 * r * R ** 2 * ell_C(mc) / rho2 ** 3
    return ur, uz


def vc_longi(r, z, g, R):
    """u_psi of a semi-infinite right cylinder of longitudinal vorticity"""
    r, z, rho2, mc, n, nc = _axisym(r, z, R)
    with np.errstate(all='ignore'):
        K = elliprf(0.0, mc, 1.0)
        sgnPi = np.where(r == R, 0.0, (R - r) / (R + r) * (K + n / 3 * elliprj(0.0, mc, 1.0, np.where(r == R, 1.0, nc))))
        A = np.where(r > R, 1.0, np.where(r == R, 0.5, 0.0))
        Kz = np.where(mc == 0, 0.0, z * K)
        up = g / 2 * R / r * (A + (Kz - z * sgnPi) / (PI * rho2))
    up = np.array(up)
    b = (r < 0.3 * R)
    if np.any(b):
        x, y, zz = r[b], 0 * r[b], z[b]
        _, uy, _ = svc_longi_q(x, y, zz, g, R, 0.0)
        up[b] = uy
    return up


def vc_root(r, z, G):
    """u_psi of a semi-infinite line along +z from the origin (0 on the line itself)"""
    r, z = np.broadcast_arrays(np.asarray(r, float), np.asarray(z, float))
    a = np.hypot(r, z)
    with np.errstate(all='ignore'):
        u = np.where(z > 0, G / (4 * PI) * (a + z) / (a * r), G / (4 * PI) * r / (a * (a - z)))
    return np.where((r == 0), 0.0, u)


def cyl_tang(r, z, g, R, z1, z2):
    u1 = vc_tang(r, np.asarray(z) - z1, g, R)
    u2 = vc_tang(r, np.asarray(z) - z2, g, R)
    return u1[0] - u2[0], u1[1] - u2[1]


# ---------------------------------------------------------------- skewed cylinder, quadrature
def dist_cyl(x, y, z, R, m, n=720):
    """distance of the points to the half-lines of the cylinder surface (sheet), divided by R"""
    x, y, z = (np.asarray(v, float).ravel() for v in np.broadcast_arrays(x, y, z))
    th = np.linspace(0, 2 * PI, n, endpoint=False)
    c = np.sqrt(1 + m * m)
    e = np.array([m, 0, 1.0]) / c
    dx = x[:, None] - R * np.cos(th)
    dy = y[:, None] - R * np.sin(th)
    dz = z[:, None] + 0 * th
    b = e[0] * dx + e[2] * dz
    a2 = dx ** 2 + dy ** 2 + dz ** 2
    # |r0 x e|
    cx = dy * e[2]
    cy = dz * e[0] - dx * e[2]
    cz = -dy * e[0]
    h2 = cx ** 2 + cy ** 2 + cz ** 2
    d = np.sqrt(np.where(b > 0, h2, a2)).min(1) / R
    return d


def _quad(x, y, z, R, m, fun, N=None):
    shp = np.broadcast(x, y, z).shape
    x, y, z = (np.array(v, dtype=float).ravel() for v in np.broadcast_arrays(x, y, z))
    out = np.full((3, x.size), np.nan)
    d = dist_cyl(x, y, z, R, m, 360)
    with np.errstate(all='ignore'):
        NN = np.clip(np.ceil(38 / np.maximum(d, 1e-4) / 64) * 64, 64, 16384)
    if N is not None:
        NN[:] = N
    NN[~np.isfinite(NN)] = 64
    for n in np.unique(NN):
        I = np.where(NN == n)[0]
        step = max(1, int(4e5 // n))
        for k in range(0, len(I), step):
            J = I[k:k + step]
            th = np.arange(int(n)) * (2 * PI / n)
            out[:, J] = fun(x[J][:, None], y[J][:, None], z[J][:, None], np.cos(th), np.sin(th)) * (2 * PI / n)
    return [o.reshape(shp) for o in out]


def _ab(x, y, z, R, m, ct, st):
    c = np.sqrt(1 + m * m)
    dx, dy, dz = x - R * ct, y - R * st, z + 0 * ct
    a = np.sqrt(dx ** 2 + dy ** 2 + dz ** 2)
    b = m * dx + dz
    # a c - b, without cancellation when b>0:  a^2c^2-b^2 = |r0 x e|^2
    X, Y, Z = dy * 1.0, dz * m - dx, -dy * m
    acb = np.where(b > 0, (X ** 2 + Y ** 2 + Z ** 2) / (a * c + b), a * c - b)
    return dx, dy, dz, a, b, c, acb


def svc_tang_q(x, y, z, g, R, m, N=None):
    def fun(x, y, z, ct, st):
        dx, dy, dz, a, b, c, acb = _ab(x, y, z, R, m, ct, st)
        I30 = 1 / (a * acb)
        I31 = 1 / (c * acb)
        lx, ly = -R * st, R * ct
        # int dl x (r0 - e s)/|r0 - e s|^3 ds
        vx, vy, vz = dx * I30 - m * I31, dy * I30, dz * I30 - I31
        f = g / (4 * PI)       # gamma_t is per unit length along the (skewed) axis: element length c.ds
        return np.array([(ly * vz).sum(1), (-lx * vz).sum(1), (lx * vy - ly * vx).sum(1)]) * f * c
    return _quad(x, y, z, R, m, fun, N)


def svc_longi_q(x, y, z, g, R, m, N=None):
    def fun(x, y, z, ct, st):
        dx, dy, dz, a, b, c, acb = _ab(x, y, z, R, m, ct, st)
        I = 1 / (a * acb)
        # e x r0, e=(m,0,1)
        return np.array([(-dy * I).sum(1), ((dx - m * dz) * I).sum(1), (m * dy * I).sum(1)]) * g * R / (4 * PI)
    return _quad(x, y, z, R, m, fun, N)


def line_semi(x, y, z, e, G):
    """semi-infinite line from the origin along the unit vector e (0 on the line itself)"""
    x, y, z = (np.array(v, dtype=float) for v in np.broadcast_arrays(x, y, z))
    a = np.sqrt(x ** 2 + y ** 2 + z ** 2)
    b = x * e[0] + y * e[1] + z * e[2]
    cx, cy, cz = e[1] * z - e[2] * y, e[2] * x - e[0] * z, e[0] * y - e[1] * x
    h2 = cx ** 2 + cy ** 2 + cz ** 2
    with np.errstate(all='ignore'):
        amb = np.where(b > 0, h2 / (a + b), a - b)
        k = G / (4 * PI) / (a * amb)
    k = np.where((h2 == 0), 0.0, k)
    return cx * k, cy * k, cz * k


def svc_root(x, y, z, G, m):
    c = np.sqrt(1 + m * m)
    return line_semi(x, y, z, (m / c, 0.0, 1 / c), G)


# ---------------------------------------------------------------- rings
def ring(r, z, G, R):
    """ur, uz of a ring of radius R at z=0"""
    r, z, rho2, mc, n, nc = _axisym(r, z, R)
    rho1s = (R - r) ** 2 + z ** 2
    K = elliprf(0.0, mc, 1.0)
    E = ellipe_c(mc)
    with np.errstate(all='ignore'):
        uz = G / (2 * PI * rho2) * (K + (R ** 2 - r ** 2 - z ** 2) / rho1s * E)
        # -K+(R2+r2+z2)/rho1s E = (2(1-m)... ) written with C: no cancellation at small r
        ur = G * z / (2 * PI * r * rho2) * (-K + (R ** 2 + r ** 2 + z ** 2) / rho1s * E)
    ur = np.array(ur)
    b = mc > 0.4
    if np.any(b):
        th = (np.arange(128) + 0.5) * PI / 128
        rb, zb = r[b][:, None], z[b][:, None]
        D3 = (R * R + rb * rb + zb * zb - 2 * R * rb * np.cos(th)) ** 1.5
        # odd part in cos: subtract the value at r=0 to avoid cancellation of the sum
        D03 = (R * R + rb * rb + zb * zb) ** 1.5
        w = -np.expm1(-1.5 * np.log1p(-2 * R * rb * np.cos(th) / (R * R + rb * rb + zb * zb))) / -D03
        ur[b] = G * R / (4 * PI) * z[b] * (np.cos(th) * w).sum(1) * (2 * PI / 128)
    return ur, uz


# ---------------------------------------------------------------- doublets
def doublet(x, y, z, mx, my, mz):
    r2 = x ** 2 + y ** 2 + z ** 2
    r = np.sqrt(r2)
    with np.errstate(all='ignore'):
        md = (mx * x + my * y + mz * z) / r2
        return [(3 * md * x - mx) / (4 * PI * r2 * r), (3 * md * y - my) / (4 * PI * r2 * r), (3 * md * z - mz) / (4 * PI * r2 * r)]


def doublet_line_straight(x, y, z, dm):
    r3 = (x ** 2 + y ** 2 + z ** 2) ** 1.5
    with np.errstate(all='ignore'):
        return [-dm / (4 * PI) * v / r3 for v in (x, y, z)]


_gl = np.polynomial.legendre.leggauss(40)


def doublet_line(x, y, z, dm, m=0.0, L=np.inf):
    """doublets (0,0,dm ds) along (m s, 0, s), s in [0,L]; quadrature in s=s0+h sinh(t)"""
    x, y, z = (np.array(v, dtype=float) for v in np.broadcast_arrays(x, y, z))
    shp = x.shape
    x, y, z = x.ravel(), y.ravel(), z.ravel()
    c2 = 1 + m * m
    s0 = (m * x + z) / c2
    h = np.sqrt(((x - m * s0) ** 2 + y ** 2 + (z - s0) ** 2) / c2)
    D = np.sqrt(x ** 2 + y ** 2 + z ** 2)
    h = np.maximum(h, 1e-9 * D)
    t0 = np.arcsinh(-s0 / h)
    # upstream of the start: shift so that the integrand is resolved from s=0
    far = 1e9 * np.maximum(D, 1e-300) + 0 * s0
    t1 = np.arcsinh((np.minimum(L, far) - s0) / h)
    out = np.zeros((3, x.size))
    nP = 24
    for p in range(nP):
        ta, tb = t0 + (t1 - t0) * p / nP, t0 + (t1 - t0) * (p + 1) / nP
        t = (ta + tb)[:, None] / 2 + (tb - ta)[:, None] / 2 * _gl[0]
        w = (tb - ta)[:, None] / 2 * _gl[1] * h[:, None] * np.cosh(t)
        s = s0[:, None] + h[:, None] * np.sinh(t)
        u = doublet(x[:, None] - m * s, y[:, None] + 0 * s, z[:, None] - s, 0.0, 0.0, dm)
        for j in range(3):
            out[j] += (u[j] * w).sum(1)
    return [o.reshape(shp) for o in out]


# ---------------------------------------------------------------- self-similar model
def ss(r, z, g, R, lam=0.587, eta=1.32):
    zb = z / R
    r12 = R * np.sqrt(lam * (eta + zb ** 2))
    e = np.sqrt(2) * r / r12
    sech = 2 * np.exp(-e) / (1 + np.exp(-2 * e))
    u = g / 2 * (1 + z / np.sqrt(z ** 2 + R ** 2)) * sech ** (8. / 9)
    return np.where(z > 0, 0.0, u)


def ss_axis_stable(z, R):
    """1+z/sqrt(z2+R2) without cancellation for z<0"""
    h = np.hypot(z, R)
    return np.where(z < 0, R * R / (h * (h - z)), 1 + z / h)


# ---------------------------------------------------------------- loading -> vorticity (momentum balance)
AC = 0.34
CTC = 4 * AC * (1 - AC)


def ax_ind(Ct):
    """axial induction for an effective thrust coefficient (momentum, Spera above Ct=0.8976)"""
    Ct = np.asarray(Ct, float)
    with np.errstate(all='ignore'):
        return np.where(Ct > CTC, (Ct - 4 * AC ** 2) / (4 * (1 - 2 * AC)), 0.5 * (1 - np.sqrt(1 - Ct)))


def k_from_ct(Ct, lam_r, swirl):
    """k (1+k/(4 lam_r^2)) = Ct"""
    Ct = np.asarray(Ct, float)
    if not swirl:
        return Ct.copy()
    return 2 * Ct / (1 + np.sqrt(1 + Ct / lam_r ** 2))


def discr(r_cp, Gamma, U0, Omega, swirl, r_cyl):
    """Annulus by annulus momentum balance, returns dict(gamma_t, gamma_l, Gamma_r, a)"""
    k = Gamma * Omega / (PI * U0 ** 2)
    n = len(k)
    lR = Omega * r_cyl / U0
    if swirl:
        loc = np.zeros(n)
        loc[:-1] = (k[1:] / 2) ** 2 * (1 / lR[:-1] ** 2 - 1 / lR[1:] ** 2)
        rot = np.array([loc[i + 1:].sum() for i in range(n)])
        Ct = k * (1 + k / (4 * lR ** 2)) - rot
    else:
        Ct = k.copy()
    a = ax_ind(Ct)
    w = 1 - 2 * a
    gt = U0 * (w - np.append(w[1:], 1.0))
    if swirl:
        gl = (Gamma - np.append(Gamma[1:], 0.0)) / (2 * PI * r_cp)
        Gr = -Gamma[0]
    else:
        gl = Gr = None
    return dict(gamma_t=gt, gamma_l=gl, Gamma_r=Gr, a=a, Cteff=Ct)


def cyl_radii(r_cp, R):
    r_cp = np.asarray(r_cp, float)
    if len(r_cp) == 1:
        return np.array([R], float)
    e = np.empty(len(r_cp))
    e[:-1] = (r_cp[1:] + r_cp[:-1]) / 2
    e[-1] = r_cp[-1] + (r_cp[-1] - r_cp[-2]) / 2
    return e


# ---------------------------------------------------------------- geometry
def rot(u, t):
    """Rodrigues"""
    u = np.asarray(u, float).ravel()
    K = np.array([[0, -u[2], u[1]], [u[2], 0, -u[0]], [-u[1], u[0], 0]])
    return np.eye(3) + np.sin(t) * K + 2 * np.sin(t / 2) ** 2 * K.dot(K)


def wrap(a):
    return a - 2 * PI * np.round(a / (2 * PI))


def signed_angle(a, b, axis):
    """angle from a to b about axis, of their components normal to axis"""
    a = a - np.dot(a, axis) * axis
    b = b - np.dot(b, axis) * axis
    return np.arctan2(np.dot(np.cross(a, b), axis), np.dot(a, b))


def nearest_side(got, f, x, y, R, e):
    """expected values e=f(r), where the radius of a point is R but for its own round-off (neither coordinate is zero): the value on the
    sheet or on either side of it, whichever is nearest, since sqrt(x**2+y**2) and hypot(x,y) need not agree on the side"""
    r = np.sqrt(x ** 2 + y ** 2)
    b = (np.abs(r - R) < 1e-15 * R) & (x != 0) & (y != 0)
    got = np.asarray(got)
    if not b.any() or got.shape != np.shape(e):
        return e
    e = np.array(e, float)
    alt = np.array([f(np.where(b, R * k, r))[b] for k in (1.0, 1 - 4e-16, 1 + 4e-16)])
    i = np.argmin(np.abs(alt - got[b]), axis=0)
    e[b] = np.take_along_axis(alt, i[None], 0)[0]
    return e
