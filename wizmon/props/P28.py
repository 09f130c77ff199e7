"""The grid layouts of wind farms, and the constant-CT farm that stands on one."""
import itertools
import numpy as np
from ..core import Family
from .. import gen, ref
from wiz.WindFarm import gridLayout, windfarm_gridlayout_CTconst, WindFarm
from wiz.WindTurbine import WindTurbine

RULE = ('1-12 x 1-12 grids, spacings of both signs and 0, hub heights, with and without mirror; the constant-CT farm against the independent cylinder field summed over the '
        'positions, and against a WindFarm of turbines; distinct = different (family, nx, nz, mirror, sign of spacings)')
ASSUMPTIONS = ['the order of the positions is the one of the existing test: x runs fastest, mirrored turbines follow the real ones',
               'positions: x=(j-floor(nx/2)).xSpacing, j=0..nx-1; z=i.zSpacing, i=0..nz-1; y=+-hub height']


def draw(rng, nmax=12):
    nx, nz = int(rng.integers(1, nmax + 1)), int(rng.integers(1, nmax + 1))
    sx, sz = float(rng.choice([gen.logu(rng, .1, 1e4), 5.0, -3.0, 7])), float(rng.choice([gen.logu(rng, .1, 1e4), 5.0, -3.0, 0.0, 4]))
    hh = float(rng.choice([0.0, gen.logu(rng, .1, 300), 1.5]))
    return nx, sx, nz, sz, hh, bool(rng.random() < .5)


def expected(nx, sx, nz, sz, hh, mirror):
    P = [((j - nx // 2) * sx, hh, i * sz) for i in range(nz) for j in range(nx)]
    if mirror:
        P += [(x, -y, z) for x, y, z in P]
    return np.array(P).T


def f_layout(ctx):
    rng = ctx.rng
    nx, sx, nz, sz, hh, mi = draw(rng)
    ctx.sig(nx, nz, mi, sx > 0, sz > 0, hh > 0)
    ctx.note(nx=nx, sx=sx, nz=nz, sz=sz, hh=hh, mirror=mi)
    got = gridLayout(nx, sx, nz, sz, hub_height=hh, mirror=mi)
    ctx.check('three_arrays', len(got) == 3 and all(np.shape(g) == (nx * nz * (2 if mi else 1),) for g in got), shapes=[np.shape(g) for g in got])
    E = expected(nx, sx, nz, sz, hh, mi)
    for n, g, e, s in zip('xyz', got, E, (abs(sx), hh, abs(sz))):
        ctx.close('position_' + n, g, e, 1e-12, 12 * s + 1e-300)
    # what a user sees, whatever the order: spacing, number, no turbine twice, mirror of each one
    x, y, z = got
    if sx and sz:
        ctx.check('no_turbine_twice', len(set(zip(x, y, z))) == nx * nz * (2 if mi and hh else 1))
    if nx > 1:
        ctx.close('spacing_x', np.diff(np.unique(x)), abs(sx), 1e-10, abs(sx) * 12)
    if nz > 1 and sz:
        ctx.close('spacing_z', np.diff(np.unique(z)), abs(sz), 1e-10, abs(sz) * 12)
    if nx % 2 == 1:
        ctx.close('centred', x.sum(), 0, 1e-10, abs(sx) * 12 * len(x))
    if mi:
        n = nx * nz
        ctx.check('mirror_of_each', np.array_equal(x[:n], x[n:]) and np.array_equal(z[:n], z[n:]) and np.array_equal(y[:n], -y[n:]))
    d = gridLayout(nx, sx, nz, sz)
    ctx.check('default_on_the_ground', np.all(d[1] == 0) and len(d[0]) == nx * nz)


def pts(rng, X, R, n):
    """points not too near to a sheet"""
    P = np.concatenate([rng.uniform(-4, 4, (3, n)) * R + X[:, rng.integers(0, X.shape[1], n)],
                        rng.uniform(-1, 1, (3, n)) * 1.2 * (np.abs(X).max(1)[:, None] + 2 * R)], axis=1)
    d = np.full(P.shape[1], np.inf)
    for q in X.T:
        r, z = np.hypot(P[0] - q[0], P[1] - q[1]), P[2] - q[2]
        d = np.minimum(d, np.hypot(r - R, np.minimum(z, 0)))
    return P[:, d > .02 * R]


def f_farm(ctx):
    rng = ctx.rng
    nx, sx, nz, sz, hh, mi = draw(rng, 4)
    R = gen.scale(rng)
    sx, sz, hh = float(rng.uniform(2.2, 9)) * R, float(rng.uniform(1, 12)) * R, float(rng.choice([0, rng.uniform(1.01, 3)])) * R
    CT, U0 = float(rng.choice([rng.uniform(.01, .99), 1.0, 0.0])), float(rng.choice([1.0, rng.uniform(2, 25)]))
    X = expected(nx, sx, nz, sz, hh, mi)
    P = pts(rng, X, R, 25)
    k = 1
    if rng.random() < .3:
        m = P.shape[1] // 2
        P = P[:, :2 * m].reshape(3, 2, m)
    ctx.sig('farm', nx, nz, mi, hh > 0, P.ndim)
    ctx.note(R=R, CT=CT, U0=U0, nx=nx, sx=sx, nz=nz, sz=sz, hh=hh, mirror=mi)
    u = windfarm_gridlayout_CTconst(P[0], P[1], P[2], R, CT, U0, nx, sx, nz, sz, hub_height=hh, mirror=mi)
    g = -U0 * (1 - np.sqrt(1 - CT))
    e = np.zeros(P.shape)
    for q in X.T:
        x, y, z = (P[i] - q[i] for i in range(3))
        ur, uz = ref.vc_tang(np.hypot(x, y), z, g, R)
        psi = np.arctan2(y, x)
        e += np.array([ur * np.cos(psi), ur * np.sin(psi), uz])
    ctx.check('shape', all(np.shape(c) == P.shape[1:] for c in u))
    ctx.close3('sum_over_the_grid', u, e, 2e-9, abs(g) * 3 * X.shape[1] + 1e-300, points=P)
    if hh == 0 or mi:
        # symmetric about y=0
        v = windfarm_gridlayout_CTconst(P[0], -P[1], P[2], R, CT, U0, nx, sx, nz, sz, hub_height=hh, mirror=mi)
        ctx.close3('symmetric_about_the_ground', v, (u[0], -u[1], u[2]), 2e-9, abs(g) * 3 * X.shape[1] + 1e-300)
    if 0 < CT < .88 and nx * nz <= 6:
        # the same farm, made of turbines
        F = WindFarm()
        for q in X.T:
            W = WindTurbine(R=R, r_hub=q, e_shaft_yaw0=[0, 0, 1], e_vert=[0, 1, 0], U0=[0, 0, U0])
            W.update_yaw_pos(0)
            W.update_loading(Ct=CT)
            F.append(W)
        w = F.velocity_field(P[0], P[1], P[2])
        ctx.close3('as_a_farm_of_turbines', w, u, 5e-8, abs(g) * 3 * X.shape[1] + 1e-300)
        s = F.layout
        ctx.close('layout', s, X.T, 1e-14, np.abs(X).max() + 1e-300)


FAMILIES = [Family('layout', f_layout, 1500, 40000), Family('farm', f_farm, 300, 9000)]
QUICK = 6        # cheap: more cases in the quick run
