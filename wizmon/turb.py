"""Random turbines, and an independent reference turbine (frame, skew, mirror image, superposition) built on wizmon.ref."""
import numpy as np
from . import gen, ref
from wiz.WindTurbine import WindTurbine

PI = np.pi


def loading(rng, R, nCyl=None, kind=None, ct_hi=1.0):
    """keyword arguments of update_loading"""
    nCyl = (int(rng.choice([1, 1, 2, 3, 5, 8])) if rng.random() > .04 else int(rng.integers(9, 26))) if nCyl is None else nCyl
    kind = kind or str(rng.choice(['ct_scalar', 'ct_array', 'function'], p=[.35, .5, .15]))
    lam = gen.lam(rng)
    CT = gen.ct(rng, ct_hi)
    if nCyl > 1 or kind == 'ct_array':
        n = int(rng.integers(3, 30))
        r = np.linspace(0, 1, n) * R
        x = np.linspace(0, 1, n)
        Ct = CT * (1 - rng.uniform(0, .5) * x ** rng.integers(1, 4)) * np.clip(x / rng.uniform(.02, .3), 0, 1)
        if nCyl == 1 and kind == 'ct_scalar':
            Ct, r = CT, None
    else:
        r, Ct = None, CT
    d = dict(r=r, Ct=Ct, Lambda=lam, nCyl=nCyl)
    if kind == 'function':
        c = float(rng.uniform(.2, 2))
        d['gamma_t_Ct'] = GammaOfCt(c)
    return d


def circulation(rng, ld, R, U):
    """the loading as a circulation, sometimes of a rotor that propels (opposite sign); the others are left alone"""
    if ld.get('r') is None or ld['nCyl'] is None or 'gamma_t_Ct' in ld:
        return ld
    lu = 800.0 if ld['Lambda'] == np.inf else ld['Lambda']
    x = np.asarray(ld['r'], float) / R
    if rng.random() < .7:
        k = ref.k_from_ct(np.clip(ld['Ct'], 0, .9), np.maximum(lu * x, 1e-12), True)
    else:
        k = -float(rng.uniform(.05, .8)) * x ** 2 * (1 + .3 * np.sin(5 * x))
    return dict(r=ld['r'], Gamma=k * PI * U * R / lu, Lambda=ld['Lambda'], nCyl=ld['nCyl'])


class GammaOfCt(object):
    """the caller's own relation between Ct and gamma_t"""
    def __init__(self, c):
        self.c = c

    def __call__(self, Ct):
        return -self.c * np.asarray(Ct, float) * 10.0

    def __repr__(self):
        return 'gamma_t=-%g*Ct*10' % self.c


def draw(rng, chi=None, Model=None, ground=None, frame=None, R=None, nCyl=None, kind=None, U=None, yaw=None, height=None, ct_hi=1.0, gamma=0.0):
    """chi: None=random (0 in a third of the cases); 'small'; 'zero'; or a number"""
    c = {}
    R = gen.scale(rng) if R is None else R
    c['R'] = R
    s, v = gen.frame(rng, .4) if frame is None else frame
    c['shaft'], c['vert'] = s, v
    U = float(rng.choice([10.0, rng.uniform(3, 25), gen.logu(rng, .05, 300)])) if U is None else U
    if chi is None:
        k = rng.integers(0, 3)
        chi = 0.0 if k == 0 else gen.skew_angle(rng)
    elif chi == 'zero':
        chi = 0.0
    elif chi == 'small':
        chi = float(gen.slog(rng, 1e-6, 1e-2, 1)[0])
    elif chi == 'skew':
        chi = gen.skew_angle(rng, 2e-2)
    if yaw is None:
        yaw = float(rng.choice([0.0, rng.uniform(-.8, .8), rng.uniform(-PI, PI)]))
        if rng.random() < .08:             # several turns
            yaw = yaw + 2 * PI * int(rng.integers(-4, 5))
    c['yaw'], c['chi'] = yaw, chi
    h = np.cross(v, s)
    w = yaw + chi
    c['U0'] = U * (np.cos(w) * s + np.sin(w) * h)
    if w == 0:
        c['U0'] = U * s
    height = float(rng.choice([rng.uniform(1.1, 3), rng.uniform(0, 1), 0.0, gen.logu(rng, 1.1, 60)])) * R if height is None else height
    a, b = gen.place(rng, 2, 5)
    c['hub'] = height * v + a * R * s + b * R * h
    if rng.random() < .25:
        c['hub'] = height * v
    c['ground'] = bool(rng.random() < .4) if ground is None else ground
    c['Model'] = Model or 'VC'
    c['load'] = loading(rng, R, nCyl, kind, ct_hi)
    if gamma and rng.random() < gamma:
        c['load'] = circulation(rng, c['load'], R, U)
    return c


def build(c, load=True, ctor=None):
    ctor = ctor or (lambda **k: WindTurbine(**k))
    W = ctor(R=c['R'], r_hub=c['hub'].copy(), e_shaft_yaw0=c['shaft'].copy(), e_vert=c['vert'].copy(), U0=c['U0'].copy(), Ground=c['ground'], Model=c['Model'])
    W.update_yaw_pos(c['yaw'])
    if load:
        W.update_loading(**c['load'])
    return W


def axes(c):
    """rows: x, vertical, shaft of the yawed turbine, from the definition of yaw (rotation about the vertical)"""
    es = ref.rot(c['vert'], c['yaw']).dot(c['shaft'])
    return np.array([np.cross(c['vert'], es), c['vert'], es])


def chi_of(c):
    """skew of the wind with respect to the shaft, positive about the vertical"""
    A = axes(c)
    return np.arctan2(np.dot(c['U0'], A[0]), np.dot(c['U0'], A[2]))


def to_local(c, X):
    """X (3,n) global -> local coordinates of the yawed turbine"""
    return axes(c).dot(X - c['hub'][:, None])


def to_global(c, P):
    return axes(c).T.dot(P) + c['hub'][:, None]


def radii(W):
    """radii of the cylinders the turbine consists of"""
    return np.array([W.R], float) if len(np.atleast_1d(W.gamma_t)) == 1 else np.asarray(W.r, float)


def points(rng, c, n, Rs, far=True, dmin=None, chi=None, line=True):
    """control points (3,n) global, their local coordinates, their distance/R to the nearest singular set"""
    R = c['R']
    chi = chi_of(c) if chi is None else chi
    m = np.tan(chi)
    N = 5 * n + 40
    P = rng.uniform(-3, 3, (3, N))
    k = rng.integers(0, 6, N)
    if far:
        v = rng.normal(size=(3, N))
        v /= np.linalg.norm(v, axis=0)
        P = np.where(k == 1, v * gen.logu(rng, 3, 60, N), P)
    P = np.where(k == 2, np.array([rng.uniform(-.5, .5, N), rng.uniform(-.5, .5, N), rng.uniform(-4, 6, N)]), P)
    z = rng.uniform(.5, 8, N)                       # follow the wake
    P = np.where(k == 3, np.array([m * z + rng.uniform(-.7, .7, N), rng.uniform(-.7, .7, N), z]), P)
    P[2] = np.where(k == 4, 0.0, P[2])
    P = P * R
    d = dist(c, P, Rs, m, line=line)
    if dmin is None:
        dmin = 0.02 if abs(chi) < 1e-8 else 0.25
    I = np.where(d > dmin)[0][:n]
    return to_global(c, P[:, I]), P[:, I], d[I]


def dist(c, P, Rs, m, line=True):
    """distance to sheets and axis line (mirror images included), over the rotor radius"""
    R = c['R']
    h = np.dot(c['hub'], c['vert'])
    d = np.full(P.shape[1], np.inf)
    for s in ((0, 1) if c['ground'] else (0,)):
        y = P[1] + (2 * h if s else 0)
        for Ri in Rs:
            if abs(m) < 1e-8:
                dd = np.hypot(np.hypot(P[0], y) - Ri, np.minimum(P[2], 0))
            else:
                dd = ref.dist_cyl(P[0], y, P[2], Ri, m) * Ri
            d = np.minimum(d, dd / R)
        if line:
            t = np.maximum((m * P[0] + P[2]) / (1 + m * m), 0)
            d = np.minimum(d, np.sqrt((P[0] - m * t) ** 2 + y ** 2 + (P[2] - t) ** 2) / R)
    return d


def field_right(kind, x, y, z, g, R):
    if kind == 'tang':
        ur, uz = ref.vc_tang(np.hypot(x, y), z, g, R)
        p = np.arctan2(y, x)
        return np.array([ur * np.cos(p), ur * np.sin(p), uz])
    if kind == 'longi':
        r = np.hypot(x, y)
        u = ref.vc_longi(r, z, g, R)
    else:
        r = np.hypot(x, y)
        u = ref.vc_root(r, z, g)
    with np.errstate(all='ignore'):
        return np.array([np.where(r > 0, -u * y / r, 0), np.where(r > 0, u * x / r, 0), 0 * z])


def field_skew(kind, x, y, z, g, R, m):
    if kind == 'tang':
        return np.array(ref.svc_tang_q(x, y, z, g, R, m))
    if kind == 'longi':
        return np.array(ref.svc_longi_q(x, y, z, g, R, m))
    return np.array(ref.svc_root(x, y, z, g, m))


def ref_u(c, P, gt, gl, Gr, Rs, tang=True, longi=False, root=False, ground=None, chi=None):
    """induced velocity, global components (3,n), of the reference turbine; P local coordinates"""
    ground = c['ground'] if ground is None else ground
    chi = chi_of(c) if chi is None else chi
    m = np.tan(chi)
    h = np.dot(c['hub'], c['vert'])
    u = np.zeros(P.shape)

    def one(kind, y, g, R):
        if abs(chi) <= 1e-7:
            return field_right(kind, P[0], y, P[2], g, R)
        return field_skew(kind, P[0], y, P[2], g, R, m)
    for img in ((0, 1) if ground else (0,)):
        y = P[1] + (2 * h if img else 0)
        sg = -1 if img else 1
        for i, Ri in enumerate(Rs):
            if tang:
                u += one('tang', y, float(gt[i]), Ri)
            if longi and gl is not None:
                u += one('longi', y, sg * float(gl[i]), Ri)
        if root and Gr is not None:
            u += one('root', y, sg * float(Gr), None)
    return axes(c).T.dot(u)


def scale_u(W):
    """velocity scale of the induction"""
    s = np.sum(np.abs(W.gamma_t))
    if W.gamma_l is not None:
        s += np.sum(np.abs(W.gamma_l))
    if W.Gamma_r is not None:
        s += np.abs(W.Gamma_r) / W.R
    return float(s)


def note(ctx, c, **kw):
    L = {k: v for k, v in c['load'].items()}
    L['gamma_t_Ct'] = str(L.get('gamma_t_Ct'))
    ctx.note(R=c['R'], shaft=c['shaft'], vert=c['vert'], U0=c['U0'], yaw=c['yaw'], chi=c['chi'], hub=c['hub'], ground=c['ground'], Model=c['Model'], load=L, **kw)


def chi_class(chi):
    return '0' if chi == 0 else '%d%s' % (int(np.floor(np.log10(abs(chi)))), '+' if chi > 0 else '-')
