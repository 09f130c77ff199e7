"""Nothing passed in is modified, nothing handed out is shared."""
import sys
import threading
import numpy as np
from ..core import Family
from .. import gen, ref, turb, fields, tap
from wiz import elliptic, Solver, SelfSimilar, VortexCylinder, VortexCylinderSkewed, VortexDoublet, VortexLine, VortexPoint, VortexRing, WindTurbine as WTm, WindFarm as WFm
from wiz.WindTurbine import WindTurbine
from wiz.WindFarm import WindFarm

MODS = [elliptic, Solver, SelfSimilar, VortexCylinder, VortexCylinderSkewed, VortexDoublet, VortexLine, VortexPoint, VortexRing, WTm, WFm]
RULE = ('every public function under an instrumentation that snapshots the bytes of all array arguments of every call, nested calls included: 19 kernels at regular, axis, sheet, NaN points; '
        'turbines, farms, solvers with zero radii, NaN and integers; returned arrays overwritten between calls; the functions and separate objects in 2-6 threads with forced switches; distinct = different (family, function or operation)')
ASSUMPTIONS = ['arrays and lists are observed, other objects are not']


def judge(ctx, T):
    ctx.count('calls_observed', T.calls)
    ctx.check('arguments_untouched', not T.bad, modified=sorted(set(T.bad))[:10])
    for n in T.names:
        ctx.sig('called', n)


def hostile(rng, L, n=14):
    P = rng.uniform(-2, 2, (3, n)) * L
    P[:, 0] = 0
    P[:2, 1] = 0
    P[:, 2] = [L, 0, 0]
    P[:, 3] = [L, 0, 2 * L]
    P[:, 4] = np.nan
    P[2, 5:8] = 0
    return P


ALL = fields.KINDS + fields.EXTRA


def f_forms(ctx):
    """polar forms, input forms in polar coordinates, and the shortcuts taken without strength"""
    rng = ctx.rng
    L, m = gen.scale(rng), float(rng.uniform(-1, 1))
    g = 0.0 if rng.random() < .3 else gen.strength(rng)
    n = int(rng.integers(1, 9))
    x, y, z = rng.uniform(-2, 2, (3, n)) * L
    r, p = np.hypot(x, y), np.arctan2(y, x)
    po = bool(rng.random() < .5)
    one = np.ones((1, 1))
    C = {'vc_tang': lambda: VortexCylinder.vc_tang_u(x, y, z, gamma_t=g, R=L, polar_out=po), 'vc_longi': lambda: VortexCylinder.vc_longi_u(x, y, z, gamma_l=g, R=L, polar_out=po),
         'vc_root': lambda: VortexCylinder.vc_root_u(x, y, z, Gamma_r=g, polar_out=po), 'cylinder': lambda: VortexCylinder.cylinder_tang_u(x, y, z, gamma_t=g, R=L, z1=-L, z2=L, polar_out=po),
         'vcff': lambda: VortexCylinder.vc_tang_u_doublet(x, y, z, gamma_t=g, R=L, polar_out=po),
         'ring': lambda: VortexRing.ring_u(x, y, z, Gamma=g, R=L, polar_out=po), 'ring_polar': lambda: VortexRing.ring_u_polar(r, z, Gamma=g, r0=L),
         'rings': lambda: VortexRing.rings_u(x, y, z, [g, 2 * g], [L, 2 * L], [0, 0], [0, 0], [0, L], polar_out=po),
         'svc_tang': lambda: VortexCylinderSkewed.svc_tang_u(x, y, z, gamma_t=g, R=L, m=m, polar_out=po), 'svc_longi': lambda: VortexCylinderSkewed.svc_longi_u(x, y, z, gamma_l=g, R=L, m=m, polar_out=po),
         'svc_root': lambda: VortexCylinderSkewed.svc_root_u(x, y, z, Gamma_r=g, m=m, polar_out=po), 'svc_tang_p': lambda: VortexCylinderSkewed.svc_tang_u_polar(r, p, z, gamma_t=g, R=L, m=m),
         'svc_longi_p': lambda: VortexCylinderSkewed.svc_longi_u_polar(r, p, z, gamma_l=g, R=L, m=m), 'svc_root_p': lambda: VortexCylinderSkewed.svc_root_u_polar(r, p, z, Gamma_r=g, m=m),
         'svc_p': lambda: VortexCylinderSkewed.svc_u_polar(r, p, z, g, g, g, R=L, m=m, polar_out=po), 'doublet_p': lambda: VortexDoublet.doublet_u_polar(r, z, g),
         'line_p': lambda: VortexDoublet.doublet_line_polar_u(r, z, g), 'legacy_t': lambda: VortexCylinderSkewed.fV_Tangential(r, p, z, m, g, 60, 7), 'legacy_l': lambda: VortexCylinderSkewed.fV_Trailed(r, p, z, m, g, 60, 7),
         'legacy_r': lambda: VortexCylinderSkewed.fV_Root(r, p, z, m=m, Gamma_r=g, nout=7), 'vcs_tang': lambda: VortexCylinder.vcs_tang_u(x, y, z, g * one, L * one, [0], [L], [0], Ground=po),
         'svcs_tang': lambda: VortexCylinderSkewed.svcs_tang_u(x, y, z, g * one, L * one, m * one, [0], [L], [0], Ground=po),
         'vcs_longi': lambda: VortexCylinder.vcs_longi_u(x, y, z, g * one, L * one, [0], [L], [0], Ground=po),
         'svcs_longi': lambda: VortexCylinderSkewed.svcs_longi_u(x, y, z, g * one, L * one, m * one, [0], [L], [0], Ground=po)}
    nm = sorted(C)[ctx.k % len(C)]
    ctx.sig('form', nm, po, g == 0)
    ctx.note(fn=nm, polar_out=po, g=g, m=m, R=L)
    ins = (x, y, z, r, p)
    snap = [a.copy() for a in ins]
    for a in ins:
        a.setflags(write=False)
    with tap.tapped(MODS) as T:
        u, v = C[nm](), C[nm]()
        judge(ctx, T)
    ctx.check('points_untouched', all(np.array_equal(a, b) for a, b in zip(ins, snap)), kernel=nm)
    u, v = [a for a in u if isinstance(a, np.ndarray)], [a for a in v if isinstance(a, np.ndarray)]
    al = u + v
    ctx.check('components_not_shared', not any(np.shares_memory(al[i], al[j]) for i in range(len(al)) for j in range(i)), kernel=nm)
    ctx.check('result_not_an_input', not any(np.shares_memory(a, b) for a in al for b in ins), kernel=nm)
    ctx.check('no_hidden_memory', all(np.array_equal(a, b, equal_nan=True) for a, b in zip(u, v)), kernel=nm)


def f_kernels(ctx):
    rng = ctx.rng
    F = fields.draw(rng, ALL[ctx.k % len(ALL)])
    if 'x0' in F.args and rng.random() < .5:
        F.args['x0'] = np.where(rng.random(3) < .5, 0.0, F.args['x0'])
        x0 = F.args['x0']
        F.near = lambda v, q: [a * q * F.L + b for a, b in zip(v, x0)]
    P = hostile(rng, F.L)
    if F.near is not None:            # at the singular point itself, and next to it
        v = rng.normal(size=(3, 4))
        P[:, 9:13] = F.near(v / np.linalg.norm(v, axis=0), np.array([0, 1e-9, 1e-4, 1e-3]))
    ro = bool(rng.random() < .5)
    if ro:                            # a caller may pass read-only arrays
        P.setflags(write=False)
    args = dict((k, v.copy() if isinstance(v, np.ndarray) else v) for k, v in F.args.items())
    Q = P.copy()
    ctx.sig(F.name, ro)
    ctx.note(kernel=F.name, args=F.args, read_only=ro)
    with tap.tapped(MODS) as T:
        u = F.f(P[0], P[1], P[2])
        judge(ctx, T)
    ctx.check('points_untouched', np.array_equal(P, Q, equal_nan=True), kernel=F.name)
    ctx.check('parameters_untouched', all(np.array_equal(args[k], F.args[k]) for k in args), kernel=F.name)
    for a in u:
        ctx.check('result_not_an_input', isinstance(a, np.ndarray) and not any(np.shares_memory(a, b) for b in [P] + [v for v in F.args.values() if isinstance(v, np.ndarray)]), kernel=F.name)
    ctx.check('components_not_shared', not any(np.shares_memory(u[i], u[j]) for i in range(3) for j in range(i)), kernel=F.name)
    w = [np.array(a) for a in u]
    for a in u:
        if a.flags.writeable:
            a[...] = 1e30
    v = F.f(P[0], P[1], P[2])
    ctx.check('no_hidden_memory', all(np.array_equal(a, b, equal_nan=True) for a, b in zip(v, w)), kernel=F.name)


def _deep(x):
    return np.array(x, float).copy() if x is not None and not callable(x) else x


def f_turbine(ctx):
    rng = ctx.rng
    c = turb.draw(rng, R=gen.rotor(rng))
    hub, sh, ve, U0 = (c[k].copy() for k in ('hub', 'shaft', 'vert', 'U0'))
    col = rng.random() < .4
    ins = [a.reshape(3, 1) if col else a for a in (hub, sh, ve, U0)]
    ld = dict(c['load'])
    if ld['r'] is not None and rng.random() < .5:
        if ld['r'][0] > 0:
            ld['nCyl'] = None
    elif rng.random() < .4:                # one cylinder per given station: the turbine holds the stations
        n = int(rng.integers(1, 7))
        ld = dict(r=np.sort(rng.uniform(.1, 1, n)) * c['R'], Ct=float(rng.uniform(.2, .9)) * np.linspace(1, .8, n), Lambda=ld['Lambda'], nCyl=None)
    snap = [a.copy() for a in ins]
    lsnap = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in ld.items()}
    with tap.tapped(MODS) as T:
        W = WindTurbine(R=c['R'], r_hub=ins[0], e_shaft_yaw0=ins[1], e_vert=ins[2], U0=ins[3], Ground=c['ground'])
        W.update_yaw_pos(c['yaw'])
        W.update_loading(**ld)
        X, P, d = turb.points(rng, c, 6, turb.radii(W), dmin=.1)
        if not len(d):
            return
        Xs = X.copy()
        o = dict(longi=True, root=True, no_wake=bool(rng.random() < .3))
        u = W.compute_u(X[0], X[1], X[2], **o)
        judge(ctx, T)
    ctx.sig(len(turb.radii(W)), turb.chi_class(c['chi']), ld['nCyl'] is None)
    turb.note(ctx, c)
    ctx.check('points_untouched', np.array_equal(X, Xs))
    ctx.check('settings_untouched', all(np.array_equal(a, b) for a, b in zip(ins, snap)))
    ctx.check('loading_untouched', all(np.array_equal(lsnap[k], ld[k]) for k in ld if isinstance(lsnap[k], np.ndarray)))
    u = [np.array(a) for a in u]
    # the caller reuses its arrays: the turbine must not notice
    for a in ins:
        a[...] = a * 3 + 7
    for v in ld.values():
        if isinstance(v, np.ndarray):
            v[...] = 99.0
    W.rotor_disk_points(nP=4)[...] = 5
    out = W.compute_u(X[0], X[1], X[2], **o)
    ctx.check('caller_arrays_not_kept', all(np.allclose(a, b, rtol=1e-12, atol=1e-12) for a, b in zip(out, u)), got=out, before=u)
    for a in out:
        a[...] = 1e9
    out = W.compute_u(X[0], X[1], X[2], **o)
    ctx.check('results_not_kept', all(np.allclose(a, b, rtol=1e-12, atol=1e-12) for a, b in zip(out, u)))
    # same through the update functions
    h2, U2 = c['hub'] + 1.0, c['U0'] * 1.0
    W.update_position(h2)
    W.update_wind(U2)
    a = np.array(W.compute_u(X[0], X[1], X[2], **o))
    h2[...] = -77
    U2[...] = 55
    b = np.array(W.compute_u(X[0], X[1], X[2], **o))
    ctx.check('update_arrays_not_kept', np.array_equal(a, b, equal_nan=True))


def f_farm(ctx):
    rng = ctx.rng
    cs = [turb.draw(rng, R=1.0, frame=(np.array([0, 0, 1.]), np.array([0, 1., 0])), nCyl=1) for _ in range(int(rng.integers(1, 4)))]
    Ws = [turb.build(c) for c in cs]
    lst = list(Ws)
    X = rng.uniform(-9, 9, (3, 7))
    Xs, U0 = X.copy(), [1.0, 2.0, 3.0]
    lay = rng.uniform(-5, 5, (len(Ws), 3))
    ls = lay.copy()
    with tap.tapped(MODS) as T:
        WF = WindFarm(lst)
        u = WF.velocity_field(X[0], X[1], X[2], U0=U0, no_wake=bool(rng.random() < .5))
        WF.layout
        WF.layout = lay
        str(WF)
        WFm.gridLayout(3, 2.0, 2, 4.0, hub_height=1.0, mirror=bool(rng.random() < .5))
        WFm.windfarm_gridlayout_CTconst(X[0], X[1], X[2], 1.0, .7, 10.0, 2, 5.0, 2, 6.0)
        judge(ctx, T)
    ctx.sig(len(Ws))
    ctx.note(n=len(Ws))
    ctx.check('points_untouched', np.array_equal(X, Xs))
    ctx.check('U0_untouched', U0 == [1.0, 2.0, 3.0])
    ctx.check('layout_untouched', np.array_equal(lay, ls))
    a = np.array(WF.velocity_field(X[0], X[1], X[2]))
    lay[...] = 1e3
    L = WF.layout
    L[...] = -1e3
    lst.append(None)
    b = np.array(WF.velocity_field(X[0], X[1], X[2]))
    ctx.check('farm_keeps_its_own', len(WF) == len(Ws) and np.array_equal(a, b, equal_nan=True))
    WF2 = WindFarm()
    WF2.append(Ws[0])
    ctx.check('farms_not_shared', len(WindFarm()) == 0 and len(WF2) == 1)


def arrays(o, seen=None):
    """all arrays reachable from the attributes of an object"""
    out = []
    for v in (vars(o).values() if hasattr(o, '__dict__') else o.values() if isinstance(o, dict) else o if isinstance(o, (list, tuple)) else []):
        if isinstance(v, np.ndarray):
            out.append(v)
        elif isinstance(v, (list, tuple, dict)):
            out += arrays(v)
    return out


def f_retained(ctx):
    """a result the caller keeps is not touched by later calls, nor are two results, or a result and the object, backed by the same memory"""
    rng = ctx.rng
    c = turb.draw(rng, R=gen.rotor(rng))
    if rng.random() < .4:                      # axes along the coordinates: nothing needs to be rotated
        A = np.eye(3)[rng.permutation(3)]
        c = turb.draw(rng, R=1.0, frame=(A[0], A[1]), yaw=0.0, chi=0.0 if rng.random() < .6 else None)
    W = turb.build(c)
    shp = [(6,), (3, 2), (1, 6), (6, 1)][int(rng.integers(0, 4))]
    o = dict(longi=bool(rng.random() < .5), root=bool(rng.random() < .5), tang=bool(rng.random() < .8), no_wake=bool(rng.random() < .3))
    who = ['turbine', 'farm'][int(rng.integers(0, 2))]
    F = WindFarm([W, turb.build(dict(c, hub=c['hub'] + 4 * c['R']))][:int(rng.integers(1, 3))])
    kw = {}
    if who == 'farm' and rng.random() < .5:
        kw = dict(U0=rng.uniform(-9, 9, 3))
    if who == 'turbine' and rng.random() < .5:
        kw = dict(only_ind=True)
    f = lambda X: (W.compute_u if who == 'turbine' else F.velocity_field)(X[0], X[1], X[2], **dict(o, **kw))
    ctx.sig(who, len(shp), kw.keys(), len(turb.radii(W)), turb.chi_class(c['chi']))
    turb.note(ctx, c, opts=o, kw=kw, who=who)
    Xs = [rng.uniform(-5, 5, (3,) + shp) * c['R'] + c['hub'].reshape((3,) + (1,) * len(shp)) for _ in range(3)]
    Xs[2] = Xs[2].reshape((3, -1))[:, :4]
    keep, snap = [], []
    for X in Xs:
        u = f(X)
        keep.append(u)
        snap.append([np.array(v) for v in u])
        if rng.random() < .4:
            W.update_wind(np.ravel(W.U0_g) * 1.0)
        if rng.random() < .3:
            W.rotor_disk_points()
        ctx.check('earlier_results_untouched', all(np.array_equal(a, b, equal_nan=True) for k, s in zip(keep, snap) for a, b in zip(k, s)), who=who)
    al = [v for u in keep for v in u]
    ctx.check('results_not_shared', not any(np.shares_memory(al[i], al[j]) for i in range(len(al)) for j in range(i)), who=who)
    own = arrays(W) + arrays(F) + [a for w in F for a in arrays(w)]
    ctx.check('results_not_owned_by_the_object', not any(np.shares_memory(a, b) for a in al for b in own), who=who)
    ctx.check('results_not_the_points', not any(np.shares_memory(a, X) for a in al for X in Xs), who=who)
    D1 = W.rotor_disk_points(nP=7)
    D0 = D1.copy()
    W.update_position(c['hub'] + 1.0)
    D2 = W.rotor_disk_points(nP=7)
    ctx.check('earlier_results_untouched', np.array_equal(D1, D0) and not np.shares_memory(D1, D2), who='disk points')
    L1 = F.layout
    L0 = np.array(L1)
    W.update_position(c['hub'] - 1.0)
    F.layout
    ctx.check('earlier_results_untouched', np.array_equal(L1, L0), who='layout')


def f_retained_kernels(ctx):
    rng = ctx.rng
    F = fields.draw(rng, ALL[ctx.k % len(ALL)])
    n = int(rng.integers(1, 12))
    Xs = [rng.uniform(-2, 2, (3, n)) * F.L for _ in range(3)]
    ctx.sig('kernel', F.name)
    ctx.note(kernel=F.name, args=F.args, n=n)
    us = [F.f(*X) for X in Xs]
    first = [np.array(a) for a in us[0]]
    again = F.f(*Xs[0])
    ctx.check('earlier_results_untouched', all(np.array_equal(a, b, equal_nan=True) for a, b in zip(us[0], first)) and all(np.array_equal(a, b, equal_nan=True) for a, b in zip(us[0], again)), who=F.name)
    al = [v for u in us + [again] for v in u]
    ctx.check('results_not_shared', not any(np.shares_memory(al[i], al[j]) for i in range(len(al)) for j in range(i)), who=F.name)


def f_solver(ctx):
    rng = ctx.rng
    n = int(rng.integers(2, 30))
    R, U0 = float(rng.uniform(1, 80)), float(rng.uniform(3, 20))
    zero = rng.random() < .4
    vr = np.linspace(0 if zero else .05, .99, n)
    Ct = rng.uniform(.1, .9) * np.ones(n) * np.clip(vr / .1, 0, 1)
    if rng.random() < .3:
        Ct[rng.integers(0, n)] = 0
    lam = float(rng.uniform(3, 12)) if rng.random() < .6 else 40.0
    Om = lam * U0 / R
    sw = lam < 20
    lr = lam * vr
    names = ['cutoff', 'circ', 'cont', 'vort_cont', 'vort_discr', 'from_ct', 'from_gamma', 'st']
    nm = names[int(rng.integers(0, len(names)))]
    ctx.sig(nm, zero, sw)
    ctx.note(fn=nm, n=n, Lambda=lam, zero_radius=zero)
    G = .5 * np.pi * U0 ** 2 / Om * np.clip(vr / .1, 0, 1)
    args = dict(vr=vr, Ct=Ct, lr=lr, G=G, r=vr * R)
    snap = {k: v.copy() for k, v in args.items()}
    with tap.tapped(MODS) as T:
        r = args['r']
        if nm == 'cutoff':
            out = [Solver.Ct_const_cutoff(.8, .2, vr, .9)]
        elif nm == 'circ':
            out = [Solver.CirculationFromPrescribedCt(vr, Ct, lam, sw)]
        elif nm == 'cont':
            a, b, m = Solver.InductionsFromCirculation_VC_Cont(vr, lr, Ct, sw)
            out = [a, b] + (list(m.values()) if isinstance(m, dict) else [m])
        elif nm == 'vort_cont':
            a, b, g, m = Solver.WakeVorticityFromCirculation_Cont(r, G, R, U0, Om, sw)
            out = [a, b, g] + list(m.values())
        elif nm == 'vort_discr':
            if zero:
                vr[0] = r[0] = snap['vr'][0] = snap['r'][0] = 1e-3
            a, b, g, m = Solver.WakeVorticityFromCirculation_Discr(r, G, R, U0, Om, 1, sw)
            out = [a, b, g] + list(m.values())
        elif nm == 'from_ct':
            a, b, g, m = Solver.WakeVorticityFromCt(r, Ct, R, U0, Om)
            out = [a, b, g] + list(m.values())
        elif nm == 'from_gamma':
            a, b, g, m = Solver.WakeVorticityFromGamma(r, G, R, U0, Om)
            out = [a, b, g] + list(m.values())
        else:
            out = [Solver.InductionsFromPrescribedCtCq_ST(vr, Ct, Ct * .1, lam, sw)[0]]
        judge(ctx, T)
    for k in args:
        ctx.check('solver_inputs_untouched', args[k].tobytes() == snap[k].tobytes(), argument=k, fn=nm)
    out = [a for a in out if isinstance(a, np.ndarray) and a.size]
    for a in out:
        ctx.check('solver_result_not_an_input', not any(np.shares_memory(a, v) for v in args.values()), fn=nm)


def f_threads(ctx):
    """functions and separate objects used from several threads at once give what they give one after another"""
    rng = ctx.rng
    from . import P13
    nj = int(rng.integers(2, 7))
    same = ctx.k % 3 == 0                  # every thread runs the same function, with its own values
    ks = [ctx.k if same else int(rng.integers(0, len(P13.KINDS))) for _ in range(nj)]
    Fs = [P13.get(rng, k) for k in ks]
    Xs = []
    for F in Fs:
        n = int(rng.choice([1, 5, 40, 400])) if F.name in P13.QUICKK else int(rng.choice([1, 4, 12]))
        X = rng.uniform(-2, 2, (3, n)) * F.L
        if F.name in ('line_num', 'line_num_polar', 'svc_tang', 'svc_longi'):
            X = X[:, :4]
        Xs.append(X)
    ctx.sig(sorted(set(F.name for F in Fs)), nj)
    ctx.note(kernels=[F.name for F in Fs], args=[F.args for F in Fs], n=[X.shape[1] for X in Xs])
    serial = [[np.array(a) for a in F.f(*X)] for F, X in zip(Fs, Xs)]
    reps = 3
    log, bad, exc = [], [], []
    gate = threading.Barrier(nj)

    def work(i):
        gate.wait()
        with np.errstate(all='ignore'):
            for j in range(reps):
                log.append(i)
                try:
                    u = Fs[i].f(*Xs[i])
                except Exception as e:
                    exc.append(repr(e)[:200])
                    return
                log.append(i)
                if not all(np.array_equal(a, b, equal_nan=True) for a, b in zip(u, serial[i])):
                    bad.append(Fs[i].name)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        T = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(nj)]
        for t in T:
            t.start()
        for t in T:
            t.join(60)
    finally:
        sys.setswitchinterval(old)
    ctx.count('thread_switches', int(np.sum(np.diff(log) != 0)))
    ctx.count('threads', nj)
    ctx.check('threads_as_serial', not bad and not exc and len(log) == 2 * reps * nj, differ=sorted(set(bad)), raised=exc[:3])


FAMILIES = [Family('threads', f_threads, 120, 3000), Family('retained', f_retained, 300, 6000), Family('retained_kernels', f_retained_kernels, 190, 3000), Family('kernels', f_kernels, 880, 13000), Family('forms', f_forms, 480, 6000), Family('turbine', f_turbine, 300, 6000), Family('farm', f_farm, 150, 3000), Family('solver', f_solver, 300, 6000)]
