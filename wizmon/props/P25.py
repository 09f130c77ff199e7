"""The solvers turn circulation into wake vorticity by annulus momentum balance, conserve vorticity, and do not depend on units."""
import numpy as np
from ..core import Family
from .. import gen, ref
from wiz import Solver as S
from wiz.WindTurbine import WindTurbine

PI = np.pi
RULE = ('circulation distributions of 1-60 control points (uniform, tapered, with interior extrema, increasing, above the high-thrust switch), Lambda 1.5..100, swirl on/off independently, prescribed or '
        'default cylinder radii, number of blades 1-3, units 1e-2..1e3; distinct = different (family, swirl, size class, thrust regime, options)')
ASSUMPTIONS = ['the discretised rotation term uses the pressure drops of the outer annuli, as in the code (sum over i+1..n); its limit is judged against the continuous solver',
               'effective Ct is kept below 1.4; without high-thrust correction below 0.99']


def case(rng, n=None, hi=1.3, swirl=None):
    n = int(rng.choice([1, 2, 3, 8, rng.integers(4, 60)])) if n is None else n
    R, U = float(rng.choice([1.0, gen.logu(rng, .1, 200)])), float(rng.choice([1.0, rng.uniform(2, 30)]))
    lam = float(rng.uniform(1.5, 12)) if rng.random() < .7 else float(rng.uniform(12, 100))
    x = np.linspace(rng.uniform(.02, .1), rng.uniform(.9, .999), n) if n > 1 else np.array([rng.uniform(.3, 1)])
    if n > 3 and rng.random() < .4:
        x = np.sort(rng.uniform(.03, .99, n)) + np.arange(n) * 1e-3
        x = x / x.max() * .97
    if n > 1 and rng.random() < .25:           # a first station close to the axis
        x[0] = x[1] * float(gen.logu(rng, 1e-3, .5))
    kind = int(rng.integers(0, 5))
    k0 = float(rng.uniform(.1, hi))
    sh = [1 + 0 * x, np.clip(x / .2, 0, 1) * np.sqrt(np.clip(1 - x ** 4, 0, 1)), 1 + .5 * np.sin(6 * x), x, rng.uniform(.3, 1, n)][kind]
    sw = bool(rng.random() < .6) if swirl is None else swirl
    k = k0 * sh
    # keep the effective thrust reasonable near the axis
    lr = lam * x
    ct = k * (1 + k / (4 * lr ** 2))
    if sw:
        k = np.where(ct > hi, ref.k_from_ct(hi + 0 * x, lr, True), k)
    k = np.minimum(k, hi)
    if n > 2 and rng.random() < .2:            # stations without circulation, anywhere
        k[rng.choice(n, int(rng.integers(1, max(2, n // 2))), replace=False)] = 0
    return dict(n=n, R=R, U=U, lam=lam, Om=lam * U / R, r=x * R, k=k, sw=sw, kind=kind)


def G(c):
    return c['k'] * PI * c['U'] ** 2 / c['Om']


def sig(ctx, c, *a):
    ctx.sig(c['sw'], min(c['n'], 4), c['kind'], bool(c['k'].max() > ref.CTC), *a)
    ctx.note(R=c['R'], U0=c['U'], Lambda=c['lam'], r=c['r'], k=c['k'], swirl=c['sw'])


def f_discrete(ctx):
    rng = ctx.rng
    c = case(rng)
    n, U, R = c['n'], c['U'], c['R']
    nB = int(rng.integers(1, 4)) if rng.random() < .8 else int(rng.integers(4, 12))
    if rng.random() < .15 and c['n'] > 1:             # a root that works against the rotor
        c['k'] = c['k'].copy()
        c['k'][:int(rng.integers(1, c['n']))] *= -float(rng.uniform(.1, .5))
    rc = None
    if rng.random() < .3:
        rc = ref.cyl_radii(c['r'], R) * 1.0
        rc = c['r'] + (rc - c['r']) * rng.uniform(.3, 1)
        if n == 1:
            rc = np.array([max(R, c['r'][0])])
    bt = bool(rng.random() < .7)
    sig(ctx, c, nB, rc is None, bt)
    as_list = rng.random() < .2
    gt, gl, Gr, m = S.WakeVorticityFromCirculation_Discr(list(c['r']) if as_list else c['r'], list(G(c) / nB) if as_list else G(c) / nB, R, U, c['Om'], nB, c['sw'], bTanInd_k=bt,
                                                         r_cyl=list(rc) if as_list and rc is not None else rc)
    rcy = ref.cyl_radii(c['r'], R) if rc is None else rc
    e = ref.discr(c['r'], G(c), U, c['Om'], c['sw'], rcy)
    if np.max(e['Cteff']) > 1.5:
        return
    s = 1 + np.abs(e['a']).max()
    ctx.close('gamma_t', gt / U, e['gamma_t'] / U, 1e-10, s)
    ctx.close('induction', m['a'], e['a'], 1e-10, s)
    ctx.close('momentum_sum', -np.cumsum(np.ravel(gt)[::-1])[::-1] / U / 2, e['a'], 1e-10, s)
    ctx.close('stations_kept', m['r_cp'], c['r'], 1e-14, R)
    if rng.random() < .1:
        try:
            S.WakeVorticityFromCirculation_Discr(c['r'], G(c) / nB, R, U, c['Om'], nB, c['sw'], r_cyl=np.append(0.0, rcy[1:]))
            ok = False
        except Exception:
            ok = True
        ctx.check('cylinder_without_radius_refused', ok)
    ctx.close('circulation_kept', m['Gamma_cp'], G(c), 1e-12, np.abs(G(c)).max())
    ap = np.zeros(n)
    if c['sw']:
        gs = np.abs(e['gamma_l']).max() + np.abs(G(c)).max() / R
        ctx.close('gamma_l', gl, e['gamma_l'], 1e-10, gs)
        ctx.close('root', np.ravel(Gr), [e['Gamma_r']], 1e-10, np.abs(G(c)).max())
        ctx.close('vorticity_conserved', np.sum(2 * PI * c['r'] * np.ravel(gl)) + np.ravel(Gr)[0], 0.0, 1e-10, np.abs(G(c)).sum())
        ctx.close('tangential_induction', m['a_prime'], G(c) / (4 * PI * c['Om'] * c['r'] ** 2), 1e-10, np.max(np.abs(G(c)) / (4 * PI * c['Om'] * c['r'] ** 2)))
        if bt:
            ap = (G(c) + np.append(G(c)[1:], 0.0)) / (4 * PI * c['Om'] * rcy ** 2)
    else:
        ctx.check('no_swirl_no_axial_vorticity', gl is None and Gr is None)
        ctx.close('no_swirl_no_rotation', m['a_prime'], np.zeros(n), 0)
    # the sheets are convected with the mean of both sides
    w = 1 - 2 * np.append(e['a'], 0.0)
    Vc = U * (w[1:] + w[:-1]) / 2
    h = 2 * PI * Vc / (c['Om'] * (1 + ap))
    ctx.close('pitch', m['h'], h, 1e-9, np.max(np.abs(h)))
    if not c['sw'] and c['k'].max() < ref.CTC:
        dG = G(c) - np.append(G(c)[1:], 0.0)
        ctx.close('strength_times_pitch_is_circulation', gt * m['h'], -dG, 1e-9, np.abs(G(c)).max())


def f_no_corr(ctx):
    """without high-thrust correction: pure momentum"""
    rng = ctx.rng
    c = case(rng, hi=.95)
    sig(ctx, c)
    gt, gl, Gr, m = S.WakeVorticityFromCirculation_Discr(c['r'], G(c), c['R'], c['U'], c['Om'], 1, c['sw'], bHighThrustCorr=False)
    e = ref.discr(c['r'], G(c), c['U'], c['Om'], c['sw'], ref.cyl_radii(c['r'], c['R']))
    ok = e['Cteff'] < .99
    with np.errstate(all='ignore'):
        a = .5 * (1 - np.sqrt(1 - e['Cteff']))
    ctx.close('pure_momentum', m['a'], a, 1e-8, 1, mask=ok if ok.all() else np.zeros(c['n'], bool))


def f_units(ctx):
    rng = ctx.rng
    c = case(rng)
    sig(ctx, c)
    L, s = float(gen.logu(rng, 1e-2, 1e3)), float(gen.logu(rng, 1e-2, 1e2))
    fn = ['discr', 'cont', 'ct', 'gamma', 'ct_inf', 'gamma_inf'][int(rng.integers(0, 6))]

    def run(L, s):
        r, R, U, Om, g = c['r'] * L, c['R'] * L, c['U'] * s, c['Om'] * s / L, G(c) * L * s
        if fn == 'discr':
            return S.WakeVorticityFromCirculation_Discr(r, g, R, U, Om, 1, c['sw'])
        if fn == 'cont':
            return S.WakeVorticityFromCirculation_Cont(r, g, R, U, Om, c['sw'])
        if fn in ('ct', 'ct_inf'):
            return S.WakeVorticityFromCt(r, np.minimum(c['k'], 1.2), R, U, np.inf if fn == 'ct_inf' else Om)
        if fn == 'gamma_inf':
            return S.WakeVorticityFromGamma(r, c['k'] * PI * U * R / 800, R, U, np.inf)
        return S.WakeVorticityFromGamma(r, g, R, U, Om)
    if fn == 'cont' and c['n'] < 2:
        return
    a, b = run(1.0, 1.0), run(L, s)
    t = 1e-8 if fn[:2] != 'ct' else 1e-4

    def arr(x):
        return np.zeros(1) if x is None else np.ravel(np.asarray(x, float))
    for nm, i, f in (('gamma_t', 0, s), ('gamma_l', 1, s), ('Gamma_r', 2, s * L)):
        if np.all(np.isfinite(arr(a[i]))):
            ctx.close('units_' + nm, arr(b[i]) / f, arr(a[i]), t, np.abs(arr(a[i])).max() + (1e-300 if fn[:2] != 'ct' else c['U'] * (c['R'] if i == 2 else 1)), fn=fn)
    ctx.count('unit_pairs')


def f_cont(ctx):
    """the continuous solver: formulas, and the discrete solver tends to it"""
    rng = ctx.rng
    c = case(rng, n=int(rng.integers(3, 60)), hi=float(rng.choice([1.1, 1.1, 1.4])))
    if c['sw']:
        c['k'] = c['k'] * np.clip(c['r'] / c['R'] / .15, 0, 1)
    sig(ctx, c)
    vr, lr, k = c['r'] / c['R'], c['lam'] * c['r'] / c['R'], c['k']
    hc = bool(rng.random() < .7)
    a, ap, m = S.InductionsFromCirculation_VC_Cont(vr, lr, k, c['sw'], bHighThrustCorr=hc)
    if c['sw']:
        e_ap = k / (4 * lr ** 2)
        f = 8 * lr ** 2 * e_ap ** 2 / vr
        seg = .5 * (f[1:] + f[:-1]) * np.diff(vr)
        rot = np.append(np.cumsum(seg[::-1])[::-1], 0.0)
    else:
        e_ap, rot = 0 * k, 0 * k
    ct = k * (1 + e_ap) - rot
    ctx.close('cont_tangential', ap, e_ap, 1e-10, 1 + np.abs(e_ap).max())
    ctx.close('cont_rotation', m['Ct_rot'], rot, 1e-9, 1 + np.abs(rot).max())
    ctx.close('cont_thrust', m['Ct_eff'], ct, 1e-9, 1 + np.abs(ct).max())
    ctx.close('cont_KJ', m['Ct_KJ'], k * (1 + e_ap), 1e-9, 1 + np.abs(ct).max())
    if hc:
        ctx.close('cont_axial', a, ref.ax_ind(ct), 1e-8, 1 + np.abs(ct).max())
    elif ct.max() < .99:
        ctx.close('cont_axial', a, .5 * (1 - np.sqrt(1 - ct)), 1e-8, 1 + np.abs(ct).max())
    kw = {} if rng.random() < .5 else dict(bHighThrustCorr=True)
    as_list = rng.random() < .2
    gt, gl, Gr, mm = S.WakeVorticityFromCirculation_Cont(list(c['r']) if as_list else c['r'], list(G(c)) if as_list else G(c), c['R'], c['U'], c['Om'], c['sw'], **kw)
    ctx.close('cont_stations_kept', mm['r_cp'], c['r'], 1e-14, c['R'])
    ctx.close('cont_circulation_kept', mm['Gamma_cp'], G(c), 1e-14, np.abs(G(c)).max())
    ctx.close('cont_inductions_given', [mm['a'], mm['a_prime']], [ref.ax_ind(ct), e_ap], 1e-8, 1 + np.abs(ct).max() + np.abs(e_ap).max())
    ctx.close('cont_velocity', mm['Vz'], c['U'] * (1 - 2 * ref.ax_ind(ct)), 1e-8, c['U'] * (1 + np.abs(ct).max()))
    aa = ref.ax_ind(ct)
    dG = G(c) - np.append(G(c)[1:], 0.0)
    Vz = c['U'] * (1 - 2 * aa)
    h = Vz * 2 * PI / (c['Om'] * (1 + 2 * e_ap))
    ok = np.abs(h) > 1e-2 * np.abs(h).max()
    if ok.all():
        ctx.close('cont_gamma_t', gt, -dG / h, 1e-7, np.abs(dG / h).max() + 1e-300)
    ctx.close('cont_pitch', mm['h'], h, 1e-8, np.abs(h).max())
    if c['sw']:
        ctx.close('cont_gamma_l', gl, dG / (2 * PI * c['r']), 1e-9, np.abs(dG / c['r']).max() + 1e-300)
        ctx.close('cont_root', Gr, -G(c)[0], 1e-12, np.abs(G(c)).max())
    else:
        ctx.check('cont_no_swirl', np.all(np.asarray(gl) == 0) and np.all(np.asarray(Gr) == 0))


def f_zero_radius(ctx):
    """a control point on the axis is accepted"""
    rng = ctx.rng
    n = int(rng.integers(3, 40))
    c = case(rng, n=n, hi=.9)
    x = np.linspace(0, .99, n)
    c['r'] = x * c['R']
    c['k'] = rng.uniform(.2, .85) * np.clip(x / .2, 0, 1)
    sig(ctx, c)
    r, g = c['r'].copy(), G(c)
    gt, gl, Gr, m = S.WakeVorticityFromCirculation_Cont(r, g, c['R'], c['U'], c['Om'], c['sw'])
    r2 = c['r'].copy()
    r2[0] = r2[1] * .5
    t2, l2, G2, m2 = S.WakeVorticityFromCirculation_Cont(r2, g, c['R'], c['U'], c['Om'], c['sw'])
    ctx.finite('axis_finite', [gt, np.atleast_1d(gl)])
    ctx.close('axis_point', gt, t2, 1e-6, np.abs(t2).max())
    ctx.check('axis_input_kept', r[0] == 0)
    lr = c['lam'] * x
    a, ap, mi = S.InductionsFromCirculation_VC_Cont(np.maximum(x, 1e-3 * x[1]), lr, np.maximum(c['k'], 1e-3) * (x > 0), c['sw'])
    ctx.finite('axis_inductions_finite', [a, ap])


def f_interface(ctx):
    """the two main interfaces: the wake of a rotor with a usual tip-speed ratio swirls, and is the one of the discrete solver"""
    rng = ctx.rng
    c = case(rng)
    c['lam'] = float(rng.choice([rng.uniform(1.5, 12), rng.uniform(8, 19.9), rng.uniform(20.1, 100)]))
    c['Om'] = c['lam'] * c['U'] / c['R']
    c['k'] = np.minimum(c['k'], ref.k_from_ct(1.2 + 0 * c['k'], c['lam'] * c['r'] / c['R'], True))
    r, R, U, Om = c['r'], c['R'], c['U'], c['Om']
    from_ct = bool(rng.random() < .5)
    if from_ct:
        Ct = np.minimum(c['k'], 1.0)
        sig(ctx, c, 'ct')
        gt, gl, Gr, m = S.WakeVorticityFromCt(r, Ct, R, U, Om)
    else:
        sig(ctx, c, 'gamma')
        gt, gl, Gr, m = S.WakeVorticityFromGamma(r, G(c), R, U, Om)
    swirl = Gr is not None
    if c['lam'] < 19.95:
        ctx.check('usual_rotors_swirl', swirl and gl is not None, Lambda=c['lam'])
        if not swirl:
            return
    Gam = ref.k_from_ct(Ct, c['lam'] * r / R, swirl) * PI * U ** 2 / Om if from_ct else G(c)
    t = 1e-4 if from_ct else 1e-9
    ctx.close('interface_circulation', m['Gamma_cp'], Gam, t, np.abs(Gam).max())
    # the strengths, for the circulation it solved for (the longitudinal one amplifies its differences near the axis)
    e = ref.discr(r, np.array(m['Gamma_cp'], float) if from_ct else Gam, U, Om, swirl, ref.cyl_radii(r, R))
    t = 1e-9
    if np.max(e['Cteff']) > 1.5 or not np.all(np.isfinite(e['a'])):
        return
    s = 1 + np.abs(e['a']).max()
    ctx.close('interface_gamma_t', gt / U, e['gamma_t'] / U, t, s)
    if swirl:
        ctx.close('interface_gamma_l', gl, e['gamma_l'], t, np.abs(e['gamma_l']).max() + np.abs(Gam).max() / R)
        ctx.close('interface_root', np.ravel(Gr), [e['Gamma_r']], t, np.abs(Gam).max())


def f_turbine(ctx):
    """a turbine loaded with a distribution, one cylinder per station, has the wake of the solver for the magnitude of its wind"""
    rng = ctx.rng
    c = case(rng, n=int(rng.integers(2, 30)), hi=.8)
    R, U, r = c['R'], c['U'], c['r']
    lam = float(rng.choice([rng.uniform(.3, 2), rng.uniform(2, 12), rng.uniform(12, 40), np.inf]))
    d = rng.normal(size=3)
    d[2] = abs(d[2]) + .3
    d *= U / np.linalg.norm(d)
    if rng.random() < .4:
        d = np.array([0, 0, U])
    W = WindTurbine(R=R, U0=list(d), Lambda=lam)
    kw = dict(Lambda=lam) if rng.random() < .7 else {}
    Om = np.inf if lam == np.inf else lam * U / R
    lu = 800.0 if lam == np.inf else lam
    if rng.random() < .5:
        Ct = np.minimum(c['k'], .5) * (1 if lam > 2 else .3)
        W.update_loading(r=r, Ct=Ct, nCyl=None, **kw)
        gt, gl, Gr, m = S.WakeVorticityFromCt(r, Ct, R, U, Om)
        kind = 'ct'
    else:
        k = ref.k_from_ct(np.minimum(c['k'], .5), lu * r / R, True)
        Gam = k * PI * U ** 2 * R / (lu * U)
        W.update_loading(r=r, Gamma=Gam, nCyl=None, **kw)
        gt, gl, Gr, m = S.WakeVorticityFromGamma(r, Gam, R, U, Om)
        kind = 'gamma'
    sig(ctx, c, 'turbine', kind, bool(lam < 2), lam == np.inf, bool(kw), bool(d[0]))
    ctx.note(wind=d, Lambda=lam)
    if not np.all(np.isfinite(gt)):
        return
    s = np.abs(gt).max() + 1e-300
    t = 1e-4 if kind == 'ct' else 1e-9      # the circulation is found to 1e-5
    ctx.close('turbine_gamma_t', np.ravel(W.gamma_t), gt, t, s)
    for k, g, e in (('gamma_l', W.gamma_l, gl), ('Gamma_r', W.Gamma_r, Gr)):
        if ctx.check('turbine_swirl', (g is None) == (e is None), attribute=k) and e is not None:
            ctx.close('turbine_' + k, np.ravel(g), np.ravel(e), t, np.abs(e).max() + 1e-300)
    ctx.close('turbine_radii', np.ravel(W.r), r, 1e-12, R)


def f_limit(ctx):
    """discrete -> continuous as the number of annuli grows"""
    rng = ctx.rng
    lam, k0 = float(rng.uniform(3, 12)), float(rng.uniform(.3, .8))
    sw = bool(rng.random() < .6)
    err = []
    for n in (40, 80, 160, 320):
        x = (np.arange(n) + .5) / n
        k = k0 * np.clip(x / .25, 0, 1) ** 2 * (1 - .5 * x ** 2)
        gt, gl, Gr, m = S.WakeVorticityFromCirculation_Discr(x, k * PI / lam, 1.0, 1.0, lam, 1, sw)
        a, ap, mc = S.InductionsFromCirculation_VC_Cont(x, lam * x, k, sw)
        err.append(np.abs(m['a'] - a).max())
        ctx.close('same_tangential', m['a_prime'], ap, 1e-10, 1 + np.abs(ap).max())
    ctx.sig(sw, int(lam))
    ctx.note(Lambda=lam, k0=k0, swirl=sw, err=err)
    ctx.check('converges', err[3] <= .62 * err[2] + 1e-12 and err[2] <= .62 * err[1] + 1e-12 and err[3] < 5e-3, err=err)


FAMILIES = [Family('discrete', f_discrete, 1500, 40000), Family('pure', f_no_corr, 300, 6000), Family('units', f_units, 500, 9000), Family('continuous', f_cont, 600, 15000),
            Family('axis', f_zero_radius, 150, 2000), Family('interface', f_interface, 400, 9000), Family('turbine', f_turbine, 100, 3000), Family('limit', f_limit, 60, 800)]
QUICK = 20        # cheap: more cases in the quick run
