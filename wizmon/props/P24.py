"""The thrust coefficient given to a turbine is the one its flow field has (axial momentum), whatever way it was given."""
import numpy as np
from ..core import Family
from .. import gen, ref, turb
from wiz.WindTurbine import WindTurbine

RULE = ('CT from 0 to 1.3 concentrated around the high-thrust switch (0.8976), tip-speed ratios on both sides of 20 and infinite, uniform and radial distributions, 1-40 cylinders, circulation or '
        'function input, skewed frames; velocities read on the axis at the rotor and in the far wake; distinct = different (family, CT regime, swirl, kind of input, cylinders)')
ASSUMPTIONS = ['the inversion Ct -> circulation of the code is a bounded minimisation, accurate to about 1e-5 (2e-4 allowed)',
               'momentum: a=(1-sqrt(1-CT))/2 up to CT=0.8976, Spera straight line above; with swirl the effective CT at the cylinder radius is used']


def regime(CT):
    return 'spera' if CT > ref.CTC else ('low' if CT < .5 else 'high')


def a_single(CT, lam, R=1.0):
    """expected axial induction of a single cylinder"""
    if lam < 20:
        k = ref.k_from_ct(np.array([CT]), .995 * lam, True)
        return float(ref.ax_ind(k * (1 + k / (4 * lam ** 2)))[0])
    return float(ref.ax_ind(np.array([CT]))[0])


def f_single(ctx):
    """velocity at the rotor centre U0(1-a), in the far wake U0(1-2a)"""
    rng = ctx.rng
    CT, lam = gen.ct(rng), gen.lam(rng)
    c = turb.draw(rng, chi=0.0 if rng.random() < .7 else 'skew', ground=False, nCyl=1, R=float(rng.choice([1.0, rng.uniform(.1, 100)])))
    form = ['scalar', 'array', 'uniform', 'none'][int(rng.integers(0, 4))]
    R = c['R']
    c['load'] = dict(nCyl=1, Lambda=lam, Ct=CT)
    if form == 'array':
        nv = int(rng.choice([7, rng.integers(2, 200)]))
        v = rng.uniform(.5, 1.5, nv)
        c['load'].update(Ct=CT * v / v.mean(), r=np.linspace(0, 1, nv) * R)
    elif form == 'uniform':
        c['load'].update(Ct=CT * np.ones(5), r=np.linspace(0, 1, 5) * R)
    elif form == 'none':
        c['load'] = dict(nCyl=None, Lambda=lam, Ct=np.array([CT]), r=np.array([.995 * R]))
    if rng.random() < .25:             # a wind that is not horizontal: its magnitude counts
        c['U0'] = c['U0'] + float(rng.uniform(-.7, .7)) * np.linalg.norm(c['U0']) * c['vert']
    W = turb.build(c)
    U = np.linalg.norm(c['U0'])
    a = a_single(CT, lam)
    A = turb.axes(c)
    ctx.sig(regime(CT), lam < 20, form, turb.chi_class(c['chi']))
    turb.note(ctx, c, CT=CT, a=a)
    d = A[2] + np.tan(turb.chi_of(c)) * A[0]
    X = np.array([c['hub'], c['hub'] + 2000 * R * d]).T
    u = A[2].dot(np.array(W.compute_u(X[0], X[1], X[2], only_ind=True)))
    ctx.close('rotor_induction', -u[0] / U, a, 2e-4 if lam < 20 else 1e-6, 1, CT=CT, Lambda=lam, form=form)
    ctx.close('far_wake_induction', -u[1] / U, 2 * a, 4e-4 if lam < 20 else 1e-5, 1, CT=CT, Lambda=lam, form=form)
    aa = -u[0] / U
    if lam >= 20 and CT < ref.CTC - 1e-9:
        ctx.close('thrust_from_flow', 4 * aa * (1 - aa), CT, 1e-5, 1, CT=CT)
    ctx.check('swirl_iff_finite_lambda', (W.gamma_l is None and W.Gamma_r is None) == (lam >= 20), Lambda=lam)


def f_spera(ctx):
    """continuous and increasing through the switch"""
    rng = ctx.rng
    R, U = float(gen.logu(rng, .005, 100)), float(rng.uniform(1, 30))
    lam = float(rng.choice([np.inf, rng.uniform(21, 80)]))
    W = WindTurbine(R=R, U0=[0, 0, U])
    eps = float(gen.logu(rng, 1e-6, 1e-2))
    cts = np.array([ref.CTC - 2 * eps, ref.CTC - eps, ref.CTC, ref.CTC + eps, ref.CTC + 2 * eps, float(rng.uniform(1, 1.4))])
    g = []
    for ct in cts:
        W.update_loading(Ct=float(ct), Lambda=lam, nCyl=1)
        g.append(float(np.ravel(W.gamma_t)[0]))
    a = -np.array(g) / U / 2
    ctx.sig(int(np.log10(eps)), lam == np.inf)
    ctx.note(R=R, U=U, eps=eps, a=a)
    ctx.check('increasing', np.all(np.diff(a) > 0), a=a, Ct=cts)
    ctx.check('continuous', np.all(np.diff(a)[:4] < 1.0 * eps + 1e-12), a=a, eps=eps)
    ctx.close('switch_value', a[2], ref.AC, 1e-9)
    ctx.close('high_thrust_line', a[3:], (cts[3:] - 4 * ref.AC ** 2) / (4 * (1 - 2 * ref.AC)), 1e-9)


def f_inputs(ctx):
    """what the turbine keeps: radii, interpolation, strengths"""
    rng = ctx.rng
    R, U = float(gen.logu(rng, .005, 100)), float(rng.uniform(1, 30))
    fr = gen.frame(rng)
    n = int(rng.integers(3, 40))
    r = np.sort(rng.uniform(0, 1, n)) * R
    r[0], r[-1] = 0, R
    if rng.random() < .3:              # stations that do not reach the tip, nor the axis: the end values hold
        r = rng.uniform(.02, .1) * R + r * rng.uniform(.7, .85)
    Ct = rng.uniform(.05, .85, n)
    nC = int(rng.integers(2, 25)) if rng.random() < .75 else int(rng.integers(25, 70))
    low = bool(rng.random() < .1)      # hardly rotating
    lam = float(rng.uniform(.3, 1.4)) if low else gen.lam(rng)
    pas = dict(Lambda=lam) if rng.random() < .5 else {}
    W = WindTurbine(R=R, e_shaft_yaw0=fr[0], e_vert=fr[1], U0=fr[0] * U, Lambda=gen.lam(rng) if pas else lam)
    if rng.random() < .3 and not (pas or np.isinf(lam)):
        W.update_loading(Ct=.5, Lambda=lam)                  # remembered by the turbine
    kind = ['ct', 'function', 'gamma', 'raw'][2 if low else int(rng.integers(0, 4))]
    ctx.sig(kind, low, nC > 8, lam < 20, lam == np.inf, bool(pas))
    ctx.note(R=R, U=U, Lambda=lam, nCyl=nC, kind=kind)
    vr = np.linspace(.005, .995, nC) * R
    if kind == 'ct':
        W.update_loading(r=r, Ct=Ct, nCyl=nC, **pas)
        ctx.close('radii', np.ravel(W.r), vr, 1e-12, R)
        ct = np.interp(vr, r, Ct)
        ctx.close('interpolated_Ct', np.ravel(W.Ct), ct, 1e-12)
        lamr = lam * vr / R
        k = ref.k_from_ct(ct, lamr, lam < 20)
        L = 800.0 if lam == np.inf else lam
        e = ref.discr(vr, k * np.pi * U * R / L, U, L * U / R, lam < 20, ref.cyl_radii(vr, R))
        ctx.close('strengths', np.ravel(W.gamma_t) / U, e['gamma_t'] / U, 5e-4, 1 + np.max(np.abs(e['gamma_t'] / U)))
        if lam < 20:
            ctx.close('longitudinal', np.ravel(W.gamma_l) / U, e['gamma_l'] / U, 2e-4, 1 + np.max(np.abs(e['gamma_l'] / U)))
            ctx.close('root', np.ravel(W.Gamma_r)[0] / U / R, e['Gamma_r'] / U / R, 2e-4, 1)
    elif kind == 'function':
        f = turb.GammaOfCt(float(rng.uniform(.1, 3)))
        Ct = Ct * rng.uniform(.1, 1.6)
        one = rng.random() < .5
        W.update_loading(r=r, Ct=Ct, nCyl=1 if one else nC, gamma_t_Ct=f, **pas)
        ct = np.array([Ct.mean()]) if one else np.interp(vr, r, Ct)
        ctx.close('own_relation', np.ravel(W.gamma_t), np.ravel(f(ct)), 1e-12, np.max(np.abs(f(ct))))
        ctx.check('own_relation_no_swirl', W.gamma_l is None and W.Gamma_r is None)
        try:
            W.update_loading(nCyl=1, Gamma=1.0, gamma_t_Ct=f, Lambda=5)
            ok = False
        except Exception:
            ok = True
        ctx.check('own_relation_needs_Ct', ok)
    elif kind == 'gamma':
        Om = min(lam, 800) * U / R                           # infinitely fast: no swirl, 800 in the code
        G = rng.uniform(.1, .7) * np.pi * U ** 2 / Om * np.clip(r / R / .2, 0, 1)
        if low:
            G = G * .3 * (r / R) ** 2
        one = rng.random() < .4
        W.update_loading(r=r, Gamma=G, nCyl=1 if one else nC, **pas)
        rr = np.array([.995 * R]) if one else vr
        gg = np.array([G.mean()]) if one else np.interp(vr, r, G)
        e = ref.discr(rr, gg, U, Om, lam < 20, ref.cyl_radii(rr, R))
        ctx.close('strengths_from_circulation', np.ravel(W.gamma_t) / U, e['gamma_t'] / U, 1e-9, 1 + np.max(np.abs(e['gamma_t'] / U)))
        if lam < 20:
            ctx.close('longitudinal_from_circulation', np.ravel(W.gamma_l) / U, e['gamma_l'] / U, 1e-9, 1 + np.max(np.abs(e['gamma_l'] / U)))
            ctx.close('root_from_circulation', np.ravel(W.Gamma_r)[0], -gg[0], 1e-9, np.max(gg) + 1e-300)
    else:
        vr = np.sort(rng.uniform(.05, 1, nC)) * R
        vr = vr + np.arange(nC) * 1e-3 * R
        ct = rng.uniform(.05, .85, nC)
        W.update_loading(r=vr, Ct=ct, nCyl=None, **pas)
        ctx.close('radii_as_given', np.ravel(W.r), vr, 0)
        ctx.close('Ct_as_given', np.ravel(W.Ct), ct, 0)
    ctx.check('lambda_kept', W.Lambda == lam, got=W.Lambda)
    W4 = WindTurbine(R=R, e_shaft_yaw0=fr[0], e_vert=fr[1], U0=fr[0] * U)
    W4.gamma_t = np.array([float(rng.uniform(-1, 1))])        # strength set directly, as in the examples
    X = rng.uniform(-3, 3, (3, 5)) * R
    u = np.array(W4.compute_u(X[0], X[1], X[2], longi=True, root=True, only_ind=True))
    ctx.close('direct_strength', u, np.array(W4.compute_u(X[0], X[1], X[2], only_ind=True)), 1e-12)
    ctx.check('direct_strength_acts', np.any(u))
    for bad in (dict(nCyl=1), dict(nCyl=1, Ct=.5, Lambda=None)):
        W2 = WindTurbine(R=R, U0=[0, 0, U], Lambda=None)
        try:
            W2.update_loading(**bad)
            ok = False
        except Exception:
            ok = True
        ctx.check('incomplete_loading_refused', ok, args=str(bad))
    W3 = WindTurbine(R=R)
    try:
        W3.compute_u(np.zeros(2), np.zeros(2), np.ones(2))
        ok = False
    except Exception:
        ok = True
    ctx.check('no_loading_refused', ok)


def f_wake_annuli(ctx):
    """far wake of several cylinders: the velocity between two cylinders is U0(1-2a) of the annulus, a from its Ct"""
    rng = ctx.rng
    nC = int(rng.integers(2, 12))
    c = turb.draw(rng, chi=0.0, ground=False, nCyl=nC, R=gen.rotor(rng))
    n = 40
    x = np.linspace(0, 1, n)
    Ct = rng.uniform(.2, .85) * np.clip(x / .2, 0, 1) * (1 - .3 * x ** 2)
    c['load'] = dict(r=x * c['R'], Ct=Ct, Lambda=float(rng.choice([np.inf, 30.0])), nCyl=nC)
    W = turb.build(c)
    R, U = c['R'], np.linalg.norm(c['U0'])
    rr = np.linspace(.005, .995, nC) * R
    ct = np.interp(rr, x * R, Ct)
    A = turb.axes(c)
    mid = np.concatenate(([rr[0] / 2], (rr[1:] + rr[:-1]) / 2))
    P = np.array([0 * mid, mid, 0 * mid + 3000 * R])
    X = turb.to_global(c, P)
    u = A[2].dot(np.array(W.compute_u(X[0], X[1], X[2], only_ind=True)))
    ctx.sig(nC)
    turb.note(ctx, c)
    ctx.close('annulus_far_wake', u / U, -2 * ref.ax_ind(ct), 1e-4, 1, Ct=ct)


FAMILIES = [Family('single', f_single, 1200, 30000), Family('spera', f_spera, 300, 6000), Family('inputs', f_inputs, 500, 12000), Family('annuli', f_wake_annuli, 250, 5000)]
QUICK = 8        # cheap: more cases in the quick run
