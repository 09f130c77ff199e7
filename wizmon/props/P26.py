"""Loading relations: Ct <-> circulation, stream-tube inductions, cut-off distributions, wake vorticity from Ct or circulation."""
import numpy as np
from ..core import Family
from .. import gen, ref
from wiz import Solver as S

PI = np.pi
RULE = ('Ct 0..1.3 (zeros included), local speed ratios 0..30 (zero radius included), with and without swirl, 1-40 radii; distinct = different (family, swirl, sizes, regime)')
ASSUMPTIONS = ['the inversion is asked for residual 1e-4 in Ct (the code minimises |residual| with scipy, 1e-5 reached)', 'k is sought in [0,1.8]']


def f_circ(ctx):
    rng = ctx.rng
    n = int(rng.integers(1, 40))
    vr = rng.uniform(0, 1, n)
    vr[rng.random(n) < .1] = 0
    lam = float(rng.choice([rng.uniform(.5, 12), rng.uniform(12, 30)]))
    Ct = rng.uniform(0, 1.3, n)
    Ct[rng.random(n) < .15] = 0
    sw = bool(rng.random() < .75)
    if rng.random() < .2:
        vr = vr.astype(float)[::-1]
    ctx.sig(sw, min(n, 5), bool(np.any(vr == 0)), bool(np.any(Ct == 0)), int(lam / 6))
    ctx.note(vr=vr, Ct=Ct, Lambda=lam, swirl=sw)
    k = S.CirculationFromPrescribedCt(vr, Ct, lam, sw)
    ctx.check('shape', np.shape(k) == (n,))
    if not sw:
        ctx.close('no_swirl_k_is_Ct', k, Ct, 0)
        return
    lr = lam * vr
    dead = (vr == 0) | (Ct == 0)
    ctx.close('dead_annuli', k[dead], 0 * k[dead], 0)
    with np.errstate(all='ignore'):
        res = k * (1 + k / (4 * lr ** 2))
        e = ref.k_from_ct(Ct, np.maximum(lr, 1e-300), True)
        dres = 1 + 2 * e / (4 * lr ** 2)
    live = ~dead
    # accuracy of k: 1e-5 of its bounds
    ctx.close('equation_holds', res[live], Ct[live], 5e-5, dres[live])
    ctx.close('circulation', k[live], e[live], 5e-5, 1)
    ctx.check('circulation_range', np.all(k >= 0) and np.all(k[live] <= Ct[live] + 5e-5))


def f_monotone(ctx):
    rng = ctx.rng
    lam = float(rng.uniform(1, 19))
    r = float(rng.uniform(.05, 1))
    Ct = np.sort(rng.uniform(0.01, 1.2, 8)) + np.arange(8) * 2e-3
    ctx.sig(int(lam))
    ctx.note(Lambda=lam, r=r)
    k = S.CirculationFromPrescribedCt(r + 0 * Ct, Ct, lam, True)
    ctx.check('increasing_in_Ct', np.all(np.diff(k) > 0) or lam * r < .3, k=k)
    rr = np.linspace(.1, 1, 8)
    k2 = S.CirculationFromPrescribedCt(rr, .6 + 0 * rr, lam, True)
    ctx.check('increasing_in_radius', np.all(np.diff(k2) > -2e-5), k=k2)


def f_st(ctx):
    rng = ctx.rng
    n = int(rng.integers(1, 30))
    vr = rng.uniform(.02, 1, n)
    Ct = rng.uniform(0, .999, n)
    lam = float(rng.uniform(1, 15))
    Cq = rng.uniform(0, .2, n)
    sw = bool(rng.random() < .6)
    ctx.sig(sw, min(n, 4))
    ctx.note(vr=vr, Ct=Ct, Cq=Cq, Lambda=lam)
    a, ap = S.InductionsFromPrescribedCtCq_ST(vr, Ct, Cq, lam, sw)
    ctx.close('thrust_momentum', 4 * a * (1 - a), Ct, 1e-10)
    ctx.check('wind_turbine_branch', np.all(a <= .5) and np.all(a >= 0))
    if sw:
        ctx.close('torque_momentum', 4 * ap * (1 - a) * lam * vr, Cq, 1e-10)
    else:
        ctx.close('no_swirl', ap, 0.0, 0)


def f_cutoff(ctx):
    rng = ctx.rng
    CT, rc, rt = float(rng.uniform(.1, 1.2)), float(rng.uniform(.01, .8)), 0.0
    rt = float(rng.uniform(rc + .02, .99))
    tip = rng.random() < .6
    x = np.concatenate((rng.uniform(0, 1, 30), [0, rc, rt, 1, .5 * rc, (1 + rt) / 2, .5]))
    shp = (37,) if rng.random() < .7 else (37, 1)
    ctx.sig(tip, len(shp))
    ctx.note(CT=CT, r_cut=rc, r_tip=rt if tip else None)
    y = S.Ct_const_cutoff(CT, rc, x.reshape(shp), rt) if tip else S.Ct_const_cutoff(CT, rc, x.reshape(shp))
    e = np.where(x < rc, CT * x / rc, CT)
    if tip:
        e = np.where(x > rt, CT * (1 - x) / (1 - rt), e)
    ctx.check('shape', np.shape(y) == shp)
    ctx.close('cut_off_shape', np.ravel(y), e, 1e-12, CT)


def f_from(ctx):
    """the two interfaces: wake vorticity from Ct, from circulation"""
    rng = ctx.rng
    n = int(rng.choice([1, 2, 5, rng.integers(3, 50)]))
    R, U = float(gen.logu(rng, .5, 100)), float(rng.uniform(1, 25))
    lam = gen.lam(rng)
    x = np.linspace(.005, .995, n) if n > 1 else np.array([.995])
    Ct = rng.uniform(.05, 1.1) * np.clip(x / rng.uniform(.05, .3), 0, 1) * (1 - .2 * x)
    via = 'ct' if rng.random() < .6 or lam == np.inf else 'gamma'
    sw = lam < 20
    L = 800.0 if lam == np.inf else lam
    Om = L * U / R
    ctx.sig(via, sw, lam == np.inf, min(n, 4), bool(Ct.max() > ref.CTC))
    ctx.note(n=n, R=R, U0=U, Lambda=lam, Ct=Ct, via=via)
    k = ref.k_from_ct(Ct, L * x, sw)
    if via == 'ct':
        gt, gl, Gr, m = S.WakeVorticityFromCt(x * R, Ct, R, U, np.inf if lam == np.inf else Om)
    else:
        gt, gl, Gr, m = S.WakeVorticityFromGamma(x * R, k * PI * U ** 2 / Om, R, U, Om)
    e = ref.discr(x * R, k * PI * U ** 2 / Om, U, Om, sw, ref.cyl_radii(x * R, R))
    s = 1 + np.abs(e['a']).max()
    t = 3e-4 if (via == 'ct' and sw) else 1e-9
    ctx.close('gamma_t', gt / U, e['gamma_t'] / U, t, s)
    ctx.close('axial_induction', m['a'], e['a'], t, s)
    if sw:
        ctx.close('gamma_l', gl / U, e['gamma_l'] / U, t * 3, 1 + np.abs(e['gamma_l']).max() / U)
        ctx.close('root', np.ravel(Gr) / U / R, [e['Gamma_r'] / U / R], t, 1)
    else:
        ctx.check('no_swirl', gl is None and Gr is None)


def f_cq(ctx):
    """tangential induction from a prescribed torque coefficient"""
    rng = ctx.rng
    n = int(rng.integers(2, 40))
    x = np.sort(rng.uniform(.03, 1, n)) + np.arange(n) * 1e-3
    lam = float(rng.uniform(2, 14))
    k = rng.uniform(.05, .75) * np.clip(x / rng.uniform(.05, .3), 0, 1) * (1 - .3 * x)
    Cq = rng.uniform(.005, .12) * (1 + .3 * np.sin(5 * x))
    sw, hi = bool(rng.random() < .7), bool(rng.random() < .7)
    ctx.sig(sw, hi, min(n, 5))
    ctx.note(n=n, Lambda=lam, Cq=Cq, k=k, swirl=sw)
    a0, ap0, m0 = S.InductionsFromCirculation_VC_Cont(x, lam * x, k, sw, bHighThrustCorr=hi)
    a, ap, m = S.InductionsFromCirculation_VC_Cont(x, lam * x, k, sw, bHighThrustCorr=hi, Cq=Cq)
    ctx.close('axial_from_circulation', a, a0, 1e-12)
    e_ap = k / (4 * (lam * x) ** 2) if sw else 0 * k
    f = 8 * (lam * x) ** 2 * e_ap ** 2 / x
    ct = k * (1 + e_ap) - np.append(np.cumsum((.5 * (f[1:] + f[:-1]) * np.diff(x))[::-1])[::-1], 0.0)
    ctx.close('thrust_of_circulation', m0['Ct_eff'], ct, 1e-9, 1 + np.abs(ct).max())
    if hi:
        ctx.close('axial_of_circulation', a0, ref.ax_ind(ct), 1e-8, 1 + np.abs(ct).max())
    ok = np.abs(1 - a0) > 1e-3
    ctx.close('torque_momentum', 4 * ap * (1 - a) * lam * x, Cq, 1e-10, 1, mask=ok)
    ctx.close('circulation_of_torque', m['k_Cq'] * (1 - a), Cq * lam * x, 1e-10, 1, mask=ok)


FAMILIES = [Family('inversion', f_circ, 800, 15000), Family('monotone', f_monotone, 200, 3000), Family('stream_tube', f_st, 400, 8000), Family('cutoff', f_cutoff, 400, 8000),
            Family('interfaces', f_from, 600, 12000), Family('torque', f_cq, 300, 5000)]
QUICK = 20        # cheap: more cases in the quick run
