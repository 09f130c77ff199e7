"""2D vortex points, singular and regularised."""
import numpy as np
from ..core import Family
from .. import gen
from wiz import VortexPoint as VP

RULE = ('1-6 control points, 1-6 vortices in 2D or 3D storage, every smooth model and kernel order, core sizes per vortex 1e-2..3, coincident points; '
        'distinct = different (family, model, order, dimension)')
ASSUMPTIONS = ['a kernel of order n is characterised by its far field (exponentially close to the singular vortex), by its near field '
               '(velocity vanishing linearly), and by the explicit formula of its vorticity moments (checked by quadrature of the curl)']

COEF = {1: {2: [1], 4: [1, -1], 6: [1, -2, .5], 8: [1, -3, 1.5, -1. / 6]},
        2: {2: [1], 4: [1, -.5], 6: [1, -1, 1. / 8], 8: [1, -1.5, 3. / 8, -1. / 48], 10: [1, -2, .75, -1. / 12, 1. / 384]}}


def kernel(model, order, rho2):
    """q(rho) = 1 - Q(rho^2) exp(-rho^2) (model 1 and order 2), 1 - Q exp(-rho^2/2) (model 2)"""
    if model == 0 or order == 0:
        return np.ones_like(rho2)
    E = np.exp(-rho2) if (model == 1 or order == 2) else np.exp(-rho2 / 2)
    return 1 - sum(c * rho2 ** i for i, c in enumerate(COEF[model][order])) * E


def draw_mo(rng):
    model = int(rng.integers(0, 3))
    order = int(rng.choice(sorted(COEF[model]))) if model else int(rng.choice([0, 2, 4]))
    return model, order


def f_sum(ctx):
    rng = ctx.rng
    nc, nv = int(rng.integers(1, 7)), int(rng.integers(1, 7))
    nd = int(rng.choice([2, 3]))
    model, order = draw_mo(rng)
    L = gen.scale(rng)
    if L < 1e-2:
        L = 1.0          # absolute threshold r^2<1e-15 in the code
    CP, XV = rng.uniform(-2, 2, (nc, nd)) * L, rng.uniform(-2, 2, (nv, nd)) * L
    G = np.array([gen.strength(rng) for _ in range(nv)])
    sp = gen.logu(rng, 1e-2, 3, nv) * L
    if rng.random() < .5:            # control points very close to a vortex
        a = rng.uniform(0, 2 * np.pi, nc)
        CP[:, :2] = XV[rng.integers(0, nv, nc), :2] + (np.column_stack((np.cos(a), np.sin(a))).T * gen.logu(rng, 3e-7, 1e-1, nc)).T
    co = rng.random() < .3
    if co:
        CP[0, :2] = XV[0, :2]
    whole = bool(rng.random() < .15)
    if whole:                        # whole numbers
        CP, XV = np.round(CP / L * 4).astype(int), np.round(XV / L * 4).astype(int)
        sp = sp / L
    ctx.sig(model, order, nd, co, whole)
    ctx.note(model=model, order=order, nd=nd, nc=nc, nv=nv, G=G, core=sp)
    U = VP.vps_u(CP, XV, G, SmoothModel=model, KernelOrder=order, SmoothParam=sp if (model or rng.random() < .5) else None)
    e = np.zeros((nc, nd))
    S = np.zeros(nc)
    for i in range(nc):
        for j in range(nv):
            d = CP[i] - XV[j]
            r2 = d[0] ** 2 + d[1] ** 2
            if r2 < 1e-14:
                continue
            q = G[j] / (2 * np.pi * r2) * kernel(model, order, np.array(r2 / sp[j] ** 2))
            e[i, 0] -= q * d[1]
            e[i, 1] += q * d[0]
            S[i] += abs(G[j]) / (2 * np.pi * np.sqrt(r2))
    ctx.close('points', U, e, 1e-12, S[:, None] + 1e-300 + 0 * e)
    if nd == 3:
        ctx.close('planar', U[:, 2], 0 * U[:, 2], 1e-14, 1.0)


def f_vp(ctx):
    rng = ctx.rng
    L = gen.scale(rng)
    P, C = rng.uniform(-2, 2, 2) * L, rng.uniform(-2, 2, 2) * L
    if rng.random() < .4:
        a = rng.uniform(0, 2 * np.pi)
        C = P + np.array([np.cos(a), np.sin(a)]) * gen.logu(rng, 1e-12, 1) * L
        if np.all(C == P):
            return
    G = gen.strength(rng)
    visc = bool(rng.random() < .5)
    rc = gen.logu(rng, 1e-2, 3) * L
    ctx.sig(visc, G > 0, ctx.k % 20)
    u = VP.vp_u(C, P, G, rc, visc)
    d = C - P
    r2 = (d ** 2).sum()
    q = G / (2 * np.pi * r2) * (-np.expm1(-r2 / rc ** 2) if visc else 1.0)
    ctx.close('one_point', np.asarray(u), np.array([-q * d[1], q * d[0]]), 1e-12, abs(G) / (2 * np.pi * np.sqrt(r2)))


def f_moments(ctx):
    """circulation: total Gamma far away; a kernel of order n has vanishing vorticity moments up to n"""
    rng = ctx.rng
    model = int(rng.integers(1, 3))
    order = int(rng.choice(sorted(COEF[model])))
    G, s = gen.strength(rng), float(gen.logu(rng, .3, 30))
    ctx.sig(model, order, G > 0)
    r = np.linspace(0, 14, 1401)[1:]
    CP = np.column_stack((r * s, 0 * r))
    U = VP.vps_u(CP, np.zeros((1, 2)), np.array([G]), SmoothModel=model, KernelOrder=order, SmoothParam=np.array([s]))
    circ = 2 * np.pi * r * s * U[:, 1] / G            # circulation inside r
    ctx.close('radial', U[:, 0], 0 * r, 1e-13 * abs(G) / s, 1.0)
    ctx.close('total_circulation', circ[-1], 1.0, 1e-9, 1.0, model=model, order=order)
    ctx.close('core_is_still', circ[0], 0.0, 1e-2, 1.0, model=model, order=order)
    # moments: int r^k dcirc = -int k r^(k-1) (circ-1) dr - ...  -> int_0^inf r^(k-1)(1-circ) dr = 0 for k=2..order-2
    for k in range(2, order, 2):
        f = r ** (k - 1) * (1 - circ)
        M = (f[:-1] + f[1:]).sum() / 2 * 0.01 + 0.5 * 0.01 * f[0]
        N = (np.abs(f)[:-1] + np.abs(f)[1:]).sum() / 2 * 0.01
        ctx.close('vanishing_moment', M, 0.0, 2e-3, N, moment=k, order=order, model=model)


FAMILIES = [Family('sums', f_sum, 600, 20000), Family('single', f_vp, 200, 5000), Family('moments', f_moments, 120, 1500)]
QUICK = 40        # cheap: more cases in the quick run
