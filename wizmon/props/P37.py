"""What turbines and farms print about themselves is what they are."""
import re
import numpy as np
from ..core import Family
from .. import gen, ref, turb
from wiz.WindTurbine import WindTurbine
from wiz.WindFarm import WindFarm

RULE = 'random turbines and farms after 0-4 updates (yaw, wind, position, loading and evaluation, prescribed wake skew), short and full text; distinct = different (family, text form, updates, name)'
ASSUMPTIONS = ['numbers are found by their labels (R, r_hub, U0, yaw_err, wd, e_shaft, yaw_pos, T_...), the order and layout of the text are free', 'rounded to the printed digits']
NUM = r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?|nan|inf'


def values(s, label):
    """numbers that follow 'label :' up to the next label, one list per occurrence"""
    out = []
    for m in re.finditer(r'-\s*' + re.escape(label) + r'\s*:(.*?)(?=\n\s*-\s+[A-Za-z]|\Z)', s, re.S):
        out.append([float(v) for v in re.findall(NUM, m.group(1))])
    return out


def near(a, b, t):
    a, b = np.ravel(a), np.ravel(b)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= t))


def digits(v):
    """numpy prints 8 significant digits of the largest component at least"""
    return 2e-8 * (1 + np.abs(v).max())


def f_turbine(ctx):
    rng = ctx.rng
    c = turb.draw(rng)
    name = str(rng.choice(['', 'WT1', 'a b', 'T-3']))
    W = WindTurbine(R=c['R'], r_hub=c['hub'], e_shaft_yaw0=c['shaft'], e_vert=c['vert'], U0=c['U0'], name=name)
    W.update_yaw_pos(c['yaw'])
    n = int(rng.integers(0, 5))
    chi = c['chi']
    hub, U0, yaw = np.array(c['hub'], float), np.array(c['U0'], float), c['yaw']
    wind = yaw + chi
    for _ in range(n):
        k = int(rng.integers(0, 6))
        if k == 0:
            yaw = float(rng.uniform(-3, 3))
            W.update_yaw_pos(yaw)
        elif k == 1:
            hub = rng.uniform(-500, 500, 3)
            W.update_position(hub)
        elif k == 2:
            wind = float(rng.uniform(-3, 3))
            U0 = ref.rot(c['vert'], wind).dot(c['shaft']) * float(rng.uniform(1, 20))
            W.update_wind(U0)
        elif k == 3:
            W.update_loading(Ct=float(rng.uniform(.1, .9)), Lambda=float(rng.uniform(2, 30)))
            x = rng.uniform(-3, 3, (3, 2)) * c['R'] + hub[:, None]
            W.compute_u(x[0], x[1], x[2])
        elif k == 4:                           # the wake skew says nothing about the rotor
            W.set_chi(float(rng.uniform(-1, 1)) if rng.random() < .8 else None)
        else:
            str(W)
    ctx.sig(n, name, turb.chi_class(ref.wrap(wind - yaw)))
    turb.note(ctx, c, n=n)
    err = np.degrees(ref.wrap(yaw - wind))
    shaft = ref.rot(c['vert'], yaw).dot(c['shaft'])
    T_wt = ref.rot(c['vert'], yaw)
    ex = np.cross(c['vert'], c['shaft'])
    T_c = np.column_stack((ex, c['vert'], c['shaft']))
    T_F = np.column_stack((c['shaft'], np.cross(c['vert'], c['shaft']), c['vert']))

    def ang(got, e):
        return len(got) == 1 and abs((got[0] - e + 180) % 360 - 180) <= 5e-5

    forms = [('short', W.tostring()), ('short', W.tostring(short=True)), ('full', W.tostring(short=False)), ('full', repr(W)), ('full', str(W))]
    for f, s in forms:
        ctx.count('texts')
        ctx.check('name', name in s, text=s, name=name)
        ctx.check('radius', near(values(s, 'R'), [c['R']], 1e-9 * c['R']), text=s, R=c['R'])
        ctx.check('hub', near(values(s, 'r_hub'), hub, digits(hub)), text=s, hub=hub)
        ctx.check('wind', near(values(s, 'U0'), U0, digits(U0)), text=s, U0=U0)
        e = values(s, 'yaw_err')
        ctx.check('yaw_error', len(e) >= 1 and all(ang(v, err) for v in e), text=s, yaw_error=err)
        if f == 'full':
            ctx.check('wind_angle', all(ang(v, np.degrees(wind)) for v in values(s, 'wd')) and values(s, 'wd'), text=s, wind=np.degrees(wind))
            ctx.check('yaw_position', all(ang(v, np.degrees(yaw)) for v in values(s, 'yaw_pos')) and values(s, 'yaw_pos'), text=s, yaw=np.degrees(yaw))
            ctx.check('shaft', near(values(s, 'e_shaft'), shaft, 6e-5), text=s, shaft=shaft)
            for lab, T in (('T_F2g', T_F), ('T_c2wt', T_c), ('T_wt2g', T_wt), ('T_c2g', T_wt.dot(T_c))):
                ctx.check('frames', near(values(s, lab), T, 6e-5), text=s, label=lab, expected=T)


def f_farm(ctx):
    rng = ctx.rng
    n = int(rng.integers(1, 7))
    name = str(rng.choice(['', 'farm', 'A 1']))
    hub = rng.uniform(-900, 900, (n, 3))
    if n > 1 and rng.random() < .2:                  # two turbines at one place
        hub[n - 1] = hub[0]
    W = [WindTurbine(R=float(rng.uniform(1, 80)), r_hub=h) for h in hub]
    F = WindFarm(W, name=name) if rng.random() < .5 else WindFarm(name=name)
    if len(F) == 0:
        for w in W:
            F.append(w)
    if rng.random() < .5:
        i = int(rng.integers(0, n))
        hub[i] = rng.uniform(-900, 900, 3)
        F[i].update_position(hub[i])
    ctx.sig(n, name)
    for s in (str(F), repr(F), F.tostring(), F.tostring(short=True), F.tostring(short=False)):
        ctx.check('farm_name', name in s, text=s)
        ctx.check('farm_turbines', near(values(s, 'Number of turbines'), [n], 0), text=s, n=n)
        ctx.check('farm_layout', near(values(s, 'layout'), hub, 1e-6 * 900), text=s, layout=hub)
    ctx.check('farm_nWT', F.nWT == n)


FAMILIES = [Family('turbine', f_turbine, 500, 8000), Family('farm', f_farm, 150, 3000)]
QUICK = 20        # cheap: more cases in the quick run
