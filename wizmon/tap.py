"""Instrumentation: wraps the functions of the wiz modules while a workload runs; every call (also the nested ones) is checked for side effects on its arguments."""
import contextlib, functools, sys, types
import numpy as np


def _arrays(args, kw):
    for i, a in enumerate(args):
        if isinstance(a, (np.ndarray, list)):
            yield i, a
    for k, a in kw.items():
        if isinstance(a, (np.ndarray, list)):
            yield k, a


def _copy(a):
    return a.copy() if isinstance(a, np.ndarray) else list(a)


def _same(a, b):
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and a.dtype == b.dtype and (a.tobytes() == b.tobytes())
    return len(a) == len(b) and all(x is y or (np.shape(x) == () and x == y) or np.array_equal(x, y) for x, y in zip(a, b))


# the public functions: a private helper of the implementation may well work in place on its own temporaries
PUBLIC = set("""ellipticPiCarlson Ct_const_cutoff InductionsFromPrescribedCtCq_ST CirculationFromPrescribedCt InductionsFromCirculation_VC_Cont
WakeVorticityFromCirculation_Cont WakeVorticityFromCirculation_Discr WakeVorticityFromCt WakeVorticityFromGamma ss_u vc_tang_u_doublet vc_tang_u
vc_longi_u_polar vc_longi_u vc_root_u cylinder_tang_semi_inf_u_raw vcs_tang_u vcs_longi_u cylinder_tang_u skew_components polar_components
svc_tang_u_polar svc_longi_u_polar svc_root_u_polar svc_u_polar svc_longi_u svc_tang_u svc_root_u svcs_tang_u svcs_longi_u fV_Trailed
fV_Tangential fV_Root fKxit fKzt doublet_u doublet_u_polar doublet_line_polar_u_num doublet_line_polar_u doublet_line_u doublet_line_u_num
vl_semiinf_u vl_semiinf_straight_u_polar vl_semiinf_straight_u vp_u vps_u ring_u_polar_singular ring_u_polar_singularb ring_u_polar ring_u rings_u
RotMat_AxisAngle orth_vect transform_T transform gridLayout windfarm_gridlayout_CTconst""".split())


class Tap(object):
    def __init__(self):
        self.calls, self.bad, self.names = 0, [], set()

    def wrap(self, name, f):
        tap = self

        @functools.wraps(f)
        def g(*args, **kw):
            before = [(k, a, _copy(a)) for k, a in _arrays(args, kw)]
            tap.calls += 1
            tap.names.add(name)
            r = f(*args, **kw)
            for k, a, b in before:
                if not _same(a, b):
                    tap.bad.append((name, str(k)))
            return r
        return g


@contextlib.contextmanager
def tapped(mods):
    """every module-level function defined in the given modules, wherever the wiz package holds a reference to it"""
    tap = Tap()
    names = set(m.__name__ for m in mods)
    undo = []
    made = {}
    for M in [m for n, m in list(sys.modules.items()) if (n == 'wiz' or n.startswith('wiz.')) and m is not None]:
        for n, f in list(vars(M).items()):
            if isinstance(f, types.FunctionType) and f.__module__ in names and f.__name__ in PUBLIC:
                key = id(f)
                if key not in made:
                    made[key] = tap.wrap(f.__module__ + '.' + f.__name__, f)
                undo.append((M, n, f))
                setattr(M, n, made[key])
    try:
        yield tap
    finally:
        for M, n, f in undo:
            setattr(M, n, f)
