#!/usr/bin/env python
"""setup_cmd: nothing to build (pure Python); checks that the tools are there and that the oracles agree with each other. Uses no wiz code."""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import numpy as np, scipy, mpmath, matplotlib
from wizmon import ref

bad = []


def close(name, a, b, tol):
    e = float(np.max(np.abs(np.asarray(a, float) - np.asarray(b, float))))
    print('%-40s %.2e (%.0e)' % (name, e, tol))
    if not e <= tol:
        bad.append(name)


rng = np.random.default_rng(7)
n = rng.uniform(-3, .999, 40)
m = rng.uniform(0, .999, 40)
close('elliptic Pi', [float(mpmath.ellippi(a, b)) for a, b in zip(n, m)] / ref.pi_carlson(n, m), 1, 1e-12)
r, z, p = rng.uniform(0, 2.5, 60), rng.uniform(-3, 4, 60), rng.uniform(-3, 3, 60)
k = np.hypot(r - 1, np.minimum(z, 0)) > .15
r, z, p = r[k], z[k], p[k]
x, y = r * np.cos(p), r * np.sin(p)
ur, uz = ref.vc_tang(r, z, 1.3, 1.0)
q = ref.svc_tang_q(x, y, z, 1.3, 1.0, 0.0)
close('cylinder: closed form / quadrature', [ur * np.cos(p), ur * np.sin(p), uz], q, 1e-11)
u = ref.vc_longi(r, z, 1.3, 1.0)
q = ref.svc_longi_q(x, y, z, 1.3, 1.0, 0.0)
close('longitudinal: closed form / quadrature', [-u * np.sin(p), u * np.cos(p), 0 * u], q, 1e-11)
t = np.linspace(0, 2 * np.pi, 4001)[:-1]
D = np.array([x[:, None] - np.cos(t), y[:, None] - np.sin(t), z[:, None] + 0 * t])
k = np.hypot(r - 1, z) > .1
D3 = (D ** 2).sum(0) ** 1.5
w = 2 * np.pi / 4000 / 4 / np.pi
c = np.array([(np.cos(t) * D[2] / D3).sum(1), (np.sin(t) * D[2] / D3).sum(1), ((-np.sin(t) * D[1] - np.cos(t) * D[0]) / D3).sum(1)]) * w
ur, uz = ref.ring(r, z, 1.0, 1.0)
close('ring: closed form / quadrature', np.array([ur * np.cos(p), ur * np.sin(p), uz])[:, k], c[:, k], 1e-10)
s = np.linspace(0, 1, 200001)[1:-1]
s = s / (1 - s)
e = np.array([.3, 0, 1]) / np.sqrt(1.09)
for i in range(3):
    P = np.array([x[i], y[i], z[i]])
    d = P[:, None] - np.outer(e, s)
    f = np.cross(e, d.T).T / (d ** 2).sum(0) ** 1.5 / 4 / np.pi
    close('half line', np.trapz(f, s, axis=1), ref.svc_root(P[0], P[1], P[2], 1.0, .3), 1e-4)
k = np.hypot(x, y) > .2
a = ref.doublet_line(x[k], y[k], z[k], 1.0)
close('doublet line', a, ref.doublet_line_straight(x[k], y[k], z[k], 1.0), 1e-8)
h = 1e-4
f = lambda x, y, z: np.array(ref.doublet(x, y, z, .3, .2, 1.0))
g = lambda x, y, z: (.3 * x + .2 * y + 1.0 * z) / (x * x + y * y + z * z) ** 1.5 / 4 / np.pi
X = (1.1, .7, -.4)
gr = [(g(*[X[j] + h * (i == j) for j in range(3)]) - g(*[X[j] - h * (i == j) for j in range(3)])) / 2 / h for i in range(3)]
close('doublet is minus a gradient', -np.array(gr), f(*X), 1e-7)
ct = np.linspace(0, 1.2, 50)
ai = ref.ax_ind(ct)
lo = ct <= ref.CTC
close('momentum', (4 * ai * (1 - ai))[lo], ct[lo], 1e-12)
R1 = ref.rot([0, 0, 1], .3)
close('rotation', R1.dot([1, 0, 0]), [np.cos(.3), np.sin(.3), 0], 1e-15)
print('oracles agree' if not bad else 'ORACLES DISAGREE: %s' % bad)
sys.exit(1 if bad else 0)
