#!/usr/bin/env python
"""Usage: run.py <PROPERTY-ID> [--replay FILE] [--jobs N] [--only FAMILY] [--scale X] [--seed N] [--tier T]"""
import os, sys
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('WIZ_REPO', '/repo')
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)          # the working tree, whatever is installed
PY = '/opt/venv/bin/python'


def main():
    try:
        import numpy, scipy, mpmath  # noqa
    except ImportError:
        if os.path.exists(PY) and not os.environ.get('WIZMON_REEXEC'):
            os.environ['WIZMON_REEXEC'] = '1'
            os.execv(PY, [PY, '-B', os.path.abspath(__file__)] + sys.argv[1:])
        raise
    import argparse, importlib, warnings
    warnings.simplefilter('ignore')
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int)
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--only', action='append')
    ap.add_argument('--seed', type=int)
    ap.add_argument('--tier')
    a = ap.parse_args()
    from wizmon import core
    try:
        mod = importlib.import_module('wizmon.props.' + a.prop)
    except Exception:
        import traceback
        tb = traceback.format_exc()
        print(tb)
        if 'wiz/' in tb and REPO in tb:      # the code under test cannot even be imported
            os.makedirs(core.EVID, exist_ok=True)
            p = os.path.join(core.EVID, a.prop + '_import.txt')
            open(p, 'w').write(tb)
            print('VIOLATION property=%s replay=%s' % (a.prop, p))
            return 1
        return 2
    if a.replay:
        return core.replay_file(a.replay, mod)
    return core.run_property(a.prop, mod, tier=a.tier, seed=a.seed, jobs=a.jobs, scale=a.scale, only=a.only)


if __name__ == '__main__':
    sys.exit(main())
