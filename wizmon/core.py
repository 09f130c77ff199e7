"""Harness: runs the real wiz code under generated workloads while monitors judge what it does.

A property module defines FAMILIES, a list of Family(name, func, quick, thorough).
func(ctx) runs ONE case: it draws everything random from ctx.rng (seeded by
(seed, property, family, k) only, so every case can be regenerated alone), executes the
code of /repo, and reports observations to the monitors of ctx:

    ctx.check(monitor, ok, **detail)        one judged event
    ctx.close(monitor, got, ref, tol, ...)  compare arrays, every element is a judged event
    ctx.sig(...)                            what makes this case distinct / non trivial
"""
import os, sys, io, json, time, zlib, signal, traceback, contextlib, warnings, multiprocessing as mp
import numpy as np

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, 'evidence')
KNOWN = os.path.join(HERE, 'known_findings.json')
MAXV = 12            # violations kept per case batch


class Family(object):
    def __init__(self, name, func, quick, thorough, rule=''):
        self.name, self.func, self.quick, self.thorough, self.rule = name, func, quick, thorough, rule


class StopCase(Exception):
    pass


class CaseTimeout(BaseException):
    """a case that normally takes milliseconds did not come back within CASE_SECONDS"""


CASE_SECONDS = 150


def _alarm(sig, frm):
    raise CaseTimeout()


def jsonable(x, depth=0):
    if depth > 5:
        return str(x)[:80]
    if isinstance(x, (bool, int, str)) or x is None:
        return x
    if isinstance(x, float):
        return x if np.isfinite(x) else repr(x)
    if isinstance(x, np.generic):
        return jsonable(x.item(), depth)
    if isinstance(x, np.ndarray):
        if x.size > 40:
            return {'shape': list(x.shape), 'head': [jsonable(v, depth + 1) for v in x.ravel()[:10].tolist()]}
        return jsonable(x.tolist(), depth + 1)
    if isinstance(x, (list, tuple)):
        return [jsonable(v, depth + 1) for v in list(x)[:60]]
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    return str(x)[:200]


class Ctx(object):
    def __init__(self, prop, family, seed, k, tier):
        self.prop, self.family, self.seed, self.k, self.tier = prop, family, seed, k, tier
        key = [int(seed) & 0x7fffffff, zlib.crc32(prop.encode()), zlib.crc32(family.encode()), int(k)]
        self.rng = np.random.default_rng(key)
        self.thorough = tier == 'thorough'
        self.events = {}
        self.margin = {}
        self.sigs = set()
        self.sample = None
        self.violations = []
        self.findings = []

    # ---- bookkeeping
    def sig(self, *a):
        self.sigs.add(self.family + '|' + '|'.join(str(x) for x in a))

    def note(self, **kw):
        if self.sample is None:
            self.sample = {}
        self.sample.update({k: jsonable(v) for k, v in kw.items()})

    def count(self, monitor, n=1):
        self.events[monitor] = self.events.get(monitor, 0) + int(n)

    def _viol(self, monitor, detail, finding=None):
        d = {'property': self.prop, 'family': self.family, 'k': int(self.k), 'seed': int(self.seed), 'tier': self.tier,
             'monitor': monitor, 'finding': finding, 'detail': jsonable(detail), 'case': self.sample}
        if len(self.violations) < MAXV:
            self.violations.append(d)

    # ---- judging
    def check(self, monitor, ok, finding=None, **detail):
        self.count(monitor)
        if not bool(ok):
            self._viol(monitor, detail, finding)
        return bool(ok)

    def close(self, monitor, got, ref, tol, scale=None, mask=None, finding=None, **detail):
        """|got-ref| <= tol*scale elementwise (scale: number or array, default max(1,|ref|))."""
        got = np.asarray(got, dtype=float)
        ref = np.asarray(ref, dtype=float)
        if got.shape != ref.shape:
            try:
                ref = np.broadcast_to(ref, got.shape)
            except ValueError:
                self.count(monitor)
                self._viol(monitor, dict(detail, why='shape', got=got.shape, ref=ref.shape), finding)
                return False
        if scale is None:
            scale = np.maximum(1.0, np.abs(ref))
        thr = np.broadcast_to(np.asarray(tol * np.asarray(scale, dtype=float)), got.shape)
        with np.errstate(all='ignore'):
            err = np.abs(got - ref)
        bad = ~(err <= thr)
        if mask is not None:
            bad = bad & mask
            n = int(np.count_nonzero(mask))
        else:
            n = got.size
        self.count(monitor, n)
        if n:
            with np.errstate(all='ignore'):
                q = np.where(thr > 0, err / np.where(thr > 0, thr, 1), np.where(err > 0, np.inf, 0.0))
                if mask is not None:
                    q = q[mask]
                q = q[np.isfinite(q)]
            if q.size:
                self.margin[monitor] = max(self.margin.get(monitor, 0.0), float(np.max(q)))
        if np.any(bad):
            i = np.argwhere(np.atleast_1d(bad))[:4]
            g, r, e, t = (np.atleast_1d(v) for v in (got, ref, err, thr))
            ex = [{'index': ix.tolist(), 'got': float(g[tuple(ix)]), 'expected': float(r[tuple(ix)]),
                   'tolerance': float(t[tuple(ix)])} for ix in i]
            dd = dict(detail)
            pts = dd.pop('points', None)
            if pts is not None:
                try:
                    P = [np.broadcast_to(np.asarray(p, dtype=float), got.shape) for p in pts]
                    for x, ix in zip(ex, i):
                        x['point'] = [float(np.atleast_1d(p)[tuple(ix)]) for p in P]
                except Exception:
                    pass
            self._viol(monitor, dict(dd, n_bad=int(np.count_nonzero(bad)), n=int(got.size), worst=ex), finding)
            return False
        return True

    def close3(self, monitor, got, ref, tol, scale=None, **detail):
        ok = True
        for c, g, r in zip('xyz', got, ref):
            ok &= self.close(monitor, g, r, tol, scale, component=c, **detail)
        return ok

    def finite(self, monitor, arrs, **detail):
        for j, a in enumerate(arrs):
            a = np.asarray(a, dtype=float)
            b = np.isfinite(a)
            self.count(monitor, a.size)
            if not np.all(b):
                dd = dict(detail)
                pts = dd.pop('points', None)
                if pts is not None:
                    ix = np.argwhere(~np.atleast_1d(b))[:3]
                    dd['bad_points'] = [[float(np.atleast_1d(np.broadcast_to(p, a.shape))[tuple(i)]) for p in pts] for i in ix]
                self._viol(monitor, dict(dd, component=j, n_bad=int(np.count_nonzero(~b)), n=int(a.size)))
                return False
        return True


@contextlib.contextmanager
def quiet():
    """wiz prints progress on stdout; keep check output readable. Warnings are not a verdict."""
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        yield


def run_case(mod, prop, fam, seed, k, tier):
    ctx = Ctx(prop, fam.name, seed, k, tier)
    with quiet():
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(CASE_SECONDS)
        try:
            fam.func(ctx)
        except StopCase:
            pass
        except CaseTimeout:
            ctx._viol('terminates', {'why': 'no answer within %d s' % CASE_SECONDS, 'traceback': traceback.format_exc()[-1200:]})
        except MemoryError:
            raise
        except Exception:
            ctx._viol('no_unexpected_exception', {'traceback': traceback.format_exc()[-1800:]})
        finally:
            signal.alarm(0)
    ctx.count('no_unexpected_exception')
    return ctx


_G = {}


def _work(chunk):
    mod, prop, seed, tier = _G['mod'], _G['prop'], _G['seed'], _G['tier']
    out = {'n': 0, 'events': {}, 'margin': {}, 'sigs': set(), 'viol': [], 'samples': [], 'fam': {}, 'skipped': 0}
    for fi, k in chunk:
        if time.time() > _G['deadline']:
            out['skipped'] += 1
            continue
        fam = mod.FAMILIES[fi]
        c = run_case(mod, prop, fam, seed, k, tier)
        out['n'] += 1
        out['fam'][fam.name] = out['fam'].get(fam.name, 0) + 1
        for m, n in c.events.items():
            out['events'][m] = out['events'].get(m, 0) + n
        for m, v in c.margin.items():
            if v > out['margin'].get(m, (0, None))[0]:
                out['margin'][m] = (v, '%s/%d' % (fam.name, k))
        out['sigs'] |= c.sigs
        if len(out['viol']) < 40:
            out['viol'] += c.violations
        if c.sample is not None and k < 2:
            out['samples'].append({'family': fam.name, 'k': int(k), 'case': c.sample})
    return out


def load_known(prop):
    try:
        with open(KNOWN) as f:
            d = json.load(f)
    except (IOError, ValueError):
        return []
    return [e for e in d.get('known', []) if e.get('property') == prop]


def run_property(prop, mod, tier=None, seed=None, jobs=None, scale=1.0, only=None):
    t0 = time.time()
    tier = tier or os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1')) if seed is None else int(seed)
    jobs = jobs or int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 1)
    budget = float(os.environ.get('VERIF_BUDGET', '600' if tier == 'quick' else '780'))
    cases = []
    for fi, fam in enumerate(mod.FAMILIES):
        if only and fam.name not in only:
            continue
        n = fam.quick if tier == 'quick' else fam.thorough
        if tier == 'quick' and n >= 20:                # families that run whole scripts are left as they are
            n = min(n * getattr(mod, 'QUICK', 3), max(n, fam.thorough))
        n = max(1, int(round(n * scale)))
        cases += [(fi, k) for k in range(n)]
    # interleave families, so that a chunk mixes cheap and expensive cases
    order = np.random.default_rng(12345).permutation(len(cases))
    cases = [cases[i] for i in order]
    _G.update(mod=mod, prop=prop, seed=seed, tier=tier, deadline=t0 + budget)
    nchunk = max(1, min(len(cases), jobs * 12))
    chunks = [cases[i::nchunk] for i in range(nchunk)]
    if jobs > 1:
        with mp.get_context('fork').Pool(jobs) as pool:
            res = pool.map(_work, chunks, chunksize=1)
    else:
        res = [_work(c) for c in chunks]
    tot = {'n': 0, 'events': {}, 'margin': {}, 'sigs': set(), 'viol': [], 'samples': [], 'fam': {}, 'skipped': 0}
    for r in res:
        tot['n'] += r['n']
        tot['skipped'] += r['skipped']
        for m, n in r['events'].items():
            tot['events'][m] = tot['events'].get(m, 0) + n
        for m, n in r['fam'].items():
            tot['fam'][m] = tot['fam'].get(m, 0) + n
        for m, v in r['margin'].items():
            if v[0] > tot['margin'].get(m, (0, None))[0]:
                tot['margin'][m] = v
        tot['sigs'] |= r['sigs']
        tot['viol'] += r['viol']
        tot['samples'] += r['samples']
    return finish(prop, mod, tier, seed, tot, time.time() - t0)


def finish(prop, mod, tier, seed, tot, wall):
    known = load_known(prop)
    keys = {e['key']: e for e in known}
    hit = set()
    new = []
    for v in sorted(tot['viol'], key=lambda v: (v['family'], v['k'], v['monitor'])):
        if v.get('finding') and v['finding'] in keys:
            hit.add(v['finding'])
        else:
            new.append(v)
    for e in known:
        print('KNOWN-FINDING: property=%s %s%s' % (prop, e['what'], '' if e['key'] in hit else ' (not met in this run)'))
    os.makedirs(EVID, exist_ok=True)
    replay = None
    if new:
        rd = os.path.join(EVID, 'replay')
        os.makedirs(rd, exist_ok=True)
        v = new[0]
        replay = os.path.join(rd, '%s_%s_%d_s%d.json' % (prop, v['family'], v['k'], seed))
        with open(replay, 'w') as f:
            json.dump({'property': prop, 'family': v['family'], 'k': v['k'], 'seed': seed, 'tier': tier,
                       'violations': new[:20]}, f, indent=1)
    samples = sorted(tot['samples'], key=lambda s: (s['family'], s['k']))
    seen, keep = set(), []
    for s in samples:
        if s['family'] not in seen:
            seen.add(s['family'])
            keep.append(s)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': int(tot['n']),
            'distinct_nontrivial': len(tot['sigs']),
            'rule': mod.RULE,
            'samples': keep[:12],
            'monitor_events': {k: int(v) for k, v in sorted(tot['events'].items())},
            'cases_per_family': {k: int(v) for k, v in sorted(tot['fam'].items())},
            'worst_error_over_tolerance': {k: [float('%.3g' % v[0]), v[1]] for k, v in sorted(tot['margin'].items())},
            'skipped_for_time': int(tot['skipped']),
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2),
        'violations': len(new),
    }
    tmp = os.path.join(EVID, '.%s.tmp' % prop)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVID, '%s.json' % prop))
    print('%s %s seed=%d: %d cases, %d distinct, %d judged events, %d violations, %.1fs%s' % (
        prop, tier, seed, tot['n'], len(tot['sigs']), sum(tot['events'].values()), len(new), wall,
        (' (%d skipped for time)' % tot['skipped']) if tot['skipped'] else ''))
    for v in new[:6]:
        print('  %s case %s/%d monitor %s: %s' % (prop, v['family'], v['k'], v['monitor'], json.dumps(v['detail'])[:600]))
    if new:
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        return 1
    if tot['n'] == 0:
        # nothing was explored: never report success for it
        print('VIOLATION property=%s replay=none (no case could be run)' % prop)
        return 1
    return 0


def replay_file(path, mod):
    d = json.load(open(path))
    fam = [f for f in mod.FAMILIES if f.name == d['family']][0]
    c = run_case(mod, d['property'], fam, d['seed'], d['k'], d['tier'])
    print(json.dumps(c.violations, indent=1))
    return 1 if c.violations else 0
