#!/usr/bin/env python
"""Mutation campaign used to look for gaps of the checks (development tool, registered nowhere).
mutate.py list                     number of mutants per module
mutate.py run OUT.jsonl [module..]  runs the checks (scaled down) against every mutant, in copies under /tmp/mut
"""
import ast, sys, os, json, subprocess, shutil, random, time, multiprocessing as mp
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
MODS = {
    'wiz/elliptic.py': 'P01 P13 P02 P04 P35',
    'wiz/VortexCylinder.py': 'P02 P03 P04 P13 P22 P14 P12 P19 P18 P11 P33 P35',
    'wiz/VortexCylinderSkewed.py': 'P05 P06 P30 P13 P14 P12 P19 P18 P11 P33 P35',
    'wiz/VortexRing.py': 'P07 P13 P14 P12 P18 P11 P19 P33 P35',
    'wiz/VortexDoublet.py': 'P08 P13 P14 P12 P18 P11 P22 P33 P35',
    'wiz/VortexLine.py': 'P09 P04 P06 P13 P14 P18 P12 P33 P35',
    'wiz/VortexPoint.py': 'P10 P13 P18 P12 P33 P35',
    'wiz/SelfSimilar.py': 'P27 P13 P22 P33',
    'wiz/Solver.py': 'P25 P26 P24 P18 P33 P13',
    'wiz/WindTurbine.py': 'P29 P23 P16 P21 P22 P24 P17 P18 P19 P15 P14 P20 P33 P37 P36 P11',
    'wiz/WindFarm.py': 'P20 P28 P18 P21 P17 P19 P33 P37',
    'wiz/plotting_functions.py': 'P31 P33',
    'wiz/article_blockage/helper_functions.py': 'P32 P34 P36 P33',
}
SKIPF = {'get_cmap_viridis'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*'}
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
SWAPN = [('cos', 'sin'), ('min', 'max'), ('x', 'y'), ('y', 'z'), ('x', 'z'), ('X', 'Y'), ('Y', 'Z'), ('ux', 'uy'), ('uy', 'uz'), ('u_x', 'u_y'), ('u_y', 'u_z'), ('ur', 'uz'), ('Xcp', 'Ycp'), ('Ycp', 'Zcp'),
         ('k', 'k_2'), ('k0', 'k'), ('ellipk', 'ellipe'), ('zeros', 'ones'), ('hstack', 'vstack'), ('argmin', 'argmax'), ('longi', 'root'), ('tang', 'longi'), ('gamma_l', 'gamma_t'), ('logical_and', 'logical_or'), ('z1', 'z2'), ('I30', 'I50'), ('I51', 'I52'), ('K', 'E'), ('A', 'B'), ('i', 'j')]
SW = {}
for a, b in SWAPN:
    SW.setdefault(a, []).append(b)
    SW.setdefault(b, []).append(a)


class V(ast.NodeVisitor):
    def __init__(self, src):
        self.L = src.split('\n')
        self.out = []
        self.stack = []

    def seg(self, n):
        return (n.lineno, n.col_offset, n.end_lineno, n.end_col_offset)

    def text(self, n):
        a, b, c, d = self.seg(n)
        if a == c:
            return self.L[a - 1].encode()[b:d].decode()
        return '\n'.join([self.L[a - 1].encode()[b:].decode()] + self.L[a:c - 1] + [self.L[c - 1].encode()[:d].decode()])

    def add(self, n, new, why):
        self.out.append((self.seg(n), new, why))

    def visit_ClassDef(self, n):
        if any('TestCase' in ast.dump(b) for b in n.bases):
            return
        self.generic_visit(n)

    def visit_FunctionDef(self, n):
        if n.name in SKIPF or n.name.startswith('test'):
            return
        self.stack.append(n.name)
        for d in n.args.defaults:
            self.visit(d)
        for s in n.body:
            self.visit(s)
        self.stack.pop()

    def generic_visit(self, n):
        if self.stack and isinstance(n, (ast.Assign, ast.AugAssign)) or (self.stack and isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and 'print' not in ast.dump(n.value.func)):
            self.add(n, 'pass', 'del')
        super().generic_visit(n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        if isinstance(n.value, ast.Call) and getattr(n.value.func, 'id', '') == 'print':
            return
        self.generic_visit(n)

    def visit_Raise(self, n):
        return

    def visit_BinOp(self, n):
        if self.stack:
            o = type(n.op)
            if o in BIN and not isinstance(n.left, ast.Constant) or (o in BIN and isinstance(getattr(n.left, 'value', None), (int, float))):
                self.add(n, '(%s) %s (%s)' % (self.text(n.left), BIN[o], self.text(n.right)), 'op')
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if self.stack and isinstance(n.op, (ast.USub, ast.Not)):
            self.add(n, '(%s)' % self.text(n.operand), 'unary')
        self.generic_visit(n)

    def visit_Compare(self, n):
        if self.stack and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            for c in CMP[type(n.ops[0])]:
                self.add(n, '%s %s %s' % (self.text(n.left), c, self.text(n.comparators[0])), 'cmp')
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        if self.stack:
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            self.add(n, o.join('(%s)' % self.text(v) for v in n.values), 'bool')
        self.generic_visit(n)

    def visit_If(self, n):
        if self.stack:
            self.add(n.test, 'True', 'iftrue')
            self.add(n.test, 'False', 'iffalse')
        self.generic_visit(n)

    def visit_Constant(self, n):
        if not self.stack:
            return
        v = n.value
        if v is True or v is False:
            self.add(n, str(not v), 'const')
        elif isinstance(v, int):
            self.add(n, str(v + 1), 'const')
            if v != 0:
                self.add(n, '(%d)' % (v - 1), 'const')
        elif isinstance(v, float):
            self.add(n, repr(v * 1.02 if v else 0.01), 'const')

    def visit_Name(self, n):
        if self.stack and isinstance(n.ctx, ast.Load):
            for s in SW.get(n.id, []):
                self.add(n, s, 'name')

    def visit_Attribute(self, n):
        if self.stack and isinstance(n.ctx, ast.Load):
            for s in SW.get(n.attr, []):
                self.add(n, self.text(n.value) + '.' + s, 'attr')
        self.generic_visit(n)


def mutants(mod):
    src = open(os.path.join(REPO, mod)).read()
    v = V(src)
    v.visit(ast.parse(src))
    seen, res = set(), []
    for seg, new, why in v.out:
        k = (seg, new)
        if k in seen:
            continue
        seen.add(k)
        res.append((mod, seg, new, why))
    return src, res


def apply(src, seg, new):
    a, b, c, d = seg
    L = src.split('\n')
    head = L[a - 1].encode()[:b].decode()
    tail = L[c - 1].encode()[d:].decode()
    return '\n'.join(L[:a - 1] + [head + new + tail] + L[c:])


DRIVE = r'''
import sys, os, time
sys.dont_write_bytecode = True
verif, repo, props, scale, budget = sys.argv[1], sys.argv[2], sys.argv[3].split(), float(sys.argv[4]), float(sys.argv[5])
sys.path[:0] = [verif, repo]
import importlib, warnings, random
warnings.simplefilter('ignore')
t0 = time.time()
from wizmon import core
core.CASE_SECONDS = 20
for p in props:
    try:
        m = importlib.import_module('wizmon.props.' + p)
    except Exception as e:
        print('KILL', p, 'import', 0); sys.exit(0)
    cases = [(f, k) for f in m.FAMILIES for k in range(max(4, int(f.quick * scale)))]
    random.Random(1).shuffle(cases)
    for f, k in cases:
        c = core.run_case(m, p, f, int(os.environ.get('MSEED', '1')), k, 'quick')
        if c.violations:
            print('KILL', p, f.name, k, c.violations[0]['monitor']); sys.exit(0)
        if time.time() - t0 > budget:
            print('TIME', p); sys.exit(0)
print('ALIVE')
'''


def work(job):
    i, mod, seg, new, why, props, scale, budget = job
    w = mp.current_process()._identity[0] if mp.current_process()._identity else 0
    base = '/tmp/mut/w%d' % w
    if not os.path.isdir(base):
        os.makedirs(base)
        for t in ('wiz', 'coupling_examples'):
            shutil.copytree(os.path.join(REPO, t), os.path.join(base, t), ignore=shutil.ignore_patterns('__pycache__'))
    src = open(os.path.join(REPO, mod)).read()
    dst = os.path.join(base, mod)
    msrc = apply(src, seg, new)
    r = {'i': i, 'mod': mod, 'line': seg[0], 'seg': seg, 'new': new[:200], 'why': why, 'src': src.split('\n')[seg[0] - 1].strip()[:140]}
    try:
        compile(msrc, dst, 'exec')
    except SyntaxError:
        r['res'] = 'SYNTAX'
        return r
    open(dst, 'w').write(msrc)
    env = dict(os.environ, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1')
    try:
        o = subprocess.run(['/opt/venv/bin/python', '/tmp/mut/drive.py', HERE, base, props, str(scale), str(budget)], capture_output=True, text=True, timeout=budget + 60, env=env, cwd='/tmp')
        t = [l for l in o.stdout.split('\n') if l.startswith(('KILL', 'ALIVE', 'TIME'))]
        r['res'] = t[-1] if t else 'CRASH ' + o.stderr[-300:]
    except subprocess.TimeoutExpired:
        r['res'] = 'TIMEOUT'
    open(dst, 'w').write(src)
    return r


def main():
    if sys.argv[1] == 'list':
        for m in MODS:
            s, r = mutants(m)
            print(m, len(r))
        return
    out = sys.argv[2]
    mods = [m for m in MODS if len(sys.argv) < 4 or any(a in m for a in sys.argv[3:])]
    open('/tmp/mut/drive.py', 'w').write(DRIVE)
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d['mod'], tuple(d['seg']), d['new']))
    if os.environ.get('MFROM'):            # mutants an earlier campaign has already killed
        for l in open(os.environ['MFROM']):
            d = json.loads(l)
            if d['res'].startswith(('KILL', 'SYNTAX')):
                done.add((d['mod'], tuple(d['seg']), d['new']))
    jobs = []
    for m in mods:
        s, r = mutants(m)
        for (mod, seg, new, why) in r:
            if (mod, seg, new[:200]) not in done:
                jobs.append((len(jobs), mod, seg, new, why, os.environ.get('MPROPS', MODS[mod]), float(os.environ.get('MSCALE', '.15')), float(os.environ.get('MBUDGET', '90'))))
    random.Random(3).shuffle(jobs)
    print(len(jobs), 'mutants')
    with mp.Pool(int(os.environ.get('MJOBS', '8'))) as pool, open(out, 'a') as f:
        for r in pool.imap_unordered(work, jobs):
            f.write(json.dumps(r) + '\n')
            f.flush()


if __name__ == '__main__':
    main()
