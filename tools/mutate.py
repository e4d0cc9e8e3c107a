#!/usr/bin/env python3
"""Mutation campaign over the repository's sources (development aid; no check uses it).

usage: mutate.py gen OUT.json            list single-site mutants
       mutate.py tests OUT.json [-j N]   run the repository's tests on each (in scratch copies), record survivors
       mutate.py checks OUT.json [-j N]  run the checks related to the mutated file on the survivors
"""
import warnings; warnings.simplefilter("ignore")
import argparse, ast, json, os, pathlib, shutil, subprocess, sys, tempfile, threading, random
from concurrent.futures import ThreadPoolExecutor
V = pathlib.Path(__file__).resolve().parent.parent
PY = '/opt/venv/bin/python'
FILES = ['peano/_bounded_items_heap.py', 'peano/_cube_path_trees.py', 'peano/_sat_adapters.py', 'peano/base_maps.py', 'peano/curves.py',
         'peano/dilation.py', 'peano/gates.py', 'peano/paths.py', 'peano/subsets.py', 'peano/utils.py', 'search.py', 'plots.py']
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<'], ast.Gt: ['>=', '<'], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.In: ['not in'],
       ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['+'], ast.FloorDiv: ['*'], ast.Div: ['*'], ast.Mod: ['*'], ast.Pow: ['*']}
NAMES = {'min': 'max', 'max': 'min', 'all': 'any', 'any': 'all', 'sorted': 'list', 'reversed': 'list', 'append': 'insert0'}


class Gen(ast.NodeVisitor):
    def __init__(self, src):
        self.src, self.out, self.fn = src, [], []
        self.lines = src.splitlines(keepends=True)
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l.encode()))
        self.b = src.encode()

    def span(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, b = self.span(n)
        return self.b[a:b].decode()

    def add(self, n, new, op):
        a, b = self.span(n)
        self.out.append({'line': n.lineno, 'fn': '.'.join(self.fn), 'a': a, 'b': b, 'old': self.b[a:b].decode(), 'new': new, 'op': op})

    def visit_ClassDef(self, n):
        self.fn.append(n.name); self.body(n.body); self.fn.pop()

    def visit_FunctionDef(self, n):
        if n.name in ('__repr__', 'print_log'):
            return
        self.fn.append(n.name)
        for d in n.args.defaults + n.args.kw_defaults:
            if d is not None: self.visit(d)
        self.body(n.body)
        self.fn.pop()

    def body(self, stmts):
        for i, s in enumerate(stmts):
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            t = self.text(s)
            if 'logging' in t.split('(')[0] or t.startswith(('import', 'from', 'raise')):
                continue
            if self.fn and isinstance(s, (ast.Expr, ast.AugAssign, ast.Continue, ast.Break)) and not t.startswith('print'):
                self.add(s, 'pass', 'del')
            if self.fn and isinstance(s, ast.Assign) and isinstance(s.targets[0], (ast.Attribute, ast.Subscript)):
                self.add(s, 'pass', 'del')
            self.visit(s)

    def generic_visit(self, n):
        for f, v in ast.iter_fields(n):
            if f in ('body', 'orelse', 'finalbody') and isinstance(v, list):
                self.body(v)
            elif f in ('annotation', 'returns'):
                pass
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, ast.AST): self.visit(x)
            elif isinstance(v, ast.AST):
                self.visit(v)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            l, r = self.text(n.left), self.text(n.comparators[0])
            for o in CMP.get(type(n.ops[0]), []):
                self.add(n, '(%s %s %s)' % (l, o, r), 'cmp')
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if not (isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            for o in BIN.get(type(n.op), []):
                self.add(n, '(%s %s %s)' % (self.text(n.left), o, self.text(n.right)), 'bin')
            if isinstance(n.op, (ast.Mult, ast.MatMult)) :
                self.add(n, '(%s * %s)' % (self.text(n.right), self.text(n.left)), 'swap')
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        o = ' or ' if isinstance(n.op, ast.And) else ' and '
        self.add(n, '(' + o.join('(%s)' % self.text(v) for v in n.values) + ')', 'bool')
        for i in range(len(n.values)):
            rest = n.values[:i] + n.values[i + 1:]
            o2 = ' and ' if isinstance(n.op, ast.And) else ' or '
            self.add(n, '(' + o2.join('(%s)' % self.text(v) for v in rest) + ')', 'drop')
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.Not, ast.Invert, ast.USub)):
            self.add(n, '(%s)' % self.text(n.operand), 'un')
        self.generic_visit(n)

    def visit_Constant(self, n):
        if isinstance(n.value, bool):
            self.add(n, str(not n.value), 'const')
        elif isinstance(n.value, int):
            self.add(n, str(n.value + 1), 'const')
            if n.value > 0: self.add(n, str(n.value - 1), 'const')

    def cond(self, n):
        self.add(n.test, 'True', 'cond'); self.add(n.test, 'False', 'cond')

    def visit_If(self, n):
        self.cond(n); self.generic_visit(n)

    def visit_IfExp(self, n):
        self.cond(n); self.generic_visit(n)

    def visit_comprehension(self, n):
        for c in n.ifs: self.add(c, 'True', 'cond')
        self.generic_visit(n)

    def visit_JoinedStr(self, n):
        pass

    def visit_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id in NAMES and n.func.id != 'append':
            self.add(n.func, NAMES[n.func.id], 'name')
        if len(n.args) == 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args) and isinstance(n.func, (ast.Name, ast.Attribute)) \
                and self.text(n.func) not in ('isinstance', 'range', 'zip', 'super', 'getattr'):
            a, b = self.span(n.args[0])[0], self.span(n.args[1])[1]
            self.out.append({'line': n.lineno, 'fn': '.'.join(self.fn), 'a': a, 'b': b, 'old': self.b[a:b].decode(), 'new': self.text(n.args[1]) + ', ' + self.text(n.args[0]), 'op': 'args'})
        self.generic_visit(n)


def gen(out):
    ms = []
    for f in FILES:
        src = pathlib.Path('/repo', f).read_text()
        g = Gen(src); g.body(ast.parse(src).body)
        seen = set()
        for m in g.out:
            new = g.b[:m['a']] + m['new'].encode() + g.b[m['b']:]
            if new in seen or new == g.b: continue
            try: ast.parse(new)
            except SyntaxError: continue
            seen.add(new)
            m['file'] = f; m['id'] = '%s:%d:%d:%s' % (f, m['line'], m['a'], m['new'][:30])
            ms.append(m)
    out.write_text(json.dumps(ms, indent=0))
    print(len(ms), {f: sum(m['file'] == f for m in ms) for f in FILES})


def sh(cmd, cwd, timeout, env=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', **(env or {}))
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.wait()
        return 'timeout', ''


class Pool:
    def __init__(self): self.free, self.lock, self.all = [], threading.Lock(), []
    def get(self):
        with self.lock:
            if self.free: return self.free.pop()
        d = pathlib.Path(tempfile.mkdtemp(prefix='mutw_')); r = d / 'repo'
        shutil.copytree('/repo', r, symlinks=True, ignore=shutil.ignore_patterns('__pycache__', '.git'))
        with self.lock: self.all.append(d)
        return r
    def put(self, r):
        with self.lock: self.free.append(r)
    def close(self):
        for d in self.all: shutil.rmtree(d)


def apply(r, m):  # one mutated file in a scratch copy
    src = pathlib.Path('/repo', m['file']).read_bytes()
    (r / m['file']).write_bytes(src[:m['a']] + m['new'].encode() + src[m['b']:])


ORDER = ['tests/test_base_maps.py', 'tests/test_utils.py', 'tests/test_subsets.py', 'tests/test_cube_path_trees.py', 'tests/test_gates.py', 'tests/test_curves.py', 'tests/test_paths.py', 'tests/test_sat_adapters.py', 'tests/test_dilation.py']
MAP = {'peano/_bounded_items_heap.py': 'C19 C32', 'peano/_cube_path_trees.py': 'C20 C32', 'peano/_sat_adapters.py': 'C18 C32',
       'peano/base_maps.py': 'C01 C02 C03 C04 C05 C25', 'peano/curves.py': 'C05 C06 C07 C08 C09 C10 C11 C03 C04 C12 C31 C18', 'peano/dilation.py': 'C18 C29 C13 C14 C15 C16 C17',
       'peano/gates.py': 'C23', 'peano/paths.py': 'C21 C22 C09 C03 C04 C32', 'peano/subsets.py': 'C24 C25 C03 C04 C22 C02', 'peano/utils.py': 'C26 C07 C13 C21', 'search.py': 'C27', 'plots.py': 'C28'}


HINT = [('Junction', 'C11 C12'), ('junction', 'C11 C12'), ('PathFuzzy', 'C10 C31'), ('forget', 'C10'), ('possible', 'C10'), ('specify', 'C10 C31'), ('allowed', 'C10'), ('face', 'C08'), ('limit', 'C07'),
        ('entrance', 'C07'), ('check', 'C09'), ('get_paths', 'C09'), ('subdivision', 'C06'), ('deep', 'C06'), ('compose', 'C06'), ('parse', 'C03'), ('__str__', 'C03'), ('__eq__', 'C04'), ('__hash__', 'C04'), ('__lt__', 'C25'),
        ('bisect', 'C15'), ('sequence', 'C17'), ('fuzzy', 'C16'), ('regular', 'C13 C14'), ('argmul', 'C24'), ('std', 'C25'), ('constraint', 'C02'), ('gen_base', 'C02')]


def order(m):
    base = MAP[m['file']].split()
    hint = [] if 'paths' in m['file'] else [c for k, cs in HINT if k in m['fn'] for c in cs.split() if c in base]
    cnt = {}
    for o in ALL:
        if o.get('caught') in base and o['file'] == m['file']:
            cnt[o['caught']] = cnt.get(o['caught'], 0) + (10 if o['fn'] == m['fn'] else 0.01)
    if hint:
        base = sorted(set(hint), key=base.index)
    return sorted(base, key=lambda c: (-(cnt.get(c, 0)) - (5 if c in hint else 0), base.index(c)))


ALL = []


def run(out, j, stage, only):
    ms = json.loads(out.read_text()); ALL[:] = ms; pool = Pool(); lock = threading.Lock(); done = [0]
    skip_tests = ('search.py', 'plots.py')
    if stage == 'tests':
        todo = [m for m in ms if 'tests' not in m and m.get('missed')]
    else:
        todo = [m for m in ms if m.get('tests', 0) == 0 and m.get('caught') is None and not m.get('missed') and 'note' not in m]
        random.Random(0).shuffle(todo)
    if only: todo = [m for m in todo if only in m['id']]
    print(len(todo), 'to do', flush=True)

    def one(m):
        r = pool.get()
        try:
            apply(r, m)
            if stage == 'tests':
                if m['file'] in skip_tests: m['tests'] = 0
                else:
                    rc, o = sh([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider'] + (ORDER if 'dilation' not in m['file'] else ORDER[-1:]), r, 300)
                    m['tests'] = rc
            else:
                for c in order(m):
                    if c in m.get('checks', {}): continue
                    rc, o = sh([PY, str(V / 'run.py'), c, '--jobs', '1'], V, 1500, {'PEANO_REPO': str(r), 'VERIF_SEED': '1', 'VERIF_TIER': 'quick', 'VERIF_NO_EVIDENCE': '1'})
                    m.setdefault('checks', {})[c] = rc
                    if rc != 0:
                        m['caught'] = c if rc == 1 else '%s(%s)' % (c, rc); break
                m['missed'] = not m.get('caught')
        finally:
            shutil.copyfile(pathlib.Path('/repo', m['file']), r / m['file'])
            pool.put(r)
        with lock:
            done[0] += 1
            if stage != 'tests' and not m.get('caught'): print('MISS', m['id'], '| %s | %s -> %s' % (m['fn'], m['old'][:80], m['new'][:80]), flush=True)
            if done[0] % 20 == 0:
                tmp = out.with_suffix('.tmp'); tmp.write_text(json.dumps(ms, indent=0)); tmp.replace(out)
                print(done[0], 'done', flush=True)
    try:
        with ThreadPoolExecutor(j) as ex: list(ex.map(one, todo))
    finally:
        out.write_text(json.dumps(ms, indent=0)); pool.close()
    print('survive tests:', sum(m.get('tests') == 0 for m in ms), 'caught:', sum(bool(m.get('caught')) for m in ms))


if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('stage'); ap.add_argument('out', type=pathlib.Path); ap.add_argument('-j', type=int, default=8); ap.add_argument('--only')
    a = ap.parse_args()
    gen(a.out) if a.stage == 'gen' else run(a.out, a.j, a.stage, a.only)
