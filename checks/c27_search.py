"""The search program and the proof script, run as programs; their output is judged against brute-forced class minima."""
from fractions import Fraction as F
import itertools
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from vlib import ref, gen, classes
from vlib.gate_candidates import CANDIDATES
from checks.c03_notation import read_chain, read_spec

PROPERTY = 'C27'
RULE = ('command lines over the documented options (configuration, gates, gates file, facet-gated, metric, bounds, tolerances, cache size, '
        'cube distance, grouping, verbosity) for classes whose minimal dilation is known from brute force by the reference model; '
        'distinct = command lines')
MIN_EVENTS = {'run': 60, 'bounds': 60, 'example_curve': 60, 'not_found': 5, 'gate_list': 4, 'grouped': 6, 'gates_file': 6, 'tight': 5}
CPU_BUDGET = 600
ASSUMPTIONS = ['class minima come from vlib/minima.json, made by tools/class_minima.py with the reference model only (they agree with the '
               "repository's published tables); class 3x3 diagonal is taken from the published table"]

REPO = os.environ.get('PEANO_REPO', '/repo')
MINIMA = {n: {m: (F(a), F(b)) for m, (a, b) in d.items()}
          for n, d in json.load(open(os.path.join(os.path.dirname(__file__), '..', 'vlib', 'minima.json'))).items()}
LIGHT = ['hil', 'b1', 'b3', 'b4', 'b6', 'b7', 'b8', 'bo', 'c4', 'E', 'Fg', 'D']
HEAVY = ['s3', 'b5', 'c5']
TIGHT = [('hil', 'l2'), ('b1', 'l1'), ('b1', 'l2_squared'), ('b4', 'linf'), ('c4', 'l1'), ('c4', 'l2')]
TIGHT_MORE = [('b3', 'l1'), ('b6', 'l1'), ('b7', 'l2'), ('b8', 'linf'), ('bo', 'l1'), ('b1', 'l2'), ('c4', 'l2_squared'), ('E', 'linf'), ('Fg', 'l1')]
SLOW = ['c3', 'C']        # thorough only, coarse tolerance


def plan(tier, seed):
    out = [{'kind': 'errors'}, {'kind': 'ye'}, {'kind': 'run_search'}]
    out += [{'kind': 'gates', 'conf': c} for c in ([2, 2, 1, 0], [2, 3, 1, 0], [2, 4, 1, 0], [2, 2, 2, 1], [2, 4, 2, 1], [2, 2, 3, 1], [3, 2, 1, 1], [3, 2, 1, 0])]
    out += [{'kind': 'config', 'i': i} for i in range(12 if tier == 'quick' else 60)]
    out += [{'kind': 'class', 'name': n, 'i': i} for n in LIGHT for i in range(5 if tier == 'quick' else 80)]
    out += [{'kind': 'class', 'name': n, 'i': i} for n in HEAVY for i in range(1 if tier == 'quick' else 20)]
    out += [{'kind': 'strong', 'i': i} for i in range(10 if tier == 'quick' else 60)]
    out += [{'kind': 'tight', 'name': n, 'metric': m, 'i': i} for n, m in TIGHT + ([] if tier == 'quick' else TIGHT_MORE) for i in range(1 if tier == 'quick' else 4)]
    out += [{'kind': 'multi', 'i': i} for i in range(14 if tier == 'quick' else 150)]
    out += [{'kind': 'cdist', 'i': i} for i in range(6 if tier == 'quick' else 30)]
    if tier == 'thorough':
        out += [{'kind': 'class', 'name': n, 'i': i} for n in SLOW for i in range(3)]
        out += [{'kind': 'ye_proto'}]
    return out


def weight(case):
    return {'ye_proto': 100, 'config': 5, 'cdist': 4}.get(case['kind'], 0) + (10 if case.get('name') in HEAVY + SLOW else 0)


def program(ctx, argv, scratch):
    ctx.seen('run')
    ctx.state(argv)
    env = dict(os.environ, PYTHONPATH='')
    try:
        r = subprocess.run([sys.executable, '-W', 'ignore'] + argv, cwd=scratch, env=env, capture_output=True, text=True, timeout=600)
    except subprocess.TimeoutExpired:
        ctx.fail('the program does not finish within 600 s (normally a few seconds)', argv=argv)
    return r.returncode, r.stdout, r.stderr


def search(ctx, args, scratch, ok=True):
    argv = [os.path.join(REPO, 'search.py')] + [str(a) for a in args]
    rc, out, err = program(ctx, argv, scratch)
    if ok:
        ctx.check(rc == 0, 'search.py exits with status %d' % rc, args=args, stderr=err[-800:])
    return rc, out, err


def gate_text(g, rng=None):
    s = '->'.join('(' + ','.join(str(c) for c in p) + ')' for p in g)
    if rng is not None and rng.random() < 0.3:
        s = s.replace('->', ' -> ')
    return s


def tuple_text(gates, rng=None):
    return rng.choice(['|', ' | ']).join(gate_text(g, rng) for g in gates) if rng else '|'.join(map(gate_text, gates))


def parse_blocks(ctx, out, args):
    """Result blocks of the output: None for NOT FOUND, else (lo, up, [curve texts], raw)."""
    blocks = []
    for part in out.split('======')[1:]:
        ctx.check('GENERATOR' in part, 'a result block names its generator', args=args, block=part[:300])
        if 'NOT FOUND' in part:
            blocks.append(None)
            continue
        vals = {}
        for k in ('lo', 'up'):
            m = re.search(r"'%s':\s*Fraction\((\d+),\s*(\d+)\)" % k, part)
            ctx.check(m, 'a result block has the bound %s' % k, args=args, block=part[:600])
            vals[k] = F(int(m.group(1)), int(m.group(2)))
        for k, name in (('lo', 'lower'), ('up', 'upper')):
            m = re.search(r'%s bound \(float\):\s*([-+0-9.e]+)' % name, part)
            if m:
                ctx.check(abs(float(m.group(1)) - float(vals[k])) <= 1e-9 * abs(float(vals[k])), 'the float bound is the exact bound', args=args, text=m.group(0), exact=vals[k])
        head, _, tail = part.partition('Curves:')
        ctx.check(_, 'a result block lists curves', args=args, block=part[:600])
        curves, cur = [], []
        for line in tail.splitlines():
            if re.match(r'@\d+:', line.strip()):
                cur.append(line.strip())
            elif cur:
                curves.append(cur)
                cur = []
        if cur:
            curves.append(cur)
        blocks.append((vals['lo'], vals['up'], curves, part))
    return blocks


def read_curve(ctx, lines, dim, div, args):
    pats = []
    for k, line in enumerate(lines):
        m = re.match(r'@(\d+):\s*(.*?)\s*\|\s*(.*)$', line)
        ctx.check(m and int(m.group(1)) == k, 'a printed pattern has its number, prototype and specs', args=args, line=line)
        cubes = read_chain(m.group(2), dim)
        specs = [read_spec(t) for t in m.group(3).split(',')]
        ctx.check(len(cubes) == len(set(cubes)) == len(specs) == div ** dim and all(0 <= v < div for c in cubes for v in c),
                  'a printed pattern visits each cube once', args=args, line=line)
        ctx.check(all(0 <= p < len(lines) and len(i[0]) == dim for i, p in specs), 'printed specs are valid', args=args, line=line)
        pats.append((cubes, tuple(specs)))
    return ref.RefCurve(dim, div, pats)


def judge(ctx, block, dim, div, classes_, metric, tol, args, max_cdist=None, bounded=False):
    """classes_: list of (gates, (lo, up) of the class minimum)."""
    GLO, GUP = min(m[0] for _, m in classes_), min(m[1] for _, m in classes_)
    ctx.check(block is not None, 'NOT FOUND is printed although curves within the bound exist', args=args)
    lo, up, curves, raw = block
    w = dict(args=args, lo=lo, up=up, minimum=(str(GLO), str(GUP)))
    ctx.check(lo <= GUP, 'the printed lower bound exceeds the minimum', **w)
    ctx.check(up >= GLO, 'the printed upper bound is below the minimum', **w)
    ctx.check(up <= lo * F(tol + 1, tol), 'the printed bounds are wider than the tolerance', **w)
    ctx.seen('bounds')
    ctx.check(curves, 'no example curve is printed', **w)
    good = False
    allowed = {tuple(sorted(ref.link_std(g) for g in gates)) for gates, _ in classes_}
    for text in curves:
        c = read_curve(ctx, text, dim, div, args)
        ctx.check(c.is_continuous(), 'a printed curve is not continuous', curve=text, **w)
        g = tuple(sorted(ref.link_std(x) for x in c.gates()))
        ctx.check(g in allowed, 'a printed curve has other gates', curve=text, gates=g, **w)
        if max_cdist is not None:
            for cubes, _ in c.pats:
                ctx.check(all(sum(abs(x - y) for x, y in zip(a, b)) <= max_cdist for a, b in zip(cubes, cubes[1:])),
                          'a printed curve violates the cube distance', curve=text, **w)
        if not good:
            good = ref.dilation_enclosure(c, metric, F(1, 400), 6000, pts=ref.exact_points(c))[0] <= up
        ctx.seen('example_curve')
    ctx.check(good or bounded, 'no printed curve is within the upper bound', **w)
    m = re.search(r"'gates_count':\s*(\d+)", raw)
    return int(m.group(1)) if m else None


def options(rng, light=True):
    """Random options that must not change the meaning of the result; returns (args, tolerance)."""
    args, tol = [], 1000
    if not light or rng.random() < 0.6:
        tol = rng.choice([20, 50, 100, 200] if not light else [10, 30, 100, 300, 1000])
        args += ['--rel-tol-inv', tol]
    if rng.random() < 0.3:
        args += ['--rel-tol-inv_mult', rng.choice([2, 3, 10])]
    if rng.random() < 0.3:
        args += ['--cache-max-size', rng.choice([0, 1, 50, 100000])]
    if rng.random() < 0.3:
        args += [rng.choice(['-v', '--verbose'])]
    if rng.random() < 0.2:
        args += ['--finish-max-count', rng.choice([1, 10, 1000, 10 ** 7])]
    return args, tol


def metrics(name):
    return sorted(MINIMA[name])


def run_case(ctx, case):
    scratch = tempfile.mkdtemp(prefix='peano_c27_')
    try:
        globals()['k_' + case['kind']](ctx, case, ctx.rng, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def conf_args(rng, dim, div, mult):
    a = [['--dim', dim], ['--div', div], ['--mult', mult]]
    rng.shuffle(a)
    return [x for p in a for x in p]


def k_class(ctx, case, rng, scratch):
    name = case['name']
    dim, div, gates, _ = gen.config(name)
    metric = rng.choice(metrics(name))
    lo, up = MINIMA[name][metric]
    extra, tol = options(rng, name in LIGHT)
    if name in SLOW:
        metric, (lo, up) = 'linf', MINIMA[name]['linf']
        extra, tol = extra + ['--rel-tol-inv', 10], 10
    if metric == 'l2_squared' and tol > 300:
        extra, tol = extra + ['--rel-tol-inv', 100], 100
    shown = [ref.link_map(rng.choice(list(ref.iso_all(dim))), g) if rng.random() < 0.4 else g for g in gates]
    if rng.random() < 0.3:
        rng.shuffle(shown)
    args = conf_args(rng, dim, div, len(gates)) + ['--metric', metric] + extra
    if rng.random() < 0.5:
        fn = os.path.join(scratch, 'gates.txt')
        with open(fn, 'w') as fh:
            fh.write(tuple_text(shown, rng) + rng.choice(['\n', '']))
        args += ['--gates-file', rng.choice([fn, 'gates.txt'])]
        ctx.seen('gates_file')
    else:
        args += ['--gates', tuple_text(shown, rng)]
    bounded = rng.random() < 0.35
    if bounded:
        b = up * rng.choice([F(101, 100), F(3, 2), 3])
        b = F(int(b * 20) + 1, 20)
        args += ['--upper-bound', str(b)]
    if rng.random() < 0.3:
        args += ['--group-by-gates']
    rc, out, err = search(ctx, args, scratch)
    blocks = parse_blocks(ctx, out, args)
    ctx.equal(len(blocks), 1, 'one result for one gate tuple', args=args, out=out[:400])
    n = judge(ctx, blocks[0], dim, div, [(gates, (lo, up))], metric, tol, args, bounded=bounded)
    ctx.check(n in (None, 1), 'gates_count is the number of gate tuples', args=args, got=n)
    ctx.sample({'args': [str(a) for a in args if 'peano_c27' not in str(a)], 'bounds': [float(blocks[0][0]), float(blocks[0][1])], 'minimum': [float(lo), float(up)]})


def k_multi(ctx, case, rng, scratch):
    """Several gate tuples from a file, grouped or together."""
    fam = rng.choice([['b1', 'b3', 'b4', 'b6', 'b7', 'b8', 'bo'], ['E', 'Fg', 'D'], ['c4', 'c4', 'bo'][:1] + ['c4']])
    names = [rng.choice(fam) for _ in range(rng.choice([2, 3]))]
    dim, div = gen.config(names[0])[:2]
    metric = rng.choice([m for m in metrics(names[0]) if m != 'l2_squared' or dim == 3])
    mult = len(gen.config(names[0])[2])
    fn = os.path.join(scratch, 'g')
    with open(fn, 'w') as fh:
        for n in names:
            fh.write(tuple_text(gen.config(n)[2], rng) + '\n')
    extra, tol = options(rng)
    if tol > 100:
        extra, tol = extra + ['--rel-tol-inv', 100], 100
    grouped = case['i'] % 2 == 0
    bounded = rng.random() < 0.5
    if bounded:
        # an a-priori bound that every listed class satisfies
        b = max(MINIMA[n][metric][1] for n in names) * rng.choice([F(11, 10), F(3, 2), 2])
        extra = extra + ['--upper-bound', str(F(int(b * 20) + 1, 20))]
        ctx.seen('grouped_bounded' if grouped else 'together_bounded')
    args = conf_args(rng, dim, div, mult) + ['--metric', metric, '--gates-file', fn] + extra + (['--group-by-gates'] if grouped else [])
    rc, out, err = search(ctx, args, scratch)
    ctx.seen('gates_file')
    blocks = parse_blocks(ctx, out, args)
    if grouped:
        ctx.seen('grouped')
        ctx.equal(len(blocks), len(names), 'one result per gate tuple when grouped', args=args)
        for b, n in zip(blocks, names):
            k = judge(ctx, b, dim, div, [(gen.config(n)[2], MINIMA[n][metric])], metric, tol, args + [n], bounded=bounded)
            ctx.check(k in (None, len(names)), 'gates_count is the number of gate tuples', args=args, got=k)
    else:
        ctx.equal(len(blocks), 1, 'one result for all gates when not grouped', args=args)
        k = judge(ctx, blocks[0], dim, div, [(gen.config(n)[2], MINIMA[n][metric]) for n in names], metric, tol, args, bounded=bounded)
        ctx.check(k in (None, len(names)), 'gates_count is the number of gate tuples', args=args, got=k)


DIAG3 = {'l1': F(10), 'l2': F(17, 3), 'linf': F(16, 3)}       # published table, 3x3 diagonal


def k_config(ctx, case, rng, scratch):
    """Whole configurations, gates generated by the program."""
    which = ['hilbert', 'facet2', 'facet3', 'hilbert', 'both3', 'facet2'][case['i'] % 6]
    extra, tol = options(rng)
    if which == 'hilbert':
        dim, div, mult, flag, cl = 2, 2, 1, [], ['hil']
        metric = rng.choice(['l1', 'l2', 'linf', 'l2_squared'])
    elif which == 'facet2':
        dim, div, mult, flag, cl = 2, 2, 2, ['--facet-gated'], ['bo']
        metric = rng.choice(['l1', 'l2', 'linf'])
    elif which == 'facet3':
        dim, div, mult, flag, cl = 3, 2, 1, ['--facet-gated'], ['Fg']
        metric = rng.choice(['l1', 'linf', 'l2_squared'])
    else:
        dim, div, mult, flag, cl = 2, 3, 1, [], ['s3', None]
        metric = rng.choice(['l2', 'linf'])
    if tol > 300 or which == 'both3':
        extra, tol = extra + ['--rel-tol-inv', 50], 50
    grouped = rng.random() < 0.5
    args = conf_args(rng, dim, div, mult) + flag + ['--metric', metric] + extra + (['--group-by-gates'] if grouped else [])
    rc, out, err = search(ctx, args, scratch)
    blocks = parse_blocks(ctx, out, args)
    known = []
    for n in cl:
        if n is None:
            v = DIAG3[metric]
            known.append((gen.LL('(0,0)->(1,1)'), (v, v)))
        else:
            known.append((gen.config(n)[2], MINIMA[n][metric]))
    if grouped:
        ctx.seen('grouped')
        ctx.equal(len(blocks), len(known), 'one result per gate tuple when grouped', args=args)
        for b in blocks:
            # blocks are in generation order, which is not specified: identify the class by the printed curve
            ctx.check(b is not None and b[2], 'a result is printed for each gate tuple', args=args)
            g = tuple(sorted(ref.link_std(x) for x in read_curve(ctx, b[2][0], dim, div, args).gates()))
            mine = [k for k in known if tuple(sorted(ref.link_std(x) for x in k[0])) == g]
            ctx.check(len(mine) == 1, 'a printed curve has gates of the configuration', args=args, gates=g)
            judge(ctx, b, dim, div, mine, metric, tol, args)
    else:
        ctx.equal(len(blocks), 1, 'one result when not grouped', args=args)
        judge(ctx, blocks[0], dim, div, known, metric, tol, args)


def k_cdist(ctx, case, rng, scratch):
    name = ['hil', 'b3', 's3', 'b1', 'E', 'C'][case['i'] % 6]
    dim, div, gates, _ = gen.config(name)
    metric = rng.choice(['linf', 'l1'])
    cd = 1 if name not in ('E', 'C') else 2
    n = classes.size(dim, div, gates, cd)
    if n > 300:
        name = 'hil'
        dim, div, gates, _ = gen.config(name)
        cd, n = 1, classes.size(dim, div, gates, 1)
    args = conf_args(rng, dim, div, len(gates)) + ['--metric', metric, '--gates', tuple_text(gates), '--max-cdist', cd, '--rel-tol-inv', 50]
    if n == 0:
        rc, out, err = search(ctx, args, scratch, ok=False)
        ctx.check('lower bound (float)' not in out, 'a result is printed for an empty class', args=args, out=out[-400:])
        ctx.seen('empty_class')
        return
    lo, up = classes.minimum(dim, div, gates, metric, cd, F(1, 200))
    rc, out, err = search(ctx, args, scratch)
    blocks = parse_blocks(ctx, out, args)
    ctx.equal(len(blocks), 1, 'one result', args=args)
    judge(ctx, blocks[0], dim, div, [(gates, (lo, up))], metric, 50, args, max_cdist=cd)
    ctx.seen('cdist')


def k_strong(ctx, case, rng, scratch):
    name = rng.choice(LIGHT)
    dim, div, gates, _ = gen.config(name)
    metric = rng.choice(metrics(name))
    b = MINIMA[name][metric][0] * rng.choice([F(1, 10), F(1, 4), F(2, 5)])
    b = max(F(1, 2), F(int(b * 6), 6))
    args = conf_args(rng, dim, div, len(gates)) + ['--metric', metric, '--gates', tuple_text(gates), '--upper-bound', str(b)]
    args += options(rng)[0]
    rc, out, err = search(ctx, args, scratch)
    blocks = parse_blocks(ctx, out, args)
    ctx.check(blocks == [None], 'NOT FOUND is printed when the a-priori bound is too strong', args=args, out=out[-600:])
    ctx.seen('not_found')


def k_tight(ctx, case, rng, scratch):
    """A-priori bounds with long numerators and denominators, just above the minimum, and a fine tolerance."""
    name = case['name']
    dim, div, gates, _ = gen.config(name)
    metric = case['metric']
    glo, gup = MINIMA[name][metric]
    base = conf_args(rng, dim, div, len(gates)) + ['--metric', metric, '--gates', tuple_text(gates)]
    big = rng.randrange(10 ** 8, 10 ** 9)
    args = base + ['--rel-tol-inv', 10 ** 5, '--upper-bound', str(gup + F(1, big))]
    blocks = parse_blocks(ctx, search(ctx, args, scratch)[1], args)
    judge(ctx, blocks[0], dim, div, [(gates, (glo, gup))], metric, 10 ** 5, args, bounded=True)
    ctx.check(blocks[0][1] <= gup + F(1, big), 'the printed upper bound exceeds the a-priori bound', args=args, up=blocks[0][1])
    # the printed curve bounds the minimum from above
    best = None
    for text in blocks[0][2][:1]:
        c = read_curve(ctx, text, dim, div, args)
        u = ref.dilation_enclosure(c, metric, F(1, 10 ** 5), 20000, pts=ref.exact_points(c))[1]
        best = u if best is None else min(best, u)
    b = best * (1 + F(1, big))
    args = base + ['--rel-tol-inv', 10 ** 6, '--upper-bound', str(b)]
    blocks = parse_blocks(ctx, search(ctx, args, scratch)[1], args)
    judge(ctx, blocks[0], dim, div, [(gates, (glo, best))], metric, 10 ** 6, args, bounded=True)
    ctx.check(blocks[0][1] <= b, 'the printed upper bound exceeds the a-priori bound', args=args, up=blocks[0][1], bound=b)
    ctx.seen('tight')


def k_gates(ctx, case, rng, scratch):
    dim, div, mult, facet = case['conf']
    args = conf_args(rng, dim, div, mult) + ['--output-gates'] + (['--facet-gated'] if facet else [])
    if rng.random() < 0.5:
        args += ['--metric', 'linf']
    rc, out, err = search(ctx, args, scratch)
    got = []
    for line in out.splitlines():
        if line.strip():
            got.append(tuple(sorted(tuple(gen.P(p) for p in g.split('->')) for g in line.split('|'))))
    want = sorted(tuple(sorted(gen.LL(t))) for t in CANDIDATES[(dim, div, mult, facet)])
    ctx.equal(sorted(got), want, 'the printed gate list is the list of gates of the configuration', args=args)
    ctx.seen('gate_list')


def k_errors(ctx, case, rng, scratch):
    rc, out, err = search(ctx, ['--dim', 3, '--div', 2, '--mult', 1, '--metric', 'l2', '--gates', '(0,1/3,1/3)->(2/3,1/3,0)'], scratch, ok=False)
    ctx.check(rc != 0 and 'lower bound' not in out, 'l2 in an odd dimension is refused', rc=rc, out=out[-300:])
    rc, out, err = search(ctx, ['--dim', 2, '--div', 2, '--mult', 1], scratch, ok=False)
    ctx.check(rc != 0 and 'lower bound' not in out, 'a search without a metric is refused', rc=rc, out=out[-300:])
    rc, out, err = search(ctx, ['--dim', 2, '--div', 2, '--mult', 2, '--metric', 'l1', '--gates', '(0,0)->(0,1)'], scratch, ok=False)
    ctx.check(rc != 0 and 'lower bound' not in out, 'a gate tuple of another multiplicity is refused', rc=rc, out=out[-300:])
    # the gates on the command line are printed back
    rc, out, err = search(ctx, ['--dim', 2, '--div', 2, '--mult', 2, '--output-gates', '--gates', '(0,0)->(0,1) | (0,1/2)->(1,1/2)'], scratch)
    got = [tuple(tuple(gen.P(p) for p in g.split('->')) for g in line.split('|')) for line in out.splitlines() if line.strip()]
    ctx.equal(got, [gen.LL('(0,0)->(0,1)|(0,1/2)->(1,1/2)')], 'given gates are printed')
    ctx.seen('errors')


YE = F(408, 73)      # the published dilation of the YE curve


def k_ye(ctx, case, rng, scratch):
    code = 'import sys; sys.path.insert(0, %r); import importlib; importlib.import_module("YE-proof").check_ye()' % REPO
    rc, out, err = program(ctx, ['-c', code], scratch)
    ctx.check(rc == 0, 'check_ye fails', stderr=err[-800:])
    m = re.search(r'lower bound:\s*(\d+)/(\d+)', out)
    ctx.check(m and F(int(m.group(1)), int(m.group(2))) == YE, 'check_ye finds the published dilation of the YE curve', out=out[-500:])
    m = re.search(r"'up':\s*Fraction\((\d+),\s*(\d+)\)", out)
    ctx.check(m and F(int(m.group(1)), int(m.group(2))) >= YE, 'check_ye has a correct upper bound', out=out[-500:])
    ctx.seen('ye')


def k_ye_proto(ctx, case, rng, scratch):
    code = 'import sys; sys.path.insert(0, %r); import importlib; importlib.import_module("YE-proof").check_genus5_ye_proto()' % REPO
    rc, out, err = program(ctx, ['-c', code], scratch)
    ctx.check(rc == 0, 'check_genus5_ye_proto fails', stderr=err[-800:])
    m = re.search(r"'lo':\s*Fraction\((\d+),\s*(\d+)\)", out)
    ctx.check(m and F(int(m.group(1)), int(m.group(2))) > YE, 'all other curves with the YE prototype have a larger dilation', out=out[-500:])
    ctx.seen('ye_proto')


def k_run_search(ctx, case, rng, scratch):
    """run_search as a function, as the proof script uses it."""
    code = ('import sys; sys.path.insert(0, %r)\nfrom search import run_search\nfrom peano.utils import ratio_l2, ratio_linf\nfrom peano.subsets import Link\n'
            'run_search(dim=2, div=2, mult=1, ratio_func=ratio_l2, rel_tol_inv=200)\n'
            'run_search(dim=2, div=3, mult=1, ratio_func=ratio_linf, gate_list=[(Link.parse_gates("(0,0)->(1,0)"),)], rel_tol_inv=50)\n'
            'run_search(dim=2, div=2, mult=1, ratio_func=ratio_l2, upper_bound=2)\n' % REPO)
    rc, out, err = program(ctx, ['-c', code], scratch)
    ctx.check(rc == 0, 'run_search fails', stderr=err[-800:])
    blocks = parse_blocks(ctx, out, 'run_search')
    ctx.equal(len(blocks), 3, 'one result per run', out=out[-500:])
    judge(ctx, blocks[0], 2, 2, [(gen.config('hil')[2], MINIMA['hil']['l2'])], 'l2', 200, 'run_search 1')
    judge(ctx, blocks[1], 2, 3, [(gen.config('s3')[2], MINIMA['s3']['linf'])], 'linf', 50, 'run_search 2')
    ctx.check(blocks[2] is None, 'NOT FOUND for a too strong bound', out=out[-500:])
