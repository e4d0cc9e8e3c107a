"""Estimates do not depend on what the estimator did before, on its cache size, or on the representation of the curve."""
from fractions import Fraction as F
from vlib import ref, gen, dil
from vlib.bridge import A, bm_of, fr, q, curve_of, metrics_for, METRICS
from vlib.engine import StepLimit

PROPERTY = 'C29'
RULE = ('sequences of regular, fuzzy, bisection and sequence estimates of curves of different dimension, division and multiplicity on one '
        'estimator (cache sizes 0, 1, 7, 100, default, unbounded), interrupted runs included, compared with fresh estimators; curves against '
        'their isometric images and subdivisions; distinct = (operation, curve, options, place in history)')
MIN_EVENTS = {'compared_with_fresh': 200, 'image_pair': 60, 'exact_pair': 20, 'subdivision_pair': 15, 'fuzzy_image_pair': 10, 'estimators_side_by_side': 100}
MIX = [c for c in dil.FAST if c not in ('s5', 'g5', 's4', 'm4', 'iup', 'nept')]


def plan(tier, seed):
    n = 60 if tier == 'quick' else 800
    out = [{'kind': 'history', 'i': i} for i in range(n)]
    out += [{'kind': 'image', 'cfg': MIX[i % len(MIX)], 'i': i} for i in range(2 * n)]
    out += [{'kind': 'subdiv', 'cfg': c, 'i': i} for c in ('hil', 's3', 'b3', 'b4', 'bo', 'b6', 'Fg', 'd1n2') for i in range(n // 20)]
    out += [{'kind': 'several', 'i': i} for i in range(n)]
    out += [{'kind': 'fuzzy_image', 'cfg': MIX[i % len(MIX)], 'i': i} for i in range(n // 2)]
    return out


def random_op(ctx, rng, metric_ok, past):
    """(name, function of an estimator -> comparable result, description)"""
    cfg = rng.choice(MIX)
    kind = rng.choice(['regular', 'regular', 'regular', 'fuzzy', 'bisect', 'sequence'])
    if kind == 'regular':
        if past and rng.random() < 0.5:
            # a relative of a curve the estimator has seen: the same prototypes and gates, other orientations
            rc = gen.respec(rng.choice(past), rng, rng.choice([0.1, 0.5, 1]))
            ctx.seen('relative')
        else:
            rc = gen.random_curve(cfg, rng)
            if rc is None or not metric_ok(rc.dim):
                return None
            rc = gen.disguise(rc, rng)
        past.append(rc)
        c = curve_of(rc, rng.randrange(rc.mult), rng.randrange(2))
        kw = {'rel_tol_inv': rng.choice([2, 5, 20])}
        if rng.random() < 0.4:
            kw = {'rel_tol_inv': rng.choice([None, 50]), 'max_iter': rng.choice([0, 3, 40, 200])}
        if rng.random() < 0.3 and len(ref.junction_reps(rc)) * rc.G ** 2 * 4 ** rc.dim < 60000:
            kw['use_face_moments'] = True

        def run(est):
            r = est.estimate_dilation_regular(c, **kw)
            out = {'lo': fr(r['lo']), 'up': fr(r['up'])}
            if kw.get('use_face_moments'):
                a = r['argmax']
                out['t'] = (fr(a['t1']), fr(a['t2']))
            return out
        return kind, run, (str(c), sorted(map(str, kw.items())))
    if kind in ('fuzzy', 'bisect'):
        sf = dil.small_fuzzy(ctx, cfg, rng, max_total=8, max_templates=400)
        if sf is None or not metric_ok(sf.rc.dim):
            return None
        if kind == 'fuzzy':
            kw = {'rel_tol_inv': rng.choice([3, 10, 25])}

            def run(est):
                r = est.estimate_dilation_fuzzy(sf.fz, **kw)
                return {'lo': fr(r['lo']), 'up': fr(r['up'])}
            return kind, run, (str(sf.fz), str(kw))
        m = rng.choice([F(4), F(6), F(9), F(15), F(40)])

        def run(est):
            r = est.bisect_dilation_fuzzy(sf.fz, good_threshold=q(m * F(6, 5)), bad_threshold=q(m))
            return {'found': r is not None}
        return kind, run, (str(sf.fz), str(m))
    sfs = [dil.small_fuzzy(ctx, cfg, rng, max_total=4, max_templates=300) for _ in range(3)]
    sfs = [s for s in sfs if s is not None]
    if not sfs or not metric_ok(sfs[0].rc.dim):
        return None

    def run(est):
        r = est.estimate_dilation_sequence([s.fz for s in sfs], rel_tol_inv=10)
        return {'lo': fr(r['lo']), 'up': fr(r['up']), 'idxs': sorted(r['idxs'])}
    return kind, run, [str(s.fz) for s in sfs]


def run_case(ctx, case):
    globals()['k_' + case['kind']](ctx, case, ctx.rng)


def k_history(ctx, case, rng):
    metric = rng.choice(METRICS)
    ok = (lambda dim: dim % 2 == 0) if metric == 'l2' else (lambda dim: True)
    size = rng.choice([0, 1, 7, 100, None, 'default', 'default', 'default'])
    f = dil.Counted(metric)
    g = f.arg(rng)
    est = A.Estimator(g) if size == 'default' else A.Estimator(g, cache_max_size=size)
    ops, past = [], []
    for _ in range(40):
        op = random_op(ctx, rng, ok, past)
        if op:
            ops.append(op)
        if len(ops) == 5:
            break
    order = ops + [rng.choice(ops) for _ in range(3)]
    fresh = {}
    for n, op in enumerate(order):
        kind, run, desc = op
        if rng.random() < 0.2:
            # an interrupted run leaves nothing behind
            g, f.limit = f.limit, f.calls + rng.choice([0, 3, 50])
            try:
                rng.choice(ops)[1](est)
            except StepLimit:
                ctx.seen('interrupted')
            f.limit = g
        if id(run) not in fresh:
            fresh[id(run)] = ctx.call(kind, run, A.Estimator(dil.Counted(metric)))
        f.calls = 0
        got = ctx.call(kind, run, est)
        ctx.equal(got, fresh[id(run)], 'an estimate on a used estimator differs from a fresh one', kind=kind, input=desc, metric=metric,
                  cache_size=size, place=n)
        ctx.seen('compared_with_fresh')
        ctx.seen('op_' + kind)
        ctx.state(kind, desc, metric, size, n)
    ctx.sample({'metric': metric, 'cache': str(size), 'ops': [o[0] for o in order]})


def k_several(ctx, case, rng):
    """Estimators of different metrics (also functions that share a name, or scale each other) do not disturb each other."""
    rc = gen.random_curve(rng.choice(MIX), rng)
    if rc is None:
        return
    c = curve_of(rc, rng.randrange(rc.mult), rng.randrange(2))
    ests = []
    for metric in rng.sample(list(metrics_for(rc.dim)) + ['mix'], 3):
        f, k = dil.Counted(metric), rng.choice([1, 1, 2, 3])
        g = f.arg(rng) if k == 1 else (lambda dim, dx, dt, f=f, k=k: k * f(dim, dx, dt))
        ests.append((metric, k, A.Estimator(g)))
    for _ in range(5):
        metric, k, est = rng.choice(ests)
        tol = rng.choice([5, 20])
        LO, UP, _ = dil.enclosure(rc, metric, F(1, 200), 8000)
        r = ctx.call('estimate', est.estimate_dilation_regular, c, rel_tol_inv=tol)
        lo, up = fr(r['lo']) / k, fr(r['up']) / k
        ctx.check(lo <= UP and up >= LO and up <= lo * F(tol + 1, tol), 'the bounds of an estimator are not those of its metric', curve=rc.pats,
                  metric=metric, factor=k, bounds=(lo, up), reference=(LO, UP))
        ctx.seen('estimators_side_by_side')
        ctx.state('several', str(c), metric, k, tol)


def k_image(ctx, case, rng):
    rc = gen.random_curve(case['cfg'], rng)
    if rc is None:
        return
    c = curve_of(rc, 0)
    metric = rng.choice(list(metrics_for(rc.dim)))
    iso = rng.choice(list(ref.iso_all(rc.dim)))
    c2 = ctx.call('bm * curve', lambda: bm_of(iso) * c)
    est = A.Estimator(dil.Counted(metric).arg(rng))
    est2 = est if rng.random() < 0.5 else A.Estimator(dil.Counted(metric).arg(rng))
    tol = rng.choice([5, 20, 60])
    r1 = ctx.call('estimate', est.estimate_dilation_regular, c, rel_tol_inv=tol)
    r2 = ctx.call('estimate', est2.estimate_dilation_regular, c2, rel_tol_inv=tol)
    a, b = (fr(r1['lo']), fr(r1['up'])), (fr(r2['lo']), fr(r2['up']))
    w = dict(curve=str(c), iso=iso, metric=metric, bounds=a, image_bounds=b)
    ctx.check(a[0] <= b[1] and b[0] <= a[1], 'bounds of a curve and its image do not overlap', **w)
    ctx.seen('image_pair')
    ctx.state(str(c), iso, metric, tol)
    # exact values: best pair of vertex moments within a depth
    if len(ref.junction_reps(rc)) * rc.G ** 2 * 4 ** rc.dim < 60000:
        kw = {'use_face_moments': True, 'rel_tol_inv': None, 'max_depth': 1}
        vals, exact = [], []
        for x in (c, c2):
            f = dil.Counted(metric)
            f.limit = 60000
            try:
                r = A.Estimator(f).estimate_dilation_regular(x, **kw)
            except StepLimit:
                ctx.notes['depth_mode_not_finished'] += 1
                return
            vals.append(fr(r['lo']))
            if r['lo'] == r['up']:
                exact.append(fr(r['lo']))
        LO, UP, _ = dil.enclosure(rc, metric, F(1, 200), 8000)
        if exact:
            # a closed interval is the exact dilation of both
            ctx.check(all(v <= exact[0] for v in vals) and len(set(exact)) == 1, 'exact values of a curve and its image differ', vals=vals, **w)
            ctx.seen('exact_dilation')
        ctx.check(max(vals) <= UP, 'a lower bound exceeds the dilation', vals=vals, LO=LO, UP=UP, **w)
        ctx.check(all(v <= b[1] and v <= a[1] for v in vals), 'an exact value exceeds an upper bound', vals=vals, **w)
        ctx.seen('exact_pair')
        if vals[0] == vals[1]:
            ctx.seen('exact_equal')


def k_subdiv(ctx, case, rng):
    rc = gen.random_curve(case['cfg'], rng)
    if rc is None:
        return
    c = curve_of(rc, 0)
    metric = rng.choice(list(metrics_for(rc.dim)))
    s = ctx.call('get_subdivision', c.get_subdivision, 1)
    f = dil.Counted(metric)
    est = A.Estimator(f)
    r1 = ctx.call('estimate', est.estimate_dilation_regular, c, rel_tol_inv=20 if rc.dim > 1 else 2)
    r2 = ctx.call('estimate', est.estimate_dilation_regular, s, rel_tol_inv=5 if rc.dim > 1 else 2)
    a, b = (fr(r1['lo']), fr(r1['up'])), (fr(r2['lo']), fr(r2['up']))
    ctx.check(a[0] <= b[1] and b[0] <= a[1], 'bounds of a curve and its subdivision do not overlap', curve=str(c), metric=metric, bounds=a, sub_bounds=b)
    ctx.seen('subdivision_pair')
    ctx.state(str(c), metric)


def k_fuzzy_image(ctx, case, rng):
    sf = dil.small_fuzzy(ctx, case['cfg'], rng, max_total=8, max_templates=400)
    if sf is None:
        return
    metric = rng.choice(list(metrics_for(sf.rc.dim)))
    iso = rng.choice(list(ref.iso_all(sf.rc.dim)))
    f2 = ctx.call('bm * fuzzy curve', lambda: bm_of(iso) * sf.fz)
    est = A.Estimator(dil.Counted(metric))
    out = []
    for x in (sf.fz, f2):
        r = ctx.call('estimate_dilation_fuzzy', est.estimate_dilation_fuzzy, x, rel_tol_inv=20)
        out.append((fr(r['lo']), fr(r['up'])))
    a, b = out
    ctx.check(a[0] <= b[1] and b[0] <= a[1], 'bounds of a fuzzy curve and its image do not overlap', fuzzy=str(sf.fz), iso=iso, metric=metric, bounds=a, image_bounds=b)
    ctx.seen('fuzzy_image_pair')
    ctx.state(str(sf.fz), iso, metric)
