"""Bounds of the regular estimator against an independent branch and bound with exact points."""
from fractions import Fraction as F
from vlib import ref, gen, dil
from vlib.bridge import A, fr, metrics_for

PROPERTY = 'C13'
RULE = ('random continuous curves of all configurations (1D to 4D, up to 5 patterns, isometric disguises) and zoo curves x metrics x '
        'tolerances x iteration/depth limits x face moments; the bounds are compared with an independent rigorous enclosure '
        '(integer branch and bound, lower end from exact curve points) and with exact samples; distinct = (curve, metric, options)')
MIN_EVENTS = {'estimate': 500, 'tolerance_checked': 300, 'limited': 100, 'exact_samples': 50, 'fine_tolerance': 10}
FINE = ['hil', 's3', 'g3', 'bo', 'c2']
BIG = ['m5', 'h4', 'bb', 'g7', 'P3', 'c33', 'n4']
TOLS = [1, 2, 3, 5, 10, 20, 50, 100]


def plan(tier, seed):
    n = 8 if tier == 'quick' else 250
    cases = [{'cfg': c, 'i': i} for i in range(n) for c in dil.FAST]
    cases += [{'zoo': z, 'i': i} for z in range(24) for i in range(1 if tier == 'quick' else 6)]
    cases += [{'cfg': c, 'i': i} for c in ('d1n2', 'd1n3', 'd1n5') for i in range(4 if tier == 'quick' else 30)]
    cases += [{'cfg': c, 'i': i} for c in BIG for i in range((2 if c == 'h4' else 1) if tier == 'quick' else 8)]
    cases += [{'unused': c, 'i': i} for c in ('s3', 'g3', 's4', 'm4', 'A', 'B') for i in range(4 if tier == 'quick' else 60)]
    cases += [{'unused': 'snake', 'i': i} for i in range(2 if tier == 'quick' else 8)]
    cases += [{'cfg': c, 'i': i, 'fine': 1} for c in FINE for i in range(1 if tier == 'quick' else 12)]
    return cases


def weight(case):
    return 4 if case.get('unused') == 'snake' else 3 if case.get('cfg') in BIG else 2 if 'zoo' in case else 1


def run_case(ctx, case):
    rng = ctx.rng
    got = dil.pick_curve(ctx, case)
    if got is None:
        return
    rc, c = got
    if 'unused' in case:
        ctx.seen('unused_pattern')
    heavy = case.get('cfg') in BIG or rc.G > 27
    fine = bool(case.get('fine'))
    metrics = list(metrics_for(rc.dim))
    if heavy:
        metrics = [rng.choice(metrics)]
    if not heavy and not fine and rng.random() < 0.3:
        metrics.append('mix')
        ctx.seen('custom_ratio')
    est_shared = {}
    for metric in metrics:
        LO, UP, nodes = dil.enclosure(rc, metric, F(1, 20000 if fine else 1000 if not heavy else 50), 200000 if fine else 20000)
        ctx.seen('reference_nodes', nodes)
        for rep in range(2 if not heavy else 1):
            kw = {}
            kind = rng.choice(['tol', 'tol', 'tol', 'iter', 'depth', 'both'])
            if kind != 'depth':
                kw['rel_tol_inv'] = rng.choice(TOLS if not heavy else TOLS[:6])
                if rc.dim == 1:
                    kw['rel_tol_inv'] = rng.choice([1, 2, 3])
            if fine:
                kind = 'tol'
                kw['rel_tol_inv'] = rng.choice([300, 1000, 5000])
                ctx.seen('fine_tolerance')
            if kind in ('iter', 'both'):
                kw['max_iter'] = rng.choice([0, 1, 2, 7, 30, 150])
                if rng.random() < 0.4:
                    kw['rel_tol_inv'] = None
            if kind in ('depth', 'both'):
                kw['max_depth'] = rng.choice([0, 1, 2] if rc.G < 20 else [0, 1])
                if kind == 'depth':
                    kw['rel_tol_inv'] = None
                    kw['max_iter'] = 400
            if rng.random() < 0.25:
                fd = rng.randrange(rc.dim)
                npts = 2 * len(list(ref.faces(rc.dim, fd)))
                if len(ref.junction_reps(rc)) * rc.G ** 2 * npts ** 2 < 150000:
                    kw['use_face_moments'] = True
                    kw['face_dim'] = fd
            if rng.random() < 0.5 or metric not in est_shared:
                f = dil.Counted(metric, own=rng.random() < 0.3)
                est_shared[metric] = (f, A.Estimator(f.arg(rng), **({'cache_max_size': rng.choice([0, 1, 16])} if rng.random() < 0.2 else {})))
            f, est = est_shared[metric]
            f.calls = 0
            if kind == 'tol' and not heavy and not fine and rc.dim > 1 and rng.random() < 0.1:
                kw['rel_tol_inv'] = 100         # the documented default
                ctx.seen('default_tolerance')
                res = ctx.call('estimate_dilation_regular', est.estimate_dilation_regular, c, **{k: v for k, v in kw.items() if k != 'rel_tol_inv'})
            else:
                res = ctx.call('estimate_dilation_regular(%s)' % kw, est.estimate_dilation_regular, c, **kw)
            lo, up = fr(res['lo']), fr(res['up'])
            ctx.seen('estimate')
            ctx.seen('ratio_evaluations', f.calls)
            w = dict(curve=rc.pats, metric=metric, options=kw, lo=lo, up=up, LO=LO, UP=UP)
            ctx.check(lo <= up, 'lower bound above upper bound', **w)
            ctx.check(lo <= UP, 'the lower bound exceeds the dilation', **w)
            ctx.check(up >= LO, 'the upper bound is below the dilation', **w)
            if 'max_iter' not in kw and 'max_depth' not in kw:
                t = kw['rel_tol_inv']
                ctx.check(up <= lo * F(t + 1, t), 'the bounds are wider than the tolerance', **w)
                ctx.seen('tolerance_checked')
            else:
                ctx.seen('limited')
            ctx.state(rc.pats, metric, sorted(map(str, kw.items())))
            if rng.random() < 0.1:
                p = rng.randrange(rc.mult)
                den = rng.choice([rc.G ** 2, rc.G * 3, 7, rc.G - 1, 2 * rc.G])
                ts = [F(rng.randrange(den + 1), den) for _ in range(8)]
                s, arg = ref.sampled_dilation(rc, metric, p, ts)
                ctx.check(s <= up, 'an exactly evaluated pair of moments exceeds the upper bound', pair=arg, ratio=s, **w)
                ctx.seen('exact_samples')
    ctx.sample({'case': case, 'metric': metrics[-1], 'bounds': [float(lo), float(up)], 'reference': [float(LO), float(UP)]})
