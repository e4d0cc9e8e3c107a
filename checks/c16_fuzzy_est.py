"""Fuzzy estimate against the enclosed minimum over all completions."""
from fractions import Fraction as F
from vlib import ref, gen, dil
from vlib.bridge import A, q, fr, metrics_for, curve_of

PROPERTY = 'C16'
RULE = ('fuzzy curves with up to some dozens of completions, all enclosed by the independent branch and bound; tolerances, valid '
        'starting bounds and curves, stop bounds, solver schedules and iteration limits vary; distinct = (fuzzy curve, metric, options)')
MIN_EVENTS = {'estimate': 200, 'tolerance_checked': 100, 'stopped': 5, 'with_start': 30}


def plan(tier, seed):
    n = 6 if tier == 'quick' else 80
    return [{'cfg': c, 'i': i} for i in range(n) for c in dil.FAST]


def run_case(ctx, case):
    rng = ctx.rng
    dim = gen.config(case['cfg'])[0]
    for metric in rng.sample(list(metrics_for(dim)), 2):
        for attempt in range(3):        # prefer fuzzy curves whose completions differ in dilation
            sf = dil.small_fuzzy(ctx, case['cfg'], rng, max_total=rng.choice([4, 12, 30]))
            if sf is None:
                continue
            table = sf.table(metric, F(1, 200), 4000)
            if max(t[0] for t in table) > min(t[1] for t in table) * F(21, 20):
                break
        if sf is None:
            continue
        MLO, MUP = min(t[0] for t in table), min(t[1] for t in table)
        f = dil.Counted(metric, own=rng.random() < 0.2)
        est = A.Estimator(f.arg(rng))
        for rep in range(3):
            kw = {}
            tol = rng.choice([2, 5, 10, 20, 40])
            if rng.random() < 0.3:
                kw['sat_iter_multiplier'] = rng.choice([1.0, 2, 50])
            if rng.random() < 0.35:
                kw['start_lower_bound'] = q(MLO * rng.choice([F(1, 3), F(4, 5), F(199, 200), 1]))
            if rng.random() < 0.35:
                lo, up, r = rng.choice(table)
                kw['start_upper_bound'] = q(up * rng.choice([1, 1, F(11, 10)]))
                kw['start_curve'] = curve_of(r, sf.pnum)
            if rng.random() < 0.25:
                kw['stop_upper_bound'] = q(MLO * rng.choice([F(1, 2), F(4, 5), F(19, 20), 1, F(6, 5)]))
            if rng.random() < 0.1:
                kw['max_iter'] = rng.choice([0, 1, 10, 100])
            f.calls = 0
            res = ctx.call('estimate_dilation_fuzzy(%s)' % sorted(kw), est.estimate_dilation_fuzzy, sf.fz, rel_tol_inv=tol, **kw)
            lo, up = fr(res['lo']), fr(res['up'])
            w = dict(fuzzy=str(sf.fz), metric=metric, tolerance=tol, options={k: str(v)[:40] for k, v in kw.items() if k != 'start_curve'},
                     lo=lo, up=up, minimum=(MLO, MUP))
            ctx.check(lo <= MUP, 'the lower bound exceeds the minimum', **w)
            ctx.check(up >= MLO, 'the upper bound is below the minimum', **w)
            r = sf.belongs(ctx, res['curve'], 'returned curve', **w)
            clo, cup, _ = dil.enclosure(r, metric, F(1, 200), 4000)
            ctx.check(clo <= up, 'the returned curve is worse than the upper bound', curve=r.pats, dilation=(clo, cup), **w)
            ctx.check(cup >= lo, 'the returned curve is better than the lower bound', curve=r.pats, dilation=(clo, cup), **w)
            stopped = 'stop_upper_bound' in kw and lo > fr(kw['stop_upper_bound'])
            if not stopped and 'max_iter' not in kw:
                ctx.check(up <= lo * F(tol + 1, tol), 'the bounds are wider than the tolerance', **w)
                ctx.seen('tolerance_checked')
            if stopped:
                ctx.seen('stopped')
            if 'start_upper_bound' in kw or 'start_lower_bound' in kw:
                ctx.seen('with_start')
            ctx.seen('estimate')
            if table and max(t[0] for t in table) > MUP * F(tol + 1, tol):
                ctx.seen('discriminating')
            ctx.state(str(sf.fz), metric, tol, sorted(map(str, w['options'].items())))
        ctx.sample({'case': case, 'metric': metric, 'completions': len(table), 'minimum': [float(MLO), float(MUP)],
                    'bounds': [float(lo), float(up)]})
