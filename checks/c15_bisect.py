"""Threshold search on small fuzzy curves whose completions are all enclosed by the reference."""
import inspect
from fractions import Fraction as F
from vlib import ref, gen, dil
from vlib.bridge import A, q, metrics_for

PROPERTY = 'C15'
RULE = ('fuzzy curves with up to some dozens of completions, each enclosed by the independent branch and bound; thresholds are put '
        'around the dilation values of the completions (wide and narrow), below the minimum and above the maximum; solver schedules '
        'and prepared initial data vary; distinct = (fuzzy curve, metric, thresholds, options)')
MIN_EVENTS = {'found': 100, 'not_found': 100, 'fuzzy': 40, 'discriminating': 50, 'out_of_iterations': 20}


def prepared_tree(est, fz):
    """Can a tree be prepared in advance?  (the only private entry used, because init_pairs_tree is documented by it)"""
    try:
        inspect.signature(est._create_tree).bind(fz)
        return True
    except (AttributeError, TypeError):
        return False


def plan(tier, seed):
    n = 5 if tier == 'quick' else 80
    return [{'cfg': c, 'i': i} for i in range(n) for c in dil.FAST]


def run_case(ctx, case):
    rng = ctx.rng
    dim = gen.config(case['cfg'])[0]
    for metric in rng.sample(list(metrics_for(dim)), 2):
        for attempt in range(4):        # prefer fuzzy curves whose completions differ in dilation
            sf = dil.small_fuzzy(ctx, case['cfg'], rng, max_total=rng.choice([6, 16, 32]))
            if sf is None:
                continue
            table = sf.table(metric, F(1, 200), 4000)
            vals = sorted((lo + up) / 2 for lo, up, _ in table)
            if vals[-1] > vals[0] * F(21, 20):
                break
        if sf is None:
            continue
        lows = sorted(lo for lo, _, _ in table)
        min_up = min(up for _, up, _ in table)
        ctx.seen('fuzzy')
        ctx.seen('completions', len(table))
        f = dil.Counted(metric, own=rng.random() < 0.2)
        est = A.Estimator(f.arg(rng))
        tree = adapter = None
        for rep in range(7):
            v = rng.choice([vals[0], vals[0], rng.choice(vals), lows[0]])
            a = rng.choice([F(1, 2), F(1, 5), F(1, 12), F(1, 30)])
            b = rng.choice([F(1, 2), F(1, 5), F(1, 12), F(1, 30)])
            where = rng.choice(['around', 'gap', 'gap', 'gap', 'below', 'above', 'under', 'over'])
            if where == 'around':
                bad, good = v * (1 - a), v * (1 + b)
            elif where == 'gap':                       # between two values: the better completions must be found
                g, i = max((vals[i + 1] / vals[i], i) for i in range(len(vals) - 1)) if len(vals) > 1 else (1, 0)
                if rng.random() < 0.5 and len(vals) > 1:
                    i = rng.randrange(len(vals) - 1)
                    g = vals[i + 1] / vals[i]
                if g < 1 + F(1, 25):
                    continue
                bad, good = vals[i] * F(101, 100), vals[i] + (vals[i + 1] - vals[i]) * F(2, 3)
            elif where == 'below':                     # everything is bad
                good = lows[0] * F(97, 100)
                bad = good * (1 - a)
            elif where == 'above':                     # the best one is good
                bad = vals[-1] * F(103, 100)
                good = bad * (1 + b)
            elif where == 'under':                     # the best one is just below the bad threshold: must be found
                bad = min_up * F(101, 100)
                good = bad * (1 + b)
            else:                                      # the best one is just above the good threshold: must not be found
                good = lows[0] * F(99, 100)
                bad = good * (1 - b)
            kw = {}
            if rng.random() < 0.4:
                kw['sat_iter_multiplier'] = rng.choice([1.0, 1.05, 2, 10, 1000])
            if rng.random() < 0.4 and prepared_tree(est, sf.fz):
                if tree is None:
                    tree = ctx.call('_create_tree', est._create_tree, sf.fz)
                kw['init_pairs_tree'] = tree
            if rng.random() < 0.4:
                if adapter is None:
                    adapter = ctx.call('CurveSATAdapter', A.sat.CurveSATAdapter, curve=sf.fz)
                kw['init_sat_adapter'] = adapter
            if rng.random() < 0.25:
                # either an exception or a sound answer
                kw['max_iter'] = rng.choice([0, 1, 2, 5, 20, 100, 100000])
            f.calls = 0
            run = lambda: est.bisect_dilation_fuzzy(sf.fz, good_threshold=q(good), bad_threshold=q(bad), **kw)
            if 'max_iter' in kw:
                ctx.seen('iteration_limit')
                try:
                    res = run()
                except Exception as e:
                    known = getattr(A.Estimator, '_RunOutOfIterationsException', Exception)
                    if isinstance(e, known):
                        ctx.seen('out_of_iterations')
                        continue
                    res = ctx.call('bisect_dilation_fuzzy', run)
            else:
                res = ctx.call('bisect_dilation_fuzzy', run)
            w = dict(fuzzy=str(sf.fz), metric=metric, bad=bad, good=good, options=sorted(kw), minimum=(lows[0], min_up))
            if res is not None:
                r = sf.belongs(ctx, res, 'returned curve', **w)
                lo, up, _ = dil.enclosure(r, metric, F(1, 200), 4000)
                ctx.check(lo <= good, 'the returned curve has dilation above the good threshold', dilation=(lo, up), curve=r.pats, **w)
                ctx.seen('found')
            else:
                ctx.check(min_up >= bad, 'nothing is returned although some curve is better than the bad threshold', **w)
                ctx.seen('not_found')
            if vals[0] < good and vals[-1] > good:
                ctx.seen('discriminating')
            ctx.state(str(sf.fz), metric, bad, good, sorted(kw))
        ctx.sample({'case': case, 'metric': metric, 'completions': len(table), 'dilations': [float(vals[0]), float(vals[-1])]})
