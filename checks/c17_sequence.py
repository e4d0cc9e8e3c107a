"""Sequence estimate against the enclosed minimum over all completions of all members."""
from fractions import Fraction as F
from vlib import ref, gen, dil
from vlib.bridge import A, q, fr, metrics_for

PROPERTY = 'C17'
RULE = ('sequences of 1 to 8 small fuzzy curves (same or different configurations of one dimension, duplicates and isometric images '
        'included), given as list, tuple or one-shot iterator, with and without an a-priori bound (too strong, tight, loose); '
        'distinct = (sequence, metric, options)')
MIN_EVENTS = {'sequence': 100, 'not_found': 15, 'iterator': 25, 'duplicates': 20, 'bounded': 20}
FAM = {2: [c for c in dil.FAST if gen.CONFIGS[c][0] == 2 and c not in ('s5', 'g5', 's4', 'm4')],
       3: [c for c in dil.FAST if gen.CONFIGS[c][0] == 3]}


def plan(tier, seed):
    n = 320 if tier == 'quick' else 3000
    return [{'i': i} for i in range(n)]


def run_case(ctx, case):
    rng = ctx.rng
    dim = rng.choice([2, 2, 3])
    metric = rng.choice(list(metrics_for(dim)))
    m = rng.choice([1, 2, 3, 5, 8])
    one = rng.choice(FAM[dim])
    seq = []
    for _ in range(m):
        if seq and rng.random() < 0.25:
            seq.append(rng.choice(seq))
            ctx.seen('duplicates')
            continue
        cfg = one if rng.random() < 0.6 else rng.choice(FAM[dim])
        sf = dil.small_fuzzy(ctx, cfg, rng, max_total=rng.choice([1, 3, 8]), max_templates=600)
        if sf is not None:
            seq.append(sf)
    if not seq:
        return
    rng.shuffle(seq)
    mins = [sf.minimum(metric, F(1, 200)) for sf in seq]
    GLO, GUP = min(a for a, _ in mins), min(b for _, b in mins)
    f = dil.Counted(metric, own=rng.random() < 0.2)
    est = A.Estimator(f.arg(rng))
    tol = rng.choice([3, 10, 25, 60])
    kw = {'rel_tol_inv': tol}
    if rng.random() < 0.6:
        kw['rel_tol_inv_mult'] = rng.choice([2, 3, 10, 100])
    bound = rng.choice(['none', 'none', 'strong', 'weak', 'tight', 'exact'])
    if bound == 'strong':
        kw['upper_bound'] = q(GLO * rng.choice([F(1, 5), F(1, 3), F(49, 100), F(9, 10), F(97, 100)]))
    elif bound == 'tight':
        kw['upper_bound'] = q(GUP * F(101, 100))
    elif bound == 'exact':
        kw['upper_bound'] = q(GUP)
    elif bound == 'weak':
        kw['upper_bound'] = q(GUP * rng.choice([F(3, 2), 4]))
    if rng.random() < 0.3:
        kw['sat_iter_multiplier'] = rng.choice([1.05, 2])
    fzs = [sf.fz for sf in seq]
    how = rng.choice(['list', 'tuple', 'iter', 'gen'])
    arg = {'list': lambda: fzs, 'tuple': lambda: tuple(fzs), 'iter': lambda: iter(fzs), 'gen': lambda: (x for x in fzs)}[how]()
    if how in ('iter', 'gen'):
        ctx.seen('iterator')
    res = ctx.call('estimate_dilation_sequence(%s)' % kw, est.estimate_dilation_sequence, arg, **kw)
    w = dict(fuzzy=[str(x) for x in fzs], metric=metric, options={k: str(v) for k, v in kw.items()}, how=how, minima=[(str(a), str(b)) for a, b in mins])
    ctx.state([str(x) for x in fzs], metric, sorted(map(str, kw.items())), how)
    if bound == 'strong':
        if fr(kw['upper_bound']) * 2 < GLO:
            ctx.check(res is None, 'a result is returned although the a-priori bound is far below all dilations', result=str(res)[:300], **w)
            ctx.seen('not_found')
        elif res is not None:       # a wrong bound near the minimum: only the lower bound and the examples mean something
            ctx.check(fr(res['lo']) <= GUP, 'the lower bound exceeds the minimum', lo=res['lo'], **w)
            for i, c in zip(res['idxs'], res['curves']):
                seq[i].belongs(ctx, c, 'returned example of member %d' % i, **w)
            ctx.seen('near_wrong_bound')
        return
    ctx.check(res is not None, 'nothing is returned although the a-priori bound is correct', **w)
    lo, up = fr(res['lo']), fr(res['up'])
    w.update(lo=lo, up=up, idxs=res['idxs'])
    ctx.check(lo <= GUP, 'the lower bound exceeds the minimum', **w)
    ctx.check(up >= GLO, 'the upper bound is below the minimum', **w)
    ctx.check(up <= lo * F(tol + 1, tol), 'the bounds are wider than the tolerance', **w)
    idxs = list(res['idxs'])
    ctx.check(len(idxs) == len(set(idxs)) == len(res['curves']) and all(0 <= i < len(seq) for i in idxs), 'indices and examples do not match', **w)
    # members that certainly attain the minimum
    for i, (a, b) in enumerate(mins):
        if all(b <= a2 or seq[k] is seq[i] for k, (a2, _) in enumerate(mins)):
            ctx.check(i in idxs, 'the member that attains the minimum is not returned', member=i, **w)
            ctx.seen('certain_minimum')
    ctx.check(any(mins[i][0] <= GUP for i in idxs), 'no returned member attains the minimum', **w)
    good = False
    for i, c in zip(idxs, res['curves']):
        r = seq[i].belongs(ctx, c, 'returned example of member %d' % i, **w)
        if not good and dil.enclosure(r, metric, F(1, 200), 8000)[0] <= up:
            good = True
        ctx.seen('example')
    if bound == 'none':
        ctx.check(good, 'no returned example is within the upper bound', **w)
    else:
        ctx.seen('bounded')
    ctx.seen('sequence')
    ctx.seen('length_%d' % len(seq))
    ctx.sample({'case': case, 'metric': metric, 'members': len(seq), 'minimum': [float(GLO), float(GUP)], 'bounds': [float(lo), float(up)], 'idxs': idxs})
