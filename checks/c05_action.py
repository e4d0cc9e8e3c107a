"""Action of base maps/specs/reversal on curves, decided by exact equality of functions (bisimulation)."""
from vlib import ref, gen
from vlib.bridge import A, iso_of, bm_of, spec_of, rcurve, rpatterns, curve_of

PROPERTY = 'C05'
RULE = ('random curves (continuous of 35 gate configurations in dimension 1..5, and arbitrary discontinuous ones) acted on by '
        'chains of base maps, specs, reversals and inverses; every pattern of the result is compared with the mapped '
        'original as a function (exact bisimulation); distinct = (curve, chain)')
MIN_EVENTS = {'action': 800, 'pattern_compared': 1000}
WILD = [(1, 2, 1), (1, 3, 2), (2, 2, 1), (2, 2, 2), (2, 2, 4), (2, 3, 1), (2, 3, 3), (3, 2, 1), (3, 2, 2), (4, 2, 1), (2, 4, 2), (5, 2, 1)]


def plan(tier, seed):
    n = 16 if tier == 'quick' else 300
    names = list(gen.LIGHT)
    cases = [{'cfg': c, 'i': i} for c in names for i in range(n)]
    cases += [{'cfg': c, 'i': i} for c in gen.HEAVY for i in range(2 if tier == 'quick' else 20)]
    cases += [{'wild': w, 'i': i} for w in range(len(WILD)) for i in range(n)]
    cases += [{'zoo': 1, 'i': 0}]
    return cases


def compare(ctx, rc, g, iso, pnum, what, **w):
    ctx.equal((g.dim, g.div, g.mult, g.genus), (rc.dim, rc.div, rc.mult, rc.G), 'attributes of the image', **w)
    ctx.equal(g.pnum, pnum, 'selected pattern of the image', op=what, **w)
    rg = rcurve(g)
    for p in range(rc.mult):
        diff = ref.same_function(rc, iso, p, rg, ref.iso_id(rc.dim), p)
        ctx.check(diff is None, '%s: pattern %d of the result is another function' % (what, p), first_difference_at_fraction=diff, curve=rc.pats, **w)
        ctx.seen('pattern_compared')
    return rg


def run_case(ctx, case):
    rng = ctx.rng
    if 'zoo' in case:
        for name in gen.zoo_names(A):
            c = getattr(A.zoo, name)().curve
            one(ctx, c, rcurve(c), rng, name)
        return
    if 'wild' in case:
        rc = gen.random_wild(*WILD[case['wild']], rng)
    else:
        rc = gen.random_curve(case['cfg'], rng)
        if rc is None:
            ctx.notes['no_curve'] += 1
            return
        if rng.random() < 0.3:
            rc = gen.mutate(rc, rng)
    pnum = rng.randrange(rc.mult)
    c = curve_of(rc, pnum, how=rng.randrange(2))
    one(ctx, c, rc, rng, str(case))
    ctx.sample({'case': case, 'curve': str(c)[:200]})
    partial(ctx, rc, rng)


def one(ctx, c, rc, rng, label):
    dim, pnum = rc.dim, c.pnum
    e = ref.iso_id(dim)
    for chain_no in range(3):
        g, iso, pn = c, e, pnum
        word = []
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            op = rng.choice(['map', 'map', 'spec', 'rev', 'space', 'inverse'])
            if op == 'map':
                m = gen.random_iso(dim, rng)
                g = ctx.call('map * curve', lambda: bm_of(m) * g)
                iso = ref.iso_mul(m, iso)
            elif op == 'space':
                m = gen.random_iso(dim, rng, False)
                g = ctx.call('map * curve', lambda: bm_of(m) * g)
                iso = ref.iso_mul(m, iso)
            elif op == 'spec':
                m = gen.random_iso(dim, rng)
                pn = rng.randrange(rc.mult)
                g = ctx.call('spec * curve', lambda: spec_of(m, pn) * g)
                iso = ref.iso_mul(m, iso)
            elif op == 'rev':
                g = ctx.call('~curve', lambda: ~g)
                iso = (iso[0], not iso[1])
            else:
                m = ref.iso_inv(iso)
                g = ctx.call('inverse map * curve', lambda: bm_of(iso) ** (-1) * g)
                iso = e
            word.append(op)
            ctx.seen('action')
            ctx.seen('action_' + op)
        rg = compare(ctx, rc, g, iso, pn, '*'.join(word), label=label, chain=word)
        if iso == e and pn == pnum:
            # back to the beginning: the same curve value
            pass
        ctx.state(label, tuple(word), iso)
    # maps that differ in one reflection, one exchange of axes or the time reversal only, one after another
    for m in gen.near_isos(gen.random_iso(dim, rng), rng, 6 if rc.G <= 9 else 3):
        g = ctx.call('map * curve', lambda: bm_of(m) * c)
        compare(ctx, rc, g, m, pnum, 'map', label=label, map=m)
        ctx.seen('near_map')
    m1, m2 = gen.random_iso(dim, rng), gen.random_iso(dim, rng)
    a, b = bm_of(m1), bm_of(m2)
    left, right = (a * b) * c, a * (b * c)
    ra, rb = rcurve(left), rcurve(right)
    for p in range(rc.mult):
        ctx.check(ref.same_function(ra, e, p, rb, e, p) is None, 'action of a product differs from successive actions', label=label)
    back = rcurve(a ** (-1) * (a * c))
    for p in range(rc.mult):
        ctx.check(ref.same_function(back, e, p, rc, e, p) is None, 'inverse does not restore the curve', label=label)


def partial(ctx, rc, rng):
    """Curves with unknown specs: known ones are carried along, unknown stay unknown at the mapped fractions."""
    pats, known = [], []
    for p, (cubes, specs) in enumerate(rc.pats):
        k = [rng.random() < 0.6 for _ in specs]
        known.append(k)
        pats.append((list(cubes), [spec_of(*s) if f else None for s, f in zip(specs, k)]))
    fz = A.FuzzyCurve(rc.dim, rc.div, pats)
    iso = gen.random_iso(rc.dim, rng)
    g = ctx.call('map * fuzzy curve', lambda: bm_of(iso) * fz) if rng.random() < 0.7 else None
    if g is None:
        iso = ref.iso_id(rc.dim, True)
        g = ctx.call('~fuzzy curve', lambda: ~fz)
    want = rc.transform(iso)
    filled = []
    for p, (cubes, specs) in enumerate(rpatterns(g)):
        k = known[p][::-1] if iso[1] else known[p]
        ctx.equal([s is not None for s in specs], k, 'known specs of the image of a partially specified curve')
        ctx.equal(cubes, want.pats[p][0], 'cubes of the image of a partially specified curve')
        filled.append((cubes, [s if s is not None else want.pats[p][1][i] for i, s in enumerate(specs)]))
    rg = ref.RefCurve(rc.dim, rc.div, filled)
    e = ref.iso_id(rc.dim)
    for p in range(rc.mult):
        ctx.check(ref.same_function(rg, e, p, rc, iso, p) is None, 'image of a partially specified curve', pattern=p, curve=rc.pats, iso=iso)
    ctx.seen('partial')
