"""Junctions of regular curves against level-by-level observation of consecutive fractions."""
from vlib import ref, gen
from vlib.bridge import A, rpair, rcurve, curve_of, spec_of

PROPERTY = 'C11'
RULE = ('random continuous curves of all configurations (any isometric disguise, pattern order) and zoo curves; the set of '
        'reported junctions modulo cube isometry/time reversal and their depths are compared with the closure of consecutive '
        'fractions level by level, cross-checked by explicit enumeration of all consecutive cells at levels 1..3; distinct = curves')
MIN_EVENTS = {'curve': 300, 'junction': 3000, 'explicit_pairs': 5000, 'junction_image': 3000}


def plan(tier, seed):
    n = 20 if tier == 'quick' else 400
    cases = [{'cfg': c, 'i': i} for c in gen.LIGHT for i in range(n)]
    cases += [{'cfg': c, 'i': i} for c in gen.HEAVY for i in range(2 if tier == 'quick' else 10)]
    cases += [{'zoo': z, 'i': 0} for z in range(24)]
    return cases


def run_case(ctx, case):
    rng = ctx.rng
    if 'zoo' in case:
        names = gen.zoo_names(A)
        if case['zoo'] >= len(names):
            return
        c = getattr(A.zoo, names[case['zoo']])().curve
        rc = rcurve(c)
    else:
        rc = gen.random_curve(case['cfg'], rng)
        if rc is None:
            ctx.notes['no_curve'] += 1
            return
        rc = gen.disguise(rc, rng)
        c = curve_of(rc, rng.randrange(rc.mult))
    want = ref.junction_classes(rc)
    # explicit cross-check of the closure on real cells
    for depth in (1, 2, 3):
        if rc.G ** depth * rc.mult > 1500:
            break
        for p in range(rc.mult):
            cells = rc.cells(p, depth)
            for (c1, i1, p1), (c2, i2, p2) in zip(cells, cells[1:]):
                k = ref.pair_class(i1, p1, i2, p2, tuple(b - a for a, b in zip(c1, c2)))
                assert want.get(k, 99) <= depth, 'reference closure is inconsistent'
                ctx.seen('explicit_pairs')
    js = ctx.take('gen_regular_junctions', c.gen_regular_junctions(), 100000)
    forms = [(j.spec1, j.spec2, tuple(j.delta_x), j.delta_t) for j in js]
    ctx.check(len(forms) == len(set(forms)), 'a junction is reported twice', curve=rc.pats)
    got = {}
    e = ref.iso_id(rc.dim)
    for j in js:
        ctx.equal(j.delta_t, 1, 'time shift of a regular junction')
        k = ref.pair_class(*rpair(j))
        ctx.check(k in want, 'a reported junction never occurs in the curve', junction=str(j), curve=rc.pats)
        got.setdefault(k, []).append(j.depth)
        i1, q1, i2, q2, dx = rpair(j)
        ctx.check(q1 <= q2 and i1[0] == e[0], 'a junction is not in the standard form (patterns in order, first fraction not rotated)', junction=str(j), curve=rc.pats)
        mixed = q1 == q2 and i1[1] != i2[1]
        ctx.check(len(got[k]) <= (2 if mixed else 1), 'a junction is reported in two forms', junction=str(j), curve=rc.pats)
        ctx.seen('junction')
    missing = [k for k in want if k not in got]
    ctx.check(not missing, 'a junction of the curve is not reported', missing=missing[:2], curve=rc.pats)
    for k, d in want.items():
        ctx.equal(min(got[k]), d, 'depth of a junction', junction=k, curve=rc.pats)
    ctx.equal(ctx.call('get_depth', c.get_depth), max(max(v) for v in got.values()), 'depth of the curve')
    ctx.check(c.get_depth() >= max(want.values()), 'depth of the curve is too small')
    # the same pair of fractions, rotated or run backwards, is the same junction
    for j in rng.sample(js, min(4, len(js))):
        i1, q1, i2, q2, dx = rpair(j)
        for _ in range(3):
            g = gen.random_iso(rc.dim, rng)
            h1, h2, hx = ref.iso_mul(g, i1), ref.iso_mul(g, i2), ref.iso_vec(g, dx)
            s1, s2 = q1, q2
            if g[1]:     # time reversal exchanges the fractions
                h1, h2, s1, s2, hx = h2, h1, s2, s1, tuple(-x for x in hx)
            j2 = ctx.call('RegularJunction', A.curves.RegularJunction, spec_of(h1, s1), spec_of(h2, s2), hx)
            if not g[1] or not (q1 == q2 and i1[1] != i2[1]):
                ctx.check(j2 == j and hash(j2) == hash(j), 'an image of a junction is another junction', junction=str(j), image=str(j2), by=g)
            ctx.equal(ref.pair_class(*rpair(j2)), ref.pair_class(*rpair(j)), 'an image of a junction denotes another pair', junction=str(j), by=g)
            ctx.equal(j2.delta_t, 1, 'time shift of a regular junction')
            ctx.seen('junction_image')
    auto = ctx.take('gen_auto_junctions', c.gen_auto_junctions(), 1000)
    ctx.equal([(j.delta_t, j.depth) for j in auto], [(0, 0)] * rc.mult, 'time shift and depth of the auto junctions')
    ctx.equal(sorted(rpair(j) for j in auto), sorted((e, p, e, p, (0,) * rc.dim) for p in range(rc.mult)), 'auto junctions')
    ctx.seen('curve')
    ctx.seen('max_depth_%d' % max(want.values()))
    ctx.state(rc.pats)
    ctx.sample({'case': case, 'junctions': len(js), 'depths': sorted(want.values())})
