"""Subdivisions and deep specs, decided by exact equality of functions."""
from vlib import ref, gen
from vlib.bridge import A, rspec, rcurve, curve_of, bm_of

PROPERTY = 'C06'
RULE = ('random curves (continuous and arbitrary), subdivided k=0..3 times (genus limited), each pattern compared with the '
        'original as a function; random nested fractions of every pattern compared with the reported orientation; distinct = '
        '(curve, k) and (curve, fraction)')
MIN_EVENTS = {'subdivision': 200, 'deep': 2000}
WILD = [(1, 2, 1), (1, 3, 2), (2, 2, 1), (2, 2, 2), (2, 2, 4), (2, 3, 1), (2, 3, 2), (3, 2, 1), (3, 2, 3), (4, 2, 2)]


def plan(tier, seed):
    n = 24 if tier == 'quick' else 400
    names = list(gen.LIGHT)
    cases = [{'cfg': c, 'i': i} for c in names for i in range(n)]
    cases += [{'cfg': c, 'i': i} for c in gen.HEAVY for i in range(1 if tier == 'quick' else 8)]
    cases += [{'wild': w, 'i': i} for w in range(len(WILD)) for i in range(n)]
    return cases


def run_case(ctx, case):
    rng = ctx.rng
    if 'wild' in case:
        rc = gen.random_wild(*WILD[case['wild']], rng)
    else:
        rc = gen.random_curve(case['cfg'], rng)
        if rc is None:
            ctx.notes['no_curve'] += 1
            return
        rc = gen.disguise(rc, rng)
    pnum = rng.randrange(rc.mult)
    c = curve_of(rc, pnum)
    e = ref.iso_id(rc.dim)
    cap = 1100 if ctx.tier == 'quick' else 5000
    for k in range(0, 5):
        if rc.G ** (k + 1) * rc.mult > cap and k > 0:
            break
        if k == 1 and rng.random() < 0.5:
            s = ctx.call('get_subdivision()', c.get_subdivision)
        else:
            s = ctx.call('get_subdivision(%d)' % k, c.get_subdivision, k)
        ctx.equal((s.dim, s.div, s.mult, s.pnum, s.genus), (rc.dim, rc.div ** (k + 1), rc.mult, pnum, rc.G ** (k + 1)), 'attributes of a subdivision', k=k)
        rs, want = rcurve(s), rc.subdivision(k)
        for p in range(rc.mult):
            ctx.check(len(rs.pats[p][0]) == rs.G and len(rs.pats[p][1]) == rs.G, 'number of fractions of a subdivision', k=k)
            diff = ref.same_function(rs, e, p, want, e, p)
            ctx.check(diff is None, 'subdivision is another function', k=k, pattern=p, fraction=diff, curve=rc.pats)
        ctx.seen('subdivision')
        ctx.seen('subdivision_k%d' % k)
        ctx.state('sub', k, str(c))
    # a subdivided image is the image of the subdivision
    iso = gen.random_iso(rc.dim, rng)
    if rc.G ** 2 * rc.mult <= cap:
        s = rcurve(ctx.call('subdivision of an image', lambda: (bm_of(iso) * c).get_subdivision(1)))
        want = rc.subdivision(1)
        for p in range(rc.mult):
            ctx.check(ref.same_function(s, e, p, want, iso, p) is None, 'subdivision of an image is another function', pattern=p, iso=iso, curve=rc.pats)
    for _ in range(20):
        p = rng.randrange(rc.mult)
        cn = [rng.choice([0, rc.G - 1, rng.randrange(rc.G)]) for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 7]))]
        x = rspec(ctx.call('get_deep_spec', c.get_deep_spec, p, cn if rng.random() < 0.5 else iter(cn)))
        _, iso, q = rc.descend(p, cn)
        diff = ref.same_function(rc, x[0], x[1], rc, iso, q)
        ctx.check(diff is None, 'orientation of a nested fraction', pattern=p, fraction=cn, got=x, want=(iso, q), curve=rc.pats)
        ctx.seen('deep')
        ctx.state('deep', p, tuple(cn), str(c))
    ctx.sample({'case': case, 'fraction': cn, 'spec': str(x)})
