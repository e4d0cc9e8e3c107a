"""Base map enumerations against exhaustive filtering."""
from fractions import Fraction as F
from vlib import ref
from vlib.bridge import A, iso_of, pt, q

PROPERTY = 'C02'
RULE = ('random pairs of rational points (with repeated, complementary and half coordinates, images of each other or not); '
        'the yielded maps are compared, as a multiset, with exhaustive filtering of all isometries; distinct = point pairs')
MIN_EVENTS = {'pair': 400}


def plan(tier, seed):
    cases = [{'kind': 'all', 'dim': d} for d in (1, 2, 3, 4, 5)]
    reps = 100 if tier == 'quick' else 2000
    for dim in (1, 2, 3, 4):
        for i in range(reps):
            cases.append({'kind': 'pairs', 'dim': dim, 'i': i, 'n': 40 if dim < 4 else 10})
    for i in range(24 if tier == 'quick' else 300):
        cases.append({'kind': 'pairs', 'dim': 5, 'i': i, 'n': 3})
    return cases


def rand_point(rng, dim):
    den = rng.choice([1, 2, 2, 3, 4, 5, 6, 7])
    style = rng.random()
    if rng.random() < 0.12:      # coordinates that only exact arithmetic tells apart
        e = F(rng.choice([1, 1, 2]), rng.choice([10 ** 9, 10 ** 18, 10 ** 30]))
        b = [F(0), F(1), F(1, 2), F(rng.randrange(den + 1), den)]
        near = [v for c in b for v in (c - e, c, c + e) if 0 <= v <= 1]
        return [rng.choice(near) for _ in range(dim)]
    if style < 0.3:
        base = [F(rng.randrange(den + 1), den) for _ in range(2)]
        return [rng.choice([b, 1 - b]) for b in (rng.choice(base) for _ in range(dim))]
    if style < 0.5:
        return [rng.choice([F(0), F(1), F(1, 2)]) for _ in range(dim)]
    return [F(rng.randrange(den + 1), den) for _ in range(dim)]


def run_case(ctx, case):
    rng, dim = ctx.rng, case['dim']
    if case['kind'] == 'all':
        full = set(ref.iso_all(dim))
        for tr, want in ((None, full), (True, {i for i in full if i[1]}), (False, {i for i in full if not i[1]})):
            for call in ((lambda: A.BaseMap.gen_base_maps(dim, time_rev=tr)), (lambda: A.BaseMap.gen_base_maps(dim, tr))):
                got = [iso_of(b) for b in ctx.take('gen_base_maps', call(), 2 * len(full))]
                ctx.check(len(got) == len(set(got)), 'a base map is generated twice', dim=dim, time_rev=tr)
                ctx.check(set(got) == want, 'wrong set of base maps', dim=dim, time_rev=tr, n=len(got), want=len(want))
                ctx.state(dim, tr)
        got = [iso_of(b) for b in ctx.take('gen_base_maps', A.BaseMap.gen_base_maps(dim), 2 * len(full))]
        ctx.check(len(got) == len(full) and set(got) == full, 'wrong default set of base maps', dim=dim)
        # two interleaved enumerations do not disturb each other
        g1, g2 = A.BaseMap.gen_base_maps(dim), A.BaseMap.gen_base_maps(dim, time_rev=False)
        out = []
        for b in g2:
            out.append(iso_of(next(g1)))
            out.append(iso_of(next(g1)))
        ctx.check(set(out) == full, 'interleaved enumerations differ', dim=dim)
        return
    isos = list(ref.iso_all(dim, (False,)))
    for _ in range(case['n']):
        src = rand_point(rng, dim)
        r = rng.random()
        if r < 0.65:
            dst = list(ref.iso_pt(rng.choice(isos), src))
        elif r < 0.85:
            dst = list(ref.iso_pt(rng.choice(isos), src))
            j = rng.randrange(dim)
            dst[j] = rng.choice([F(0), F(1), F(1, 2), F(1, 3), src[j]])
        else:
            dst = rand_point(rng, dim)
        want = sorted(i for i in isos if list(ref.iso_pt(i, src)) == dst)
        how = rng.random()
        s, d = (pt(src), pt(dst)) if how < 0.6 else ([q(c) for c in src], [q(c) for c in dst])
        got = [iso_of(b) for b in ctx.take('gen_constraint_fast', A.BaseMap.gen_constraint_fast(s, d), 4 * len(isos))]
        ctx.equal(sorted(got), want, 'maps from one point to another', src=src, dst=dst)
        ctx.seen('pair')
        ctx.seen('pair_empty' if not want else 'pair_nonempty')
        ctx.state(tuple(src), tuple(dst))
        p = pt(src)
        std = ref.point_std(tuple(src))
        got = [iso_of(b) for b in ctx.take('argstd', p.argstd(), 4 * len(isos))]
        ctx.equal(sorted(got), sorted(i for i in isos if ref.iso_pt(i, src) == std), 'maps standardising a point', point=src)
    ctx.sample({'src': [str(c) for c in src], 'dst': [str(c) for c in dst], 'maps': len(want)})
