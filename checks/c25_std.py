"""Standard forms of points, facet subsets and links against brute force over all isometries."""
from collections import Counter
from fractions import Fraction as F
from vlib import ref
from vlib.bridge import A, bm_of, iso_of, pt, rpt
from checks.c02_enum import rand_point
from checks.c22_facet_paths import mk, rnd_sub, rsub, fmap, lmap

PROPERTY = 'C25'
RULE = ('random rational points and links with repeated, complementary, half and boundary coordinates in dimension 1..5, facet subsets of '
        'nesting 0..3; the standard form is compared with the minimum over all isometries, and of random images; distinct = point or link')
MIN_EVENTS = {'point': 500, 'link': 500, 'facet': 100, 'inequivalent_pair': 50}
CHUNK = 4


def plan(tier, seed):
    n = 60 if tier == 'quick' else 1500
    out = [{'kind': 'point', 'dim': d, 'i': i} for i in range(n) for d in (1, 2, 3, 4)]
    out += [{'kind': 'link', 'dim': d, 'i': i} for i in range(n) for d in (1, 2, 3)]
    out += [{'kind': 'link', 'dim': 4, 'i': i} for i in range(n // 2)]
    out += [{'kind': k, 'dim': 5, 'i': i} for i in range(n // 8) for k in ('point', 'link')]
    out += [{'kind': 'facet', 'dim': d, 'i': i} for i in range(n) for d in (2, 3)]
    return out


def run_case(ctx, case):
    rng, dim = ctx.rng, case['dim']
    space = list(ref.iso_all(dim, (False,)))
    full = list(ref.iso_all(dim))
    if case['kind'] == 'point':
        for _ in range(10 if dim < 4 else 3):
            x = tuple(rand_point(rng, dim))
            want = min(ref.iso_pt(i, x) for i in space)
            p = pt(x)
            s = ctx.call('Point.std', p.std)
            ctx.check(isinstance(s, A.Point), 'the standard form of a point is a Point')
            ctx.equal(rpt(s), want, 'Point.std is the smallest image', x=x)
            got = Counter(iso_of(b) for b in ctx.take('argstd', p.argstd(), 2 * len(space)))
            ctx.equal(got, Counter(i for i in space if ref.iso_pt(i, x) == want), 'argstd yields exactly the standardising maps', x=x)
            y = ref.iso_pt(rng.choice(space), x)
            ctx.equal(rpt(ctx.call('Point.std', pt(y).std)), want, 'equivalent points have the same standard form', x=x, y=y)
            z = tuple(rand_point(rng, dim))
            eq = min(ref.iso_pt(i, z) for i in space) == want
            ctx.equal(pt(z).std() == s, eq, 'points have the same standard form iff they are equivalent', x=x, z=z)
            ctx.equal(hash(pt(y).std()), hash(s), 'hash of the standard form')
            if not eq:
                ctx.seen('inequivalent_pair')
            ctx.seen('point')
            ctx.state(x)
        return
    if case['kind'] == 'link':
        for _ in range(8 if dim < 4 else 2):
            e = tuple(rand_point(rng, dim))
            r = rng.random()
            if r < 0.35:
                x = ref.iso_pt(rng.choice(space), e)      # standard forms of the two ends coincide
            elif r < 0.5:
                x = list(e)
                j = rng.randrange(dim)
                x[j] = 1 - x[j]
                x = tuple(x)
            else:
                x = tuple(rand_point(rng, dim))
            want = min(ref.link_map(i, (e, x)) for i in full)
            l = A.Link(pt(e), pt(x))
            s = ctx.call('Link.std', l.std)
            ctx.equal((rpt(s.entrance), rpt(s.exit)), want, 'Link.std is the smallest image', link=(e, x))
            i = rng.choice(full)
            m = ref.link_map(i, (e, x))
            s2 = ctx.call('Link.std', A.Link(pt(m[0]), pt(m[1])).std)
            ctx.check(s2 == s and hash(s2) == hash(s), 'equivalent links have the same standard form', link=(e, x), image=m)
            s3 = ctx.call('Link.std', (bm_of(i) * l).std)
            ctx.check(s3 == s, 'the image of a link has the same standard form', link=(e, x), iso=i)
            s4 = ctx.call('Link.std', s.std)
            ctx.check(s4 == s, 'the standard form is standard', link=(e, x))
            o = (tuple(rand_point(rng, dim)), x) if rng.random() < 0.5 else (x, ref.iso_pt(rng.choice(space), e))
            eq = min(ref.link_map(i, o) for i in full) == want
            ctx.equal(A.Link(pt(o[0]), pt(o[1])).std() == s, eq, 'links have the same standard form iff they are equivalent', a=(e, x), b=o)
            if not eq:
                ctx.seen('inequivalent_pair')
            ctx.equal((rpt(l.entrance), rpt(l.exit)), (e, x), 'std leaves the link unchanged')
            ctx.seen('link')
            ctx.state(e, x)
        return
    for _ in range(4):
        div = rng.choice([2, 3, 4])
        s = rnd_sub(dim, div, rng.choice([0, 1, 2, 3]), rng)
        f = ctx.call('std', mk(s).std)
        images = {fmap(i, s) for i in space}
        ctx.check(rsub(f) in images, 'the standard form of a facet subset is one of its images', s=s, got=rsub(f))
        ctx.check(all(not mk(o) < f for o in images), 'the standard form of a facet subset is the smallest image', s=s)
        o = rng.choice(sorted(images))
        ctx.check(mk(o).std() == f, 'equivalent facet subsets have the same standard form', s=s, image=o)
        l = (s, rnd_sub(dim, div, rng.choice([0, 1, 2]), rng))
        L = A.Link(mk(l[0]), mk(l[1]))
        g = ctx.call('Link.std', L.std)
        images = {lmap(i, l) for i in full}
        ctx.check((rsub(g.entrance), rsub(g.exit)) in images, 'the standard form of a facet link is one of its images', link=l)
        ctx.check(all(not A.Link(mk(a), mk(b)) < g for a, b in images), 'the standard form of a facet link is the smallest image', link=l)
        o = rng.choice(sorted(images))
        ctx.check(A.Link(mk(o[0]), mk(o[1])).std() == g, 'equivalent facet links have the same standard form', link=l, image=o)
        ctx.seen('facet')
        ctx.state(l)
