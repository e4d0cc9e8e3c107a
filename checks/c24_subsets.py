"""Subset geometry (points, nested facet subsets) against plain interval arithmetic."""
from collections import Counter
from fractions import Fraction as F
import itertools
from vlib import ref, gen
from vlib.bridge import A, bm_of, iso_of, pt, rpt, q
from checks.c22_facet_paths import box_to_sub, mk, rnd_sub, rsub, coarsen, refine
from checks.c02_enum import rand_point

PROPERTY = 'C24'
RULE = ('random rational points (grid, corner, half, boundary, generic) in dimension 1..5 and facet subsets of nesting 0..4 in dimension '
        '2..4, division 2..5; every method is compared with interval arithmetic on boxes; distinct = subset, operand')
MIN_EVENTS = {'point': 1000, 'facet': 1000, 'divide': 1000, 'neighbours': 1000, 'argmul': 500, 'meets': 200, 'apart': 200}


def plan(tier, seed):
    n = 60 if tier == 'quick' else 1500
    out = [{'kind': 'point', 'dim': d, 'i': i} for i in range(n) for d in (1, 2, 3, 4, 5)]
    out += [{'kind': 'facet', 'dim': d, 'div': v, 'i': i} for i in range(n) for d in (2, 3, 4) for v in (2, 3, 5)]
    out += [{'kind': 'link', 'dim': d, 'i': i} for i in range(n) for d in (2, 3)]
    return out


CHUNK = 4


def is_pt(ctx, p, what):
    ctx.check(isinstance(p, A.Point), '%s is a Point' % what, got=type(p))
    return rpt(p)


def run_case(ctx, case):
    {'point': points, 'facet': facets, 'link': links}[case['kind']](ctx, case)


def any_point(rng, dim, div):
    if rng.random() < 0.4:
        k = div ** rng.choice([1, 1, 2])
        return [F(rng.randrange(k + 1), k) for _ in range(dim)]
    return rand_point(rng, dim)


def points(ctx, case):
    rng, dim = ctx.rng, case['dim']
    isos = list(ref.iso_all(dim, (False,)))
    for _ in range(8):
        div = rng.choice([2, 2, 3, 4, 5, 6])
        x = tuple(any_point(rng, dim, div))
        p = pt(x)
        ctx.seen('point')
        ctx.state('pt', x, div)
        ctx.equal(p.dim, dim, 'dimension of a point')

        got = [(tuple(int(v) for v in c), is_pt(ctx, s, 'portion')) for c, s in ctx.take('Point.divide', p.divide(div), 4 ** dim)]
        want = []
        for c in itertools.product(*[range(max(0, int(v * div) - 1), min(div - 1, int(v * div) + 1) + 1) for v in x]):
            s = tuple(v * div - cj for v, cj in zip(x, c))
            if all(0 <= v <= 1 for v in s):
                want.append((c, s))
        ctx.equal(Counter(got), Counter(want), 'Point.divide lists exactly the portions', x=x, div=div)
        ctx.seen('divide')

        got = [(tuple(int(v) for v in c), is_pt(ctx, s, 'portion')) for c, s in ctx.take('Point.gen_neighbours', p.gen_neighbours(), 4 ** dim)]
        want = []
        for c in itertools.product((-1, 0, 1), repeat=dim):
            s = tuple(v - cj for v, cj in zip(x, c))
            if any(c) and all(0 <= v <= 1 for v in s):
                want.append((c, s))
        ctx.equal(Counter(got), Counter(want), 'Point.gen_neighbours lists exactly the portions in adjacent cubes', x=x)
        ctx.seen('neighbours')

        cube = tuple(rng.randrange(div) for _ in range(dim))
        m = is_pt(ctx, ctx.call('map_to_cube', p.map_to_cube, div, cube), 'map_to_cube')
        ctx.equal(m, tuple((v + c) / div for v, c in zip(x, cube)), 'Point.map_to_cube', x=x, div=div, cube=cube)

        scale = rng.choice([None, 1, 2, 3, 0, -1, q(F(1, 3)), q(F(5, 2)), q(F(-2, 7))])
        shift = rng.choice([None, [rng.randrange(-3, 4) for _ in x], [q(F(rng.randrange(-9, 9), 4)) for _ in x],
                            tuple(rng.randrange(-3, 4) for _ in x)])
        t = is_pt(ctx, ctx.call('transform', p.transform, scale=scale, shift=shift), 'transform')
        k = 1 if scale is None else F(scale.numerator, scale.denominator)
        sh = [0] * dim if shift is None else [F(s.numerator, s.denominator) for s in shift]
        ctx.equal(t, tuple(v * k + s for v, s in zip(x, sh)), 'Point.transform', x=x, scale=scale, shift=shift)

        iso = rng.choice(isos)
        iso = (iso[0], rng.random() < 0.3)
        y = is_pt(ctx, ctx.call('bm * point', lambda: bm_of(iso) * p), 'image')
        ctx.equal(y, ref.iso_pt(iso, x), 'image of a point', x=x, iso=iso)
        ctx.equal(ctx.call('face_dim', p.face_dim), sum(v not in (0, 1) for v in x), 'face_dim', x=x)

        z = ref.iso_pt(rng.choice(isos), x) if rng.random() < 0.7 else tuple(any_point(rng, dim, div))
        ctx.equal(bool(p.intersects(pt(z))), x == z, 'Point.intersects', x=x, z=z)
        ctx.seen('meets' if x == z else 'apart')
        if dim <= 4:
            check_argmul(ctx, p, pt(z), isos, lambda i: ref.iso_pt(i, x) == z, (x, z))
        ctx.equal(rpt(p), x, 'the point is unchanged by the calls')


def check_argmul(ctx, a, b, isos, pred, what):
    rng = ctx.rng
    got = Counter(iso_of(m) for m in ctx.take('argmul_intersect', a.argmul_intersect(b), 4 * len(isos)))
    ctx.equal(got, Counter(i for i in isos if pred(i)), 'argmul_intersect yields exactly the maps that make the subsets meet', sets=what)
    some = [rng.choice(isos) for _ in range(rng.randrange(0, 6))]
    some = [(i[0], rng.random() < 0.3) for i in some]
    for arg in ([bm_of(i) for i in some], (bm_of(i) for i in some)):
        got = [iso_of(m) for m in ctx.take('argmul_intersect', a.argmul_intersect(b, bms=arg), 100)]
        ctx.equal(Counter(got), Counter(i for i in some if pred((i[0], False))), 'argmul_intersect among given maps', sets=what, bms=some)
    ctx.seen('argmul')


def facets(ctx, case):
    rng, dim, div = ctx.rng, case['dim'], case['div']
    isos = list(ref.iso_all(dim, (False,)))
    for _ in range(5):
        s = rnd_sub(dim, div, rng.choice([0, 0, 1, 1, 2, 3, 4]), rng)
        f = mk(s) if rng.random() < 0.5 else A.FacetDivSubset(dim=dim, div=div, facet=list(s[2]), cubes=(list(c) for c in s[3]))
        box = ref.facet_box(s)
        ctx.seen('facet')
        ctx.state('facet', s)
        ctx.equal(rsub(f), s, 'subset as constructed')
        ctx.equal(hash(f), hash(mk(s)), 'equal subsets have equal hashes')
        ctx.check(f == mk(s), 'equal subsets compare equal', s=s)

        # divide
        got = [(tuple(int(v) for v in c), rsub(u)) for c, u in ctx.take('divide', f.divide(div), 2 * div ** dim)]
        want = []
        for c in itertools.product(range(div), repeat=dim):
            b = ref.box_shift(ref.box_scale(box, div), [-v for v in c])
            r = unit_portion(b, s[2])
            if r is not None:
                want.append((c, box_to_sub(r, dim, div, max(0, len(s[3]) - 1))))
        ctx.equal(Counter(got), Counter(want), 'divide lists exactly the non-empty portions', s=s)
        ctx.seen('divide')

        # neighbours
        got = [(tuple(int(v) for v in c), rsub(u)) for c, u in ctx.take('gen_neighbours', f.gen_neighbours(), 3 ** dim)]
        want = []
        for c in itertools.product((-1, 0, 1), repeat=dim):
            if not any(c):
                continue
            r = unit_portion(ref.box_shift(box, [-v for v in c]), None)
            if r is not None:
                want.append((c, box_to_sub(r, dim, div, len(s[3]))))
        ctx.equal(Counter(got), Counter(want), 'gen_neighbours lists exactly the non-empty portions in adjacent cubes', s=s)
        ctx.seen('neighbours')

        # embedding
        cube = tuple((div - 1 if s[2][1] else 0) if j == s[2][0] else rng.randrange(div) for j in range(dim))
        m = rsub(ctx.call('map_to_cube', f.map_to_cube, div, cube))
        ctx.equal(ref.facet_box(m), ref.box_scale(ref.box_shift(box, cube), F(1, div)), 'map_to_cube is the affine embedding', s=s, cube=cube)
        ctx.equal(m[:2], (dim, div), 'map_to_cube keeps dimension and division')

        # images
        for _ in range(4):
            iso = (rng.choice(isos)[0], rng.random() < 0.3)
            y = rsub(ctx.call('bm * subset', lambda: bm_of(iso) * f))
            ctx.equal(ref.facet_box(y), ref.box_map(iso, box), 'image of a facet subset', s=s, iso=iso)
            ctx.equal((y[:2], len(y[3])), ((dim, div), len(s[3])), 'an image keeps dimension, division and nesting', s=s, iso=iso)

        # meeting
        r = rng.random()
        o = s
        if r < 0.3:
            o = coarsen(s, rng)
        elif r < 0.6:
            o = refine(coarsen(s, rng), rng)
        elif r < 0.8:
            o = rnd_sub(dim, div, rng.choice([0, 1, 2, 3]), rng)
        if rng.random() < 0.3:
            iso = rng.choice(isos)
            o = box_to_sub(ref.box_map(iso, ref.facet_box(o)), dim, div, len(o[3]))
        obox = ref.facet_box(o)
        g = mk(o)
        w = ref.box_meets(box, obox)
        ctx.equal(bool(f.intersects(g)), w, 'intersects', s=s, o=o)
        ctx.equal(bool(g.intersects(f)), w, 'intersects is symmetric', s=s, o=o)
        ctx.seen('meets' if w else 'apart')
        ctx.equal(bool(f == g), s == o, 'equality of subsets', s=s, o=o)
        ctx.check((f < g) + (g < f) + (s == o) == 1, 'the order of subsets is total', s=s, o=o)
        check_argmul(ctx, f, g, isos, lambda i: ref.box_meets(ref.box_map(i, box), obox), (s, o))
        ctx.equal(rsub(f), s, 'the subset is unchanged by the calls')


def unit_portion(box, facet):
    """Part of a facet box in the unit cube: (dim-1)-dimensional or None."""
    out = []
    for lo, hi in box:
        if lo == hi:
            if lo not in (0, 1):
                return None
            out.append((lo, hi))
        else:
            a, b = max(lo, F(0)), min(hi, F(1))
            if a >= b:
                return None
            out.append((a, b))
    if facet is not None:
        # a sub-cube only shares the facet itself, not the facet of the neighbouring sub-cube
        if out[facet[0]] != (F(facet[1]), F(facet[1])):
            return None
    return tuple(out)


def links(ctx, case):
    rng, dim = ctx.rng, case['dim']
    isos = list(ref.iso_all(dim))
    for _ in range(4):
        if rng.random() < 0.5:
            e, x = tuple(any_point(rng, dim, 2)), tuple(any_point(rng, dim, 3))
            l = A.Link(pt(e), pt(x))
            iso = rng.choice(isos)
            o = ref.link_map(iso, (e, x))
            im = ctx.call('bm * link', lambda: bm_of(iso) * l)
            ctx.equal((rpt(im.entrance), rpt(im.exit)), o, 'image of a link', link=(e, x), iso=iso)
            if rng.random() < 0.4:
                o = (o[0], tuple(any_point(rng, dim, 2)))
            ol = A.Link(pt(o[0]), pt(o[1]))
            pred = lambda i: ref.link_map(i, (e, x)) == o
            inv = ctx.call('~link', lambda: ~l)
            ctx.equal((rpt(inv.entrance), rpt(inv.exit)), (x, e), 'reversed link')
            sh = [rng.randrange(-2, 3) for _ in range(dim)]
            t = ctx.call('Link.transform', l.transform, shift=sh, scale=q(F(1, 2)))
            ctx.equal((rpt(t.entrance), rpt(t.exit)), tuple(tuple(v / 2 + s for v, s in zip(p, sh)) for p in (e, x)), 'Link.transform')
            meets = (e, x) == o
        else:
            div = rng.choice([2, 3])
            s = (rnd_sub(dim, div, rng.choice([0, 1, 2]), rng), rnd_sub(dim, div, rng.choice([0, 1, 2]), rng))
            l = A.Link(mk(s[0]), mk(s[1]))
            iso = rng.choice(isos)
            boxes = tuple(ref.facet_box(v) for v in s)

            def img(i):
                b = tuple(ref.box_map(i, v) for v in boxes)
                return (b[1], b[0]) if i[1] else b
            im = ctx.call('bm * link', lambda: bm_of(iso) * l)
            ctx.equal((ref.facet_box(rsub(im.entrance)), ref.facet_box(rsub(im.exit))), img(iso), 'image of a facet link', link=s, iso=iso)
            o = (rsub(im.entrance), rsub(im.exit))
            o = tuple(rng.choice([v, coarsen(v, rng), refine(v, rng)]) for v in o)
            if rng.random() < 0.3:
                o = (o[0], rnd_sub(dim, div, 1, rng))
            ob = tuple(ref.facet_box(v) for v in o)
            ol = A.Link(mk(o[0]), mk(o[1]))
            pred = lambda i: all(ref.box_meets(a, b) for a, b in zip(img(i), ob))
            meets = all(ref.box_meets(a, b) for a, b in zip(boxes, ob))
        ctx.equal(bool(l.intersects(ol)), meets, 'Link.intersects')
        got = Counter(iso_of(m) for m in ctx.take('Link.argmul_intersect', l.argmul_intersect(ol), 4 * len(isos)))
        ctx.equal(got, Counter(i for i in isos if pred(i)), 'Link.argmul_intersect yields exactly the maps that make the links meet')
        ctx.seen('argmul')
        ctx.state('link', str(l), str(ol))
