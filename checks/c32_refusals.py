"""Requests that make no sense are refused with an exception instead of being answered."""
from fractions import Fraction as F
import itertools
from vlib import ref, gen
from vlib.bridge import A, bm_of, spec_of, curve_of, pt, link, q, path_of, ratio_func

PROPERTY = 'C32'
RULE = ('random ill-formed requests next to well-formed twins: maps of another dimension, pieces of facets with another division or off the '
        'facet, malformed texts, both or neither of a link and a parent, growth from the finish without a rule, adapters from nothing, '
        'copies of thresholded heaps, lowered thresholds, disallowed specs, discontinuous curves, l2 in odd dimension; '
        'the twin must be accepted, the request must raise; distinct = (kind of request, parameters)')
MIN_EVENTS = {'refused': 3000, 'twin_accepted': 3000, 'dimension': 30, 'facet': 30, 'text': 30, 'paths': 30, 'tree': 30, 'adapter': 30, 'heap': 30,
              'metric': 30, 'curve': 30}


def plan(tier, seed):
    n = 40 if tier == 'quick' else 400
    return [{'kind': k, 'i': i} for i in range(n) for k in ('dimension', 'facet', 'text', 'paths', 'tree', 'adapter', 'heap', 'metric', 'curve')]


def refuse(ctx, what, fn, exc=Exception):
    ctx.raises(what, exc, fn)
    ctx.seen('refused')


def accept(ctx, what, fn):
    r = ctx.call(what, fn)
    ctx.seen('twin_accepted')
    return r


def run_case(ctx, case):
    rng = ctx.rng
    kind = case['kind']
    ctx.seen(kind)
    globals()['do_' + kind](ctx, rng)
    ctx.sample({'case': case})


def do_dimension(ctx, rng):
    for _ in range(10):
        d1 = rng.randrange(1, 6)
        d2 = rng.choice([d for d in range(1, 6) if d != d1])
        a, b, c = (bm_of(gen.random_iso(d, rng)) for d in (d1, d2, d1))
        ctx.state('dim', d1, d2, str(a), str(b))
        accept(ctx, 'product of maps of one dimension', lambda: a * c)
        refuse(ctx, 'product of maps of different dimension', lambda: a * b)
        refuse(ctx, 'product of maps of different dimension', lambda: b * a)
        div = rng.choice([2, 3])
        cubes = list(itertools.product(range(div), repeat=d1))[:40]
        rng.shuffle(cubes)
        proto = A.Proto(d1, div, cubes)
        accept(ctx, 'map * prototype', lambda: a * proto)
        refuse(ctx, 'map of another dimension * prototype', lambda: b * proto)
        if d1 > 1:
            s = A.FacetDivSubset(dim=d1, div=div, facet=(rng.randrange(d1), rng.randrange(2)))
            accept(ctx, 'map * facet', lambda: a * s)
            refuse(ctx, 'map of another dimension * facet', lambda: b * s)


def do_facet(ctx, rng):
    for _ in range(10):
        dim, div = rng.randrange(2, 6), rng.randrange(2, 5)
        other = rng.choice([d for d in range(2, 7) if d != div])
        coord, value = rng.randrange(dim), rng.randrange(2)
        cubes = [tuple(rng.randrange(div) for _ in range(dim - 1)) for _ in range(rng.randrange(3))]
        s = A.FacetDivSubset(dim=dim, div=div, facet=(coord, value), cubes=cubes)
        ctx.state('facet', dim, div, other, coord, value, str(cubes))
        accept(ctx, 'divide a piece of a facet', lambda: list(s.divide(div)))
        refuse(ctx, 'divide a piece of a facet with another division', lambda: list(s.divide(other)))
        cube = [rng.randrange(div) for _ in range(dim)]
        cube[coord] = div - 1 if value else 0
        accept(ctx, 'embed a piece of a facet', lambda: s.map_to_cube(div, tuple(cube)))
        refuse(ctx, 'embed with another division', lambda: s.map_to_cube(other, tuple(cube)))
        bad = list(cube)
        bad[coord] = 0 if value else div - 1
        refuse(ctx, 'embed into a cube off the facet', lambda: s.map_to_cube(div, tuple(bad)))


def do_text(ctx, rng):
    for _ in range(10):
        dim = rng.randrange(1, 5)
        P = lambda: '(' + ','.join(str(F(rng.randrange(0, 4), rng.randrange(1, 4))) for _ in range(dim)) + ')'
        a, b, c = P(), P(), P()
        ctx.state('text', a, b, c)
        accept(ctx, 'parse_gates', lambda: A.Link.parse_gates(a + '->' + b))
        refuse(ctx, 'gates with one point', lambda: A.Link.parse_gates(a))
        refuse(ctx, 'gates with three points', lambda: A.Link.parse_gates('->'.join((a, b, c))))
        accept(ctx, 'Point.parse', lambda: A.Point.parse(a))
        refuse(ctx, 'a point with a coordinate that is no number', lambda: A.Point.parse(a.replace('(', '(x', 1)))
        text = ref.iso_str(gen.random_iso(rng.randrange(2, 7), rng))
        accept(ctx, 'BaseMap.parse', lambda: A.BaseMap.parse(text))
        k = rng.randrange(len(text.rstrip('~')))
        refuse(ctx, 'a base map with an unknown letter', lambda: A.BaseMap.parse(text[:k] + rng.choice('xyzXYZ') + text[k + 1:]))
        refuse(ctx, 'a base map with more than six letters', lambda: A.BaseMap.parse('ijklmn' + rng.choice(['o', 'O', 'ij'])))


def do_paths(ctx, rng):
    dim, div, text = rng.choice([(2, 2, '(0,0)->(0,1)'), (2, 3, '(0,0)->(1,1)'), (3, 2, '(0,0,0)->(1,0,0)'), (2, 3, '(0,0)->(0,1)')])
    iso = gen.random_iso(dim, rng)
    l = bm_of(iso) * A.Link.parse_gates(text)
    pg = accept(ctx, 'PathsGenerator', lambda: A.PathsGenerator(dim=dim, div=div, links=[l]))
    path = accept(ctx, 'a path', lambda: next(pg.generate_paths_generic(link=l)))
    accept(ctx, 'a path with a parent', lambda: next(pg.generate_paths_generic(parent=path)))
    std = rng.random() < 0.5
    refuse(ctx, 'paths without link and parent', lambda: list(pg.generate_paths_generic(std=std)), ValueError)
    refuse(ctx, 'paths with link and parent', lambda: list(pg.generate_paths_generic(link=l, parent=path, std=std)), ValueError)
    n = rng.randrange(1, 4)
    refuse(ctx, 'tuples of paths with links and parents', lambda: list(pg.generate_paths(links=[l] * n, parents=[path] * n, std=std)), ValueError)
    refuse(ctx, 'an example with links and parents', lambda: pg.get_paths_example(links=(l,) * n, parents=(path,) * n), ValueError)
    ctx.state('paths', dim, div, str(l), std, n)


def do_tree(ctx, rng):
    dim, div = rng.choice([(1, 3), (2, 2), (2, 3), (3, 2)])
    steps = [d for d in itertools.product((-1, 0, 1), repeat=dim) if sum(map(abs, d)) == 1]
    nxt = lambda cube, state: [(d, state) for d in steps]
    cubes = list(itertools.product(range(div), repeat=dim))
    start = [(c, 0) for c in cubes]
    t = A.tree.CubePathTree(dim=dim, div=div, next_func=nxt)
    accept(ctx, 'growth from the start only', lambda: list(itertools.islice(t.grow(start, start, finish_max_count=None), 50)))
    n = rng.choice([0, 1, 100, 10 ** 6])
    refuse(ctx, 'growth from the finish without a backward rule', lambda: list(t.grow(start, start, finish_max_count=n)))
    refuse(ctx, 'growth from the finish without a backward rule', lambda: list(t.grow(start, start)))
    ctx.state('tree', dim, div, n)


def do_adapter(ctx, rng):
    rc = gen.random_curve(rng.choice(['hil', 's3', 'b2', 'bo', 'd1n2']), rng)
    if rc is None:
        return
    c = curve_of(gen.disguise(rc, rng), 0)
    SA = A.sat.CurveSATAdapter
    ad = accept(ctx, 'adapter of a curve', lambda: SA(curve=c))
    cp = accept(ctx, 'copy of an adapter', lambda: SA(adapter=ad))
    refuse(ctx, 'adapter of nothing', lambda: SA())
    accept(ctx, 'solve', ad.solve)
    accept(ctx, 'copy of an unsolved copy', lambda: SA(adapter=cp))
    ctx.state('adapter', rc.pats)


def do_heap(ctx, rng):
    H, I = A.heap.BoundedItemsHeap, A.heap.BoundedItem
    good, bad = q(F(rng.randrange(5, 9), 2)), q(F(rng.randrange(1, 4)))
    items = []
    for _ in range(rng.randrange(1, 30)):
        lo = F(rng.randrange(0, 20), 3)
        items.append(I(lo=q(lo), up=q(lo + F(rng.randrange(0, 9), 2))))
    plain = H(good_threshold=None, bad_threshold=None)
    for it in items:
        plain.push(it)
    accept(ctx, 'copy of a plain heap', lambda: plain.copy_and_cleanup(good_threshold=good, bad_threshold=bad))
    for g, b, keep in ((good, None, False), (None, bad, False), (good, bad, False), (None, None, True)):
        h = H(good_threshold=g, bad_threshold=b, keep_max_lo_item=keep)
        for it in items:
            h.push(it)
        refuse(ctx, 'copy of a heap with thresholds or a tracked item', lambda: h.copy_and_cleanup(good_threshold=good, bad_threshold=bad))
        if g is not None:
            refuse(ctx, 'lowering the good threshold', lambda: h.update_good_threshold(g - q(F(1, rng.choice([1, 10 ** 6])))), ValueError)
            accept(ctx, 'raising the good threshold', lambda: h.update_good_threshold(g + q(F(rng.randrange(3)))))
    ctx.state('heap', str(good), str(bad), len(items))


def do_metric(ctx, rng):
    for _ in range(10):
        d = rng.randrange(1, 8)
        dx, dt = [q(F(rng.randrange(-9, 10), rng.randrange(1, 5))) for _ in range(d)], q(F(rng.randrange(1, 9), rng.randrange(1, 5)))
        for name in ('ratio_l1', 'ratio_linf', 'ratio_l2_squared'):
            accept(ctx, name, lambda: getattr(A.utils, name)(d, dx, dt))
        if d % 2:
            refuse(ctx, 'l2 in an odd dimension (its power is irrational)', lambda: A.utils.ratio_l2(d, dx, dt))
        else:
            accept(ctx, 'ratio_l2', lambda: A.utils.ratio_l2(d, dx, dt))
        ctx.state('metric', d, str(dx), str(dt))


def do_curve(ctx, rng):
    rc = gen.random_curve(rng.choice(['hil', 's3', 'g3', 'b2', 'b4', 'bo', 'A', 'C', 'nept']), rng)
    if rc is None:
        return
    rc = gen.disguise(rc, rng)
    c = curve_of(rc, rng.randrange(rc.mult))
    accept(ctx, 'check of a continuous curve', c.check)
    fz = accept(ctx, 'forget', c.forget)
    gates = rc.gates()
    links = [rc.frac_links(p) for p in range(rc.mult)]
    for _ in range(8):
        p, k = rng.randrange(rc.mult), rng.randrange(rc.G)
        g, s = gen.random_iso(rc.dim, rng), rng.randrange(rc.mult)
        if ref.link_map(g, gates[s]) == links[p][k]:
            accept(ctx, 'specify', lambda: fz.specify(p, k, spec_of(g, s)))
        else:
            refuse(ctx, 'a spec with other gates', lambda: fz.specify(p, k, spec_of(g, s)), ValueError)
        if (g, s) != rc.pats[p][1][k]:
            refuse(ctx, 'another spec for a specified fraction', lambda: c.specify(p, k, spec_of(g, s)), ValueError)
        accept(ctx, 'the same spec for a specified fraction', lambda: c.specify(p, k, spec_of(*rc.pats[p][1][k])))
        # one fraction turned: continuous only by luck
        pats = [(cubes, list(sp)) for cubes, sp in rc.pats]
        pats[p][1][k] = (g, s)
        rb = ref.RefCurve(rc.dim, rc.div, pats)
        bad = curve_of(rb, 0)
        if rb.is_continuous():
            accept(ctx, 'check of a continuous curve', bad.check)
        else:
            refuse(ctx, 'check of a discontinuous curve', bad.check, ValueError)
        ctx.state('curve', rb.pats)
    plain = A.FuzzyCurve(dim=rc.dim, div=rc.div, patterns=[(cubes, [spec_of(*x) for x in sp]) for cubes, sp in rc.pats])
    refuse(ctx, 'allowed specs of a fuzzy curve without rules', lambda: list(plain.gen_allowed_specs(0, 0)))
