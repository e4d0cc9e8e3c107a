"""
Value semantics monitor: a random history of public operations over a shared population of objects.  Every object
has a content snapshot taken when it entered the population; after every operation the operands are compared with
their snapshots, earlier operations are repeated and must give the same content, and equality/hash of all pairs of
objects of one kind is compared with equality of the snapshots.
"""
from fractions import Fraction as F
from vlib import ref, gen
from vlib.bridge import A, iso_of, bm_of, rspec, spec_of, rpatterns, rcurve, curve_of, pt, rpt, link, rlink, path_of, rpath, rpair, fr, ratio_func

PROPERTY = 'C04'
RULE = ('a case is a history of about 60 operations on a population of curves, fuzzy curves, paths, links, subsets, specs '
        'and maps, plus near-miss twins (one spec, one cube, one gate, only the selected pattern changed); distinct = '
        '(operation, operand kinds, configuration)')
MIN_EVENTS = {'op': 1000, 'repeat': 200, 'eq_pair': 3000, 'near_miss': 200, 'interleaved_query': 300, 'result_emptied': 30}

CFG = ['hil', 's3', 'g3', 'b4', 'b5', 'b7', 'bo', 'c1', 'c5', 'A', 'C', 'E', 'nept', 'spring', 'd1n3', 'm4']


def plan(tier, seed):
    n = 20 if tier == 'quick' else 400
    return [{'kind': 'history', 'cfg': c, 'i': i} for c in CFG for i in range(n)] + \
           [{'kind': 'eq', 'cfg': c, 'i': i} for c in CFG for i in range(n)] + \
           [{'kind': 'together', 'cfg': c, 'i': i} for c in CFG for i in range(max(n // 4, 1))]


def facet_content(s):
    return (s.dim, s.div, tuple(s.facet), tuple(tuple(c) for c in s.cubes))


def content(x):
    if isinstance(x, A.BaseMap):
        return ('map', iso_of(x))
    if isinstance(x, A.Spec):
        return ('spec', rspec(x))
    if isinstance(x, A.Point):
        return ('point', rpt(x))
    if isinstance(x, A.FacetDivSubset):
        return ('facet', facet_content(x))
    if isinstance(x, A.Link):
        return ('link', content(x.entrance), content(x.exit))
    if isinstance(x, A.Path):
        return ('path', x.dim, x.div, tuple(tuple(c) for c in x.proto), tuple(content(l) for l in x.links), content(x.link))
    if isinstance(x, A.Proto):
        return ('proto', x.dim, x.div, tuple(tuple(c) if c is not None else None for c in x))
    if isinstance(x, A.Pattern):
        return ('pattern', content(x.proto), tuple(rspec(s) if s is not None else None for s in x.specs))
    if isinstance(x, A.Curve):
        return ('curve', x.dim, x.div, x.mult, x.genus, rpatterns(x), x.pnum)
    if isinstance(x, A.FuzzyCurve):
        allowed = tuple(tuple(sorted(rspec(s) for s in x.gen_allowed_specs(p, c)))
                        for p in range(x.mult) for c in range(x.genus))
        return ('fuzzy', x.dim, x.div, x.mult, x.genus, rpatterns(x), x.pnum, allowed)
    if x is None or isinstance(x, (int, str, bool, F)):
        return ('plain', x)
    if hasattr(x, 'numerator'):
        return ('num', fr(x))
    if hasattr(x, 'spec1'):
        return ('junc', rpair(x), int(x.delta_t), x.depth)
    if isinstance(x, dict):
        return ('dict', tuple(sorted(((content(k), content(v)) for k, v in x.items()), key=repr)))
    if isinstance(x, (tuple, list)):
        return ('seq', tuple(content(v) for v in x))
    if hasattr(x, 'x') and hasattr(x, 't'):
        return ('cpoint', rpt(x.x), fr(x.t))
    raise TypeError(type(x))


EQ_KINDS = {'map', 'spec', 'point', 'facet', 'link', 'path', 'proto', 'pattern', 'curve', 'junc'}


def eq_content(c):
    """Content that decides equality (junction depth is derived information)."""
    if c[0] == 'junc':
        return c[:3]
    return c


def curve_ops(c, rng):
    ops = [
        ('map*curve', lambda c, bm: bm * c), ('spec*curve', lambda c, bm: A.Spec(bm, c.mult - 1) * c), ('~curve', lambda c, bm: ~c),
        ('get_paths', lambda c, bm: c.get_paths()), ('forget', lambda c, bm: c.forget()),
        ('forget_notr', lambda c, bm: c.forget(disable_time_rev=True) if all(not s.base_map.time_rev for p in c.patterns for s in p.specs) else None),
        ('entrance', lambda c, bm: [c.get_entrance(p) for p in range(c.mult)]), ('exit', lambda c, bm: [c.get_exit(p) for p in range(c.mult)]),
        ('moments', lambda c, bm: c.get_vertex_moments()),
        ('face', lambda c, bm: c.get_face_moment((0,) + (None,) * (c.dim - 1), last=True, find_point=True)),
        ('junctions', lambda c, bm: sorted((content(j) for j in c.gen_regular_junctions())).__repr__()),
        ('depth', lambda c, bm: c.get_depth()), ('check', lambda c, bm: c.check()), ('str', lambda c, bm: str(c)),
        ('deep', lambda c, bm: c.get_deep_spec(c.mult - 1, [0, c.genus - 1, 0])),
        ('count', lambda c, bm: c.count_possible_curves()),
        ('example', lambda c, bm: c.get_curve_example()),
        ('proto', lambda c, bm: [c.proto, list(c.specs)]),
    ]
    if c.genus <= 9:
        ops.append(('subdivision', lambda c, bm: c.get_subdivision()))
        ops.append(('estimate', lambda c, bm: {k: v for k, v in A.Estimator(ratio_func('linf')).estimate_dilation_regular(
            c, rel_tol_inv=3, max_iter=30).items() if k in ('lo', 'up')}))
    return ops


def fuzzy_ops(c, rng):
    def spec_last(c, bm):
        p = c.mult - 1
        return c.specify(p, 0, max(c.gen_allowed_specs(p, 0), key=rspec))

    ops = [
        ('map*fuzzy', lambda c, bm: bm * c), ('~fuzzy', lambda c, bm: ~c), ('specify', spec_last),
        ('fuzzy example', lambda c, bm: c.get_curve_example()), ('fuzzy count', lambda c, bm: c.count_possible_curves()),
        ('defined', lambda c, bm: [[p, k, s] for p, k, s in c.gen_defined_specs()]),
        ('few', lambda c, bm: [x for x, _ in zip(c.gen_possible_curves(), range(3))]),
    ]
    if c.mult == 1 and c.genus <= 9 and len(list(c.gen_allowed_specs(0, 0))) <= 4:
        ops.append(('template table', lambda c, bm: c.get_junction_templates()))
        ops.append(('templates', lambda c, bm: len(c.get_junction_templates())))
        ops.append(('sat', lambda c, bm: A.sat.CurveSATAdapter(c).solve()))
    return ops


def path_ops(p, rng):
    return [
        ('map*path', lambda p, bm: bm * p), ('~path', lambda p, bm: ~p), ('continuous', lambda p, bm: p.is_continuous()),
        ('lt', lambda p, bm: p < (bm * p)), ('init', lambda p, bm: A.PathFuzzyCurve.init_from_paths([p]) if gates_ok(p) else None),
        ('gen', lambda p, bm: A.PathsGenerator(p.dim, p.div, [p.link], max_cdist=1).links),
    ]


def gates_ok(p):
    std = ref.link_std(rlink(p.link))
    return all(ref.link_std(rlink(l)) == std for l in p.links)


def link_ops(l, rng):
    return [('map*link', lambda l, bm: bm * l), ('~link', lambda l, bm: ~l), ('std', lambda l, bm: l.std()), ('lstr', lambda l, bm: str(l)),
            ('ltransform', lambda l, bm: l.transform(shift=[1] * l.dim)),
            ('argmul', lambda l, bm: repr(sorted(iso_of(b) for b in l.argmul_intersect(bm * l))))]


def point_ops(x, rng):
    return [('map*point', lambda x, bm: bm * x), ('pstd', lambda x, bm: x.std()), ('divide', lambda x, bm: [list(t) for t in x.divide(2)]),
            ('neigh', lambda x, bm: [list(t) for t in x.gen_neighbours()]), ('face_dim', lambda x, bm: x.face_dim()),
            ('to_cube', lambda x, bm: x.map_to_cube(3, (1,) * x.dim)), ('scaled', lambda x, bm: x.transform(scale=3, shift=[1] * x.dim))]


def run_case(ctx, case):
    if case['kind'] == 'history':
        return history(ctx, case)
    if case['kind'] == 'together':
        return together(ctx, case)
    return eq_case(ctx, case)


def history(ctx, case):
    rng = ctx.rng
    rc = gen.random_curve(case['cfg'], rng)
    if rc is None:
        ctx.notes['no_curve'] += 1
        return
    pop = []

    def add(x):
        if content(x)[0] in ('curve', 'fuzzy', 'path', 'link', 'point'):
            if isinstance(x, A.FuzzyCurve) and x.genus > 64:
                return
            pop.append((x, content(x)))

    c0 = curve_of(rc, rng.randrange(rc.mult))
    add(c0)
    add(curve_of(gen.disguise(rc, rng)))
    f0 = ctx.call('forget', c0.forget)
    add(f0)
    for p in c0.get_paths():
        add(p)
    add(link(rng.choice(rc.gates())))
    add(pt(rng.choice(rc.gates())[0]))
    maps = [bm_of(gen.random_iso(rc.dim, rng)) for _ in range(4)]
    mapsnap = [iso_of(b) for b in maps]
    log = []
    for step in range(60):
        x, snap = rng.choice(pop)
        bm = rng.choice(maps)
        table = {'curve': curve_ops, 'fuzzy': fuzzy_ops, 'path': path_ops, 'link': link_ops, 'point': point_ops}[snap[0]]
        name, fn = rng.choice(table(x, rng))
        res = ctx.call(name, fn, x, bm)
        rc_ = ctx.call(name, content, res)
        ctx.check(content(x) == snap, 'operation %s changed its operand' % name, before=snap, after=content(x))
        ctx.seen('op')
        ctx.seen('op_' + name)
        ctx.state(name, case['cfg'], snap[0], iso_of(bm))
        log.append((name, fn, x, bm, rc_))
        if isinstance(res, dict):
            # a returned container belongs to the caller: emptying it must change no later answer
            for v in res.values():
                if isinstance(v, list):
                    v.clear()
            res.clear()
            ctx.seen('result_emptied')
        if rng.random() < 0.35:
            nm, f, y, b, old = rng.choice(log)
            again = ctx.call(nm, lambda: content(f(y, b)))
            ctx.check(again == old, 'operation %s gives another result when repeated' % nm, first=old, again=again)
            ctx.seen('repeat')
        if isinstance(res, tuple) and not hasattr(res, '_fields') and not isinstance(res, (A.Point, A.Proto)):
            for r in res[:2]:
                add(r)
        elif rc_[0] != 'plain':
            add(res)
        if len(pop) > 24:
            for _ in range(8):
                pop.pop(rng.randrange(3, len(pop)))
    for x, snap in pop:
        ctx.check(content(x) == snap, 'an object changed during the history', before=snap, after=content(x))
    for b, s in zip(maps, mapsnap):
        ctx.equal(iso_of(b), s, 'a base map changed during the history')
    compare_all(ctx, [x for x, _ in pop])
    ctx.sample({'cfg': case['cfg'], 'ops': [l[0] for l in log[:12]]})


END = object()


def together(ctx, case):
    """Several iterated queries, advanced in random order: each must list what it lists when it runs alone."""
    rng = ctx.rng
    rc = gen.random_curve(case['cfg'], rng)
    if rc is None:
        ctx.notes['no_curve'] += 1
        return
    c = curve_of(rc, rng.randrange(rc.mult))
    fz = ctx.call('forget', c.forget)
    k = rng.randrange(rc.G)
    part = fz.specify(0, k, min(fz.gen_allowed_specs(0, k), key=rspec))
    bm = bm_of(gen.random_iso(rc.dim, rng))
    lk, path = link(rc.gates()[0]), c.get_paths()[0]
    sub = A.FacetDivSubset(rc.dim, rc.div, (0, 0)) if rc.dim > 1 else None

    def some(it, n):
        return (x for x, _ in zip(it, range(n)))

    pool = [
        ('junctions', lambda: c.gen_regular_junctions()), ('junctions of an image', lambda: (bm * c).gen_regular_junctions()),
        ('auto junctions', lambda: c.gen_auto_junctions()),
        ('defined specs', lambda: c.gen_defined_specs()), ('defined specs, partial', lambda: part.gen_defined_specs()),
        ('allowed', lambda: fz.gen_allowed_specs(0, k)), ('allowed, other', lambda: fz.gen_allowed_specs(rc.mult - 1, rc.G - 1 - k)),
        ('allowed, image', lambda: (bm * fz).gen_allowed_specs(0, k)), ('allowed, known', lambda: part.gen_allowed_specs(0, k)),
        ('curves', lambda: some(fz.gen_possible_curves(), 6)), ('curves, partial', lambda: some(part.gen_possible_curves(), 6)),
        ('maps', lambda: A.BaseMap.gen_base_maps(rc.dim)), ('maps, no reversal', lambda: A.BaseMap.gen_base_maps(rc.dim, time_rev=False)),
        ('maps of points', lambda: A.BaseMap.gen_constraint_fast(lk.entrance, lk.exit)),
        ('standardising', lambda: lk.entrance.argstd()), ('neighbours', lambda: lk.exit.gen_neighbours()), ('pieces', lambda: lk.exit.divide(rc.div)),
        ('link maps', lambda: lk.argmul_intersect(bm * lk)),
        ('faces', lambda: A.utils.gen_faces(rc.dim, rc.dim - 1)),
    ]
    if sub is not None:
        pool += [('facet pieces', lambda: sub.divide(rc.div)), ('facet neighbours', lambda: sub.gen_neighbours())]
    if rc.G <= 9:
        pg = A.PathsGenerator(rc.dim, rc.div, [link(g) for g in rc.gates()], max_cdist=1 if rc.dim > 2 else None)
        for std in (False, True):
            pool.append(('paths std=%s' % std, lambda std=std: some(pg.generate_paths_generic(link=lk, std=std), 12)))
        pool.append(('paths of a parent', lambda: some(pg.generate_paths_generic(parent=path), 4)))
    picked = [rng.choice(pool) for _ in range(8)]
    picked += [picked[0], picked[1]]                # some of them twice
    alone = [ctx.call(n, lambda: [content(x) for x in f()]) for n, f in picked]
    its = [ctx.call(n, lambda: iter(f())) for n, f in picked]
    got = [[] for _ in picked]
    live = list(range(len(picked)))
    while live:
        j = rng.choice(live)
        for _ in range(rng.choice([1, 1, 2, 5])):
            x = ctx.call(picked[j][0], next, its[j], END)
            if x is END:
                live.remove(j)
                break
            got[j].append(ctx.call(picked[j][0], content, x))
            ctx.seen('interleaved_step')
    for (n, _), a, b in zip(picked, alone, got):
        ctx.check(sorted(map(repr, a)) == sorted(map(repr, b)), 'query "%s" gives another list when other queries are iterated at the same time' % n,
                  alone=a[:20], together=b[:20], others=[m for m, _ in picked])
        ctx.seen('interleaved_query')
        ctx.state(case['cfg'], 'together', n)


def compare_all(ctx, objs):
    cs = [content(x) for x in objs]
    for i in range(len(objs)):
        for j in range(len(objs)):
            if cs[i][0] == cs[j][0] and cs[i][0] in EQ_KINDS:
                check_pair(ctx, objs[i], objs[j], cs[i], cs[j])


def check_pair(ctx, a, b, ca, cb):
    want = eq_content(ca) == eq_content(cb)
    got = ctx.call('==', lambda: a == b)
    ctx.check(bool(got) == want, 'equality does not follow content', kind=ca[0], a=ca, b=cb, got=got, want=want)
    ne = ctx.call('!=', lambda: a != b)
    ctx.check(bool(ne) != want, 'inequality does not follow content', kind=ca[0], a=ca, b=cb)
    if want:
        ctx.check(hash(a) == hash(b), 'equal objects with different hashes', kind=ca[0], a=ca)
        ctx.check(len({a, b}) == 1, 'equal objects are different set members', kind=ca[0], a=ca)
    else:
        ctx.check(len({a, b}) == 2, 'different objects collapse in a set', kind=ca[0], a=ca, b=cb)
    ctx.seen('eq_pair')
    ctx.seen('eq_' + ca[0])


def eq_case(ctx, case):
    rng = ctx.rng
    rc = gen.random_curve(case['cfg'], rng)
    if rc is None:
        ctx.notes['no_curve'] += 1
        return
    twins = [(rc, 0), (rc, 0), (ref.RefCurve(rc.dim, rc.div, rc.pats), rc.mult - 1)]
    for _ in range(4):
        twins.append((gen.mutate(rc, rng), 0))
    if rc.mult > 1:
        # only another pattern differs / pattern order differs
        pats = list(rc.pats)
        cubes, specs = pats[-1]
        specs = list(specs)
        k = rng.randrange(len(specs))
        specs[k] = (specs[k][0], (specs[k][1] + 1) % rc.mult)
        twins.append((ref.RefCurve(rc.dim, rc.div, pats[:-1] + [(cubes, specs)]), 0))
        twins.append((ref.RefCurve(rc.dim, rc.div, list(reversed(rc.pats))), 0))
    # time reversal of one spec only
    pats = [(c, list(s)) for c, s in rc.pats]
    k = rng.randrange(len(pats[0][1]))
    (co, tr), p = pats[0][1][k]
    pats[0][1][k] = ((co, not tr), p)
    twins.append((ref.RefCurve(rc.dim, rc.div, pats), 0))
    objs = [curve_of(t, p, how=i % 2) for i, (t, p) in enumerate(twins)]
    compare_all(ctx, objs)
    ctx.seen('near_miss', len(objs))
    compare_all(ctx, [p for o in objs[:6] for p in o.patterns])
    compare_all(ctx, [p.proto for o in objs[:6] for p in o.patterns])
    # paths: same cubes, different gates etc.
    cont = [o for o, (t, p) in zip(objs, twins) if t.is_continuous()][:3]
    paths = [p for o in cont for p in o.get_paths()]
    if paths:
        base = paths[0]
        paths.append(path_of(rc.dim, rc.div, rpath(base)))
        lk = list(rpath(base))
        k = rng.randrange(len(lk))
        lk[k] = (lk[k][0], (lk[k][1][1], lk[k][1][0]))
        paths.append(path_of(rc.dim, rc.div, lk))
        compare_all(ctx, paths)
        compare_all(ctx, [l for p in paths for l in p.links][:20])
    sp = [spec_of(i, p) for _, s in rc.pats for i, p in s][:8]
    sp += [spec_of((i[0], not i[1]), p) for _, s in rc.pats for i, p in s][:4]
    compare_all(ctx, sp)
    compare_all(ctx, [s.base_map for s in sp])
    dim, div = max(rc.dim, 2), rc.div
    subs = []
    for _ in range(10):
        fc = rng.randrange(dim)
        subs.append(A.FacetDivSubset(dim, div, (fc, rng.randrange(2)), [tuple(rng.randrange(div) for _ in range(dim - 1)) for _ in range(rng.randrange(3))]))
    subs.append(A.FacetDivSubset(dim, div, subs[0].facet, list(subs[0].cubes)))
    for s in subs[:4]:
        # same facet and cubes, another grid; same facet, one cube less; the opposite facet
        subs.append(A.FacetDivSubset(dim, div + rng.randrange(1, 3), s.facet, list(s.cubes)))
        subs.append(A.FacetDivSubset(dim, div, s.facet, list(s.cubes)[1:]))
        subs.append(A.FacetDivSubset(dim, div, (s.facet[0], 1 - s.facet[1]), list(s.cubes)))
    subs.append(A.FacetDivSubset(dim + 1, div, subs[0].facet, []))
    rng.shuffle(subs)
    compare_all(ctx, subs)
    compare_all(ctx, [A.Link(a, b) for a, b in zip(subs, subs[1:])] + [A.Link(b, a) for a, b in zip(subs, subs[1:])])
    pts = [pt([F(rng.randrange(3), 2) for _ in range(2)]) for _ in range(8)]
    compare_all(ctx, pts)
    # junctions of different curves
    js = []
    for o, (t, p) in zip(objs[:5], twins):
        if t.is_continuous():
            js += list(o.gen_regular_junctions())[:12]
    # near-miss junctions: only a time reversal, a pattern number, a direction or the time shift differs
    for j in [j for j in js if rng.random() < 0.5][:4]:
        (i1, p1), (i2, p2) = rspec(j.spec1), rspec(j.spec2)
        for a, b in [((i1, p1), (i2, p2)), (((i1[0], not i1[1]), p1), (i2, p2)), ((i1, p1), ((i2[0], not i2[1]), p2)),
                     ((i1, p1 + 1), (i2, p2)), ((i1, p1), (i2, p2 + 1)), ((i2, p2), (i1, p1))]:
            js.append(A.curves.Junction(spec_of(*a), spec_of(*b), tuple(j.delta_x), j.delta_t))
        js.append(A.curves.Junction(j.spec1, j.spec2, tuple(-x for x in j.delta_x), j.delta_t))
        js.append(A.curves.Junction(j.spec1, j.spec2, tuple(j.delta_x), 1 - j.delta_t))
        ctx.seen('near_miss_junction', 8)
    js += [A.curves.AutoJunction(rc.dim, p) for p in range(rc.mult)]
    compare_all(ctx, js)
    # constructor arguments are not aliased
    pats = [(list(c), [spec_of(i, p) for i, p in s]) for c, s in rc.pats]
    c = A.Curve(rc.dim, rc.div, pats)
    pats[0][0].reverse()
    pats[0][1].clear()
    pats.clear()
    ctx.equal(rpatterns(c), rc.pats, 'a curve changed when the list it was built from was changed')
    ctx.state(case['cfg'], 'eq', str(objs[3]))
