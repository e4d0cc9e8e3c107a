"""Facet-set and parent-constrained path generation against plain enumeration with boxes."""
from collections import Counter
from fractions import Fraction as F
import itertools
from vlib import ref, gen
from vlib.bridge import A, bm_of

PROPERTY = 'C22'
RULE = ('random facet-subset links (nesting 0..2) in 2D and 3D, global links of the same or other nesting, parent paths made by '
        'coarsening or perturbing generated paths; generated sets are compared with plain enumeration where meeting of sets is '
        'decided on boxes; distinct = (links, global link or parent)')
MIN_EVENTS = {'set_compared': 100, 'parent_compared': 150, 'std_compared': 100, 'path': 2000}


def plan(tier, seed):
    n = 90 if tier == 'quick' else 4000
    return [{'shape': s, 'i': i} for i in range(n) for s in ([2, 2], [2, 3], [3, 2], [2, 4])]


def fmap(iso, s):
    """Image of a facet subset, computed on its box and re-read."""
    dim, div, _, cubes = s
    return box_to_sub(ref.box_map(iso, ref.facet_box(s)), dim, div, len(cubes))


def box_to_sub(box, dim, div, depth):
    fc = [j for j, (a, b) in enumerate(box) if a == b][0]
    fv = int(box[fc][0])
    cubes = []
    lo = [box[j][0] for j in range(dim) if j != fc]
    for _ in range(depth):
        cube = []
        for m in range(dim - 1):
            v = lo[m] * div
            k = v.numerator // v.denominator
            cube.append(int(k))
            lo[m] = v - k
        cubes.append(tuple(cube))
    return (dim, div, (fc, fv), tuple(cubes))


def lmap(iso, l):
    e, x = fmap(iso, l[0]), fmap(iso, l[1])
    return (x, e) if iso[1] else (e, x)


def mk(s):
    return A.FacetDivSubset(*s)


def mkl(l):
    return A.Link(mk(l[0]), mk(l[1]))


def rsub(s):
    return (s.dim, s.div, (int(s.facet[0]), int(s.facet[1])), tuple(tuple(int(v) for v in c) for c in s.cubes))


def rp(path):
    return tuple((tuple(c), (rsub(l.entrance), rsub(l.exit))) for c, l in zip(path.proto, path.links))


def meets(a, b, shift=None):
    B = ref.facet_box(b)
    return ref.box_meets(ref.facet_box(a), ref.box_shift(B, shift) if shift else B)


def enum(dim, div, links, glink=None, parent=None, max_cdist=None, limit=1200, node_limit=25000):
    orbit = sorted({lmap(iso, l) for l in links for iso in ref.iso_all(dim)})
    total = div ** dim
    cubes = list(itertools.product(range(div), repeat=dim))
    res, nodes = [], 0
    box = {}

    def B(s):
        if s not in box:
            box[s] = ref.facet_box(s)
        return box[s]

    if glink is not None:
        gin, gout = ref.box_scale(ref.facet_box(glink[0]), div), ref.box_scale(ref.facet_box(glink[1]), div)
        starts = [(c, l) for c in cubes for l in orbit if ref.box_meets(gin, ref.box_shift(B(l[0]), c))]
    else:
        allow = {}
        for k, (c, pl) in enumerate(parent):
            allow[k] = [(c, l) for l in orbit if ref.box_meets(B(pl[0]), B(l[0])) and ref.box_meets(B(pl[1]), B(l[1]))]
        starts = allow[0]
    nxt_cache = {}

    def nxt(x):
        # (delta, link) after an exit set
        if x not in nxt_cache:
            out = []
            for dl in ref.cube_deltas(dim, max_cdist):
                for l in orbit:
                    if ref.box_meets(B(x), ref.box_shift(B(l[0]), dl)):
                        out.append((dl, l))
            nxt_cache[x] = out
        return nxt_cache[x]

    path, used = [], set()

    def rec():
        nonlocal nodes
        nodes += 1
        if nodes > node_limit:
            raise ref.TooMany
        if len(path) == total:
            c, l = path[-1]
            if glink is None or ref.box_meets(gout, ref.box_shift(B(l[1]), c)):
                res.append(tuple(path))
                if len(res) > limit:
                    raise ref.TooMany
            return
        c, l = path[-1]
        for dl, l2 in nxt(l[1]):
            c2 = tuple(a + b for a, b in zip(c, dl))
            if c2 in used or any(not 0 <= v < div for v in c2):
                continue
            if parent is not None and (c2, l2) not in allow[len(path)]:
                continue
            used.add(c2)
            path.append((c2, l2))
            rec()
            path.pop()
            used.discard(c2)
    for st in starts:
        path.append(st)
        used.add(st[0])
        rec()
        path.pop()
        used.discard(st[0])
    return res


def rnd_sub(dim, div, depth, rng, facet=None):
    f = facet or (rng.randrange(dim), rng.randrange(2))
    return (dim, div, f, tuple(tuple(rng.randrange(div) for _ in range(dim - 1)) for _ in range(depth)))


def coarsen(s, rng):
    k = rng.randrange(len(s[3]) + 1)
    return (s[0], s[1], s[2], s[3][:k])


def refine(s, rng):
    return (s[0], s[1], s[2], s[3] + (tuple(rng.randrange(s[1]) for _ in range(s[0] - 1)),))


def run_case(ctx, case):
    rng = ctx.rng
    dim, div = case['shape']
    for attempt in range(14):
        m = rng.choice([1, 1, 2, 2, 3])
        depths = rng.choice([[0], [0, 1], [1], [1, 2]] if dim == 2 else [[0], [0], [0, 1], [1]])
        links = [(rnd_sub(dim, div, rng.choice(depths), rng), rnd_sub(dim, div, rng.choice(depths), rng)) for _ in range(m)]
        cd = rng.choice([None, None, None, 1])
        glink = rng.choice(links) if rng.random() < 0.6 else (rnd_sub(dim, div, rng.choice([0, 1]), rng), rnd_sub(dim, div, rng.choice([0, 1, 2]), rng))
        try:
            ps = enum(dim, div, links, glink=glink, max_cdist=cd)
        except ref.TooMany:
            ctx.notes['too_many'] += 1
            continue
        if not ps and rng.random() < 0.9:
            continue
        break
    else:
        ctx.notes['skipped'] += 1
        return
    ps = set(ps)
    w = dict(shape=(dim, div), links=links, glink=glink, max_cdist=cd)
    pg = ctx.call('PathsGenerator', A.PathsGenerator, dim=dim, div=div, links=[mkl(l) for l in links], **({'max_cdist': cd} if cd else {}))

    def limits():
        if rng.random() < 0.5:
            return {}
        return {'start_max_count': rng.choice([0, 1, 5, 100]), 'finish_max_count': rng.choice([0, 1, 20, 10 ** 6])}

    def collect(it, n, what):
        out = [rp(p) for p in ctx.take(what, it, 3 * n + 50)]
        ctx.check(len(out) == len(set(out)), what + ': a path is generated twice', **w)
        return set(out)

    def compare(got, want, what, **kw):
        ctx.check(got <= want, what + ': a generated path is not admissible', path=next(iter(got - want), None), **kw, **w)
        ctx.check(want <= got, what + ': an admissible path is not generated', path=next(iter(want - got), None), n=(len(got), len(want)), **kw, **w)
        ctx.seen('path', len(want))

    def pm(iso, p):
        src = reversed(p) if iso[1] else p
        return tuple((ref.iso_cube(iso, div, c), lmap(iso, l)) for c, l in src)

    def covers(std, want, keep, what, **kw):
        ctx.check(std <= want, what + ': a standardised path is not admissible', **kw, **w)
        todo = set(want)
        for p in std:
            for iso in keep:
                todo.discard(pm(iso, p))
        ctx.check(not todo, what + ': a class of equivalent paths is not represented with standardisation', missing=next(iter(todo), None), **kw, **w)
        ctx.seen('std_compared')

    compare(collect(pg.generate_paths_generic(link=mkl(glink), **limits()), len(ps), 'generate_paths_generic'), ps, 'link')
    ctx.seen('set_compared')
    ctx.state(links, glink, cd)
    if len(ps) < 250:
        keep = [iso for iso in ref.iso_all(dim) if lmap(iso, glink) == glink]
        covers(collect(pg.generate_paths_generic(link=mkl(glink), std=True, **limits()), len(ps), 'std'), ps, keep, 'link')
    ex = ctx.call('get_paths_example', pg.get_paths_example, links=(mkl(glink),))
    ctx.check((ex is not None) == bool(ps), 'existence of a path', **w)
    if not ps:
        return
    # parents
    parents = []
    for p in rng.sample(sorted(ps), min(3, len(ps))):
        par = []
        for c, (e, x) in p:
            r = rng.random()
            if r < 0.5:
                par.append((c, (coarsen(e, rng), coarsen(x, rng))))
            elif r < 0.7 and len(e[3]) < 2 and len(x[3]) < 2:
                par.append((c, (refine(e, rng), refine(x, rng))))
            else:
                par.append((c, (e, x)))
        parents.append(tuple(par))
    # links narrower than the parent's, as in the gates search: the global ends of the parent
    variants = [links]
    p0 = rng.choice(sorted(ps))
    variants.append([(rsub(q.entrance), rsub(q.exit)) for q in [A.Path(A.Proto(dim, div, [c for c, _ in p0]), [mkl(l) for _, l in p0]).link]])
    parents.append(p0)
    for par in parents:
        for lk in variants:
            try:
                want = set(enum(dim, div, lk, parent=par))
            except ref.TooMany:
                ctx.notes['too_many'] += 1
                continue
            pg2 = pg if lk is links and cd is None else ctx.call('PathsGenerator', A.PathsGenerator, dim=dim, div=div, links=[mkl(l) for l in lk])
            P = A.Path(A.Proto(dim, div, [c for c, _ in par]), [mkl(l) for _, l in par])
            compare(collect(pg2.generate_paths_generic(parent=P, **limits()), len(want), 'generate_paths_generic(parent)'), want, 'parent', parent=par, inner=lk)
            ctx.seen('parent_compared')
            ctx.state(lk, par)
            if want:
                ctx.seen('parent_nonempty')
            if len(want) < 150:
                keep = [iso for iso in ref.iso_all(dim) if pm(iso, par) == tuple(par)]
                covers(collect(pg2.generate_paths_generic(parent=P, std=True), len(want), 'std parent'), want, keep, 'parent', parent=par)
            ex = ctx.call('get_paths_example', pg2.get_paths_example, parents=(P,))
            ctx.check((ex is not None) == bool(want) and (ex is None or rp(ex[0]) in want), 'example for a parent', parent=par, **w)
            if len(want) ** 2 < 300 and rng.random() < 0.4:
                got = [tuple(rp(x) for x in tup) for tup in ctx.take('generate_paths(parents)', pg2.generate_paths(parents=(P, P)), 3 * len(want) ** 2 + 9)]
                ctx.equal(sorted(got), sorted(itertools.product(want, want)), 'tuples for parents', parent=par)
    ctx.sample({'case': case, 'links': str(links)[:200], 'paths': len(ps)})
