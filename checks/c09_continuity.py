"""Continuity verdicts, pointed prototypes, path continuity and transforms."""
from fractions import Fraction as F
import itertools
from vlib import ref, gen
from vlib.bridge import A, bm_of, rlink, rpt, rpath, path_of, link, pt, curve_of, rcurve

PROPERTY = 'C09'
RULE = ('random continuous curves and mutants broken at few joints (one spec, two cubes, one pattern); the verdict of check is '
        'compared with exact joint-by-joint evaluation; pointed and facet-set paths with single broken joints; distinct = '
        '(curve) and (path)')
MIN_EVENTS = {'continuous': 200, 'broken': 300, 'path_true': 200, 'path_false': 200, 'facet_path': 100}


def plan(tier, seed):
    n = 16 if tier == 'quick' else 300
    names = list(gen.LIGHT)
    cases = [{'cfg': c, 'i': i} for c in names for i in range(n)]
    cases += [{'cfg': c, 'i': i} for c in gen.HEAVY for i in range(1 if tier == 'quick' else 8)]
    cases += [{'facet': 1, 'i': i} for i in range(40 * n)]
    return cases


def verdict(ctx, c):
    try:
        c.check()
        return True
    except ValueError:
        return False
    except Exception as e:
        ctx.fail('check raised %s' % type(e).__name__, msg=str(e))


def one(ctx, rc, how=0):
    c = curve_of(rc, rc.mult - 1, how)
    want = rc.is_continuous()
    got = verdict(ctx, c)
    ctx.check(got == want, 'continuity verdict is wrong', got=got, want=want, breaks=rc.breaks(), curve=rc.pats)
    ctx.seen('continuous' if want else 'broken')
    ctx.state('curve', rc.pats)
    paths = ctx.call('get_paths', c.get_paths)
    ctx.equal(len(paths), rc.mult, 'number of pointed prototypes')
    br = rc.breaks()
    for p, path in enumerate(paths):
        ctx.equal([tuple(q) for q in path.proto], list(rc.pats[p][0]), 'cubes of the pointed prototype', pattern=p)
        ctx.equal([rlink(l) for l in path.links], rc.frac_links(p), 'gates of the fractions', pattern=p, curve=rc.pats)
        ctx.equal(rlink(path.link), rc.gate(p), 'global gates of the pointed prototype', pattern=p)
        ctx.equal(ctx.call('is_continuous', path.is_continuous), all(q != p for q, _ in br), 'continuity of the pointed prototype', pattern=p)
        ctx.seen('path')
    return paths


def run_case(ctx, case):
    rng = ctx.rng
    if 'facet' in case:
        return facet_case(ctx, rng)
    rc = gen.random_curve(case['cfg'], rng)
    if rc is None:
        ctx.notes['no_curve'] += 1
        return
    if rng.random() < 0.5:
        rc = gen.disguise(rc, rng)
    paths = one(ctx, rc, rng.randrange(2))
    for _ in range(3):
        m = gen.mutate(rc, rng)
        one(ctx, m)
    if rc.mult > 1:
        # break only the last pattern, in the middle
        for _ in range(2):
            pats = [(list(c), list(s)) for c, s in rc.pats]
            k = rng.randrange(1, rc.G - 1)
            pats[-1][1][k] = (gen.random_iso(rc.dim, rng), rng.randrange(rc.mult))
            one(ctx, ref.RefCurve(rc.dim, rc.div, pats))
    # symmetric-looking reversal: swap the ends of one fraction
    pats = [(list(c), list(s)) for c, s in rc.pats]
    p, k = rng.randrange(rc.mult), rng.randrange(rc.G)
    (co, tr), q = pats[p][1][k]
    pats[p][1][k] = ((co, not tr), q)
    one(ctx, ref.RefCurve(rc.dim, rc.div, pats))
    # paths by themselves
    rp = rpath(paths[0])
    for _ in range(4):
        q = list(rp)
        r = rng.random()
        k = rng.randrange(len(q))
        if r < 0.25:
            q[k] = (q[k][0], (q[k][1][1], q[k][1][0]))
        elif r < 0.45:
            iso = gen.random_iso(rc.dim, rng)
            q[k] = (q[k][0], ref.link_map(iso, q[k][1]))
        elif r < 0.6:
            j = rng.randrange(len(q))
            q[k], q[j] = (q[j][0], q[k][1]), (q[k][0], q[j][1])
        elif r < 0.75:
            e, x = q[k][1]
            x = tuple(c + rng.choice([0, 0, 1, -1]) for c in x)
            q[k] = (q[k][0], (e, x))
        iso = gen.random_iso(rc.dim, rng)
        path = path_of(rc.dim, rc.div, q)
        want = path_cont(q)
        ctx.equal(ctx.call('is_continuous', path.is_continuous), want, 'continuity of a path', path=q)
        ctx.seen('path_true' if want else 'path_false')
        img = ctx.call('map * path', lambda: bm_of(iso) * path)
        ctx.equal(rpath(img), ref.path_map(iso, rc.div, q), 'image of a path', iso=iso, path=q)
        ctx.equal(rlink(img.link), ref.link_map(iso, rlink(path.link)), 'global gates of an image', iso=iso)
        ctx.equal(ctx.call('is_continuous', img.is_continuous), want, 'continuity of an image', iso=iso)
        rev = ctx.call('~path', lambda: ~path)
        ctx.equal(rpath(rev), ref.path_map(ref.iso_id(rc.dim, True), rc.div, q), 'reversed path')
        ctx.state('path', tuple(q))
    ctx.sample({'case': case, 'breaks_of_mutant': str(m.breaks())[:100]})


def path_cont(q):
    for (c1, l1), (c2, l2) in zip(q, q[1:]):
        if tuple(a + b for a, b in zip(c1, l1[1])) != tuple(a + b for a, b in zip(c2, l2[0])):
            return False
    return True


def facet_case(ctx, rng):
    """Paths with facet subsets as entrances/exits."""
    dim, div = rng.choice([(2, 2), (2, 3), (3, 2), (2, 4), (3, 3)])
    from checks.c03_notation import rand_hamilton
    cubes = None
    inner = lambda cube: all(0 < v < div - 1 for v in cube)
    while cubes is None or inner(cubes[0]) or inner(cubes[-1]):
        cubes = rand_hamilton(dim, div, rng, straight=0.8)

    def sub(fc, fv, cs):
        return (dim, div, (fc, fv), tuple(cs))

    def rnd_cubes():
        return [tuple(rng.randrange(div) for _ in range(dim - 1)) for _ in range(rng.choice([0, 0, 1, 1, 2]))]

    def on_border(cube):
        """Facets of the cube that lie on the border of the grid (needed for the ends)."""
        return [(j, v) for j in range(dim) for v in (0, 1) if cube[j] == (div - 1) * v]

    ends = [on_border(cubes[0]), on_border(cubes[-1])]
    n = len(cubes)
    entr, exits = [None] * n, [None] * n
    entr[0] = sub(*rng.choice(ends[0]), rnd_cubes())
    exits[-1] = sub(*rng.choice(ends[1]), rnd_cubes())
    break_at = rng.choice([None, rng.randrange(n - 1), rng.randrange(n - 1)])
    for k in range(n - 1):
        shift = tuple(b - a for a, b in zip(cubes[k], cubes[k + 1]))
        if sum(map(abs, shift)) == 1 and k != break_at:
            j = [i for i, s in enumerate(shift) if s][0]
            v = 1 if shift[j] == 1 else 0
            cs = rnd_cubes()
            exits[k] = sub(j, v, cs)
            if rng.random() < 0.5:
                cs2 = cs[:rng.randrange(len(cs) + 1)] + (rnd_cubes() if rng.random() < 0.2 else [])
                if len(cs2) > 3:
                    cs2 = cs2[:3]
            else:
                cs2 = cs
            entr[k + 1] = sub(j, 1 - v, cs2)
        else:
            exits[k] = sub(rng.randrange(dim), rng.randrange(2), rnd_cubes())
            entr[k + 1] = sub(rng.randrange(dim), rng.randrange(2), rnd_cubes())
    want = True
    for k in range(n - 1):
        shift = tuple(b - a for a, b in zip(cubes[k], cubes[k + 1]))
        if not ref.box_meets(ref.facet_box(exits[k]), ref.box_shift(ref.facet_box(entr[k + 1]), shift)):
            want = False
    mk = lambda s: A.FacetDivSubset(*s)
    path = ctx.call('Path', A.Path, A.Proto(dim, div, cubes), [A.Link(mk(a), mk(b)) for a, b in zip(entr, exits)])
    ctx.equal(ctx.call('is_continuous', path.is_continuous), want, 'continuity of a facet-set path', cubes=cubes, entrances=entr, exits=exits)
    box = lambda s: ref.facet_box((s.dim, s.div, tuple(s.facet), tuple(tuple(c) for c in s.cubes)))
    for end, mine, cube in ((path.link.entrance, entr[0], cubes[0]), (path.link.exit, exits[-1], cubes[-1])):
        ctx.equal(box(end), ref.box_scale(ref.box_shift(ref.facet_box(mine), cube), F(1, div)), 'global end of a facet-set path')
    iso = gen.random_iso(dim, rng)
    img = ctx.call('map * facet path', lambda: bm_of(iso) * path)
    ctx.equal(ctx.call('is_continuous', img.is_continuous), want, 'continuity of the image of a facet-set path', iso=iso)
    src = list(zip(cubes, entr, exits))
    if iso[1]:
        src = [(c, x, e) for c, e, x in reversed(src)]
    got = [(tuple(c), box(l.entrance), box(l.exit)) for c, l in zip(img.proto, img.links)]
    ctx.equal(got, [(ref.iso_cube(iso, div, c), ref.box_map(iso, ref.facet_box(e)), ref.box_map(iso, ref.facet_box(x))) for c, e, x in src],
              'image of a facet-set path', iso=iso)
    ctx.seen('facet_path')
    ctx.seen('facet_path_true' if want else 'facet_path_false')
    ctx.state('facet', tuple(cubes), tuple(entr), tuple(exits))
