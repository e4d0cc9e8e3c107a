"""Gate generation: every tuple that is generated must be realizable, and realizable tuples found independently must be generated."""
import itertools
import random
from vlib import ref, gen
from vlib.gate_candidates import CANDIDATES
from vlib.bridge import A, rlink

PROPERTY = 'C23'
RULE = ('configurations (dim, div, mult, facet-only); realizable gate tuples are found independently by choosing facets, boundary cubes, '
        'successor gates and isometries (all choices when few, else sampled, plus a stored list), solving for the gates exactly and searching for paths '
        'depth-first; distinct = (configuration, gate tuple)')
MIN_EVENTS = {'generated': 60, 'candidate': 5000, 'realizable': 60}
CPU_BUDGET = 700
ASSUMPTIONS = ['path existence is searched with a node limit; tuples for which the limit is hit are counted in notes and not judged',
               'completeness is judged on the independently found realizable tuples (exhaustive for mult 1, sampled above)']

QUICK = [(1, 2, 1, 0, 0), (1, 3, 1, 0, 0), (1, 2, 2, 0, 0), (1, 3, 2, 0, 0), (2, 2, 1, 0, 0), (2, 2, 1, 1, 0), (2, 3, 1, 0, 0),
         (2, 3, 1, 1, 0), (2, 4, 1, 0, 0), (2, 4, 1, 1, 0), (2, 5, 1, 0, 0), (2, 5, 1, 1, 0), (2, 6, 1, 1, 0), (2, 7, 1, 1, 0),
         (3, 2, 1, 0, 0), (3, 2, 1, 1, 0), (2, 2, 2, 1, 20000), (2, 3, 2, 1, 12000), (2, 4, 2, 1, 3000), (2, 2, 3, 1, 20000),
         (2, 3, 3, 1, 2500), (2, 2, 4, 1, 20000), (3, 2, 2, 1, 4000), (2, 2, 2, 0, 40000)]
DEEP = [(1, 5, 2, 0, 0), (1, 2, 3, 0, 0), (2, 2, 2, 0, 200000), (2, 2, 3, 1, 200000), (2, 2, 4, 1, 150000), (2, 3, 3, 1, 20000),
        (3, 2, 2, 1, 30000), (2, 5, 2, 1, 2000), (2, 4, 2, 1, 30000), (2, 3, 2, 1, 100000)]


def plan(tier, seed):
    out = [list(c) for c in QUICK]
    if tier == 'thorough':
        out += [list(c) for c in DEEP]
    return out


def weight(case):
    return {(2, 2, 2, 0): 100, (2, 3, 3, 1): 50, (2, 2, 4, 1): 40, (3, 2, 2, 1): 30, (2, 5, 2, 1): 200, (2, 5, 1, 0): 20}.get(tuple(case[:4]), 1)


def realizable(dim, div, tup, cache):
    """True/False/None(undecided): do paths with these gates exist for every pattern?"""
    if tup not in cache:
        r = True
        for g in tup:
            try:
                if not ref_exists(dim, div, tup, g):
                    r = False
                    break
            except ref.TooMany:
                r = None
        cache[tup] = r
    return cache[tup]


def ref_exists(dim, div, links, glink):
    for s in range(6):
        try:
            return first_path(dim, div, links, glink, random.Random(s), 30000) is not None
        except ref.TooMany:
            continue
    raise ref.TooMany


def first_path(dim, div, links, glink, rng, node_limit):
    by = {}
    for e, x in sorted(ref.link_orbit(links)):
        by.setdefault(e, []).append(x)
    for v in by.values():
        rng.shuffle(v)
    gout = tuple(c * div for c in glink[1])
    used, path, nodes = set(), [], [0]

    def rec(pt):
        nodes[0] += 1
        if nodes[0] > node_limit:
            raise ref.TooMany
        if len(path) == div ** dim:
            return pt == gout
        rngs = []
        for c in pt:
            fl = c.numerator // c.denominator
            rngs.append([v for v in ((fl,) if c.denominator != 1 else (fl - 1, fl)) if 0 <= v < div])
        cand = [c for c in itertools.product(*rngs) if c not in used]
        rng.shuffle(cand)
        for cube in cand:
            rel = tuple(p - c for p, c in zip(pt, cube))
            for x in by.get(rel, ()):
                used.add(cube)
                path.append(cube)
                if rec(tuple(c + v for c, v in zip(cube, x))):
                    return True
                path.pop()
                used.discard(cube)
        return False

    return list(path) if rec(tuple(c * div for c in glink[0])) else None


def face_dim(pt):
    return sum(c != 0 and c != 1 for c in pt)


def run_case(ctx, case):
    dim, div, mult, facet, samples = case
    gg = ctx.call('GatesGenerator', A.GatesGenerator, dim, div, mult, bool(facet))
    objs = ctx.take('gen_gates', gg.gen_gates(), 5000)
    got = []
    cache = {}
    conf = 'dim=%d div=%d mult=%d only_facet=%s' % (dim, div, mult, bool(facet))
    for t in objs:
        ctx.check(isinstance(t, tuple) and len(t) == mult, 'a gate tuple has one gate per pattern', conf=conf, got=t)
        r = tuple(rlink(l) for l in t)
        ctx.seen('generated')
        ctx.state(conf, r)
        for g in r:
            ctx.equal(g, ref.link_std(g), 'generated gates are standard', conf=conf, tuple=r)
            for pt in g:
                fd = face_dim(pt)
                ctx.check(all(0 <= c <= 1 for c in pt), 'gates are in the cube', conf=conf, gate=g)
                ctx.check(fd == dim - 1 if facet else fd < dim, 'gates are on the boundary (strictly on facets when asked)', conf=conf, gate=g)
        ok = realizable(dim, div, r, cache)
        if ok is None:
            ctx.notes['undecided generated tuple'] += 1
        else:
            ctx.check(ok, 'a multifractal with the generated gates exists', conf=conf, tuple=r)
        got.append(r)
    keys = [tuple(sorted(r)) for r in got]
    ctx.equal(len(set(keys)), len(keys), 'no gate tuple is generated twice', conf=conf, tuples=keys)
    ctx.sample({'config': conf, 'generated': len(got)})
    # the same generator object and a fresh one give the same list again (only when cheap)
    if mult == 1 and (dim, div) in ((2, 2), (2, 3), (1, 2), (2, 4)) or (mult, facet) == (2, 1) and dim == 2 and div <= 3:
        again = [tuple(rlink(l) for l in t) for t in ctx.take('gen_gates again', gg.gen_gates(), 5000)]
        ctx.equal(sorted(again), sorted(got), 'the generator yields the same gates when it is used again', conf=conf)

    keys = set(keys)
    met = set()
    stored = [tuple(sorted(gen.LL(t))) for t in CANDIDATES.get((dim, div, mult, facet), ())]
    for tup in stored:
        ctx.seen('stored_candidate')
        if realizable(dim, div, tup, cache):
            ctx.check(tup in keys, 'every realizable gate tuple is generated', conf=conf, missing=tup, generated=sorted(keys))
    for tup in candidates(ctx, dim, div, mult, facet, samples):
        ctx.seen('candidate')
        met.add(tup)
        if tup in cache:
            continue
        ok = realizable(dim, div, tup, cache)
        if ok is None:
            ctx.notes['undecided candidate'] += 1
        elif ok:
            ctx.check(tup in keys, 'every realizable gate tuple is generated', conf=conf, missing=tup, generated=sorted(keys))
    ctx.seen('generated_tuple_met_independently', len(met & keys))
    ctx.notes['not met: ' + conf] += len(keys - met)
    ctx.seen('realizable', sum(1 for v in cache.values() if v))


def candidates(ctx, dim, div, mult, facet, samples):
    rng = ctx.rng
    isos = list(ref.iso_all(dim, (False,)))
    facets = [(j, v) for j in range(dim) for v in (0, 1)]
    nodes = [(p, end) for p in range(mult) for end in (0, 1)]

    def fimg(iso, f):
        # facet of the image: take the image of the facet's centre
        c = [ref.F(1, 2)] * dim
        c[f[0]] = ref.F(f[1])
        y = ref.iso_pt(iso, c)
        for j in range(dim):
            if y[j] in (0, 1):
                return (j, int(y[j]))
    to = {}
    for iso in isos:
        for f in facets:
            to.setdefault((f, fimg(iso, f)), []).append(iso)
    fcubes = {(j, v): [c for c in itertools.product(range(div), repeat=dim) if c[j] == (div - 1 if v else 0)] for j, v in facets}

    def solve(assign):
        """assign: node -> (cube, iso, successor)"""
        val = {}
        for n in nodes:
            chain, pos = [], {}
            m = n
            while m not in val and m not in pos:
                pos[m] = len(chain)
                chain.append(m)
                m = assign[m][2]
            if m not in val:
                cyc = chain[pos[m]:]
                val[m] = ref._fix_point([(assign[k][0], assign[k][1]) for k in cyc], div, dim)
            for k in reversed(chain):
                if k in val:
                    continue
                cube, iso, nx = assign[k]
                z = ref.iso_pt(iso, val[nx])
                val[k] = tuple((c + zz) / div for c, zz in zip(cube, z))
        return val

    def finish(assign):
        if any(assign[p, 0][0] == assign[p, 1][0] for p in range(mult)):
            return None
        val = solve(assign)
        for pt in val.values():
            if facet and face_dim(pt) != dim - 1:
                return None
        return tuple(sorted(std(val[p, 0], val[p, 1]) for p in range(mult)))

    memo = {}

    def std(e, x):
        if (e, x) not in memo:
            memo[e, x] = ref.link_std((e, x))
        return memo[e, x]

    def options(f, fs):
        return [(cube, iso, nx) for cube in fcubes[f] for nx in nodes for iso in to[fs[nx], f]]

    if not samples:
        for fx in itertools.product(facets, repeat=mult):
            fs = {(p, 0): (0, 0) for p in range(mult)}
            fs.update({(p, 1): fx[p] for p in range(mult)})
            for combo in itertools.product(*(options(fs[n], fs) for n in nodes)):
                t = finish(dict(zip(nodes, combo)))
                if t is not None:
                    yield t
    else:
        for _ in range(samples):
            fs = {n: (0, 0) if n[1] == 0 else rng.choice(facets) for n in nodes}
            assign = {}
            for n in nodes:
                nx = rng.choice(nodes)
                assign[n] = (rng.choice(fcubes[fs[n]]), rng.choice(to[fs[nx], fs[n]]), nx)
            t = finish(assign)
            if t is not None:
                yield t
