"""Pointed path generation against plain depth-first enumeration over global points."""
from collections import Counter
from fractions import Fraction as F
import itertools
from vlib import ref, gen
from vlib.bridge import A, link as mklink, rpath, path_of

PROPERTY = 'C21'
RULE = ('gate sets: configurations of the library, unions of gates of different configurations, isometric images, gates with no '
        'path at all; several global gates, step-distance limits, width limits; the generated set is compared with plain '
        'enumeration over global points, and with standardisation class by class; distinct = (gates, global gate, limits)')
MIN_EVENTS = {'set_compared': 300, 'std_compared': 200, 'path': 10000, 'empty_set': 10, 'multi': 30, 'cdist_limited': 30}
SHAPES = {(1, 2): [], (1, 3): [], (1, 4): [], (2, 2): [], (2, 3): [], (2, 4): [], (3, 2): []}
for _n, (_d, _k, _t, _c) in gen.CONFIGS.items():
    if (_d, _k) in SHAPES and _n not in gen.HEAVY:
        for _l in gen.LL(_t):
            if _l not in SHAPES[_d, _k]:
                SHAPES[_d, _k].append(_l)
SHAPES[1, 4] = SHAPES[1, 2]


def plan(tier, seed):
    n = 90 if tier == 'quick' else 1500
    w = {(1, 2): 1, (1, 3): 1, (1, 4): 1, (2, 2): 4, (2, 3): 4, (2, 4): 2, (3, 2): 4}
    return [{'shape': list(s), 'i': i} for s in SHAPES for i in range(n * w[s] // 4)]


def rnd_point(dim, rng):
    den = rng.choice([1, 2, 3, 4])
    x = [F(rng.randrange(den + 1), den) for _ in range(dim)]
    x[rng.randrange(dim)] = F(rng.randrange(2))
    return tuple(x)


def run_case(ctx, case):
    rng = ctx.rng
    dim, div = case['shape']
    pool = SHAPES[dim, div]
    for attempt in range(10):
        m = rng.choice([1, 1, 2, 2, 3])
        links = [rng.choice(pool) for _ in range(m)]
        if rng.random() < 0.15:
            links[rng.randrange(m)] = (rnd_point(dim, rng), rnd_point(dim, rng))
        if rng.random() < 0.4:
            links = [ref.link_map(gen.random_iso(dim, rng), l) for l in links]
        cd = rng.choice([None, None, None, 1, 2]) if dim > 1 else rng.choice([None, 1])
        glinks = list(links)
        explicit = rng.random() < 0.5
        if explicit:
            glinks = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                g = rng.choice(links + [rng.choice(pool)])
                if glinks and rng.random() < 0.5:
                    g = rng.choice(glinks)
                elif rng.random() < 0.7:
                    g = ref.link_map(gen.random_iso(dim, rng), g)
                glinks.append(g)
        want = {}
        try:
            for g in set(glinks):
                want[g] = ref.enum_paths(dim, div, links, g, max_cdist=cd, limit=1500 if ctx.tier == 'quick' else 6000, node_limit=40000 if ctx.tier == 'quick' else 200000)
        except ref.TooMany:
            ctx.notes['too_many'] += 1
            continue
        if all(not v for v in want.values()) and rng.random() < 0.7:
            continue
        break
    else:
        ctx.notes['skipped'] += 1
        return
    mk = [mklink(l) for l in links]
    pg = ctx.call('PathsGenerator', A.PathsGenerator, dim=dim, div=div, links=mk if rng.random() < 0.7 else iter(mk),
                  **({'max_cdist': cd} if cd is not None else {}))
    w = dict(shape=(dim, div), links=links, max_cdist=cd)

    def limits():
        r = rng.random()
        if r < 0.4:
            return {}
        return {'start_max_count': rng.choice([0, 1, 5, 100, 10 ** 5]), 'finish_max_count': rng.choice([0, 1, 5, 300, 10 ** 6])}

    def as_set(paths, what, g):
        out = []
        for p in paths:
            ctx.check(isinstance(p, A.Path) and p.dim == dim and p.div == div, 'not a path', **w)
            out.append(rpath(p))
        ctx.check(len(out) == len(set(out)), what + ': a path is generated twice', glink=g, **w)
        return set(out)

    keepers = {g: [iso for iso in ref.iso_all(dim) if ref.link_map(iso, g) == g] for g in want}
    classof = {}

    def cls(g, p):
        k = (g, p)
        if k not in classof:
            classof[k] = min(ref.path_map(iso, div, p) for iso in keepers[g])
        return classof[k]

    for g, ps in want.items():
        ps = set(ps)
        lim = limits()
        got = as_set(ctx.take('generate_paths_generic', pg.generate_paths_generic(link=mklink(g), **lim), 3 * len(ps) + 50), 'generate_paths_generic', g)
        ctx.check(got <= ps, 'a generated path is not admissible', glink=g, limits=lim, path=next(iter(got - ps), None), **w)
        ctx.check(ps <= got, 'an admissible path is not generated', glink=g, limits=lim, path=next(iter(ps - got), None), n=(len(got), len(ps)), **w)
        ctx.seen('set_compared')
        ctx.seen('path', len(got))
        if not ps:
            ctx.seen('empty_set')
        if cd is not None:
            ctx.seen('cdist_limited')
        if len(ps) <= 400:
            lim = limits()
            std = as_set(ctx.take('generate_paths_generic(std)', pg.generate_paths_generic(link=mklink(g), std=True, **lim), 3 * len(ps) + 50), 'std', g)
            ctx.check(std <= ps, 'a standardised path is not admissible', glink=g, limits=lim, **w)
            c1, c2 = Counter(cls(g, p) for p in std), {cls(g, p) for p in ps}
            ctx.check(set(c1) == c2, 'a class of equivalent paths is missing with standardisation', glink=g, limits=lim, n=(len(c1), len(c2)), **w)
            ctx.check(all(v == 1 for v in c1.values()), 'two equivalent paths are generated with standardisation', glink=g, limits=lim, **w)
            ctx.seen('std_compared')
            ctx.seen('class', len(c2))
        ctx.state(links, g, cd)
    # tuples
    kw = {'links': tuple(mklink(g) for g in glinks)} if explicit or rng.random() < 0.3 else {}
    ex = ctx.call('get_paths_example', pg.get_paths_example, **kw)
    if all(want[g] for g in glinks):
        ctx.check(ex is not None and len(ex) == len(glinks) and all(rpath(p) in set(want[g]) for p, g in zip(ex, glinks)), 'the example is wrong', glinks=glinks, **w)
    else:
        ctx.check(ex is None, 'an example is returned although there are no paths', glinks=glinks, **w)
    total = 1
    for g in glinks:
        total *= len(want[g])
    if total <= 3000:
        got = [tuple(rpath(p) for p in tup) for tup in ctx.take('generate_paths', pg.generate_paths(**kw, **limits()), 2 * total + 20)]
        exp = set(itertools.product(*(want[g] for g in glinks)))
        ctx.check(len(got) == len(set(got)), 'a tuple of paths is generated twice', glinks=glinks, **w)
        ctx.check(set(got) == exp, 'the set of tuples is wrong', glinks=glinks, n=(len(got), len(exp)), **w)
        if total <= 600:
            stdt = [tuple(rpath(p) for p in tup) for tup in ctx.take('generate_paths(std)', pg.generate_paths(std=True, **kw, **limits()), 2 * total + 20)]

            def key(tup):
                by = {}
                for g, p in zip(glinks, tup):
                    by.setdefault(g, []).append(cls(g, p))
                return tuple((g, tuple(sorted(v))) for g, v in sorted(by.items()))
            for tup in stdt:
                ctx.check(tup in exp, 'a standardised tuple is not admissible', glinks=glinks, **w)
            c1, c2 = Counter(key(t) for t in stdt), {key(t) for t in exp}
            ctx.check(set(c1) == c2 and all(v == 1 for v in c1.values()), 'standardised tuples do not represent each combination once',
                      glinks=glinks, n=(len(stdt), len(c2)), **w)
            ctx.seen('std_tuples')
        if len(glinks) > 1:
            ctx.seen('multi')
    ctx.sample({'case': case, 'links': len(links), 'paths': {str(k): len(v) for k, v in list(want.items())[:2]}})
