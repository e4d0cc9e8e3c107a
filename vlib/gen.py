"""
Workload generator.  Curves are built by this module's own randomized search (not by the repository's
generators), so a defect in one part of the repository does not starve the workload of another.
"""
from fractions import Fraction as F
import functools
import itertools
import random

from . import ref


def P(text):
    return tuple(F(t) for t in text.strip().strip('()').split(','))


def L(text):
    a, b = text.split('->')
    return (P(a), P(b))


def LL(text):
    return tuple(L(t) for t in text.split('|'))


# (dim, div, gates, max_cdist): gate tuples for which multifractals exist (README tables, Haverkort's inventory)
CONFIGS = {
    # 1D
    'd1n2': (1, 2, '(0)->(1)', None),
    'd1n3': (1, 3, '(0)->(1)', None),
    'd1n5': (1, 5, '(0)->(1)', None),
    # 2D mono
    'hil': (2, 2, '(0,0)->(0,1)', None),
    's3': (2, 3, '(0,0)->(0,1)', None),
    'g3': (2, 3, '(0,0)->(1,1)', None),
    's4': (2, 4, '(0,0)->(0,1)', None),
    'm4': (2, 4, '(0,0)->(1,1/2)', None),
    's5': (2, 5, '(0,0)->(0,1)', 1),
    'g5': (2, 5, '(0,0)->(1,1)', None),
    'm5': (2, 5, '(0,0)->(1,1/2)', None),
    # 2D bi, div 2
    'b1': (2, 2, '(0,0)->(0,1/2)|(0,0)->(1/2,1)', None),
    'b2': (2, 2, '(0,0)->(0,1)|(0,0)->(0,1)', None),
    'b3': (2, 2, '(0,0)->(0,1)|(0,0)->(1/2,1)', None),
    'b4': (2, 2, '(0,0)->(0,1)|(0,0)->(2/3,1)', None),
    'b5': (2, 2, '(0,0)->(0,1)|(0,0)->(1,1)', None),
    'b6': (2, 2, '(0,0)->(0,1)|(0,1/2)->(0,1/2)', None),
    'b7': (2, 2, '(0,0)->(0,1)|(0,1/2)->(1/2,0)', None),
    'b8': (2, 2, '(0,0)->(0,1)|(0,1/2)->(1,1/2)', None),
    'bo': (2, 2, '(0,1/3)->(1,1/3)|(0,1/3)->(2/3,0)', None),
    # 2D bi, div 3
    'c1': (2, 3, '(0,0)->(0,1/3)|(0,0)->(0,1)', None),
    'c2': (2, 3, '(0,0)->(0,1)|(0,0)->(2/3,1)', None),
    'c3': (2, 3, '(0,0)->(1/4,1)|(0,0)->(3/4,1)', None),
    'c4': (2, 3, '(0,1/4)->(1/4,1)|(0,1/4)->(1,1/4)', None),
    'c5': (2, 3, '(0,1/4)->(1/4,1)|(0,1/4)->(1,3/4)', None),
    'c6': (2, 3, '(0,0)->(0,1)|(0,0)->(1,1)', None),
    # 2D tri and more
    't1': (2, 2, '(0,0)->(0,1)|(0,0)->(0,1)|(0,0)->(1,1)', None),
    't2': (2, 2, '(0,0)->(0,1/2)|(0,0)->(1/2,1)|(0,0)->(0,1)', None),
    't3': (2, 3, '(0,1/4)->(1/4,1)|(0,1/4)->(1,1/4)|(0,1/4)->(1,3/4)', None),
    'q1': (2, 2, '(0,0)->(0,1)|(0,0)->(0,1)|(0,0)->(1,1)|(0,0)->(1,1)', None),
    # 3D mono
    'A': (3, 2, '(0,0,0)->(1,0,0)', None),
    'B': (3, 2, '(0,0,0)->(0,1,1)', None),
    'C': (3, 2, '(0,0,0)->(1,1/2,0)', None),
    'D': (3, 2, '(0,0,0)->(1,1/2,1/2)', None),
    'E': (3, 2, '(1/3,0,0)->(1,1/3,1)', None),
    'Fg': (3, 2, '(0,1/3,1/3)->(2/3,1/3,0)', None),
    # 3D poly
    'nept': (3, 2, '(0,0,0)->(1,0,0)|(0,0,0)->(1,1,1)', None),
    'spring': (3, 2, '(0,1/3,1/3)->(1/3,0,2/3)|(0,1/3,1/3)->(1/3,1/3,1)', None),
    'iup': (3, 2, '(0,2/5,1/5)->(4/5,2/5,0)|(0,2/5,1/5)->(4/5,0,2/5)|(0,2/5,1/5)->(1,2/5,1/5)'
                  '|(0,1/5,2/5)->(4/5,2/5,0)|(0,2/5,1/5)->(4/5,1,3/5)', None),
    # 4D, 5D
    'h4': (4, 2, '(0,0,0,0)->(1,0,0,0)', None),
    'h5': (5, 2, '(0,0,0,0,0)->(1,0,0,0,0)', 1),
    # larger divisions and multiplicities
    'd1n12': (1, 12, '(0)->(1)', None),
    'bb': (2, 4, '(0,0)->(0,1)|(0,0)->(1,1)', None),
    'g7': (2, 7, '(0,0)->(1,1)', 1),
    'P3': (3, 3, '(0,0,0)->(1,1,1)', 1),
    'e3': (3, 3, '(0,0,0)->(1,0,0)', 1),
    'c33': (3, 3, '(0,0,0)->(1,0,0)|(0,0,0)->(1,1,1)', None),
    'n4': (4, 2, '(0,0,0,0)->(1,0,0,0)|(0,0,0,0)->(1,1,1,1)', None),
}

# configurations used with fewer cases, and not at all where the cost of a case grows fast with the number of fractions
HEAVY = ['m5', 'h4', 'h5', 'd1n12', 'bb', 'g7', 'P3', 'e3', 'c33', 'n4']
LIGHT = [c for c in CONFIGS if c not in HEAVY]

MONO2 = ['hil', 's3', 'g3', 's4', 'm4', 's5', 'g5', 'm5']
BI2 = ['b1', 'b2', 'b3', 'b4', 'b5', 'b6', 'b7', 'b8', 'bo', 'c1', 'c2', 'c3', 'c4', 'c5', 'c6']
MONO3 = ['A', 'B', 'C', 'D', 'E', 'Fg']
BI3 = ['nept', 'spring', 'iup']


@functools.lru_cache(maxsize=None)
def config(name):
    dim, div, text, cd = CONFIGS[name]
    return dim, div, LL(text), cd


@functools.lru_cache(maxsize=None)
def _spec_table(name):
    """{link: [(iso,p)]} and {entrance: [exit]}"""
    dim, div, links, _ = config(name)
    table = {}
    for p, l in enumerate(links):
        for iso in ref.iso_all(dim):
            table.setdefault(ref.link_map(iso, l), []).append((iso, p))
    by = {}
    for e, x in table:
        by.setdefault(e, []).append(x)
    return table, by


def random_path(name, glink, rng, node_limit=3000, tries=60, hyper=None):
    """One random pointed prototype with the global link, or None."""
    dim, div, links, cd = config(name)
    if hyper is not None:
        cd = hyper
    _, by = _spec_table(name)
    total = div ** dim
    gin = tuple(F(c) * div for c in glink[0])
    gout = tuple(F(c) * div for c in glink[1])

    def cubes_at(pt):
        rngs = []
        for c in pt:
            fl = c.numerator // c.denominator
            r = [fl] if c.denominator != 1 else [fl - 1, fl]
            rngs.append([v for v in r if 0 <= v < div])
        return list(itertools.product(*rngs))

    class Stop(Exception):
        pass

    for _ in range(tries):
        path, used = [], set()
        nodes = 0

        def rec(pt, prev):
            nonlocal nodes
            nodes += 1
            if nodes > node_limit:
                raise Stop
            if len(path) == total:
                return pt == gout
            opts = []
            for cube in cubes_at(pt):
                if cube in used:
                    continue
                if prev is not None and cd is not None and sum(abs(a - b) for a, b in zip(cube, prev)) > cd:
                    continue
                rel = tuple(a - b for a, b in zip(pt, cube))
                for x in by.get(rel, ()):
                    opts.append((cube, rel, x))
            rng.shuffle(opts)
            for cube, rel, x in opts:
                used.add(cube)
                path.append((cube, (rel, x)))
                if rec(tuple(a + b for a, b in zip(cube, x)), cube):
                    return True
                path.pop()
                used.discard(cube)
            return False

        try:
            if rec(gin, None):
                return tuple(path)
            return None
        except Stop:
            continue
    return None


def random_paths(name, rng, **kw):
    """A random tuple of pointed prototypes for the configuration, or None."""
    _, _, links, _ = config(name)
    out = []
    for l in links:
        p = random_path(name, l, rng, **kw)
        if p is None:
            return None
        out.append(p)
    return tuple(out)


def random_curve(name, rng, **kw):
    """Random continuous multifractal of the configuration, as RefCurve (gates = the configuration's)."""
    dim, div, links, _ = config(name)
    table, _ = _spec_table(name)
    paths = random_paths(name, rng, **kw)
    if paths is None:
        return None
    pats = []
    for path in paths:
        pats.append(([c for c, _ in path], [rng.choice(table[l]) for _, l in path]))
    return ref.RefCurve(dim, div, pats)


def with_unused_pattern(name, rng, front=None):
    """
    A multifractal of a one-gate configuration with an additional pattern that no fraction uses: its dilation counts, but
    only its first-level pairs show it.  The used pattern is the better of several random ones (by a crude measure).
    """
    dim, div, links, _ = config(name)
    table, _ = _spec_table(name)
    paths = [random_path(name, links[0], rng) for _ in range(4)]
    if len(links) != 1 or any(p is None for p in paths):
        return None

    def spread(path):
        cs = [c for c, _ in path]
        return max(F(max(abs(a - b) + 1 for a, b in zip(cs[i], cs[j])) ** dim, j - i + 1) for i in range(len(cs)) for j in range(i + 1, len(cs)))

    paths.sort(key=spread)
    used, other = paths[0], paths[-1]
    front = rng.random() < 0.5 if front is None else front
    q = 1 if front else 0
    pats = [([c for c, _ in path], [(rng.choice(table[l])[0], q) for _, l in path]) for path in (used, other)]
    return ref.RefCurve(dim, div, pats[::-1] if front else pats)


def snake_over_hilbert(rng):
    """
    A random Hilbert-type curve written with 8 divisions, and a row-by-row pattern over it that no fraction uses: the rows
    make the second pattern worse than anything inside the first one.
    """
    table, by = _spec_table('hil')
    rc = random_curve('hil', rng).subdivision(2)
    cubes = [(x if y % 2 == 0 else 7 - x, y) for y in range(8) for x in range(8)]
    pts = [(F(0), F(0))]

    def rec(k):
        # entrances/exits along the rows, at vertices of the cubes
        if k == 64:
            return True
        c = cubes[k]
        rel = tuple(a - b for a, b in zip(pts[-1], c))
        opts = list(by.get(rel, ()))
        rng.shuffle(opts)
        for x in opts:
            y = tuple(a + b for a, b in zip(x, c))
            if k < 63 and any(not 0 <= a - b <= 1 for a, b in zip(y, cubes[k + 1])):
                continue
            pts.append(y)
            if rec(k + 1):
                return True
            pts.pop()
        return False

    if not rec(0):
        return None
    specs = []
    for k, c in enumerate(cubes):
        l = tuple(tuple(a - b for a, b in zip(pt, c)) for pt in pts[k:k + 2])
        specs.append((rng.choice(table[l])[0], 0))
    return ref.RefCurve(2, 8, [rc.pats[0], (cubes, specs)])


def random_iso(dim, rng, trev=None):
    perm = list(range(dim))
    rng.shuffle(perm)
    return (tuple((k, rng.random() < 0.5) for k in perm), (rng.random() < 0.5) if trev is None else trev)


def respec(rc, rng, share=0.5):
    """Another curve with the same pointed prototypes: some fractions turned so that their gates stay."""
    gates = rc.gates()
    table = {}
    for p, l in enumerate(gates):
        for iso in ref.iso_all(rc.dim):
            table.setdefault(ref.link_map(iso, l), []).append((iso, p))
    pats = []
    for cubes, specs in rc.pats:
        pats.append((cubes, [rng.choice(table[ref.link_map(i, gates[p])]) if rng.random() < share else (i, p) for i, p in specs]))
    return ref.RefCurve(rc.dim, rc.div, pats)


def near_isos(iso, rng, n=None):
    """The isometry and its closest relatives: one axis reflected, two images exchanged, time reversed; in random order."""
    coords, tr = iso
    out = [iso, (coords, not tr)]
    for i in range(len(coords)):
        c = list(coords)
        c[i] = (c[i][0], not c[i][1])
        out.append((tuple(c), tr))
        for j in range(i):
            c = list(coords)
            c[i], c[j] = c[j], c[i]
            out.append((tuple(c), tr))
            out.append((tuple((k, f) for (k, _), (_, f) in zip(c, coords)), tr))
    out = list(dict.fromkeys(out))
    rng.shuffle(out)
    return out if n is None else out[:n]


def random_wild(dim, div, mult, rng):
    """Arbitrary (in general discontinuous) multifractal: any cube order, any specs."""
    cubes = list(itertools.product(range(div), repeat=dim))
    pats = []
    for _ in range(mult):
        c = cubes[:]
        rng.shuffle(c)
        pats.append((c, [(random_iso(dim, rng), rng.randrange(mult)) for _ in c]))
    return ref.RefCurve(dim, div, pats)


def disguise(rc, rng):
    """Random change of representation that keeps continuity: an isometry and/or a relabelling of patterns."""
    rc = rc.transform(random_iso(rc.dim, rng))
    if rc.mult > 1 and rng.random() < 0.5:
        perm = list(range(rc.mult))
        rng.shuffle(perm)          # new index of old pattern p is perm[p]
        pats = [None] * rc.mult
        for p in range(rc.mult):
            cubes, specs = rc.pats[p]
            pats[perm[p]] = (cubes, tuple((i, perm[s]) for i, s in specs))
        rc = ref.RefCurve(rc.dim, rc.div, pats)
    return rc


def mutate(rc, rng):
    """Change one spec or swap two cubes: usually breaks continuity, sometimes does not."""
    pats = [(list(c), list(s)) for c, s in rc.pats]
    p = rng.randrange(rc.mult)
    cubes, specs = pats[p]
    if rng.random() < 0.7:
        c = rng.choice([0, len(specs) - 1, rng.randrange(len(specs)), rng.randrange(len(specs))])
        specs[c] = (random_iso(rc.dim, rng), rng.randrange(rc.mult))
    else:
        a, b = rng.sample(range(len(cubes)), 2)
        cubes[a], cubes[b] = cubes[b], cubes[a]
    return ref.RefCurve(rc.dim, rc.div, pats)


def zoo_names(A):
    import inspect

    def entry(n):
        f = getattr(A.zoo, n)
        return inspect.isfunction(f) and f.__module__ == A.zoo.__name__ and all(
            p.default is not p.empty or p.kind in (p.VAR_POSITIONAL, p.VAR_KEYWORD) for p in inspect.signature(f).parameters.values())
    return [n for n in sorted(dir(A.zoo)) if n.startswith('get_') and n != 'get_all_curves' and entry(n)]
