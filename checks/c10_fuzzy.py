"""Fuzzy curves against the explicitly computed set of allowed specs, along specify/transform histories."""
from math import prod
import itertools
from vlib import ref, gen
from vlib.bridge import A, iso_of, bm_of, spec_of, rspec, rpatterns, rcurve, curve_of, path_of, rlink

PROPERTY = 'C10'
RULE = ('fuzzy curves from random pointed paths of all configurations, with the full group, without time reversal, or with the '
        'subgroup generated by the specs of a curve; random histories of specify / map / reversal; after each step the allowed '
        'specs of every fraction are compared with exhaustive filtering of the group; distinct = (paths, group, history)')
MIN_EVENTS = {'position': 10000, 'specify_ok': 500, 'specify_rejected': 500, 'enumerated': 50, 'forget': 100, 'subgroup': 50, 'reversals_filtered': 20, 'not_realisable': 20}
CFG = list(gen.LIGHT)


def plan(tier, seed):
    n = 8 if tier == 'quick' else 120
    cases = [{'cfg': c, 'mode': m, 'i': i} for c in CFG for m in ('full', 'notr', 'sub', 'subnotr') for i in range(n)]
    cases += [{'cfg': c, 'mode': m, 'i': 0} for c in gen.HEAVY for m in ('full', 'sub')]
    return cases


def closure(gens, dim, limit=800):
    e = ref.iso_id(dim)
    out = {e}
    todo = [e]
    while todo:
        a = todo.pop()
        for g in gens:
            b = ref.iso_mul(a, g)
            if b not in out:
                out.add(b)
                todo.append(b)
    return out


def run_case(ctx, case):
    rng = ctx.rng
    rc = gen.random_curve(case['cfg'], rng)
    if rc is None:
        ctx.notes['no_curve'] += 1
        return
    rc = gen.disguise(rc, rng) if rng.random() < 0.6 else rc
    dim, div, G, mult = rc.dim, rc.div, rc.G, rc.mult
    gates = rc.gates()
    c = curve_of(rc, 0)
    kw = {}
    group = list(ref.iso_all(dim))
    if case['mode'] == 'notr':
        kw['disable_time_rev'] = True
        group = [g for g in group if not g[1]]
    elif case['mode'] in ('sub', 'subnotr'):
        gens = {s[0] for _, sp in rc.pats for s in sp}
        if case['mode'] == 'subnotr':
            gens.add(gen.random_iso(dim, rng))      # the group itself may have reversals, the flag removes them
        group = sorted(closure(gens, dim))
        maps = [bm_of(g) for g in group]
        if case['mode'] == 'subnotr':
            kw['disable_time_rev'] = True
            if any(g[1] for g in group):
                ctx.seen('reversals_filtered')
            group = [g for g in group if not g[1]]
        rng.shuffle(maps)
        kw['base_maps_group'] = {0: lambda: maps, 1: lambda: tuple(maps), 2: lambda: iter(maps)}[rng.randrange(3)]()
        ctx.seen('subgroup')
        ctx.seen('mode_' + case['mode'])

    # expected allowed sets
    def expected(links):
        return {(p, k): {(g, q) for q in range(mult) for g in group if ref.link_map(g, gates[q]) == links[p][k]}
                for p in range(mult) for k in range(G)}

    links = [rc.frac_links(p) for p in range(mult)]
    want = expected(links)
    if any(not v for v in want.values()):
        # e.g. no realisation without time reversal: the paths denote no curve over this group
        paths = [path_of(dim, div, tuple(zip(rc.pats[p][0], links[p]))) for p in range(mult)]
        ctx.raises('paths that no maps of the group realise', KeyError, A.PathFuzzyCurve.init_from_paths, paths, **kw)
        if kw.get('base_maps_group') is None:
            ctx.raises('forget over maps that cannot realise the paths', KeyError, c.forget, **kw)
        ctx.seen('not_realisable')
        return
    how = rng.random()
    if how < 0.5:
        fz = ctx.call('forget', c.forget, **kw)
        ctx.seen('forget')
    else:
        paths = [path_of(dim, div, tuple(zip(rc.pats[p][0], links[p]))) for p in range(mult)]
        fz = ctx.call('init_from_paths', A.PathFuzzyCurve.init_from_paths, paths if rng.random() < 0.5 else tuple(paths), **kw)
    fixed = {}
    cubes = [list(rc.pats[p][0]) for p in range(mult)]
    compare(ctx, fz, want, fixed, cubes, 0, G, mult, 'fresh')
    if case['mode'] in ('full', 'sub'):
        ctx.check(all(rc.pats[p][1][k] in want[p, k] for p in range(mult) for k in range(G)), 'harness: curve not in its own set')
    pnum = 0
    word = []
    for step in range(6):
        op = rng.choice(['specify', 'specify', 'specify', 'reject', 'map', 'rev', 'spec'])
        old, oldpat = fz, rpatterns(fz)
        if op == 'specify':
            p, k = rng.randrange(mult), rng.choice([0, G - 1, rng.randrange(G)])
            s = rng.choice(sorted(want[p, k]))
            fz = ctx.call('specify', fz.specify, p, k, spec_of(*s))
            want = dict(want)
            want[p, k] = {s}
            fixed = dict(fixed)
            fixed[p, k] = s
            ctx.seen('specify_ok')
        elif op == 'reject':
            for _ in range(3):
                p, k = rng.randrange(mult), rng.randrange(G)
                s = (gen.random_iso(dim, rng), rng.randrange(mult))
                if rng.random() < 0.5 and want[p, k]:
                    g, q = rng.choice(sorted(want[p, k]))
                    s = rng.choice([((g[0], not g[1]), q), (g, (q + 1) % mult), (g, mult)])
                if s not in want[p, k]:
                    ctx.raises('specifying a spec that is not allowed', ValueError, fz.specify, p, k, spec_of(*s))
                    ctx.seen('specify_rejected')
        elif op in ('map', 'rev', 'spec'):
            iso = gen.random_iso(dim, rng) if op != 'rev' else ref.iso_id(dim, True)
            if op == 'map':
                fz = ctx.call('map * fuzzy', lambda: bm_of(iso) * fz)
            elif op == 'spec':
                pnum = rng.randrange(mult)
                fz = ctx.call('spec * fuzzy', lambda: spec_of(iso, pnum) * fz)
            else:
                fz = ctx.call('~fuzzy', lambda: ~fz)
            inv = ref.iso_inv(iso)
            conj = lambda s: (ref.iso_mul(ref.iso_mul(iso, s[0]), inv), s[1])
            pos = (lambda k: G - 1 - k) if iso[1] else (lambda k: k)
            want = {(p, pos(k)): {conj(s) for s in v} for (p, k), v in want.items()}
            fixed = {(p, pos(k)): conj(s) for (p, k), s in fixed.items()}
            cubes = [[ref.iso_cube(iso, div, q) for q in (reversed(cs) if iso[1] else cs)] for cs in cubes]
        word.append(op)
        ctx.check(rpatterns(old) == oldpat, 'an operation changed the fuzzy curve it was applied to', op=op)
        compare(ctx, fz, want, fixed, cubes, pnum, G, mult, '/'.join(word))
        ctx.state(str(case), tuple(word), tuple(sorted(fixed)))
    total = prod(len(v) for v in want.values())
    if total > 2000:
        # fix most positions to make the enumeration feasible
        keys = sorted(want)
        rng.shuffle(keys)
        for p, k in keys:
            if total <= 200:
                break
            if len(want[p, k]) > 1:
                s = rng.choice(sorted(want[p, k]))
                fz = ctx.call('specify', fz.specify, p, k, spec_of(*s))
                total //= len(want[p, k])
                want[p, k] = {s}
                fixed[p, k] = s
        compare(ctx, fz, want, fixed, cubes, pnum, G, mult, 'mostly fixed')
    curves = ctx.take('gen_possible_curves', fz.gen_possible_curves(), total + 5)
    seen = set()
    for x in curves:
        ctx.check(isinstance(x, A.Curve) and x.pnum == pnum, 'enumerated object is not a regular curve with the selected pattern')
        pats = rpatterns(x)
        ctx.check(all(list(pats[p][0]) == cubes[p] and all(pats[p][1][k] in want[p, k] for k in range(G)) for p in range(mult)),
                  'an enumerated curve does not belong to the fuzzy curve')
        seen.add(pats)
    ctx.equal((len(curves), len(seen)), (total, total), 'number of enumerated curves')
    ctx.seen('enumerated')
    ctx.seen('enumerated_curves', total)
    ctx.sample({'case': case, 'history': word, 'curves': total})
    # a subset example: curve.forget keeps the curve
    if case['mode'] in ('full', 'sub'):
        f2 = ctx.call('forget', c.forget, **(kw if 'base_maps_group' not in kw else {'base_maps_group': [bm_of(g) for g in group]}))
        for p in range(mult):
            for k in range(G):
                s = rc.pats[p][1][k]
                f2 = ctx.call('specifying the original spec', f2.specify, p, k, spec_of(*s))
        ctx.equal(rpatterns(f2), rc.pats, 'a curve cannot be recovered from its forgotten version')


def compare(ctx, fz, want, fixed, cubes, pnum, G, mult, hist):
    ctx.equal((fz.mult, fz.genus, fz.pnum), (mult, G, pnum), 'attributes of a fuzzy curve', history=hist)
    for p in range(mult):
        ctx.equal([tuple(q) for q in fz.patterns[p].proto], list(cubes[p]), 'cubes of a fuzzy curve', history=hist)
        for k in range(G):
            got = [rspec(s) for s in ctx.take('gen_allowed_specs', fz.gen_allowed_specs(p, k), 5000)]
            ctx.check(len(got) == len(set(got)), 'an allowed spec is listed twice', pattern=p, fraction=k, history=hist)
            ctx.check(set(got) == want[p, k], 'wrong set of allowed specs', pattern=p, fraction=k, history=hist,
                      extra=sorted(set(got) - want[p, k])[:5], missing=sorted(want[p, k] - set(got))[:5])
            ctx.seen('position')
            s = fz.patterns[p].specs[k]
            if (p, k) in fixed:
                ctx.check(s is not None and rspec(s) == fixed[p, k], 'a fixed spec is not recorded', pattern=p, fraction=k, history=hist)
    got = sorted((p, k, rspec(s)) for p, k, s in ctx.take('gen_defined_specs', fz.gen_defined_specs(), 5000))
    ctx.equal(got, sorted((p, k, s) for (p, k), s in fixed.items()), 'defined specs', history=hist)
    ctx.equal(ctx.call('count_possible_curves', fz.count_possible_curves), prod(len(v) for v in want.values()), 'number of curves', history=hist)
    ex = ctx.call('get_curve_example', fz.get_curve_example)
    ctx.check(isinstance(ex, A.Curve), 'the example is not a regular curve', type=type(ex).__name__)
    pats = rpatterns(ex)
    ctx.check(ex.pnum == pnum and all(list(pats[p][0]) == list(cubes[p]) and all(pats[p][1][k] in want[p, k] for k in range(G)) for p in range(mult)),
              'the example does not belong to the fuzzy curve', history=hist)
    ctx.seen('example')
