"""Junction templates of fuzzy curves against the junctions really present in their completions."""
from math import prod
from vlib import ref, gen
from vlib.bridge import A, rpair, rspec, curve_of, spec_of, bm_of
from checks.c10_fuzzy import closure

PROPERTY = 'C12'
RULE = ('fuzzy curves of all configurations (full group, no time reversal, subgroup; partly specified; transformed); random '
        'completions are drawn and the junctions they really have (closure of consecutive fractions) are compared with the '
        'templates they are consistent with; distinct = (fuzzy curve, completion)')
MIN_EVENTS = {'fuzzy': 60, 'completion': 500, 'junction_decided': 5000, 'template': 5000}
CFG = [c for c in gen.LIGHT if c != 'd1n5']


def plan(tier, seed):
    n = 10 if tier == "quick" else 80
    return [{'cfg': c, 'mode': m, 'i': i} for c in CFG for m in ('full', 'notr', 'sub') for i in range(n)]


def estimate(allowed, mult, G):
    gate = prod(len(allowed[p, k]) for p in range(mult) for k in (0, G - 1))
    return gate * sum(len(allowed[p, k]) * len(allowed[p, k + 1]) for p in range(mult) for k in range(G - 1))


def run_case(ctx, case):
    rng = ctx.rng
    rc = gen.random_curve(case['cfg'], rng)
    if rc is None:
        ctx.notes['no_curve'] += 1
        return
    rc = gen.disguise(rc, rng)
    dim, G, mult = rc.dim, rc.G, rc.mult
    gates = rc.gates()
    group = list(ref.iso_all(dim))
    kw = {}
    if case['mode'] == 'notr':
        kw['disable_time_rev'] = True
        group = [g for g in group if not g[1]]
    elif case['mode'] == 'sub':
        group = sorted(closure({s[0] for _, sp in rc.pats for s in sp}, dim))
        kw['base_maps_group'] = [bm_of(g) for g in group]
    links = [rc.frac_links(p) for p in range(mult)]
    allowed = {(p, k): [(g, q) for q in range(mult) for g in group if ref.link_map(g, gates[q]) == links[p][k]]
               for p in range(mult) for k in range(G)}
    if any(not v for v in allowed.values()):
        ctx.notes['not_realisable'] += 1
        return
    fz = ctx.call('forget', curve_of(rc).forget, **kw)
    cap = rng.choice([200, 600, 1500] if ctx.tier == 'quick' else [500, 1500, 6000])
    free = [k for k in allowed if len(allowed[k]) > 1]
    rng.shuffle(free)
    if rng.random() < 0.5:      # prefer to keep the first and last fractions free
        free.sort(key=lambda k: k[1] in (0, G - 1))
    extra = rng.randrange(3)
    while free and (estimate(allowed, mult, G) > cap or extra > 0):
        extra -= 1
        p, k = free.pop(0)
        s = rng.choice(allowed[p, k])
        fz = ctx.call('specify', fz.specify, p, k, spec_of(*s))
        allowed[p, k] = [s]
    if rng.random() < 0.3:      # an isometric image: conjugated specs
        iso = gen.random_iso(dim, rng)
        fz = ctx.call('map * fuzzy', lambda: bm_of(iso) * fz)
        inv = ref.iso_inv(iso)
        pos = (lambda k: G - 1 - k) if iso[1] else (lambda k: k)
        allowed = {(p, pos(k)): [(ref.iso_mul(ref.iso_mul(iso, g), inv), q) for g, q in v] for (p, k), v in allowed.items()}
        rc = rc.transform(iso)

    table = ctx.call('get_junction_templates', fz.get_junction_templates)
    keys = ctx.take('gen_regular_junctions of a fuzzy curve', fz.gen_regular_junctions(), 10 ** 6)
    ctx.check(len(keys) == len(set(keys)) and set(keys) == set(table), 'gen_regular_junctions differs from the template table')
    forms = []
    for j, curves in table.items():
        ctx.equal(j.delta_t, 1, 'time shift of a junction')
        cls = ref.pair_class(*rpair(j))
        ctx.check(len(curves) > 0, 'a listed junction has no template')
        reqs = []
        for t in curves:
            req = tuple((p, k, rspec(s)) for p, k, s in t.gen_defined_specs())
            ctx.check(all(s in allowed[p, k] for p, k, s in req), 'a template uses a spec that is not allowed', junction=str(j))
            reqs.append(req)
            ctx.seen('template')
        forms.append((cls, reqs))
    listed = {cls for cls, _ in forms}

    def decide(specs):
        """specs: {(p,k): spec} of a completion."""
        r = ref.RefCurve(dim, rc.div, [(rc.pats[p][0], [specs[p, k] for k in range(G)]) for p in range(mult)])
        have = set(ref.junction_classes(r))
        ok = {cls for cls, reqs in forms if any(all(specs[p, k] == s for p, k, s in req) for req in reqs)}
        missing = have - ok
        ctx.check(not missing, 'a curve has a junction but is consistent with none of its templates', curve=r.pats,
                  missing=sorted(missing)[:2], listed=[m in listed for m in sorted(missing)[:2]])
        extra = ok - have
        ctx.check(not extra, 'a curve is consistent with a template of a junction that it does not have', curve=r.pats,
                  extra=sorted(extra)[:2])
        ctx.seen('completion')
        ctx.seen('junction_decided', len(listed | have))
        ctx.state(r.pats)

    order = sorted(allowed)
    total = prod(len(v) for v in allowed.values())
    n = 12 if ctx.tier == 'quick' else 60
    for _ in range(min(n, total)):
        decide({pk: rng.choice(allowed[pk]) for pk in order})
    # completions of randomly picked templates: the template part is kept, the rest is random
    for cls, reqs in rng.sample(forms, min(len(forms), n)):
        specs = {pk: rng.choice(allowed[pk]) for pk in order}
        for p, k, s in rng.choice(reqs):
            specs[p, k] = s
        decide(specs)
    ctx.seen('fuzzy')
    ctx.seen('junctions', len(table))
    ctx.sample({'case': case, 'junctions': len(table), 'templates': sum(len(r) for _, r in forms), 'completions': min(n, total)})
