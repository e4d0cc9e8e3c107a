"""SAT encoding against explicit enumeration of the completions, with interleaved copies."""
from vlib import ref, gen, dil
from vlib.bridge import A, rpair, spec_of

PROPERTY = 'C18'
RULE = ('small fuzzy curves with all completions enumerated; random sequences of forbidden (junction, partial specification) pairs on '
        'several adapters copied from each other at random times, solved repeatedly; satisfiability and the extracted curve are '
        'compared with the explicit set of surviving completions; distinct = (fuzzy curve, forbidden set)')
MIN_EVENTS = {'sat': 200, 'unsat': 50, 'copy': 100, 'forbid': 1000}


def plan(tier, seed):
    n = 40 if tier == 'quick' else 120
    return [{'cfg': c, 'i': i} for i in range(n) for c in dil.FAST + ['d1n2', 'd1n3']]


def run_case(ctx, case):
    rng = ctx.rng
    sf = dil.small_fuzzy(ctx, case['cfg'], rng, max_total=rng.choice([4, 32, 128]), max_templates=800)
    if sf is None:
        return
    fz, rc, allowed = sf.fz, sf.rc, sf.allowed
    comps = []
    e = ref.iso_id(rc.dim)
    for r in sf.completions():
        comps.append((r, set(ref.junction_classes(r))))
    forms = {}
    for j in ctx.take('gen_regular_junctions', fz.gen_regular_junctions(), 10 ** 5):
        forms.setdefault(ref.pair_class(*rpair(j)), []).append(j)
    for j in ctx.take('gen_auto_junctions', fz.gen_auto_junctions(), 100):
        forms.setdefault('auto', []).append(j)
    classes = sorted(forms, key=str)

    def avoids(item, forbidden):
        r, have = item
        for cls, part in forbidden:
            if (cls == 'auto' or cls in have) and all(r.pats[p][1][k] == s for p, k, s in part):
                return False
        return True

    adapters = [[ctx.call('CurveSATAdapter(curve)', A.sat.CurveSATAdapter, curve=fz), [], False]]   # adapter, forbidden, solved
    free = [k for k in sf.keys if len(allowed[k]) > 1]

    def forbid(slot):
        # a forbidden pair that hits some surviving curve half of the time
        alive = [c for c in comps if avoids(c, slot[1])]
        base, have = rng.choice(alive if alive and rng.random() < 0.7 else comps)
        if rng.random() < 0.75 and have:
            cls = rng.choice(sorted(have, key=str))
        else:
            cls = rng.choice(classes)
        if cls not in forms:
            ctx.fail('a junction of a completion is not listed for the fuzzy curve', junction=cls)
        size = rng.choice([0, 1, 1, 2, 2, 3, len(free)])
        keys = rng.sample(free, min(size, len(free)))
        part = []
        sub = fz
        for p, k in keys:
            s = base.pats[p][1][k] if rng.random() < 0.8 else rng.choice(allowed[p, k])
            sub = ctx.call('specify', sub.specify, p, k, spec_of(*s))
            part.append((p, k, s))
        for j in forms[cls]:
            ctx.call('add_forbid_clause', slot[0].add_forbid_clause, j, sub)
        slot[1].append((cls, tuple(part)))
        ctx.seen('forbid')

    def solve(slot):
        want = [c for c in comps if avoids(c, slot[1])]
        got = ctx.call('solve', slot[0].solve)
        slot[2] = True
        w = dict(fuzzy=str(fz), forbidden=slot[1][-8:], n_forbidden=len(slot[1]), survivors=len(want))
        ctx.check(bool(got) == bool(want), 'satisfiability is wrong', got=got, **w)
        if want:
            r = sf.belongs(ctx, ctx.call('get_model_curve', slot[0].get_model_curve), 'extracted curve', **w)
            ctx.check(avoids((r, set(ref.junction_classes(r))), slot[1]), 'the extracted curve has a forbidden configuration', curve=r.pats, **w)
            ctx.seen('sat')
            if len(want) == 1:
                ctx.seen('single_model')
        else:
            ctx.seen('unsat')
        ctx.state(str(fz), tuple(slot[1]))

    for step in range(30 if ctx.tier == 'quick' else 60):
        slot = rng.choice(adapters)
        op = rng.choice(['forbid', 'forbid', 'forbid', 'copy', 'solve'])
        if op == 'forbid':
            forbid(slot)
        elif op == 'copy':
            fresh = [s for s in adapters if not s[2]]      # only adapters that were not solved may be copied
            if fresh and len(adapters) < 6:
                s = rng.choice(fresh)
                adapters.append([ctx.call('CurveSATAdapter(adapter)', A.sat.CurveSATAdapter, adapter=s[0]), list(s[1]), False])
                ctx.seen('copy')
        elif op == 'solve' and (slot is not adapters[0] or rng.random() < 0.2):
            solve(slot)
    for slot in adapters:
        solve(slot)
    # drive one of them to unsatisfiability
    slot = rng.choice(adapters)
    for _ in range(25):
        if not any(avoids(c, slot[1]) for c in comps):
            break
        forbid(slot)
        solve(slot)
    ctx.sample({'case': case, 'completions': len(comps), 'adapters': len(adapters), 'forbidden': [len(s[1]) for s in adapters]})
