"""Entrances and exits against exact evaluation of the curve; partial specifications."""
from fractions import Fraction as F
from vlib import ref, gen
from vlib.bridge import A, spec_of, rpt, curve_of, bm_of, rcurve

PROPERTY = 'C07'
RULE = ('random curves (continuous of all configurations, arbitrary ones with pre-periodic boundary behaviour) and partial '
        'specifications of them; entrance/exit of each pattern compared with exact evaluation at 0 and 1, KeyError demanded '
        'exactly when a needed spec or cube is missing; distinct = (curve, pattern, end, known set)')
MIN_EVENTS = {'end': 2000, 'partial_known': 300, 'partial_unknown': 300}
WILD = [(1, 2, 1), (1, 3, 2), (2, 2, 1), (2, 2, 3), (2, 3, 1), (2, 3, 2), (3, 2, 1), (3, 2, 3), (2, 2, 6), (4, 2, 2), (2, 5, 1), (5, 2, 1), (6, 2, 1)]


def plan(tier, seed):
    n = 40 if tier == 'quick' else 1000
    names = list(gen.LIGHT)
    cases = [{'cfg': c, 'i': i} for c in names for i in range(n)]
    cases += [{'cfg': c, 'i': i} for c in gen.HEAVY for i in range(max(n // 8, 1))]
    cases += [{'wild': w, 'i': i} for w in range(len(WILD)) for i in range(3 * n)]
    return cases


def run_case(ctx, case):
    rng = ctx.rng
    if 'wild' in case:
        rc = gen.random_wild(*WILD[case['wild']], rng)
    else:
        rc = gen.random_curve(case['cfg'], rng)
        if rc is None:
            ctx.notes['no_curve'] += 1
            return
        rc = gen.disguise(rc, rng)
    pnum = rng.randrange(rc.mult)
    c = curve_of(rc, pnum)
    gates = rc.gates()
    for p in range(rc.mult):
        ctx.equal(rpt(ctx.call('get_entrance', c.get_entrance, p)), gates[p][0], 'entrance', pattern=p, curve=rc.pats)
        ctx.equal(rpt(ctx.call('get_exit', c.get_exit, p)), gates[p][1], 'exit', pattern=p, curve=rc.pats)
        ctx.seen('end', 2)
        ctx.state(str(c), p)
    ctx.equal(rpt(ctx.call('get_entrance()', c.get_entrance)), gates[pnum][0], 'entrance of the selected pattern', pnum=pnum)
    ctx.equal(rpt(ctx.call('get_exit()', c.get_exit)), gates[pnum][1], 'exit of the selected pattern', pnum=pnum)
    pe = c.get_entrance()
    ctx.check(isinstance(pe, A.Point) and len(pe) == rc.dim, 'the entrance is a point')
    # partial specifications
    for _ in range(6):
        style = rng.random()
        p0 = rng.randrange(rc.mult)
        need = set(ref.time_states(rc, p0, rng.random() < 0.5))
        if style < 0.4:
            known = set(need)
        elif style < 0.7:
            known = {(p, k) for p in range(rc.mult) for k in range(rc.G) if rng.random() < 0.6}
        else:
            known = {(p, k) for p in range(rc.mult) for k in range(rc.G)}
            if rng.random() < 0.7:
                known.discard(rng.choice(sorted(need)))
            else:
                known -= {(p, k) for p in range(rc.mult) for k in range(1, rc.G - 1)}
        hide_cubes = rng.random() < 0.5
        pats = []
        for p, (cubes, specs) in enumerate(rc.pats):
            pats.append(([q if (not hide_cubes or (p, k) in known) else None for k, q in enumerate(cubes)],
                         [spec_of(*s) if (p, k) in known else None for k, s in enumerate(specs)]))
        fz = A.FuzzyCurve(rc.dim, rc.div, pats, pnum=pnum)
        if rng.random() < 0.3:
            iso = gen.random_iso(rc.dim, rng)
            fz = bm_of(iso) * fz
        else:
            iso = ref.iso_id(rc.dim)
        for p in range(rc.mult):
            for first in (True, False):
                src = first != iso[1]      # a reversed image starts where the original ends
                needed = ref.time_states(rc, p, src)
                fn = fz.get_entrance if first else fz.get_exit
                if all(x in known for x in needed):
                    got = rpt(ctx.call('end of a partially specified curve', fn, p))
                    want = ref.iso_pt(iso, gates[p][0 if src else 1])
                    ctx.equal(got, want, 'end of a partially specified curve', pattern=p, first=first, known=sorted(known))
                    ctx.seen('partial_known')
                else:
                    ctx.raises('end of an underspecified curve', KeyError, fn, p)
                    ctx.seen('partial_unknown')
    ctx.sample({'case': case, 'gates': str(gates)[:300]})
