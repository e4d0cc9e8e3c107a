"""Base map / spec arithmetic against formal composition, along operation histories."""
from fractions import Fraction as F
import itertools
from vlib import ref, gen
from vlib.bridge import A, iso_of, bm_of, rspec, spec_of, fr, q

PROPERTY = 'C01'
RULE = ('a case is a random history of operations (products, powers, inverses, conjugates, reversals, actions) over a '
        'population of base maps/specs of one dimension; every result is compared with formal composition of the two '
        'actions; distinct = (operation, operands) pairs')
MIN_EVENTS = {'op': 5000, 'action': 5000}


def plan(tier, seed):
    cases = []
    for dim in (1, 2, 3):
        cases.append({'kind': 'exhaustive', 'dim': dim})
    reps = 60 if tier == 'quick' else 1500
    for dim in range(1, 7):
        for i in range(reps):
            cases.append({'kind': 'history', 'dim': dim, 'i': i})
    return cases


def check_actions(ctx, bm, iso, rng):
    dim = len(iso[0])
    for mx in (1, rng.randrange(1, 9), F(rng.randrange(1, 20), rng.randrange(1, 7))):
        x = [F(rng.randrange(-20, 20), rng.randrange(1, 9)) for _ in range(dim)]
        got = ctx.call('apply_x', bm.apply_x, [q(c) for c in x], q(mx))
        ctx.equal([fr(c) for c in got], list(ref.iso_pt(iso, x, F(mx))), 'apply_x: wrong image of a point', map=iso, x=x, mx=mx)
    xi = [rng.randrange(0, 10) for _ in range(dim)]
    got = ctx.call('apply_x', bm.apply_x, [q(F(v, 9)) for v in xi])
    ctx.equal([fr(c) for c in got], list(ref.iso_pt(iso, [F(v, 9) for v in xi])), 'apply_x (unit cube): wrong image', map=iso, x=xi)
    v = [rng.randrange(-9, 10) for _ in range(dim)]
    ctx.equal([fr(c) for c in bm.apply_vec(v)], list(ref.iso_vec(iso, v)), 'apply_vec: wrong image of a vector', map=iso, v=v)
    div = rng.randrange(1, 8)
    cube = [rng.randrange(div) for _ in range(dim)]
    ctx.equal(tuple(ctx.call('apply_cube', bm.apply_cube, div, cube)), ref.iso_cube(iso, div, cube),
              'apply_cube: wrong image of a sub-cube', map=iso, div=div, cube=cube)
    # cube [s, s+len]^d of space, image under the isometry of the unit cube
    for ln in (1, F(1, rng.randrange(1, 6)), rng.randrange(1, 5)):
        s = [F(rng.randrange(-6, 7), rng.randrange(1, 4)) for _ in range(dim)] if ln != 1 else [rng.randrange(-3, 4) for _ in range(dim)]
        a, b = ref.iso_pt(iso, s), ref.iso_pt(iso, [c + ln for c in s])
        want = [min(p, r) for p, r in zip(a, b)]
        arg = s if ln == 1 else [q(c) for c in s]
        got = ctx.call('apply_cube_start', bm.apply_cube_start, arg, ln if ln == 1 else q(ln))
        ctx.equal([fr(c) for c in got], want, 'apply_cube_start: wrong min vertex', map=iso, start=s, length=ln)
    mt = F(rng.randrange(1, 30), rng.randrange(1, 5))
    t = F(rng.randrange(0, 30), rng.randrange(1, 11))
    ctx.equal(fr(bm.apply_t(q(t), q(mt))), ref.iso_time(iso, t, mt), 'apply_t: wrong image of a moment', map=iso, t=t, mt=mt)
    ctx.equal(fr(bm.apply_t(q(t / 40))), ref.iso_time(iso, t / 40), 'apply_t (default length): wrong image', map=iso, t=t)
    g = rng.randrange(1, 100)
    c = rng.randrange(g)
    ctx.equal(bm.apply_cnum(g, c), (g - 1 - c) if iso[1] else c, 'apply_cnum: wrong fraction number', map=iso, genus=g, cnum=c)
    ctx.seen('action', 9)


def run_case(ctx, case):
    rng, dim = ctx.rng, case['dim']
    if case['kind'] == 'exhaustive':
        isos = list(ref.iso_all(dim))
        for rep in range(2):
            for a, b in itertools.product(isos, isos):
                ctx.equal(iso_of(ctx.call('product', lambda: bm_of(a) * bm_of(b))), ref.iso_mul(a, b), 'wrong product of base maps', a=a, b=b)
                ctx.equal(iso_of(bm_of(a).conjugate_by(bm_of(b))), ref.iso_mul(ref.iso_mul(b, a), ref.iso_inv(b)), 'wrong conjugate', a=a, g=b)
                ctx.state(a, b)
                ctx.seen('op', 2)
            for a in isos:
                bm = bm_of(a)
                for n in range(-9, 10):
                    ctx.equal(iso_of(ctx.call('power', lambda: bm ** n)), ref.iso_pow(a, n), 'wrong power of a base map', a=a, n=n)
                ctx.equal(iso_of(bm.get_inverse()), ref.iso_inv(a), 'wrong inverse', a=a)
                check_actions(ctx, bm, a, rng)
        e = A.BaseMap.id_map(dim)
        ctx.equal(iso_of(e), ref.iso_id(dim), 'wrong identity map')
        return

    # history over a pool of (object, formal value)
    pool = []
    for _ in range(6):
        iso = gen.random_iso(dim, rng)
        pool.append((bm_of(iso), iso))
    pool.append((ctx.call('identity', A.BaseMap.id_map, dim), ref.iso_id(dim)))
    spool = []
    for _ in range(4):
        iso, p = gen.random_iso(dim, rng), rng.choice([0, 1, 2, 3, 11, 25])
        spool.append((spec_of(iso, p), (iso, p)))
    iso = gen.random_iso(dim, rng)
    sp = ctx.call('spec', A.Spec, bm_of(iso))
    spool.append((sp, (iso, 0)))
    steps = 250
    for step in range(steps):
        if rng.random() < 0.12:
            # a close relative of an operand in use (one reflection, one exchange of axes, time reversal, pattern number)
            iso = gen.near_isos(rng.choice(pool)[1], rng, 1)[0]
            pool[rng.randrange(len(pool))] = (bm_of(iso), iso)
            iso, p = rng.choice(spool)[1]
            if rng.random() < 0.5:
                iso = gen.near_isos(iso, rng, 1)[0]
            else:
                p = rng.choice([0, 1, 2, 3, 11, 25])
            spool[rng.randrange(len(spool))] = (spec_of(iso, p), (iso, p))
            ctx.seen('near_operand')
        op = rng.choice(['mul', 'mul', 'pow', 'inv', 'conj', 'rev', 'space', 'ss', 'sb', 'bs', 'srev', 'sconj', 'act'])
        (a, ia), (b, ib) = rng.choice(pool), rng.choice(pool)
        (s, rs), (t, rt) = rng.choice(spool), rng.choice(spool)
        res = sres = None
        if op == 'mul':
            res = (ctx.call('product', lambda: a * b), ref.iso_mul(ia, ib), (ia, ib))
        elif op == 'pow':
            n = rng.choice([-13, -7, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 24])
            res = (ctx.call('power', lambda: a ** n), ref.iso_pow(ia, n), (ia, n))
        elif op == 'inv':
            res = (ctx.call('inverse', a.get_inverse), ref.iso_inv(ia), ia)
        elif op == 'conj':
            res = (ctx.call('conjugate', a.conjugate_by, b), ref.iso_mul(ref.iso_mul(ib, ia), ref.iso_inv(ib)), (ia, ib))
        elif op == 'rev':
            res = (ctx.call('reversal', lambda: ~a), (ia[0], not ia[1]), ia)
        elif op == 'space':
            res = (ctx.call('space part', a.cube_map), (ia[0], False), ia)
        elif op == 'ss':
            sres = (ctx.call('spec product', lambda: s * t), (ref.iso_mul(rs[0], rt[0]), rs[1]), (rs, rt))
        elif op == 'sb':
            sres = (ctx.call('spec * base map', lambda: s * a), (ref.iso_mul(rs[0], ia), rs[1]), (rs, ia))
        elif op == 'bs':
            sres = (ctx.call('base map * spec', lambda: a * s), (ref.iso_mul(ia, rs[0]), rs[1]), (ia, rs))
        elif op == 'srev':
            sres = (ctx.call('spec reversal', lambda: ~s), ((rs[0][0], not rs[0][1]), rs[1]), rs)
        elif op == 'sconj':
            sres = (ctx.call('spec conjugate', s.conjugate_by, a),
                    (ref.iso_mul(ref.iso_mul(ia, rs[0]), ref.iso_inv(ia)), rs[1]), (rs, ia))
        else:
            check_actions(ctx, a, ia, rng)
            continue
        ctx.seen('op')
        ctx.seen('op_' + op)
        if res is not None:
            obj, want, operands = res
            ctx.equal(iso_of(obj), want, 'wrong result of %s' % op, operands=operands)
            ctx.equal(obj.dim, dim, 'wrong dimension of the result')
            ctx.check(obj == bm_of(want) and hash(obj) == hash(bm_of(want)), 'result differs from the same map built directly', op=op, operands=operands)
            pool[rng.randrange(len(pool))] = (obj, want)
        else:
            obj, want, operands = sres
            ctx.equal(rspec(obj), want, 'wrong result of spec operation %s' % op, operands=operands)
            spool[rng.randrange(len(spool))] = (obj, want)
        ctx.state(op, operands)
    for bm, iso in pool:
        ctx.equal(iso_of(bm), iso, 'an operand changed during the history')
    for s, rs in spool:
        ctx.equal(rspec(s), rs, 'a spec operand changed during the history')
    ctx.sample({'dim': dim, 'last': [str(bm) for bm, _ in pool[:3]]})
