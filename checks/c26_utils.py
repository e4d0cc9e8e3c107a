"""Numeric and combinatorial helpers against direct evaluation of their definitions."""
from collections import Counter
from fractions import Fraction as F
import itertools
import math
from vlib import ref
from vlib.bridge import A, fr, q

PROPERTY = 'C26'
RULE = ('random rational vectors and times, digit sequences (with repeats of the same digits under other dimensions and divisions, to '
        'confuse caches), integer sequences, id patterns; distinct = argument tuples')
MIN_EVENTS = {'ratio': 500, 'int_cube': 500, 'int_time': 500, 'periodic': 500, 'lcm': 100, 'faces': 15, 'combinations': 100, 'periodic_relative': 1000, 'nested_relative': 500, 'ratio_relative': 500}
CHUNK = 2


def plan(tier, seed):
    n = 200 if tier == 'quick' else 1500
    return [{'kind': k, 'i': i} for i in range(n) for k in ('ratio', 'digits', 'comb', 'relatives')] + [{'kind': 'faces', 'i': d} for d in range(0, 7)]


def run_case(ctx, case):
    globals()[case['kind']](ctx, ctx.rng, case)


def isq(ctx, x, what):
    ctx.check(not isinstance(x, float) and hasattr(x, 'numerator'), '%s is an exact rational' % what, got=(type(x), x))
    return fr(x)


def rnum(rng, big):
    if rng.random() < 0.2:
        return F(rng.randrange(-6, 7))
    m = rng.choice([10 ** 12, 10 ** 30]) if big else 12
    return F(rng.randrange(-m, m + 1), rng.randrange(1, m))


def ratio(ctx, rng, case):
    for _ in range(30):
        d = rng.randrange(1, 7)
        big = rng.random() < 0.3
        dv = [rnum(rng, big) for _ in range(d)]
        if rng.random() < 0.2:
            dv = [F(0)] * (d - 1) + [dv[0]]
        dt = abs(rnum(rng, big)) or F(1, 7)
        arg = [int(v) if v.denominator == 1 and rng.random() < 0.5 else q(v) for v in dv]
        t = int(dt) if dt.denominator == 1 and rng.random() < 0.5 else q(dt)
        arg = rng.choice([list, tuple])(arg)
        U = A.utils
        want = {'linf': max(abs(v) for v in dv) ** d / dt,
                'l1': sum(abs(v) for v in dv) ** d / dt,
                'l2_squared': sum(v * v for v in dv) ** d / dt ** 2}
        for k, w in want.items():
            f = getattr(U, 'ratio_' + k)
            ctx.equal(isq(ctx, ctx.call(k, f, d, arg, t), k), w, 'ratio_%s' % k, d=d, dv=dv, dt=dt)
        if d % 2 == 0:
            g = isq(ctx, ctx.call('ratio_l2', U.ratio_l2, d, arg, t), 'l2')
            ctx.equal(g, sum(v * v for v in dv) ** (d // 2) / dt, 'ratio_l2', d=d, dv=dv, dt=dt)
            ctx.equal(g * g, want['l2_squared'], 'ratio_l2 squared is ratio_l2_squared', d=d, dv=dv, dt=dt)
        ctx.seen('ratio')
        ctx.state(d, dv, dt)


def digits(ctx, rng, case):
    U = A.utils
    base = tuple(rng.randrange(2) for _ in range(rng.randrange(0, 7)))
    for _ in range(30):
        dim, div = rng.randrange(1, 6), rng.choice([2, 3, 4, 5, 7, 10])
        depth = rng.choice([0, 1, 2, 3, 4, 6, 10, 25, 80])
        cubes = tuple(tuple(rng.randrange(div) for _ in range(dim)) for _ in range(depth))
        if rng.random() < 0.4:
            cubes = tuple((v,) * dim for v in base)
        x = [0] * dim
        for c in cubes:
            x = [a * div + b for a, b in zip(x, c)]
        got = ctx.call('get_int_cube_with_cache', U.get_int_cube_with_cache, dim, div, cubes)
        ctx.equal(tuple(int(v) for v in got), tuple(x), 'integer coordinates of nested cubes', dim=dim, div=div, cubes=cubes)
        ctx.seen('int_cube')

        G = div ** dim
        cnums = base if rng.random() < 0.4 else tuple(rng.randrange(G) for _ in range(depth))
        t = 0
        for c in cnums:
            t = t * G + c
        for _ in range(2):
            ctx.equal(ctx.call('get_int_time_with_cache', U.get_int_time_with_cache, dim, div, cnums), t,
                      'integer time of nested fractions', dim=dim, div=div, cnums=cnums)
        ctx.seen('int_time')
        ctx.state(dim, div, cubes, cnums)

        d = rng.choice([2, 3, 4, 8, 9, 27, 100])
        start = [rng.randrange(d) for _ in range(rng.choice([0, 0, 1, 2, 5, 12, 70]))]
        period = [rng.randrange(d) for _ in range(rng.choice([1, 1, 2, 3, 7, 40]))]
        if rng.random() < 0.2:
            period = [rng.choice([0, d - 1])] * len(period)
        want = F(0)
        for k, v in enumerate(start):
            want += F(v, d ** (k + 1))
        p = F(0)
        for k, v in enumerate(period):
            p += F(v, d ** (k + 1))
        want += p / (1 - F(1, d ** len(period))) / d ** len(start)
        conv = rng.choice([list, tuple])
        got = isq(ctx, ctx.call('get_periodic_sum', U.get_periodic_sum, conv(start), conv(period), d), 'periodic sum')
        ctx.equal(got, want, 'get_periodic_sum', start=start, period=period, d=d)
        ctx.seen('periodic')

        xs = [rng.randrange(1, rng.choice([5, 40, 10 ** 6])) for _ in range(rng.randrange(0, 6))]
        w = 1
        for v in xs:
            a, b = w, v
            while b:
                a, b = b, a % b
            w = w // a * v
        ctx.equal(ctx.call('get_lcm', U.get_lcm, rng.choice([list, tuple, iter])(xs)), w, 'get_lcm', xs=xs)
        ctx.seen('lcm')


def periodic(start, period, d):
    want = F(0)
    for v in reversed(start):
        want = (want + v) / d
    p = 0
    for v in period:
        p = p * d + v
    return want + F(p, d ** len(period) - 1) / d ** len(start)


def relatives(ctx, rng, case):
    """Arguments that share their digits, sums or products, one after another: nothing may be mixed up between calls."""
    U = A.utils
    d = rng.choice([2, 2, 3, 4, 9])
    word = [rng.randrange(d) for _ in range(rng.randrange(2, 40))]
    calls = []
    for k in range(len(word)):
        calls.append((word[:k], word[k:], d))
        calls.append((word[:k], word[k:], d + 1))
        calls.append((word[:k], word[k:][::-1], d))
    for k in range(1, len(word) + 1):
        calls.append(([], word[:k], d))
        calls.append(([0] * k, word, d))
        calls.append((word[:k], [0], d))
    rng.shuffle(calls)
    for a, b, e in calls[:60]:
        got = isq(ctx, ctx.call('get_periodic_sum', U.get_periodic_sum, a, b, e), 'periodic sum')
        ctx.equal(got, periodic(a, b, e), 'get_periodic_sum', start=a, period=b, d=e)
        ctx.seen('periodic_relative')
    n = rng.choice([4, 6, 8, 12, 24])
    flat = [rng.randrange(2) for _ in range(n)]
    for dim in [k for k in range(1, n + 1) if n % k == 0 and k <= 6]:
        cubes = tuple(tuple(flat[i:i + dim]) for i in range(0, n, dim))
        for div in rng.sample([2, 3, 4, 5, 16], 3):
            x = [0] * dim
            for c in cubes:
                x = [a * div + b for a, b in zip(x, c)]
            got = ctx.call('get_int_cube_with_cache', U.get_int_cube_with_cache, dim, div, cubes)
            ctx.equal(tuple(int(v) for v in got), tuple(x), 'integer coordinates of nested cubes', dim=dim, div=div, cubes=cubes)
            t = 0
            for c in flat:
                t = t * div ** dim + c
            ctx.equal(ctx.call('get_int_time_with_cache', U.get_int_time_with_cache, dim, div, tuple(flat)), t, 'integer time of nested fractions',
                      dim=dim, div=div, cnums=flat)
            ctx.seen('nested_relative')
    # the same vector with signs, order, scale, length of the interval or dimension changed
    dv = [F(rng.randrange(-9, 10), rng.randrange(1, 4)) for _ in range(rng.randrange(1, 6))]
    dt = F(rng.randrange(1, 20), rng.randrange(1, 5))
    for _ in range(12):
        v = [x * rng.choice([1, -1]) for x in rng.sample(dv, len(dv))] + [F(0)] * rng.choice([0, 0, 1])
        s = rng.choice([F(1), F(1), F(2), F(1, 3)])
        v, t, k = [x * s for x in v], dt * rng.choice([F(1), F(2), s ** len(v)]), len(v)
        want = {'linf': max(abs(x) for x in v) ** k / t, 'l1': sum(abs(x) for x in v) ** k / t, 'l2_squared': sum(x * x for x in v) ** k / t ** 2}
        if k % 2 == 0:
            want['l2'] = sum(x * x for x in v) ** (k // 2) / t
        for name, w in want.items():
            got = isq(ctx, ctx.call(name, getattr(U, 'ratio_' + name), k, tuple(q(x) for x in v), q(t)), name)
            ctx.equal(got, w, 'ratio_%s' % name, d=k, dv=v, dt=t)
        ctx.seen('ratio_relative')
    # sequences with the same product, sum or members
    xs = [rng.randrange(1, 60) for _ in range(rng.randrange(2, 6))]
    for ys in (xs, xs[::-1], xs + xs, xs[1:], [xs[0] * xs[1]] + xs[2:], [xs[0] + xs[1]] + xs[2:], [x * 2 for x in xs]):
        w = 1
        for y in ys:
            w = w * y // math.gcd(w, y)
        ctx.equal(ctx.call('get_lcm', U.get_lcm, ys), w, 'get_lcm', xs=ys)
    ctx.state('relatives', word, flat, dv, xs)


def faces(ctx, rng, case):
    dim = case['i']
    for fd in range(0, dim + 1):
        got = ctx.take('gen_faces', A.utils.gen_faces(dim, fd), 4 ** dim + 5)
        want = [f for f in itertools.product((0, 1, None), repeat=dim) if sum(v is None for v in f) == fd]
        ctx.equal(Counter(tuple(f) for f in got), Counter(want), 'gen_faces yields each face once', dim=dim, face_dim=fd)
        ctx.seen('faces')
        ctx.state(dim, fd)


def comb(ctx, rng, case):
    for _ in range(8):
        ids = [rng.choice([0, 1, 2, 5]) for _ in range(rng.randrange(1, 6))]
        items = {i: [10 * i + k for k in range(rng.choice([0, 1, 2, 3, 4]) if rng.random() < 0.2 else rng.choice([1, 2, 3, 4]))] for i in (0, 1, 2, 5)}
        if rng.random() < 0.3:
            items[5] = list(items[0])     # the same elements under another id
        for v in items.values():
            rng.shuffle(v)
        arg = {i: rng.choice([list, tuple, iter])(v) for i, v in items.items() if i in ids or rng.random() < 0.5}
        got = [tuple(t) for t in ctx.take('combinations_product', A.utils.combinations_product(rng.choice([list, tuple])(ids), arg), 5000)]

        def canon(t):
            return tuple(tuple(sorted(v for v, j in zip(t, ids) if j == i)) for i in sorted(set(ids)))
        want = {canon(t) for t in itertools.product(*(items[i] for i in ids))}
        for t in got:
            ctx.check(len(t) == len(ids) and all(v in items[i] for v, i in zip(t, ids)), 'an element comes from the iterable of its id', ids=ids, t=t)
        ctx.equal(Counter(canon(t) for t in got), Counter(want), 'each tuple once up to order among positions with the same id', ids=ids, items=items)
        ctx.seen('combinations')
        ctx.state(ids, sorted(items.items()))
