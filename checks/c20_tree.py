"""Cube path growth against plain depth-first enumeration of Hamiltonian paths, under random step rules."""
import itertools
from vlib import ref
from vlib.bridge import A

PROPERTY = 'C20'
RULE = ('random step rules (position dependent and independent, several states, states with colliding hashes), random start and '
        'finish sets, all shapes up to 27 cubes; for several width limits, with and without backward growth, the set of results is '
        'compared with plain enumeration; distinct = (shape, rule, ends) with the number of paths')
MIN_EVENTS = {'grow': 1000, 'path': 5000, 'nonempty': 100, 'empty': 10, 'colliding_hash': 50}
CHUNK = 4


class State:
    """A state with a poor hash: many different states collide."""
    def __init__(self, v, mod):
        self.v, self.mod = v, mod

    def __eq__(self, o):
        return isinstance(o, State) and self.v == o.v

    def __hash__(self):
        return self.v % self.mod

    def __repr__(self):
        return 's%d' % self.v


def plan(tier, seed):
    shapes = [(1, 2), (1, 3), (1, 5), (1, 9), (2, 2), (2, 3), (2, 3), (2, 3), (2, 4), (2, 4), (3, 2), (3, 2), (4, 2), (3, 3)]
    n = 28 if tier == 'quick' else 300
    return [{'dim': d, 'div': k, 'i': i} for i in range(n) for d, k in shapes]


def run_case(ctx, case):
    rng = ctx.rng
    dim, div = case['dim'], case['div']
    cubes = list(itertools.product(range(div), repeat=dim))
    total = len(cubes)
    for attempt in range(12):
        nst = rng.choice([1, 1, 2, 3])
        mod = rng.choice([1, 2, 1000])
        S = [State(k, mod) for k in range(nst)] if rng.random() < 0.5 else list(range(nst))
        if isinstance(S[0], State) and mod == 1:
            ctx.seen('colliding_hash')
        deltas = list(ref.cube_deltas(dim, rng.choice([1, 1, 2, None]) if total <= 9 else 1))
        if rng.random() < 0.15:
            deltas += [tuple(2 * x for x in dl) for dl in deltas]      # jumps: any displacement is allowed by the rule
        homogeneous = rng.random() < 0.5
        dens = rng.choice([0.3, 0.5, 0.8, 1.0]) / (1 if nst == 1 else nst ** 0.5)
        if total > 16:
            dens = min(dens, 0.75)
        if homogeneous:
            tab = {s: [(dl, t) for dl in deltas for t in S if rng.random() < dens] for s in S}
            rule = lambda c, s: tab[s]
        else:
            full = {(c, s): [(dl, t) for dl in deltas for t in S if rng.random() < dens] for c in cubes for s in S}
            rule = lambda c, s: full[c, s]
        succ, pred = {}, {}
        for c in cubes:
            for s in S:
                for dl, t in rule(c, s):
                    c2 = tuple(a + b for a, b in zip(c, dl))
                    if all(0 <= v < div for v in c2):
                        succ.setdefault((c, s), []).append((c2, t))
                        pred.setdefault((c2, t), []).append((tuple(-v for v in dl), s))
        nodes = [(c, s) for c in cubes for s in S]
        start = rng.sample(nodes, min(len(nodes), rng.choice([1, 1, 2, 4])))
        finish = rng.sample(nodes, min(len(nodes), rng.choice([1, 2, 4, len(nodes)])))
        fin = set(finish)
        # plain enumeration
        want, steps = set(), 0
        budget = 60000
        ok = True

        def rec(path, used):
            nonlocal steps, ok
            steps += 1
            if steps > budget or not ok:
                ok = False
                return
            if len(path) == total:
                if path[-1] in fin:
                    want.add(tuple(path))
                return
            for nd in succ.get(path[-1], ()):
                if nd[0] not in used:
                    used.add(nd[0])
                    path.append(nd)
                    rec(path, used)
                    path.pop()
                    used.discard(nd[0])
        for st in start:
            rec([st], {st[0]})
        if not ok or len(want) > 3000:
            ctx.notes['too_many'] += 1
            continue
        if not want and attempt < 8 and rng.random() < 0.85:
            continue
        break
    else:
        ctx.notes['skipped'] += 1
        return
    if total == 1:
        return
    fwd = lambda c, s: list(rule(c, s))
    bwd = lambda c, s: list(pred.get((c, s), ()))
    variants = [{}, {'start_max_count': 0}, {'start_max_count': 1, 'finish_max_count': 0}, {'start_max_count': 10 ** 6, 'finish_max_count': 1},
                {'start_max_count': rng.randrange(2, 30), 'finish_max_count': rng.randrange(2, 30)},
                {'start_max_count': 10 ** 6, 'finish_max_count': 10 ** 6}, {'finish_max_count': None},
                {'start_max_count': rng.randrange(1, 10), 'finish_max_count': None}]
    for kw in variants:
        kw = {k: v for k, v in kw.items()}
        back = None if kw.get('finish_max_count', 0) is None and rng.random() < 0.5 else bwd
        tree = A.tree.CubePathTree(dim=dim, div=div, next_func=fwd, **({'prev_func': back} if back else {}))
        ends = (list(start), list(finish)) if rng.random() < 0.6 else (iter(start), iter(finish))
        got = ctx.take('grow', tree.grow(ends[0], ends[1], **kw), 2 * len(want) + 10)
        got = [tuple((tuple(c), s) for c, s in path) for path in got]
        w = dict(case=case, limits=kw, start=start, finish=finish, paths=len(want))
        ctx.check(len(got) == len(set(got)), 'a path is yielded twice', **w)
        ctx.check(set(got) <= want, 'a yielded path is not allowed', extra=next(iter(set(got) - want), None), **w)
        ctx.check(want <= set(got), 'a path is missing', missing=next(iter(want - set(got)), None), **w)
        ctx.seen('grow')
        ctx.seen('path', len(got))
        # a tree can be used again
        if rng.random() < 0.2:
            again = [tuple((tuple(c), s) for c, s in path) for path in ctx.take('grow', tree.grow(list(start), list(finish), **kw), 2 * len(want) + 10)]
            ctx.check(sorted(map(repr, again)) == sorted(map(repr, got)), 'the second call gives another result', **w)
    ctx.seen('nonempty' if want else 'empty')
    ctx.state(dim, div, homogeneous, nst, len(want), sorted(map(repr, start)), len(succ))
    ctx.sample({'case': case, 'states': nst, 'paths': len(want)})
