"""Bounded-items heap against a list model, along random operation histories."""
from dataclasses import dataclass
from fractions import Fraction as F
from vlib.bridge import A, q

PROPERTY = 'C19'
RULE = ('random histories of push / pop / top / items / pop_bad_items / update_good_threshold / copy_and_cleanup on heaps with and '
        'without thresholds, with many ties and values equal to thresholds, against a plain list model checked after every '
        'operation; distinct = (options, history)')
MIN_EVENTS = {'push': 5000, 'pop': 1000, 'bad_reported': 200, 'threshold_raised': 300, 'threshold_rejected': 100, 'copy': 60, 'tie_at_threshold': 50, 'long_history': 10, 'near_ties': 300}
CHUNK = 10


def plan(tier, seed):
    cases = [{'i': i} for i in range(4000 if tier == 'quick' else 40000)]
    return cases + [{'i': i, 'big': 1} for i in range(24 if tier == 'quick' else 200)]


class Model:
    def __init__(self, good, bad, keep):
        self.good, self.bad, self.keep = good, bad, keep
        self.active, self.bads, self.max_lo = [], [], None

    def push(self, it):
        if self.keep and (self.max_lo is None or it.lo > self.max_lo):
            self.max_lo = it.lo
        if self.good is not None and it.up <= self.good:
            return 'good'
        if self.bad is not None and it.lo >= self.bad:
            self.bads.append(it)
            return 'bad'
        self.active.append(it)
        return 'active'


def run_case(ctx, case):
    rng = ctx.rng

    @dataclass(frozen=True, eq=False)
    class Item(A.heap.BoundedItem):
        tag: int

    grid = [F(k, rng.choice([1, 2, 3])) for k in range(rng.choice([3, 6, 20, 1000]))]
    if rng.random() < 0.2:       # values that only exact arithmetic tells apart
        e = F(1, rng.choice([10 ** 9, 10 ** 18, 10 ** 30]))
        grid = [v + k * e for v in grid[:6] for k in (0, 0, 1, 2, 3)]
        ctx.seen('near_ties')
    num = lambda: q(rng.choice(grid))
    kind = rng.choice(['plain', 'plain', 'thr', 'thr', 'good', 'bad'])
    good = num() if kind in ('thr', 'good') else None
    bad = num() if kind in ('thr', 'bad') else None
    keep = rng.random() < 0.5 and not (kind == 'plain' and rng.random() < 0.7)
    Heap = A.heap.BoundedItemsHeap
    heaps = [(ctx.call('BoundedItemsHeap', Heap, good_threshold=good, bad_threshold=bad, **({'keep_max_lo_item': True} if keep else {})), Model(good, bad, keep))]
    tag = 0
    hist = []
    allitems = []

    def verify(h, m, op):
        ctx.equal(h.size(), len(m.active), 'size', history=hist[-12:])
        items = ctx.take('items', h.items(), len(m.active) + 5)
        ctx.check(len(items) == len(m.active) and {id(x) for x in items} == {id(x) for x in m.active}, 'active items are wrong', history=hist[-12:],
                  got=sorted(x.tag for x in items), want=sorted(x.tag for x in m.active))
        if m.active:
            t = ctx.call('top', h.top)
            ctx.check(any(t is x for x in m.active) and t.up == max(x.up for x in m.active), 'top is not an item with the largest up', got=t, history=hist[-12:])
        if m.keep and m.max_lo is not None:
            ctx.equal(h.max_lo_item.lo, m.max_lo, 'largest lo ever pushed', history=hist[-12:])
            ctx.check(any(h.max_lo_item is x for x in allitems), 'max_lo_item was never pushed')

    n = rng.choice([10, 40, 150])
    if case.get('big'):
        n = rng.choice([1500, 4000])
        grid += [F(k, 997) for k in range(5000)]
        ctx.seen('long_history')
    for step in range(n):
        h, m = rng.choice(heaps)
        op = rng.choice(['push'] * 8 + ['pop'] * 3 + ['bads', 'raise', 'lower', 'copy'])
        if op == 'raise' and n > 1000 and rng.random() < 0.97:
            op = 'push'         # let the heap grow
        if op == 'push':
            a, b = sorted([num(), num()])
            if rng.random() < 0.15 and m.good is not None:
                a, b = min(a, m.good), m.good
            if rng.random() < 0.15 and m.bad is not None:
                a, b = m.bad, max(b, m.bad)
            tag += 1
            it = Item(lo=a, up=b, tag=tag)
            allitems.append(it)
            if b == m.good or a == m.bad:
                ctx.seen('tie_at_threshold')
            ctx.call('push', h.push, it)
            hist.append(('push', str(a), str(b), m.push(it)))
            ctx.seen('push')
        elif op == 'pop':
            if not m.active:
                continue
            t = ctx.call('pop', h.pop)
            ctx.check(any(t is x for x in m.active), 'pop returned an item that is not active', got=t, history=hist[-12:])
            ctx.equal(t.up, max(x.up for x in m.active), 'pop did not return the largest up', history=hist[-12:])
            m.active = [x for x in m.active if x is not t]
            hist.append(('pop', str(t.up)))
            ctx.seen('pop')
        elif op == 'bads':
            got = list(ctx.call('pop_bad_items', h.pop_bad_items))
            ctx.check(len(got) == len(m.bads) and {id(x) for x in got} == {id(x) for x in m.bads}, 'reported bad items are wrong', history=hist[-12:],
                      got=sorted(x.tag for x in got), want=sorted(x.tag for x in m.bads))
            ctx.seen('bad_reported', len(got))
            m.bads = []
            hist.append(('bads',))
        elif op == 'raise':
            v = num()
            if m.active and rng.random() < 0.5:
                v = rng.choice(m.active).up
            if m.good is not None and v < m.good:
                v = m.good
            ctx.call('update_good_threshold', h.update_good_threshold, v)
            m.good = v
            m.active = [x for x in m.active if x.up > v]
            hist.append(('raise', str(v)))
            ctx.seen('threshold_raised')
        elif op == 'lower':
            if m.good is None:
                continue
            v = m.good - q(F(1, rng.choice([1, 7, 10 ** 9])))
            ctx.raises('lowering the good threshold', ValueError, h.update_good_threshold, v)
            hist.append(('lower', str(v)))
            ctx.seen('threshold_rejected')
        else:
            if m.good is not None or m.bad is not None or m.keep or len(heaps) > 4:
                continue
            g, b = (num() if rng.random() < 0.6 else None), (num() if rng.random() < 0.6 else None)
            h2 = ctx.call('copy_and_cleanup', h.copy_and_cleanup, **{k: v for k, v in (('good_threshold', g), ('bad_threshold', b)) if v is not None or rng.random() < 0.5})
            m2 = Model(g, b, False)
            for x in m.active:
                m2.push(x)
            heaps.append((h2, m2))
            hist.append(('copy', str(g), str(b)))
            ctx.seen('copy')
        if n > 1000 and step % 97 and op in ('push', 'pop'):
            continue
        for hh, mm in heaps:
            verify(hh, mm, op)
    # drain: the order of pops is non-increasing and complete, every bad item is reported once
    for h, m in heaps:
        prev = None
        while m.active:
            t = ctx.call('pop', h.pop)
            ctx.check(any(t is x for x in m.active), 'pop returned an item that is not active', got=t)
            ctx.check(prev is None or t.up <= prev, 'pops are out of order')
            prev = t.up
            m.active = [x for x in m.active if x is not t]
        got = list(ctx.call('pop_bad_items', h.pop_bad_items))
        ctx.check(len(got) == len(m.bads) and {id(x) for x in got} == {id(x) for x in m.bads}, 'reported bad items are wrong')
        ctx.equal((h.size(), list(h.pop_bad_items())), (0, []), 'drained heap')
    ctx.state(kind, keep, tuple(hist))
    ctx.sample({'options': [kind, keep], 'history': hist[:6]})
