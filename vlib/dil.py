"""Shared pieces of the dilation checks."""
from fractions import Fraction as F
from . import ref, gen
from .bridge import A, ratio_func, fr, rcurve, curve_of, spec_of
from .engine import StepLimit

FAST = [c for c in gen.LIGHT if gen.CONFIGS[c][0] > 1]


class Counted:
    """A ratio function for the estimator that counts its calls and bounds them; optionally our own implementation."""

    def __init__(self, metric, own=False, limit=12000000):
        self.metric, self.limit, self.calls = metric, limit, 0
        self.f = self._own if own or metric == 'mix' else ratio_func(metric)

    def arg(self, rng, counted=False):
        """What to give to the estimator: the repository's function itself, an anonymous wrapper of it, or this counting one."""
        r = rng.random()
        if counted or self.f == self._own or r < 0.4:
            return self
        return self.f if r < 0.8 else lambda dim, dx, dt: self(dim, dx, dt)

    def _own(self, dim, dx, dt):
        n, k = ref.norm_pow(self.metric, dim, [fr(x) if not isinstance(x, int) else x for x in dx])
        dt = fr(dt) if not isinstance(dt, int) else dt
        v = F(n) / F(dt) ** k
        return A.Q(v.numerator, v.denominator)

    def __call__(self, dim, dx, dt):
        self.calls += 1
        if self.calls > self.limit:
            raise StepLimit('%d evaluations of the ratio' % self.calls)
        return self.f(dim, dx, dt)


_memo = {}


def enclosure(rc, metric, tol=F(1, 1000), max_nodes=20000):
    k = (rc.key(), metric, tol, max_nodes)
    if k not in _memo:
        if len(_memo) > 5000:
            _memo.clear()
        _memo[k] = ref.dilation_enclosure(rc, metric, tol=tol, max_nodes=max_nodes, pts=ref.exact_points(rc))
    return _memo[k]


def pick_curve(ctx, case):
    """(RefCurve, Curve) of a case {'cfg':..} or {'zoo':..}; None if there is none."""
    rng = ctx.rng
    if 'zoo' in case:
        names = gen.zoo_names(A)
        if case['zoo'] >= len(names):
            return None
        c = getattr(A.zoo, names[case['zoo']])().curve
        return rcurve(c), c
    if case.get('unused') == 'snake':
        rc = gen.snake_over_hilbert(rng)
    elif 'unused' in case:
        rc = gen.with_unused_pattern(case['unused'], rng)
    else:
        rc = gen.random_curve(case['cfg'], rng)
    if rc is None:
        ctx.notes['no_curve'] += 1
        return None
    rc = gen.disguise(rc, rng)
    return rc, curve_of(rc, rng.randrange(rc.mult), rng.randrange(2))


# ---------------------------------------------------------------- small fuzzy curves with a full table of completions

class SmallFuzzy:
    """A fuzzy curve of the repository together with the explicit set of its completions."""

    def __init__(self, fz, rc, allowed):
        self.fz, self.rc, self.allowed, self.pnum = fz, rc, allowed, fz.pnum
        self.keys = sorted(allowed)
        self.total = 1
        for k in self.keys:
            self.total *= len(allowed[k])

    def completions(self):
        import itertools
        for combo in itertools.product(*(self.allowed[k] for k in self.keys)):
            yield self.make(dict(zip(self.keys, combo)))

    def make(self, specs):
        rc = self.rc
        return ref.RefCurve(rc.dim, rc.div, [(rc.pats[p][0], [specs[p, k] for k in range(rc.G)]) for p in range(rc.mult)])

    def belongs(self, ctx, curve, what, **w):
        """The repository's curve is a regular curve of this fuzzy curve; returns it as RefCurve."""
        ctx.check(isinstance(curve, A.Curve), what + ': not a regular curve', type=type(curve).__name__, **w)
        ctx.check(curve.pnum == self.pnum, what + ': another pattern is selected than in the fuzzy curve', got=curve.pnum, want=self.pnum, **w)
        r = rcurve(curve)
        ctx.check((r.dim, r.div, r.mult) == (self.rc.dim, self.rc.div, self.rc.mult), what + ': wrong shape', **w)
        for p in range(r.mult):
            ctx.check(r.pats[p][0] == self.rc.pats[p][0], what + ': does not belong to the fuzzy curve (cubes)', **w)
            for k in range(r.G):
                ctx.check(r.pats[p][1][k] in self.allowed[p, k], what + ': does not belong to the fuzzy curve (specs)',
                          pattern=p, fraction=k, spec=r.pats[p][1][k], **w)
        return r

    def table(self, metric, tol=F(1, 300), max_nodes=6000):
        """Per completion a rigorous enclosure of the dilation."""
        out = []
        for r in self.completions():
            lo, up, _ = enclosure(r, metric, tol, max_nodes)
            out.append((lo, up, r))
        return out

    def minimum(self, metric, tol=F(1, 300)):
        """Enclosure of the minimum; completions that are clearly worse are not refined."""
        best_lo, best_up = None, None
        items = list(self.completions())
        rough = []
        for r in items:
            lo, up, _ = enclosure(r, metric, F(1, 10), 2000)
            rough.append((lo, up, r))
        cut = min(u for _, u, _ in rough)
        for lo, up, r in sorted(rough, key=lambda x: x[:2]):
            if lo > cut:
                continue
            lo, up, _ = enclosure(r, metric, tol, 8000)
            cut = min(cut, up)
            best_lo = lo if best_lo is None else min(best_lo, lo)
        return best_lo, cut


def template_cost(allowed, mult, G):
    from math import prod
    gate = prod(len(allowed[p, k]) for p in range(mult) for k in (0, G - 1))
    return gate * sum(len(allowed[p, k]) * len(allowed[p, k + 1]) for p in range(mult) for k in range(G - 1))


def small_fuzzy(ctx, cfg, rng, max_total=40, max_templates=1500, mode=None, rc=None):
    """Random fuzzy curve with at most max_total completions, made by forgetting a random curve and fixing some specs."""
    if rc is None:
        rc = gen.random_curve(cfg, rng)
        if rc is None:
            ctx.notes['no_curve'] += 1
            return None
        rc = gen.disguise(rc, rng)
    dim, G, mult = rc.dim, rc.G, rc.mult
    gates = rc.gates()
    mode = mode or rng.choice(['full', 'full', 'notr'])
    group = list(ref.iso_all(dim))
    kw = {}
    if mode == 'notr':
        kw['disable_time_rev'] = True
        group = [g for g in group if not g[1]]
    links = [rc.frac_links(p) for p in range(mult)]
    table = {}
    for q in range(mult):
        for g in group:
            table.setdefault(ref.link_map(g, gates[q]), []).append((g, q))
    allowed = {(p, k): list(table.get(links[p][k], ())) for p in range(mult) for k in range(G)}
    if any(not v for v in allowed.values()):
        ctx.notes['not_realisable'] += 1
        return None
    fz = ctx.call('forget', curve_of(rc).forget, **kw)
    if mult > 1 and rng.random() < 0.5:
        pnum = rng.randrange(mult)
        fz = ctx.call('selecting a pattern', lambda: spec_of(ref.iso_id(dim), pnum) * fz)
    free = [k for k in allowed if len(allowed[k]) > 1]
    rng.shuffle(free)
    if rng.random() < 0.4:
        free.sort(key=lambda k: k[1] in (0, G - 1))
    sf = SmallFuzzy(fz, rc, allowed)
    while free and (sf.total > max_total or template_cost(allowed, mult, G) > max_templates):
        p, k = free.pop(0)
        s = rng.choice(allowed[p, k])
        fz = ctx.call('specify', fz.specify, p, k, spec_of(*s))
        allowed[p, k] = [s]
        sf = SmallFuzzy(fz, rc, allowed)
    return sf
