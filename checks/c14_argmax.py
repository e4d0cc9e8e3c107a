"""Face-moment estimates: the witness is a genuine pair of curve points and the lower bound is exact where it must be."""
from fractions import Fraction as F
import itertools
from vlib import ref, gen, dil
from vlib.bridge import A, fr, rpair, metrics_for
from vlib.engine import StepLimit

PROPERTY = 'C14'
RULE = ('random continuous curves and zoo curves x metrics x face dimensions x depth limits; the reported pair is evaluated exactly '
        'on the reference curve, and the lower bound is compared with the maximum over all pairs of face points of all pairs of '
        'fractions within the depth limit, found by exhaustive enumeration; distinct = (curve, metric, face dimension, depth)')
MIN_EVENTS = {'witness': 200, 'exhaustive_maximum': 100, 'attained_exactly': 20}
ASSUMPTIONS = ['the exhaustive maximum only compares pairs of fractions of equal depth up to the depth limit (at most 2)']

def plan(tier, seed):
    n = 4 if tier == 'quick' else 80
    cases = [{'cfg': c, 'i': i} for i in range(n) for c in dil.FAST]
    cases += [{'zoo': z, 'i': i} for z in range(24) for i in range(1 if tier == 'quick' else 4)]
    return cases


def weight(case):
    return 2 if 'zoo' in case else 1


def face_points(rc, fd):
    out = {}
    for p in range(rc.mult):
        s = set()
        for face in ref.faces(rc.dim, fd):
            for last in (False, True):
                t, x = ref.face_moment(rc, p, face, last)
                s.add((x, t))
        out[p] = sorted(s)
    return out


def exhaustive(rc, metric, pts, depth):
    """Maximum of the ratio over face points of non-consecutive fractions of level `depth` (auto and regular junctions)."""
    d, N, G = rc.dim, rc.div, rc.G
    placed = {}

    def cells(iso, p, L):
        k = (iso, p, L)
        if k not in placed:
            out = []
            for idx, (cube, ci, cp) in enumerate(rc.cells(p, L, iso)):
                for x, t in pts[cp]:
                    X = tuple((c + u) / N ** L for c, u in zip(cube, ref.iso_pt(ci, x)))
                    T = (idx + ref.iso_time(ci, t)) / F(G ** L)
                    out.append((idx, X, T, tuple(map(float, X)), float(T)))
            placed[k] = out
        return placed[k]

    cand = []
    best = 0.0
    e = ref.iso_id(d)
    frames = [(e, p, e, p, (0,) * d, 0) for p in range(rc.mult)]
    frames += [pr + (1,) for pr in ref.junction_reps(rc).values()]
    last = G ** depth - 1
    for i1, p1, i2, p2, dx, dt in frames:
        A1, A2 = cells(i1, p1, depth), cells(i2, p2, depth)
        for idx1, X1, T1, f1, g1 in A1:
            for idx2, X2, T2, f2, g2 in A2:
                if dt == 0 and idx2 <= idx1 + 1:
                    continue
                if dt == 1 and idx1 == last and idx2 == 0:
                    continue
                w = g2 + dt - g1
                if w < 1e-12:
                    continue
                n, k = ref.norm_pow(metric, d, [b + s - a for a, b, s in zip(f1, f2, dx)])
                r = n / w ** k
                if r >= best * (1 - 1e-9):
                    best = max(best, r)
                    cand.append((r, X1, T1, X2, T2, dx, dt))
    return max((ref.ratio(metric, d, [b + s - a for a, b, s in zip(X1, X2, dx)], T2 + dt - T1)
                for r, X1, T1, X2, T2, dx, dt in cand if r >= best * (1 - 1e-9)), default=F(0))


def run_case(ctx, case):
    rng = ctx.rng
    got = dil.pick_curve(ctx, case)
    if got is None:
        return
    rc, c = got
    classes = ref.junction_classes(rc)
    e = ref.iso_id(rc.dim)
    metrics = list(metrics_for(rc.dim))
    for metric in metrics:
        fd = rng.randrange(rc.dim)
        npts = 2 * len(list(ref.faces(rc.dim, fd)))
        if len(classes) * rc.G ** 2 * npts ** 2 > 150000:
            fd = 0
            npts = 2 ** rc.dim
            if len(classes) * rc.G ** 2 * npts ** 2 > 150000:
                ctx.notes['too_large'] += 1
                continue
        pts = face_points(rc, fd)
        size = sum(len(v) for v in pts.values()) / rc.mult
        depth = 2 if (len(classes) + rc.mult) * (rc.G ** 2 * size) ** 2 < 400000 else 1
        kw = {'use_face_moments': True, 'face_dim': fd}
        if fd == 0 and rng.random() < 0.3:
            del kw['face_dim']
        kind = rng.choice(['depth', 'depth', 'tol', 'iter'])
        if kind == 'depth':
            kw['max_depth'] = depth if rng.random() < 0.7 else depth - 1
            kw['rel_tol_inv'] = None
        elif kind == 'tol':
            kw['rel_tol_inv'] = rng.choice([3, 10, 30])
        else:
            kw['max_iter'] = rng.choice([0, 1, 5, 40])
            kw['rel_tol_inv'] = None
        f = dil.Counted(metric, own=rng.random() < 0.2)
        est = A.Estimator(f.arg(rng, counted=kind == 'depth'))
        if kind == 'depth':
            # a depth limit without a tolerance need not terminate when the dilation is not attained at face points
            f.limit = 60000
            try:
                res = est.estimate_dilation_regular(c, **kw)
            except StepLimit:
                ctx.notes['depth_mode_not_finished'] += 1
                continue
        else:
            res = ctx.call('estimate_dilation_regular(%s)' % kw, est.estimate_dilation_regular, c, **kw)
        lo, up = fr(res['lo']), fr(res['up'])
        w = dict(curve=rc.pats, metric=metric, options=kw, lo=lo, up=up)
        ctx.check('argmax' in res, 'no extremal pair is reported', **w)
        a = res['argmax']
        x1, x2 = tuple(fr(v) for v in a['x1']), tuple(fr(v) for v in a['x2'])
        t1, t2 = fr(a['t1']), fr(a['t2'])
        i1, p1, i2, p2, dx = rpair(a['junc'])
        dt = int(a['junc'].delta_t)
        w.update(x1=x1, t1=t1, x2=x2, t2=t2, junction=str(a['junc']))
        if dt == 0:
            ctx.check((i1, i2, dx) == (e, e, (0,) * rc.dim) and p1 == p2, 'the reported auto junction is not one', **w)
        else:
            ctx.check(dt == 1 and ref.pair_class(i1, p1, i2, p2, dx) in classes, 'the reported junction is not a junction of the curve', **w)
        ctx.check(0 <= t1 <= 1 and 0 <= t2 - dt <= 1 and t1 < t2, 'the reported moments are out of order or range', **w)
        y1 = ref.iso_pt(i1, rc.eval(p1, ref.iso_time(i1, t1)))
        y2 = tuple(v + s for v, s in zip(ref.iso_pt(i2, rc.eval(p2, ref.iso_time(i2, t2 - dt))), dx))
        ctx.equal(x1, y1, 'the first reported point is not the curve point at the reported moment', **w)
        ctx.equal(x2, y2, 'the second reported point is not the curve point at the reported moment', **w)
        ctx.equal(lo, ref.ratio(metric, rc.dim, [u - v for u, v in zip(x1, x2)], t2 - t1), 'the lower bound is not the ratio of the reported pair', **w)
        # the positions name the fractions that contain the pair
        for pos, iso, p, t, shift in ((a['pos1'], i1, p1, t1, 0), (a['pos2'], i2, p2, t2, dt)):
            cn = list(pos.cnums)
            k, L = 0, len(cn)
            for v in cn:
                k = k * rc.G + v
            tt = ref.iso_time(iso, t - shift) * rc.G ** L
            ctx.check(k <= tt <= k + 1, 'the reported fraction does not contain the reported moment', position=cn, **w)
            for m in range(1, L + 1):
                want = ref.RefCurve.descend(rc, p, cn[:m])[0]
                gotc = tuple(pos.cubes[m - 1])
                prev = ref.RefCurve.descend(rc, p, cn[:m - 1])[0]
                ctx.equal(tuple(u * rc.div + v for u, v in zip(prev, gotc)), want, 'cubes of the reported fraction', position=cn, **w)
        ctx.seen('witness')
        LO, UP, _ = dil.enclosure(rc, metric, F(1, 200), 8000)
        ctx.check(lo <= UP, 'the lower bound exceeds the dilation', LO=LO, UP=UP, **w)
        ctx.check(up >= LO, 'the upper bound is below the dilation', LO=LO, UP=UP, **w)
        if kind == 'depth':
            best = F(0)
            for L in range(1, kw['max_depth'] + 1):
                best = max(best, exhaustive(rc, metric, pts, L))
            ctx.check(lo >= best, 'a pair of face points of fractions within the depth limit has a larger ratio', best=best, **w)
            ctx.seen('exhaustive_maximum')
            if lo == best and lo == LO:
                ctx.seen('attained_exactly')
        ctx.state(rc.pats, metric, sorted(map(str, kw.items())))
        ctx.sample({'case': case, 'metric': metric, 'options': str(kw), 'lo': str(lo), 'pair': [str(t1), str(t2)]})
