"""Vertex/face moments against the exact first/last touching chain and exact evaluation."""
from fractions import Fraction as F
import itertools
from vlib import ref, gen
from vlib.bridge import A, rpt, fr, curve_of, rcurve, bm_of, q

PROPERTY = 'C08'
RULE = ('random continuous curves of all configurations and zoo curves; all faces of all dimensions (sampled in dimension >= 3), '
        'first and last, every pattern: exact moment, membership f(t) on the face by exact evaluation, no earlier/later touching '
        'cell at depth 3; distinct = (curve, pattern, face, last)')
MIN_EVENTS = {'face': 3000, 'vertex_table': 200}


def plan(tier, seed):
    n = 20 if tier == 'quick' else 300
    names = list(gen.LIGHT)
    cases = [{'cfg': c, 'i': i} for c in names for i in range(n)]
    cases += [{'cfg': c, 'i': i} for c in gen.HEAVY for i in range(1 if tier == 'quick' else 8)]
    cases += [{'zoo': z, 'i': 0} for z in range(24)]
    return cases


def run_case(ctx, case):
    rng = ctx.rng
    if 'zoo' in case:
        names = gen.zoo_names(A)
        if case['zoo'] >= len(names):
            return
        c = getattr(A.zoo, names[case['zoo']])().curve
        rc = rcurve(c)
    else:
        rc = gen.random_curve(case['cfg'], rng)
        if rc is None:
            ctx.notes['no_curve'] += 1
            return
        rc = gen.disguise(rc, rng)
        c = curve_of(rc, rng.randrange(rc.mult))
    dim = rc.dim
    faces = list(itertools.product((0, 1, None), repeat=dim))
    if len(faces) > 27:
        faces = rng.sample(faces, 27)
    for p in range(rc.mult):
        tab = ctx.call('get_vertex_moments', c.get_vertex_moments, p)
        ctx.equal(sorted(tuple(int(v) for v in k) for k in tab), sorted(itertools.product((0, 1), repeat=dim)), 'vertices of the moments table')
        for v, t in tab.items():
            want, _ = ref.face_moment(rc, p, v, False)
            ctx.equal(fr(t), want, 'vertex moment', vertex=v, pattern=p, curve=rc.pats)
            ctx.equal(rc.eval(p, fr(t)), tuple(F(x) for x in v), 'the curve is not at the vertex at its moment', vertex=v, pattern=p)
        ctx.seen('vertex_table')
        for face in faces:
            for last in (False, True):
                want, x = ref.face_moment(rc, p, face, last)
                got = fr(ctx.call('get_face_moment', c.get_face_moment, face, p, last=last))
                ctx.equal(got, want, 'face moment', face=face, last=last, pattern=p, curve=rc.pats)
                cp = ctx.call('get_face_moment(find_point)', c.get_face_moment, face, pnum=p, last=last, find_point=True)
                ctx.equal((fr(cp.t), rpt(cp.x)), (want, x), 'face point', face=face, last=last, pattern=p, curve=rc.pats)
                g = gen.random_iso(dim, rng)
                im = ctx.call('BaseMap * CurvePoint', lambda: bm_of(g) * cp)
                ctx.equal((fr(im.t), rpt(im.x)), (ref.iso_time(g, want), ref.iso_pt(g, x)), 'image of a curve point', by=g)
                k = rng.choice((F(1), F(2), F(3), F(1, 2), F(1, rc.div)))
                sc = ctx.call('CurvePoint.scale', cp.scale, q(k))
                ctx.equal((fr(sc.t), rpt(sc.x)), (want * k ** dim, tuple(v * k for v in x)), 'scaled curve point', factor=k)
                at = rc.eval(p, got)
                ctx.check(at == x and all(e is None or at[j] == e for j, e in enumerate(face)),
                          'the reported point is not the curve point on the face', face=face, t=got, at=at)
                ctx.seen('face')
                ctx.seen('face_dim%d' % sum(e is None for e in face))
                ctx.state(str(c), p, face, last)
    if len(faces):
        face = rng.choice(faces)
        ctx.equal(fr(ctx.call('get_face_moment()', c.get_face_moment, face)), ref.face_moment(rc, c.pnum, face, False)[0], 'face moment of the selected pattern')
        tab = ctx.call('get_vertex_moments()', c.get_vertex_moments)
        v = (1,) * dim
        ctx.equal(fr(tab[v]), ref.face_moment(rc, c.pnum, v, False)[0], 'vertex moment of the selected pattern')
    # independent brute check of minimality: cells touching the face at depth 2
    if rc.G ** 2 <= 700:
        p = rng.randrange(rc.mult)
        cells = rc.cells(p, 2)
        n = rc.div ** 2
        for face in rng.sample(faces, min(4, len(faces))):
            idx = [k for k, (cu, _, _) in enumerate(cells) if all(e is None or cu[j] == (n - 1) * e for j, e in enumerate(face))]
            t0, t1 = fr(c.get_face_moment(face, p)), fr(c.get_face_moment(face, p, last=True))
            ctx.check(F(idx[0], len(cells)) <= t0 <= F(idx[0] + 1, len(cells)), 'first moment outside the first touching cell', face=face)
            ctx.check(F(idx[-1], len(cells)) <= t1 <= F(idx[-1] + 1, len(cells)), 'last moment outside the last touching cell', face=face)
    ctx.sample({'case': case, 'face': str(face)})
