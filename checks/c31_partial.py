"""Partially specified curves: answers are forced by the specification, and refused otherwise."""
from fractions import Fraction as F
import itertools
from vlib import ref, gen
from vlib.bridge import A, spec_of, rspec, rpt, fr, curve_of, bm_of, rcurve, iso_of, path_of, rpatterns

PROPERTY = 'C31'
RULE = ('random partial specifications of random curves (built as FuzzyCurve, and as path-fuzzy curves specified fraction by fraction), '
        'their isometric and reversed images: face and vertex moments, points, orientations of nested fractions, defined specs; '
        'the monitor follows the chain of fractions the answer depends on and demands the exact value when all of it is specified, '
        'KeyError when not; distinct = (curve, known set, query)')
MIN_EVENTS = {'face_known': 2000, 'face_unknown': 500, 'deep_known': 1000, 'deep_unknown': 500, 'defined_list': 500, 'foreign_links': 100, 'foreign_reversed': 50}


def plan(tier, seed):
    n = 30 if tier == 'quick' else 600
    names = list(gen.LIGHT)
    cases = [{'cfg': c, 'i': i} for c in names for i in range(n)]
    cases += [{'cfg': c, 'i': i} for c in gen.HEAVY for i in range(max(n // 15, 1))]
    return cases


def chain(curve, p, face, last):
    """(pattern, index) positions whose specs decide the face moment of pattern p."""
    state, seen, need = (ref.iso_id(curve.dim), p), set(), []
    while state not in seen:
        seen.add(state)
        ch = curve.children(*state)
        for k in (range(curve.G - 1, -1, -1) if last else range(curve.G)):
            if all(e is None or ch[k][0][j] == (curve.div - 1) * e for j, e in enumerate(face)):
                break
        iso, q = state
        need.append((q, curve.G - 1 - k if iso[1] else k))
        state = (ch[k][1], ch[k][2])
    return need


def run_case(ctx, case):
    rng = ctx.rng
    rc = gen.random_curve(case['cfg'], rng)
    if rc is None:
        ctx.notes['no_curve'] += 1
        return
    rc = gen.disguise(rc, rng)
    every = [(p, k) for p in range(rc.mult) for k in range(rc.G)]
    for _ in range(3):
        style = rng.random()
        face0 = tuple(rng.choice((0, 1, None)) for _ in range(rc.dim))
        p0 = rng.randrange(rc.mult)
        need0 = chain(rc, p0, face0, rng.random() < 0.5)
        if style < 0.35:
            known = set(need0)
        elif style < 0.6:
            known = {x for x in every if rng.random() < 0.7}
        elif style < 0.8:
            known = set(every) - {rng.choice(need0)}
        else:
            known = set(every) - {rng.choice(every)}
        pnum = rng.randrange(rc.mult)
        if rng.random() < 0.6:
            pats = [(list(cubes), [spec_of(*s) if (p, k) in known else None for k, s in enumerate(specs)]) for p, (cubes, specs) in enumerate(rc.pats)]
            fz = A.FuzzyCurve(rc.dim, rc.div, pats, pnum=pnum)
        else:
            # the same information through the fuzzy curve of the paths
            fz = ctx.call('forget', curve_of(rc, pnum).forget)
            order = sorted(known)
            rng.shuffle(order)
            for p, k in order:
                fz = ctx.call('specify', fz.specify, p, k, spec_of(*rc.pats[p][1][k]))
            ctx.seen('by_specify')
        cur = rc
        kn = set(known)
        if rng.random() < 0.5:
            iso = gen.random_iso(rc.dim, rng)
            fz = ctx.call('image', lambda: bm_of(iso) * fz)
            cur = rc.transform(iso)
            if iso[1]:
                kn = {(p, rc.G - 1 - k) for p, k in kn}
        want_defined = sorted((p, k, cur.pats[p][1][k]) for p, k in kn)
        got_defined = sorted((int(p), int(k), rspec(s)) for p, k, s in ctx.call('gen_defined_specs', lambda: list(fz.gen_defined_specs())))
        ctx.equal(got_defined, want_defined, 'defined specs', known=sorted(kn), curve=cur.pats)
        ctx.seen('defined_list')
        faces = [face0] + [tuple(rng.choice((0, 1, None)) for _ in range(rc.dim)) for _ in range(5)]
        for face, last, p in itertools.product(faces, (False, True), range(rc.mult)):
            need = chain(cur, p, face, last)
            w = dict(face=face, last=last, pattern=p, known=sorted(kn), curve=cur.pats)
            if all(x in kn for x in need):
                t, x = ref.face_moment(cur, p, face, last)
                ctx.equal(fr(ctx.call('get_face_moment', fz.get_face_moment, face, p, last=last)), t, 'face moment of a partially specified curve', **w)
                cp = ctx.call('get_face_moment(find_point)', fz.get_face_moment, face, pnum=p, last=last, find_point=True)
                ctx.equal((fr(cp.t), rpt(cp.x)), (t, x), 'face point of a partially specified curve', **w)
                ctx.seen('face_known')
            else:
                ctx.raises('face moment of an underspecified curve', KeyError, fz.get_face_moment, face, p, last=last)
                ctx.seen('face_unknown')
            ctx.state(case['cfg'], case['i'], sorted(kn), face, last, p)
        for p in range(rc.mult):
            need = {x for v in itertools.product((0, 1), repeat=rc.dim) for x in chain(cur, p, v, False)}
            if need <= kn:
                tab = ctx.call('get_vertex_moments', fz.get_vertex_moments, p)
                ctx.equal({tuple(int(e) for e in v): fr(t) for v, t in tab.items()},
                          {v: ref.face_moment(cur, p, v, False)[0] for v in itertools.product((0, 1), repeat=rc.dim)}, 'vertex moments', pattern=p)
                ctx.seen('vertices_known')
            else:
                ctx.raises('vertex moments of an underspecified curve', KeyError, fz.get_vertex_moments, p)
        for _ in range(12):
            p = rng.randrange(rc.mult)
            cn = [rng.randrange(rc.G) for _ in range(rng.randrange(0, 4))]
            iso, q, ok = ref.iso_id(rc.dim), p, True
            for k in cn:
                pos = (q, rc.G - 1 - k if iso[1] else k)
                ok = ok and pos in kn
                ch = cur.children(iso, q)[k]
                iso, q = ch[1], ch[2]
            if ok:
                got = rspec(ctx.call('get_deep_spec', fz.get_deep_spec, p, cn))
                ctx.equal(got, (iso, q), 'orientation of a nested fraction', pattern=p, cnums=cn, known=sorted(kn), curve=cur.pats)
                ctx.seen('deep_known')
            else:
                ctx.raises('orientation behind an unspecified fraction', KeyError, fz.get_deep_spec, p, cn)
                ctx.seen('deep_unknown')
    # a path whose link is no image of the curve's own gates (under the maps allowed) denotes no curve
    gates = rc.gates()
    full = list(ref.link_orbit(gates))
    plain = {ref.link_map(g, l) for g in ref.iso_all(rc.dim) if not g[1] for l in gates}
    for _ in range(6):
        kw, orbit = rng.choice([({}, set(full)), ({'disable_time_rev': True}, plain)])
        paths = [list(zip(cubes, links)) for (cubes, _), links in zip(rc.pats, [rc.frac_links(p) for p in range(rc.mult)])]
        if kw and any(l not in orbit for pp in paths for _, l in pp):
            objs = [path_of(rc.dim, rc.div, pp) for pp in paths]
            ctx.raises('paths that need time reversal', KeyError, A.PathFuzzyCurve.init_from_paths, objs, **kw)
            ctx.seen('foreign_reversed')
            continue
        p, k = rng.randrange(rc.mult), rng.randrange(rc.G)
        e, x = paths[p][k][1]
        bad = rng.choice([(x, e), (e, e), rng.choice(full), (e, tuple(F(rng.choice((0, 1, F(1, 7), F(2, 7)))) for _ in range(rc.dim)))])
        if bad not in orbit and 0 < k < rc.G - 1:       # (the ends decide the gates)
            paths[p][k] = (paths[p][k][0], bad)
            objs = [path_of(rc.dim, rc.div, pp) for pp in paths]
            ctx.raises('a path with a foreign link', KeyError, A.PathFuzzyCurve.init_from_paths, objs, **kw)
            ctx.seen('foreign_links')
    ctx.sample({'case': case})
