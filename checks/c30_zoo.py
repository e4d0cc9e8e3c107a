"""The catalogue of known curves: validity, identity of the named curves, truth of the recorded facts."""
from fractions import Fraction as F
from vlib import ref, gen, dil
from vlib.bridge import A, fr, rcurve, rlink

PROPERTY = 'C30'
RULE = ('every get_* entry of the catalogue: continuity and coverage of the cube, the same curve (up to isometry and time reversal) as the '
        'definition in the literature, recorded gates, moments, depth, junction count and dilation against the reference model '
        '(rigorous enclosures), announced dilations of record curves; get_all_curves against the entries; '
        'distinct = (entry, fact)')
MIN_EVENTS = {'entry': 21, 'dilation_fact': 50, 'recorded_fact': 20, 'identity': 15}

# what is known about the named curves, independently of the catalogue: patterns as published, dilations (l1, l2 squared, linf)
_SB = 'ij,jI,ji,iJ,JI,Ji,ij,jI,ji'
DEFS = {
    'get_hilbert_curve': [('jiJ', 'ji,ij,ij,JI')],
    'get_peano_curve': [('jjiJJijj', 'ij,Ij,ij,iJ,IJ,iJ,ij,Ij,ij')],
    'get_bauman_curve': [('ijIjiiJJ', 'ij,ji,Ji~,iJ~,ij,ij,Ij~,jI~,jI~')],
    'get_scepin_bauman_curve': [('jjiJJijj', _SB)],
    'get_meurthe_curve': [('jjiJJijj', 'ji,jI,ij,Ji,JI,iJ,ji,jI,ij')],
    'get_coil_curve': [('jjiJJijj', 'ji,jI,ji,Ji,JI,Ji,ji,jI,ji')],
    'get_serpentine_curve': [('jjiJJijj', 'ij,jI,ji,iJ,JI,iJ,ji,jI,ij')],
    'get_r_curve': [('jjiiJIJi', 'ji,ji,ij,ij,ij,IJ,JI,JI,ij')],
    'get_peano5_curve': [('jjjjiJJJJijjjjiJJJJijjjj', ','.join(('%s,' * 5 % ((('ij', 'Ij') * 3)[:5] if k % 2 == 0 else (('iJ', 'IJ') * 3)[:5])).rstrip(',') for k in range(5)))],
    'get_beta_omega_curve': [('jiJ', '1iJ,1jI,1ji~,1IJ~'), ('jiJ', '1iJ,1jI,1ji~,0Ji')],
    'get_ARW_Curve': [('i(Ij)i', '3ij,1Ji~,2jI,1iJ'), ('jiJ', '3ji,2Ij~,1ij,1JI'), ('jiJ', '0ji,1jI,0Ji,1JI'), ('jiJ', '0ij,2jI,0Ji,3jI~')],
    'get_haverkort_curve_a26': [('jkJijKJ', 'Jki~,Kij~,kij,IKJ~,iKJ,kIj~,KIj,JIk')],
    'get_haverkort_curve_f': [('jkJijKJ', 'iKJ,jIK,jIk~,JkI,Jki~,jik,jiK~,kiJ~')],
    'get_tokarev_curve': [('jkJijKJ', 'jki,kij,kij,iJK,iJK,KIj,KIj,JkI')],
    'get_neptunus_curve': [('jkJijKJ', '1ijk,0jIK,1kJI,1JiK,1ijk,1jKI,1KJi,0JIk'), ('jkJiKjk', '1ijk,0jIK,1kJI,1JiK,0ijk,1KjI,1jki,0kIJ')],
    'get_luna_curve': [('jkJijKJ', '1kji,0jIK,1JIk,1iKJ,1ijk,1jKI,0JiK,1KiJ'), ('jkJiKjk', '1kji,0jIK,1JIk,1iKJ,0ijk,1KjI,0kij,1jik')],
}
# exact values where they are published, else an interval
KNOWN = {
    'get_hilbert_curve': (9, 36, 6), 'get_peano_curve': (F(32, 3), 64, 8), 'get_bauman_curve': (F(32, 3), F(289, 9), F(9, 2)),
    'get_scepin_bauman_curve': (F(32, 3), F(289, 9), F(16, 3)), 'get_meurthe_curve': (F(32, 3), F(289, 9), F(16, 3)),
    'get_coil_curve': (F(32, 3), F(400, 9), F(20, 3)), 'get_serpentine_curve': (10, F(625, 16), F(45, 8)), 'get_r_curve': (F(32, 3), F(400, 9), F(20, 3)),
    'get_peano5_curve': (F(72, 5), 144, 12), 'get_ye_curve': (None, F(408, 73) ** 2, None), 'get_beta_omega_curve': (9, 25, 5),
    'get_ARW_Curve': (12, F(260, 43) ** 2, F(27, 5)), 'get_haverkort_curve_a26': (F(896, 9), (F(227, 10) ** 2, F(229, 10) ** 2), F(112, 9)),
    'get_haverkort_curve_f': ((F(89754, 1000), F(89758, 1000)), (F(185, 10) ** 2, F(187, 10) ** 2), 14),
    'get_tokarev_curve': ((F(982, 10), F(984, 10)), F(8694, 2753) ** 2 * 69, F(896, 37)),
    'get_neptunus_curve': ((F(888, 10), 89), (F(182, 10) ** 2, F(184, 10) ** 2), F(945, 100)),
    'get_luna_curve': ((F(755, 10), F(757, 10)), (F(182, 10) ** 2, F(184, 10) ** 2), 14),
    'get_iupiter_curve': ((F(886, 10), F(888, 10)), (F(248, 10) ** 2, 900), (F(169, 10), F(171, 10))),
    'get_spring_curve': ((F(829, 10), 83), F(1533, 221) ** 2 * 6, None),
    'get_3d_l1_best_curve': ((F(89742, 1000), F(89745, 1000)), None, None),
    'get_4d_facet_gated_curve': (None, (F(619, 10) ** 2, F(619355, 10000) ** 2), None),
}
CLASS = {   # dim, div, mult of the named curves
    'get_ye_curve': (2, 5, 1), 'get_iupiter_curve': (3, 2, 5), 'get_spring_curve': (3, 2, 2), 'get_3d_l1_best_curve': (3, 2, 1),
    'get_4d_facet_gated_curve': (4, 2, 1),
}
METRICS = ('l1', 'l2_squared', 'linf')


def plan(tier, seed):
    names = gen.zoo_names(A)
    return [{'all': 1}] + [{'zoo': n} for n in sorted(set(names) | set(KNOWN))]


def declared(v):
    """(lo, up, exact) of a recorded dilation."""
    if isinstance(v, (list, tuple)):
        return F(v[0]), F(v[1]), False
    if hasattr(v, 'eq') or hasattr(v, 'lo'):
        if v.eq is not None:
            return fr(v.eq), fr(v.eq), True
        return (F(v.lo) if v.lo is not None else None), (F(v.up) if v.up is not None else None), False
    return fr(v), fr(v), True


def run_case(ctx, case):
    names = gen.zoo_names(A)
    if 'all' in case:
        infos = ctx.call('get_all_curves', A.zoo.get_all_curves)
        got = sorted(repr(rcurve(i.curve).key()) for i in infos)
        want = sorted(repr(rcurve(getattr(A.zoo, n)().curve).key()) for n in names)
        ctx.equal(got, want, 'get_all_curves does not list every entry of the catalogue once')
        ctx.seen('listed', len(infos))
        return
    name = case['zoo']
    ctx.check(name in names, 'a documented catalogue entry is missing', entry=name)
    info = ctx.call(name, getattr(A.zoo, name))
    c = info.curve
    rc = rcurve(c)
    ctx.seen('entry')
    w = dict(entry=name, curve=rc.pats)
    n = rc.div
    for p, (cubes, specs) in enumerate(rc.pats):
        ctx.check(len(set(cubes)) == len(cubes) == n ** rc.dim and all(0 <= x < n for cb in cubes for x in cb), 'a pattern does not visit every cube once', pattern=p, **w)
        ctx.check(len(specs) == len(cubes) and all(0 <= q < rc.mult for _, q in specs), 'a pattern refers to a missing pattern', pattern=p, **w)
    ctx.check(not rc.breaks(), 'a catalogue curve is not continuous', breaks=rc.breaks(), **w)
    ctx.call('check', c.check)
    if name in CLASS:
        ctx.equal((rc.dim, rc.div, rc.mult), CLASS[name], 'dimension, division and multiplicity of the named curve', **w)
    if name in DEFS:
        pub = A.Curve.parse(DEFS[name])
        rp = rcurve(pub)
        ctx.equal((rc.dim, rc.div, rc.mult), (rp.dim, rp.div, rp.mult), 'dimension, division and multiplicity of the named curve', **w)
        for p in range(rc.mult):
            same = [iso for iso in ref.iso_all(rc.dim) if ref.same_function(rc, iso, p, rp, ref.iso_id(rc.dim), p) is None]
            ctx.check(bool(same), 'the catalogue entry is not the curve it is named after', pattern=p, published=DEFS[name], **w)
            ctx.seen('identity')
            ctx.state(name, 'identity', p)
    tol, nodes = (F(1, 2000), 20000) if ctx.tier == 'quick' else (F(1, 100000), 400000)
    enc = {}

    def enclosure(m):
        if m not in enc:
            pts = ref.exact_points(rc, (0,) if rc.dim > 3 else tuple(range(rc.dim)))
            enc[m] = ref.dilation_enclosure(rc, m, tol=tol, max_nodes=nodes, pts=pts)[:2]
        return enc[m]

    for m, k in zip(METRICS, KNOWN.get(name, (None,) * 3)):
        if k is None:
            continue
        lo, up = (F(k[0]), F(k[1])) if isinstance(k, tuple) else (F(k), F(k))
        LO, UP = enclosure(m)
        ctx.check(lo <= UP and LO <= up, 'the dilation of the entry is not the published one', metric=m, published=(lo, up), LO=LO, UP=UP, **w)
        ctx.seen('dilation_fact')
        ctx.state(name, m)
    for m, v in (info.dilation or {}).items():
        lo, up, _ = declared(v)
        m2 = m
        if m == 'l2':
            m2 = 'l2_squared'
            lo, up = (x * x if x is not None else None for x in (lo, up))
        LO, UP = enclosure(m2)
        ctx.check((lo is None or lo <= UP) and (up is None or LO <= up), 'the recorded dilation is wrong', metric=m, recorded=(lo, up), LO=LO, UP=UP, **w)
        ctx.seen('recorded_fact')
        ctx.state(name, 'recorded', m)
    if info.gates is not None:
        ctx.equal([rlink(g) for g in info.gates], list(rc.gates()), 'recorded gates', **w)
        ctx.seen('recorded_fact')
    if info.depth is not None:
        ctx.equal(info.depth, max(ref.junction_classes(rc).values()), 'recorded depth', **w)
        ctx.seen('recorded_fact')
    if info.junctions_count is not None:
        ctx.equal(info.junctions_count, len(ref.junction_reps(rc)), 'recorded number of junctions', **w)
        ctx.seen('recorded_fact')
    for fd, ms in (info.moments or {}).items():
        want = sorted(ref.face_moment(rc, 0, f, fd < 0)[0] for f in ref.faces(rc.dim, abs(fd)))
        ctx.equal(sorted(fr(t) for t in ms), want, 'recorded moments', face_dim=fd, **w)
        ctx.seen('recorded_fact')
    ctx.sample({'entry': name, 'gates': [str(g) for g in rc.gates()], 'dilation': {m: [float(x) for x in v] for m, v in enc.items()}})
