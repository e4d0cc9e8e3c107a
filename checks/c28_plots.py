"""Lines that the plotting function puts on the axes, against the cells of the curve."""
import contextlib
import io
import os
import re
import shutil
import tempfile
from vlib import ref, gen
from vlib.bridge import A, curve_of

PROPERTY = 'C28'
RULE = ('2D and 3D curves of multiplicity 1..5 (random, zoo, disguised), all options, subdivision 0..2; the drawn lines are read back from the '
        'axes and compared with the centers of the cells of the reference curve, and so are axis limits, grid, labels, connections and arrows; distinct = (curve, options)')
MIN_EVENTS = {'plot': 60, 'fraction_line': 500, 'prototype_line': 60, 'plot_3d': 15, 'separate': 20, 'saved': 3, 'labels': 300, 'surroundings': 60}
ASSUMPTIONS = ['lines are matched up to 1e-9']
NAMES = ['hil', 's3', 'g3', 's4', 'm4', 'b1', 'b3', 'b4', 'b5', 'b8', 'bo', 'c4', 'c5', 'A', 'B', 'E', 'Fg', 'nept', 'spring', 'iup']


def plan(tier, seed):
    n = 12 if tier == 'quick' else 60
    return [{'name': x, 'i': i} for i in range(n) for x in NAMES] + [{'name': 'zoo', 'i': i} for i in range(2 * n)]


class Line(list):
    color = visible = None


def near(a, b):
    return all(abs(x - y) < 1e-9 for x, y in zip(a, b))


def contains(line, seq, start=0):
    """Is seq a contiguous part of line?"""
    n = len(seq)
    for k in range(len(line) - n + 1):
        if all(near(p, s) for p, s in zip(line[k:k + n], seq)):
            return True
    return False


def arrow(line, seq):
    """Do the strokes after the part `seq` of the line point forward along its last step?"""
    n = len(seq)
    for k in range(len(line) - n + 1):
        if all(near(p, q) for p, q in zip(line[k:k + n], seq)):
            break
    else:
        return False
    end, prev = seq[-1], seq[-2]
    step = [a - b for a, b in zip(end, prev)]
    size = sum(v * v for v in step)
    strokes = []
    for q in line[k + n:]:
        v = [a - b for a, b in zip(q, end)]
        if sum(x * x for x in v) < 1e-18:
            continue
        if sum(x * y for x, y in zip(v, step)) >= 0:
            return False
        side = sum(x * y for x, y in zip(v, step)) / size
        strokes.append(tuple(round(x - side * y, 9) for x, y in zip(v, step)))
    # two strokes on opposite sides of the line
    return any(any(abs(x) > 1e-6 for x in a) and near(a, tuple(-x for x in b)) for a in strokes for b in strokes)


def joined(lines, a, b):
    """Is there a chain of two-point lines along the segment a-b that covers it?"""
    seg = [y - x for x, y in zip(a, b)]
    size = sum(v * v for v in seg)
    spans = []
    for l in lines:
        if len(l) > 4:
            continue
        pos = []
        for q in l:
            t = sum((x - y) * v for x, y, v in zip(q, a, seg)) / size
            if not near(q, [x + t * v for x, v in zip(a, seg)]):
                break
            pos.append(t)
        else:
            spans.append((min(pos), max(pos)))
    at = 0.0
    for lo, up in sorted(spans):
        if lo <= at + 1e-9:
            at = max(at, up)
    return at >= 1 - 1e-9


def about(ctx, rc, p, fracs, proto, mine, info, det, pro, separate, grid, w, colors):
    """What surrounds the lines: axes, grid, labels, connections, direction marks."""
    dim, div, G = rc.dim, rc.div, rc.G
    w = dict(w, pattern=p)
    for a in info:
        for lo, up in a['lim'][:dim]:
            ctx.check(lo < up and -0.1 <= lo <= 1e-9 and 1 - 1e-9 <= up <= 1.1, 'the axes do not show the unit cube in its orientation', limits=a['lim'], **w)
        for t in a['ticks'][:dim]:
            want = [j / div for j in range(1, div)] if grid else []
            inner = [v for v in t if 1e-9 < v < 1 - 1e-9] if grid else t
            ctx.check(len(inner) == len(want) and near(inner, want), 'the grid lines are not the borders of the cubes (or there are some without grid)', ticks=t, **w)
    ctx.check(all(l.visible for ls in mine for l in ls), 'an invisible line', **w)
    if separate:
        ctx.check(any(d and not q for d, q in zip(det, pro)) and any(q and not d for d, q in zip(det, pro)), 'prototype and detail lines are not separated', **w)
    for k in range(1, G):
        ctx.check(any(d and joined(ls, fracs[k - 1][-1], fracs[k][0]) for d, ls in zip(det, mine)), 'consecutive fractions are not joined', fraction=k, **w)
    ctx.check(any(arrow(l, fracs[-1]) for ls in mine for l in ls if len(l) > len(fracs[-1])), 'the direction is not marked at the end of the detail lines', **w)
    ctx.check(any(arrow(l, proto) for ls in mine for l in ls if len(l) > len(proto)), 'the direction is not marked at the end of the prototype line', **w)
    if rc.mult > 1:
        ctx.check(any('(%s)' % 'abcdefghij'[p] in a['title'] for a in info), 'the pattern is not named', titles=[a['title'] for a in info], **w)
        texts = [t for a in info for t in a['texts']]
        for k, (cube, (iso, q)) in enumerate(zip(*rc.pats[p])):
            here = [s for pos, s in texts if all(c <= v * div <= c + 1 for c, v in zip(cube, pos))]
            ctx.check(len(here) == 1, 'a fraction of a multifractal has one label', fraction=k, got=here, **w)
            bare = re.sub(r'\\[a-z]+', '', here[0])
            shown = {l.color for ls in mine for l in ls if len(l) >= len(fracs[k]) and contains(l, fracs[k])}
            for c in shown:
                ctx.check(colors.setdefault(c, q) == q, 'fractions of different patterns have one colour', fraction=k, **w)
            ctx.check(re.findall('[a-z]', bare) == ['abcdefghij'[q]] and ('overline' in here[0]) == bool(iso[1]),
                      'the label of a fraction is not its pattern and orientation in time', fraction=k, got=here[0], **w)
        ctx.seen('labels', G)
    ctx.seen('surroundings')


def run_case(ctx, case):
    rng = ctx.rng
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    import plots
    from matplotlib.colors import to_rgba
    rc = None
    if case['name'] == 'zoo':
        from vlib.bridge import rcurve
        names = [n for n in gen.zoo_names(A)]
        c = None
        for _ in range(20):
            c = getattr(A.zoo, rng.choice(names))()
            c = getattr(c, 'curve', c)
            if c.dim in (2, 3) and c.mult <= 10:
                break
        if c is None or c.dim not in (2, 3):
            return
        rc = rcurve(c)
    else:
        rc = gen.random_curve(case['name'], rng)
        if rc is None:
            ctx.notes['no curve'] += 1
            return
    if rng.random() < 0.4:
        rc = gen.disguise(rc, rng)
    dim, div, G = rc.dim, rc.div, rc.G
    sub = 0
    while sub < 2 and rng.random() < 0.5 and G ** (sub + 3) <= 1000:
        sub += 1
    separate = rng.random() < 0.5
    kw = {}
    if sub or rng.random() < 0.5:
        kw['subdivision'] = sub
    if separate or rng.random() < 0.5:
        kw['separate'] = separate
    if rng.random() < 0.5:
        kw['grid'] = rng.random() < 0.5
    scratch = None
    if rng.random() < 0.08 and rc.mult < 3:
        scratch = tempfile.mkdtemp(prefix='peano_c28_')
        kw['output_file'] = os.path.join(scratch, 'out.png')
    curve = curve_of(rc, how=rng.randrange(2))
    plt.close('all')
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            ctx.call('plot_curve(%s)' % sorted(kw), plots.plot_curve, curve, **kw)
        if scratch:
            ctx.check(os.path.exists(kw['output_file']) and os.path.getsize(kw['output_file']) > 0, 'the output file is written')
            ctx.seen('saved')
        figs = [plt.figure(n) for n in plt.get_fignums()]
        axes = [ax for f in figs for ax in f.axes]
        data, info = [], []
        for ax in axes:
            lines = []
            for l in ax.lines:
                d = l.get_data_3d() if hasattr(l, 'get_data_3d') else l.get_data()
                lines.append(Line([tuple(float(v) for v in p) for p in zip(*d)]))
                lines[-1].color = to_rgba(l.get_color())
                lines[-1].visible = l.get_visible() and l.get_linewidth() > 0 and l.get_alpha() != 0 and l.get_linestyle() not in ('None', ' ', '')
            data.append(lines)
            lim = [ax.get_xlim(), ax.get_ylim()] + ([ax.get_zlim()] if hasattr(ax, 'get_zlim') else [])
            ticks = [ax.get_xticks(), ax.get_yticks()] + ([ax.get_zticks()] if hasattr(ax, 'get_zticks') else [])
            texts = []
            for t in ax.texts:
                pos = t.get_position_3d() if hasattr(t, 'get_position_3d') else t.get_position()
                texts.append((tuple(float(v) for v in pos), t.get_text()))
            info.append({'lim': [tuple(map(float, v)) for v in lim], 'ticks': [sorted(map(float, v)) for v in ticks], 'texts': texts, 'title': ax.get_title()})
    finally:
        plt.close('all')
        if scratch:
            shutil.rmtree(scratch, ignore_errors=True)
    w = dict(curve=str(curve), options={k: v for k, v in kw.items() if k != 'output_file'})
    per = 2 if separate else 1
    ctx.equal(len(axes), rc.mult * per, 'each pattern has its own axes', **w)
    level = sub + 2
    N = div ** level
    chunk = G ** (level - 1)
    want = []
    for p in range(rc.mult):
        cells = [tuple((v + 0.5) / N for v in c) for c, _, _ in rc.cells(p, level)]
        fracs = [cells[k * chunk:(k + 1) * chunk] for k in range(G)]
        proto = [tuple((v + 0.5) / div for v in c) for c in rc.pats[p][0]]
        want.append((fracs, proto))

    def shows_detail(lines, fracs):
        return all(any(contains(l, f) for l in lines if len(l) >= len(f)) for f in fracs)

    def shows_proto(lines, proto):
        return any(contains(l, proto) for l in lines if len(l) >= len(proto))

    colors = {}
    for p, (fracs, proto) in enumerate(want):
        mine = data[p * per:(p + 1) * per]
        det = [shows_detail(ls, fracs) for ls in mine]
        pro = [shows_proto(ls, proto) for ls in mine]
        ctx.check(any(det), 'the detail lines of a pattern do not visit the centers of the sub-cubes in curve order', pattern=p, **w)
        ctx.check(any(pro), 'the prototype line of a pattern does not visit the cube centers in order', pattern=p, **w)
        # nothing else is drawn at detail scale: lines as long as a fraction belong to the pattern
        n = sum(1 for ls in mine for l in ls if len(l) >= chunk)
        ctx.check(n <= G + 1, 'more lines than fractions are drawn for a pattern', pattern=p, lines=n, **w)
        for ls in mine:
            for l in ls:
                ctx.check(all(-0.2 <= v <= 1.2 for pnt in l for v in pnt), 'a line leaves the unit cube', pattern=p, **w)
        about(ctx, rc, p, fracs, proto, mine, info[p * per:(p + 1) * per], det, pro, separate, kw.get('grid', True), w, colors)
        ctx.seen('fraction_line', G)
        ctx.seen('prototype_line')
    ctx.seen('plot')
    if dim == 3:
        ctx.seen('plot_3d')
    if separate:
        ctx.seen('separate')
    ctx.state(str(curve), sorted((k, v) for k, v in kw.items() if k != 'output_file'))
    ctx.sample({'curve': str(curve)[:200], 'options': w['options'], 'axes': len(axes)})
