"""Text forms against an independent printer/reader, and round trips."""
from fractions import Fraction as F
import itertools
import re
from vlib import ref, gen
from vlib.bridge import A, iso_of, bm_of, rspec, spec_of, rpatterns, rcurve, curve_of, pt, rpt, link, rlink, fr

PROPERTY = 'C03'
RULE = ('objects are generated, written in the documented notation by an independent printer, parsed by the package and '
        'compared by content; package output is parsed back; distinct = texts')
MIN_EVENTS = {'base_map': 2000, 'spec': 500, 'proto': 60, 'curve': 40, 'point': 500, 'facet': 500}
L = 'ijklmn'


def plan(tier, seed):
    cases = [{'kind': 'maps', 'dim': d, 'i': 0} for d in (1, 2, 3, 4)]
    k = 4 if tier == 'quick' else 80
    cases += [{'kind': 'maps', 'dim': d, 'i': i} for d in (5, 6) for i in range(2 * k)]
    cases += [{'kind': 'specs', 'i': i} for i in range(3 * k)]
    names = ['d1n2', 'd1n3', 'hil', 's3', 'g3', 'm4', 'g5', 'b4', 'b5', 'c2', 'c5', 'bo', 'A', 'B', 'C', 'E', 'nept', 'spring', 'iup', 'h4']
    cases += [{'kind': 'curve', 'cfg': n, 'i': i} for n in names for i in range(2 * k)]
    cases += [{'kind': 'proto', 'i': i} for i in range(8 * k)]
    cases += [{'kind': 'points', 'i': i} for i in range(4 * k)]
    cases += [{'kind': 'zoo', 'i': 0}]
    return cases


def chain(cubes):
    out = ''
    for a, b in zip(cubes, cubes[1:]):
        g = ''
        for j, (x, y) in enumerate(zip(a, b)):
            if y - x == 1:
                g += L[j]
            elif y - x == -1:
                g += L[j].upper()
        out += g if len(g) == 1 else '(' + g + ')'
    return out


def read_spec(text):
    """Independent reader of the documented spec notation."""
    m = re.fullmatch(r'(\d*)([a-nA-N]+)(~?)', text.strip())
    img = m.group(2)
    coords = [None] * len(img)
    for k, l in enumerate(img):
        coords[L.index(l.lower())] = (k, l.isupper())
    return (tuple(coords), bool(m.group(3))), int(m.group(1) or 0)


def read_chain(text, dim):
    """Independent reader of chain codes (grid positions normalised to start at the lattice origin)."""
    cubes = [(0,) * dim]
    for g in re.findall(r'\(([a-nA-N]+)\)|([a-nA-N])', text):
        d = [0] * dim
        for l in g[0] or g[1]:
            d[L.index(l.lower())] = -1 if l.isupper() else 1
        cubes.append(tuple(a + b for a, b in zip(cubes[-1], d)))
    lo = [min(c[j] for c in cubes) for j in range(dim)]
    return tuple(tuple(a - b for a, b in zip(c, lo)) for c in cubes)


def run_case(ctx, case):
    rng = ctx.rng
    kind = case['kind']
    if kind == 'maps':
        dim = case['dim']
        isos = list(ref.iso_all(dim)) if dim <= 4 else [gen.random_iso(dim, rng) for _ in range(600)]
        for iso in isos:
            text = ref.iso_str(iso)
            ctx.equal(iso_of(ctx.call('BaseMap.parse', A.BaseMap.parse, text)), iso, 'base map notation', text=text)
            s = ctx.call('str(base map)', str, bm_of(iso))
            ctx.equal(s, text, 'printed base map')
            pad = rng.choice([' %s', '%s ', ' %s\n'])
            ctx.equal(iso_of(ctx.call('BaseMap.parse', A.BaseMap.parse, pad % s)), iso, 'base map with surrounding space', text=text)
            ctx.seen('base_map')
            ctx.state(text)
        ctx.sample({'text': text, 'iso': str(iso)})
    elif kind == 'specs':
        for _ in range(400):
            dim = rng.randrange(1, 7)
            iso = gen.random_iso(dim, rng)
            p = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 37, 100])
            text = '%d%s' % (p, ref.iso_str(iso))
            ctx.equal(rspec(ctx.call('Spec.parse', A.Spec.parse, text)), (iso, p), 'spec notation', text=text)
            ctx.equal(read_spec(ctx.call('str(spec)', str, spec_of(iso, p))), (iso, p), 'printed spec')
            ctx.equal(rspec(ctx.call('Spec.parse', A.Spec.parse, ref.iso_str(iso))), (iso, 0), 'spec notation without pattern number', text=text)
            ctx.seen('spec')
            ctx.state(text)
    elif kind == 'curve':
        rc = gen.random_curve(case['cfg'], rng)
        if rc is None:
            ctx.notes['no_curve'] += 1
            return
        rc = gen.disguise(rc, rng)
        bases = []
        for cubes, specs in rc.pats:
            texts = ['%d%s' % (p, ref.iso_str(i)) if (p or rng.random() < 0.5) else ref.iso_str(i) for i, p in specs]
            bases.append((chain(cubes), ','.join(texts) if rng.random() < 0.5 else texts))
        c = ctx.call('Curve.parse', A.Curve.parse, bases)
        ctx.equal(rpatterns(c), rc.pats, 'parsed curve', text=bases)
        ctx.equal((c.dim, c.div, c.mult, c.genus, c.pnum), (rc.dim, rc.div, rc.mult, rc.G, 0), 'attributes of the parsed curve', text=bases)
        direct = curve_of(rc)
        ctx.check(c == direct, 'parsed curve differs from the curve built directly', text=bases)
        # print, reparse
        for pat, (cubes, specs) in zip(direct.patterns, rc.pats):
            text = ctx.call('str(pattern)', str, pat)
            parts = text.split(' | ')
            ctx.check(len(parts) == 2, 'printed pattern has two parts', text=text)
            p2 = ctx.call('Pattern.parse', A.Pattern.parse, parts[0], parts[1])
            ctx.check(p2 == pat, 'pattern does not round-trip', text=text)
            ctx.equal(read_chain(parts[0], rc.dim), cubes, 'prototype part of the printed pattern', text=text)
            ctx.equal(tuple(read_spec(t) for t in parts[1].split(',')), specs, 'specs part of the printed pattern', text=text)
            ctx.seen('pattern')
        lines = ctx.call('str(curve)', str, direct).split('\n')
        ctx.equal(len(lines), rc.mult, 'printed curve has one line per pattern')
        again = []
        for k, line in enumerate(lines):
            ctx.check(line.startswith('@%d: ' % k), 'line of the printed curve', line=line)
            again.append(tuple(line.split(': ', 1)[1].split(' | ')))
        ctx.check(ctx.call('Curve.parse', A.Curve.parse, again) == direct, 'curve does not round-trip', text=lines)
        ctx.seen('curve')
        ctx.state(bases[0][0], case['cfg'], str(bases))
        ctx.sample({'curve': lines})
    elif kind == 'proto':
        dim = rng.choice([1, 2, 2, 2, 3, 3, 4, 5, 6])
        div = {1: rng.choice([2, 3, 4, 5, 6, 11, 25]), 2: rng.randrange(2, 6), 3: rng.choice([2, 3]), 4: 2, 5: 2, 6: 2}[dim]
        for _ in range(6):
            cubes = rand_hamilton(dim, div, rng)
            if cubes is None:
                continue
            text = chain(cubes)
            pr = ctx.call('Proto.parse', A.Proto.parse, text)
            ctx.equal((pr.dim, pr.div, tuple(tuple(c) for c in pr)), (dim, div, tuple(cubes)), 'parsed chain code', text=text)
            direct = A.Proto(dim, div, cubes)
            ctx.check(pr == direct, 'parsed prototype differs', text=text)
            ctx.equal(read_chain(ctx.call('str(proto)', str, direct), dim), tuple(cubes), 'printed prototype')
            iso = gen.random_iso(dim, rng)
            img = ctx.call('base map * proto', lambda: bm_of(iso) * direct)
            wc = [ref.iso_cube(iso, div, c) for c in (reversed(cubes) if iso[1] else cubes)]
            ctx.equal([tuple(c) for c in img], wc, 'image of a prototype', iso=iso)
            ctx.equal(read_chain(str(img), dim), tuple(wc), 'printed image of a prototype')
            ctx.check(A.Proto.parse(str(img)) == img, 'image does not round-trip')
            ctx.seen('proto')
            ctx.state(text)
    elif kind == 'points':
        for _ in range(200):
            dim = rng.randrange(1, 6)
            def P():
                return tuple(F(rng.randrange(-8, 15), rng.choice([1, 1, 2, 3, 7, 12])) for _ in range(dim))
            a, b = P(), P()
            ta = '(' + ','.join(str(c) for c in a) + ')'
            ctx.equal(rpt(ctx.call('Point.parse', A.Point.parse, ta)), a, 'parsed point', text=ta)
            sp = rng.choice([' %s', '%s ', '%s'])
            ctx.equal(rpt(ctx.call('Point.parse', A.Point.parse, sp % ta)), a, 'parsed point', text=ta)
            ctx.equal(tuple(F(x) for x in ctx.call('str(point)', str, pt(a)).strip('()').split(',')), a, 'printed point')
            ctx.check(A.Point.parse(str(pt(a))) == pt(a), 'point does not round-trip')
            tl = ta + rng.choice(['->', ' -> ']) + '(' + ','.join(str(c) for c in b) + ')'
            ctx.equal(rlink(ctx.call('parse_gates', A.Link.parse_gates, tl)), (a, b), 'parsed gates', text=tl)
            l = link((a, b))
            ctx.check(A.Link.parse_gates(ctx.call('str(link)', str, l)) == l, 'gates do not round-trip', text=str(l))
            ctx.seen('point')
            ctx.state(tl)
            # a piece of a facet prints its coordinate, its value and its nested cubes (a gate pair of pieces: both sides in order)
            fd, div = rng.randrange(2, 6), rng.randrange(2, 6)
            def piece():
                cubes = tuple(tuple(rng.randrange(div) for _ in range(fd - 1)) for _ in range(rng.randrange(0, 4)))
                return (rng.randrange(fd), rng.randrange(2)), cubes
            (f1, c1), (f2, c2) = piece(), piece()
            s1, s2 = (A.FacetDivSubset(dim=fd, div=div, facet=f, cubes=c) for f, c in ((f1, c1), (f2, c2)))
            n1, n2 = ([*f, *(x for c in cs for x in c)] for f, cs in ((f1, c1), (f2, c2)))
            ctx.equal([int(x) for x in re.findall(r'\d+', ctx.call('str(facet piece)', str, s1))], n1, 'printed piece of a facet')
            ctx.equal([int(x) for x in re.findall(r'\d+', ctx.call('str(link)', str, A.Link(s1, s2)))], n1 + n2, 'printed facet link')
            ctx.seen('facet')
    else:
        for name in gen.zoo_names(A):
            info = ctx.call(name, getattr(A.zoo, name))
            c = info.curve
            rc = rcurve(c)
            ctx.check(rc.is_continuous(), 'zoo curve is not continuous', name=name)
            again = [tuple(line.split(': ', 1)[1].split(' | ')) for line in str(c).split('\n')]
            ctx.check(A.Curve.parse(again) == c, 'zoo curve does not round-trip', name=name)
            if info.gates:
                ctx.equal([rlink(g) for g in info.gates], list(rc.gates()), 'documented gates of a zoo curve', name=name)
            ctx.seen('zoo')
            ctx.state(name)
        got = [str(i.curve) for i in ctx.call('get_all_curves', A.zoo.get_all_curves)]
        ctx.check(len(got) > 0, 'zoo is empty')


def rand_hamilton(dim, div, rng, tries=30, straight=0.4):
    """Random Hamiltonian sequence of cubes with king moves (Warnsdorff-like randomisation)."""
    total = div ** dim
    dl = [d for d in itertools.product((-1, 0, 1), repeat=dim) if any(d)]
    if rng.random() < straight:
        dl = [d for d in dl if sum(map(abs, d)) == 1]
    for _ in range(tries):
        cur = tuple(rng.randrange(div) for _ in range(dim))
        path, used = [cur], {cur}
        while len(path) < total:
            opts = [n for n in (tuple(a + b for a, b in zip(cur, d)) for d in dl) if all(0 <= v < div for v in n) and n not in used]
            if not opts:
                break
            def free(n):
                return sum(1 for d in dl if (m := tuple(a + b for a, b in zip(n, d))) not in used and all(0 <= v < div for v in m))
            opts.sort(key=lambda n: (free(n) + rng.random() * 2))
            cur = opts[0]
            path.append(cur)
            used.add(cur)
        if len(path) == total:
            return path
    return None
