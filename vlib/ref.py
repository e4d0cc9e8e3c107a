"""
Reference model ("the oracle side").

Nothing in this module imports the repository: it is an independent, slow and
literal implementation of the mathematics that the README / docstrings of peano
describe.  Objects of the repository are read only through their documented
public attributes (see vlib/bridge.py).

Isometry ("iso"):  (coords, trev);  coords[j] = (k, b)  means
    y_j = 1 - x_k if b else x_k          (space)
    t   -> 1 - t if trev else t          (time)
An iso acts on a curve f as  (B f)(t) = B_space( f( B_time(t) ) ).

Spec: (iso, p).   Pattern: (cubes, specs).   RefCurve: tuple of patterns.
"""
from fractions import Fraction as F
import itertools
import functools


# ---------------------------------------------------------------- isometries

def iso_id(dim, trev=False):
    return (tuple((k, False) for k in range(dim)), bool(trev))


def iso_all(dim, trevs=(False, True)):
    for perm in itertools.permutations(range(dim)):
        for flips in itertools.product((False, True), repeat=dim):
            for tr in trevs:
                yield (tuple(zip(perm, flips)), tr)


def iso_pt(iso, x, mx=1):
    return tuple((mx - x[k]) if b else x[k] for k, b in iso[0])


def iso_vec(iso, v):
    return tuple(-v[k] if b else v[k] for k, b in iso[0])


def iso_cube(iso, n, c):
    """Image of the lattice cell [c, c+1]^d of [0,n]^d; computed from its two extreme corners."""
    lo = iso_pt(iso, c, n)
    hi = iso_pt(iso, tuple(x + 1 for x in c), n)
    return tuple(min(a, b) for a, b in zip(lo, hi))


def iso_time(iso, t, mt=1):
    return mt - t if iso[1] else t


@functools.lru_cache(maxsize=None)
def iso_mul(A, B):
    """A after B, found by pushing formal coordinates through the two actions."""
    dim = len(A[0])
    # symbol (k, flipped)
    y = tuple((k, b) for k, b in B[0])
    z = []
    for k, b in A[0]:
        kk, bb = y[k]
        z.append((kk, bb != b))
    assert len(z) == dim
    return (tuple(z), A[1] != B[1])


@functools.lru_cache(maxsize=None)
def iso_inv(A):
    dim = len(A[0])
    out = [None] * dim
    for j, (k, b) in enumerate(A[0]):
        out[k] = (j, b)
    return (tuple(out), A[1])


def iso_pow(A, n):
    if n < 0:
        A, n = iso_inv(A), -n
    r = iso_id(len(A[0]))
    for _ in range(n):
        r = iso_mul(r, A)
    return r


def iso_order_space(A):
    S = (A[0], False)
    r, n, e = S, 1, iso_id(len(A[0]))
    while r != e:
        r = iso_mul(r, S)
        n += 1
    return n


LETTERS = 'ijklmn'


def iso_str(iso):
    """Images of e_1, e_2, ...: the documented notation."""
    dim = len(iso[0])
    # e_k is mapped by the linear part; find its image by applying the vector action
    s = ''
    for k in range(dim):
        e = [0] * dim
        e[k] = 1
        img = iso_vec(iso, e)
        for j, v in enumerate(img):
            if v == 1:
                s += LETTERS[j]
            elif v == -1:
                s += LETTERS[j].upper()
    return s + ('~' if iso[1] else '')


# ---------------------------------------------------------------- curves

class RefCurve:
    """Fully specified multifractal.  pats: tuple of (cubes, specs); specs: ((iso, p), ...)."""

    def __init__(self, dim, div, pats):
        self.dim = dim
        self.div = div
        self.G = div ** dim
        self.pats = tuple((tuple(tuple(c) for c in cubes), tuple(specs)) for cubes, specs in pats)
        self.mult = len(self.pats)

    def key(self):
        return (self.dim, self.div, self.pats)

    # --- children of an oriented fraction iso*f_p : ordered list of (cell, iso, p)
    def children(self, iso, p):
        return _children(self, iso, p)

    def cells(self, p, depth, iso=None):
        """Ordered cells of level `depth` of iso*f_p: list of (cube in N^depth grid, iso, p)."""
        if iso is None:
            iso = iso_id(self.dim)
        cur = [((0,) * self.dim, iso, p)]
        N = self.div
        for _ in range(depth):
            nxt = []
            for cube, i, q in cur:
                for c, ci, cq in self.children(i, q):
                    nxt.append((tuple(a * N + b for a, b in zip(cube, c)), ci, cq))
            cur = nxt
        return cur

    def descend(self, p, cnums, iso=None):
        """(cube, iso, p) of the nested fraction cnums."""
        cube = (0,) * self.dim
        if iso is None:
            iso = iso_id(self.dim)
        for c in cnums:
            ch, iso2, p2 = self.children(iso, p)[c]
            cube = tuple(a * self.div + b for a, b in zip(cube, ch))
            iso, p = iso2, p2
        return cube, iso, p

    # --- exact evaluation
    def eval(self, p, t, side=1):
        """
        f_p(t) for rational t in [0,1].  side=+1: use the fraction starting at t, side=-1: the one ending at t
        (they agree for continuous curves).
        """
        t = F(t)
        G, N, d = self.G, self.div, self.dim
        # f_p(t, side) = (cube + B_space(f_q(B_time(t'), side'))) / N
        seen = {}
        chain = []
        state = (p, t, side)
        while state not in seen:
            seen[state] = len(chain)
            q, s, sd = state
            u = s * G
            c = u.numerator // u.denominator
            if sd > 0:
                if c == G:
                    c = G - 1
            else:
                if c == u and c > 0:
                    c -= 1
            r = u - c
            cubes, specs = self.pats[q]
            iso, q2 = specs[c]
            chain.append((cubes[c], (iso[0], False)))
            if iso[1]:
                state = (q2, 1 - r, -sd)
            else:
                state = (q2, r, sd)
        i0 = seen[state]
        # solve fixed point of the cycle: y = a + N^-m M y, affine over [0,1]^d
        cyc = chain[i0:]
        # compose affine map of the cycle: T(y) = T1(T2(...Tm(y)))
        y = _fix_point(cyc, N, d)
        for cube, iso in reversed(chain[:i0]):
            z = iso_pt(iso, y)
            y = tuple((F(c) + zz) / N for c, zz in zip(cube, z))
        return y

    def entrance(self, p):
        return self.eval(p, F(0), 1)

    def exit(self, p):
        return self.eval(p, F(1), -1)

    def gate(self, p):
        return (self.entrance(p), self.exit(p))

    def gates(self):
        return tuple(self.gate(p) for p in range(self.mult))

    def frac_links(self, p):
        """Per first-level fraction: relative (entrance, exit)."""
        gates = self.gates()
        out = []
        for iso, q in self.pats[p][1]:
            e, x = (iso_pt(iso, pt) for pt in gates[q])
            if iso[1]:
                e, x = x, e
            out.append((e, x))
        return out

    def breaks(self):
        """List of (p, c) where exit of fraction c differs from entrance of fraction c+1."""
        out = []
        for p in range(self.mult):
            links = self.frac_links(p)
            cubes = self.pats[p][0]
            for c in range(len(cubes) - 1):
                a = tuple(x + y for x, y in zip(cubes[c], links[c][1]))
                b = tuple(x + y for x, y in zip(cubes[c + 1], links[c + 1][0]))
                if a != b:
                    out.append((p, c))
        return out

    def is_continuous(self):
        return not self.breaks()

    # --- transformations
    def transform(self, iso):
        """The multifractal (iso f_0, iso f_1, ...), written in its own terms."""
        inv = iso_inv(iso)
        pats = []
        for p in range(self.mult):
            ch = self.children(iso, p)
            # fraction = ci * f_q = (ci * inv) * (iso * f_q)
            pats.append((tuple(c for c, _, _ in ch), tuple((iso_mul(ci, inv), q) for _, ci, q in ch)))
        return RefCurve(self.dim, self.div, pats)

    def subdivision(self, k):
        """k extra refinements (div -> div^(k+1))."""
        pats = []
        for p in range(self.mult):
            cells = self.cells(p, k + 1)
            pats.append((tuple(c for c, _, _ in cells), tuple((i, q) for _, i, q in cells)))
        return RefCurve(self.dim, self.div ** (k + 1), pats)

    # --- face touching
    def face_path(self, p, face, last, depth):
        """cnums of the first/last fraction chain that touches the face, down to depth."""
        iso = iso_id(self.dim)
        out = []
        for _ in range(depth):
            ch = self.children(iso, p)
            rng = range(self.G - 1, -1, -1) if last else range(self.G)
            for c in rng:
                cube = ch[c][0]
                if all(e is None or cube[j] == (self.div - 1 if e == 1 else 0) for j, e in enumerate(face)):
                    out.append(c)
                    iso, p = ch[c][1], ch[c][2]
                    break
            else:
                return None
        return out


def _children(curve, iso, p):
    cache = curve.__dict__.setdefault('_ch', {})
    key = (iso, p)
    r = cache.get(key)
    if r is None:
        cubes, specs = curve.pats[p]
        idx = range(len(cubes) - 1, -1, -1) if iso[1] else range(len(cubes))
        r = [(iso_cube(iso, curve.div, cubes[c]), iso_mul(iso, specs[c][0]), specs[c][1]) for c in idx]
        cache[key] = r
    return r


def _fix_point(cyc, N, d):
    """Fixed point of T = T1 o T2 o ... o Tm,  Ti(y) = (cube_i + iso_i(y)) / N."""
    # T(y) = a + N^-m * L(y),  L linear signed permutation
    m = len(cyc)

    def T(y):
        for cube, iso in reversed(cyc):
            z = iso_pt(iso, y)
            y = tuple((F(c) + zz) / N for c, zz in zip(cube, z))
        return y
    comp = iso_id(d)
    for _, iso in cyc:
        comp = iso_mul(comp, iso)
    r = iso_order_space(comp)
    # T^r(y) = b + N^(-mr) y
    y0 = (F(0),) * d
    b = y0
    for _ in range(r):
        b = T(b)
    q = F(1, N ** (m * r))
    return tuple(x / (1 - q) for x in b)


# ---------------------------------------------------------------- junctions

def pair_norm(i1, p1, i2, p2, dx):
    """
    Oriented pair of fractions (first i1*f_p1, second i2*f_p2 shifted by dx, first is earlier),
    up to a common isometry of space: normalise the space part of i1 to the identity.
    """
    g = iso_inv((i1[0], False))
    return (iso_mul(g, i1), p1, iso_mul(g, i2), p2, iso_vec(g, dx))


def pair_rev(i1, p1, i2, p2, dx):
    """The same pair with time reversed."""
    d = len(i1[0])
    rev = iso_id(d, True)
    return (iso_mul(rev, i2), p2, iso_mul(rev, i1), p1, tuple(-x for x in dx))


def pair_class(i1, p1, i2, p2, dx):
    """Canonical name of the geometric pair (common space isometry and time reversal factored out)."""
    return min(pair_norm(i1, p1, i2, p2, dx), pair_norm(*pair_rev(i1, p1, i2, p2, dx)))


def base_pairs(curve):
    """All oriented pairs of consecutive first-level fractions, for all patterns."""
    out = []
    for p in range(curve.mult):
        cubes, specs = curve.pats[p]
        for c in range(len(cubes) - 1):
            dx = tuple(b - a for a, b in zip(cubes[c], cubes[c + 1]))
            out.append((specs[c][0], specs[c][1], specs[c + 1][0], specs[c + 1][1], dx))
    return out


def derive_pair(curve, i1, p1, i2, p2, dx):
    a = curve.children(i1, p1)[-1]
    b = curve.children(i2, p2)[0]
    ndx = tuple(y + d * curve.div - x for x, y, d in zip(a[0], b[0], dx))
    return (a[1], a[2], b[1], b[2], ndx)


def junction_classes(curve):
    """{pair_class: minimal subdivision depth at which consecutive fractions realise it} -- level by level."""
    level = {}
    for pr in base_pairs(curve):
        level.setdefault(pair_class(*pr), pr)
    seen = {}
    depth = 1
    while level:
        new = {}
        for k, pr in level.items():
            if k not in seen:
                seen[k] = depth
                new[k] = pr
        nxt = {}
        for pr in new.values():
            d = derive_pair(curve, *pr)
            nxt.setdefault(pair_class(*d), d)
        level = nxt
        depth += 1
    return seen


def junction_reps(curve):
    """One oriented representative of every junction class."""
    out = {}
    todo = []
    for pr in base_pairs(curve):
        todo.append(pr)
    while todo:
        pr = todo.pop()
        k = pair_class(*pr)
        if k in out:
            continue
        out[k] = pr
        todo.append(derive_pair(curve, *pr))
    return out


# ---------------------------------------------------------------- ratios and dilation

def norm_pow(metric, dim, dx):
    """(numerator, power of dt) of the documented ratio."""
    a = [abs(x) for x in dx]
    if metric == 'l1':
        return sum(a) ** dim, 1
    if metric == 'linf':
        return max(a) ** dim, 1
    if metric == 'l2':
        assert dim % 2 == 0
        return sum(x * x for x in a) ** (dim // 2), 1
    if metric == 'l2_squared':
        return sum(x * x for x in a) ** dim, 2
    if metric == 'mix':     # a norm of the user's own, invariant under isometries and monotone
        return (sum(a) + max(a)) ** dim, 1
    raise KeyError(metric)


def ratio(metric, dim, dx, dt):
    n, k = norm_pow(metric, dim, dx)
    return F(n) / F(dt) ** k


def dilation_enclosure(curve, metric, tol=F(1, 50), max_nodes=40000, stop_above=None, pts=None):
    """
    Rigorous enclosure [LO, UP] of the dilation of the multifractal (all patterns together, which is what
    the estimator works with), by an independent branch and bound over pairs of fractions.

    Every pair (s,t) lies, at the finest level where the two fractions still coincide or are consecutive,
    in non-consecutive children of a single fraction or of a consecutive pair; so the sup is the max over
    those configurations.  Floats are never used for decisions: integers only, ratios compared by Fractions.

    pts: {p: [(x, t), ...]} exact points of the curve f_p, used to sharpen the lower bound (see exact_points).

    Returns (LO, UP, nodes).  If the node budget ends, the enclosure is still valid, only wider.
    """
    import heapq
    d, N, G = curve.dim, curve.div, curve.G

    def bounds(a, b, dx, dt, la, lb):
        # a: (cube, tindex) at level la ; b at level lb (relative to own frame), frame of b shifted by dx, dt
        L = max(la, lb)
        sa, sb = N ** (L - la), N ** (L - lb)
        ta, tb = G ** (L - la), G ** (L - lb)
        NL, GL = N ** L, G ** L
        mdx = []
        for x, y, s in zip(a[0], b[0], dx):
            xa = x * sa
            yb = y * sb + s * NL
            mdx.append(max(abs(yb + sb - xa), abs(xa + sa - yb)))
        t_a = a[1] * ta
        t_b = b[1] * tb + dt * GL
        n, k = norm_pow(metric, d, mdx)
        return F(n, (t_b + tb - t_a) ** k), F(n, (t_b - t_a - ta) ** k)

    placed = {}

    def oriented(iso, p):
        r = placed.get((iso, p))
        if r is None:
            r = placed[iso, p] = [(iso_pt(iso, x), iso_time(iso, t), [float(c) for c in iso_pt(iso, x)], float(iso_time(iso, t)))
                                  for x, t in pts[p]]
        return r

    def point_bound(a, ia, pa, la, b, ib, pb, lb, dx, dt):
        # exact ratio of the best pair of given points of the two fractions; floats only choose the candidate
        sa, sb, ta, tb = F(1, N ** la), F(1, N ** lb), F(1, G ** la), F(1, G ** lb)
        fsa, fsb, fta, ftb = float(sa), float(sb), float(ta), float(tb)
        best, arg = -1.0, None
        A_ = [([(c + u) * fsa for c, u in zip(a[0], fx)], (a[1] + ft) * fta, x, t) for x, t, fx, ft in oriented(ia, pa)]
        B_ = [([(c + u) * fsb + s for c, u, s in zip(b[0], fx, dx)], (b[1] + ft) * ftb + dt, x, t) for x, t, fx, ft in oriented(ib, pb)]
        for fx1, ft1, x1, t1 in A_:
            for fx2, ft2, x2, t2 in B_:
                w = ft2 - ft1
                if w < 1e-12:
                    continue
                n, k = norm_pow(metric, d, [u - v for u, v in zip(fx1, fx2)])
                r = n / w ** k
                if r > best:
                    best, arg = r, (x1, t1, x2, t2)
        if arg is None:
            return F(0)
        x1, t1, x2, t2 = arg
        X1 = [(c + u) * sa for c, u in zip(a[0], x1)]
        X2 = [(c + u) * sb + s for c, u, s in zip(b[0], x2, dx)]
        return ratio(metric, d, [u - v for u, v in zip(X1, X2)], (b[1] + t2) * tb + dt - (a[1] + t1) * ta)

    heap = []
    LO = F(0)
    cnt = 0
    nodes = 0

    def push(a, ia, pa, la, b, ib, pb, lb, dx, dt):
        nonlocal LO, cnt, nodes
        lo, up = bounds(a, b, dx, dt, la, lb)
        nodes += 1
        if lo > LO:
            LO = lo
        if up > LO:
            if pts is not None:
                v = point_bound(a, ia, pa, la, b, ib, pb, lb, dx, dt)
                if v > LO:
                    LO = v
            cnt += 1
            heapq.heappush(heap, (-up, cnt, a, ia, pa, la, b, ib, pb, lb, dx, dt))

    zero = (0,) * d
    e = iso_id(d)
    for p in range(curve.mult):
        ch = curve.children(e, p)
        for i in range(G):
            for j in range(i + 2, G):
                push((ch[i][0], i), ch[i][1], ch[i][2], 1, (ch[j][0], j), ch[j][1], ch[j][2], 1, zero, 0)
    for (i1, p1, i2, p2, dx) in junction_reps(curve).values():
        c1, c2 = curve.children(i1, p1), curve.children(i2, p2)
        for i in range(G):
            for j in range(G):
                if (i, j) == (G - 1, 0):
                    continue
                push((c1[i][0], i), c1[i][1], c1[i][2], 1, (c2[j][0], j), c2[j][1], c2[j][2], 1, dx, 1)

    UP = None
    while heap:
        top = heap[0]
        UP = -top[0]
        if UP <= LO:
            UP = LO
            break
        if UP <= LO * (1 + tol):
            break
        if nodes > max_nodes:
            break
        if stop_above is not None and LO > stop_above:
            break
        _, _, a, ia, pa, la, b, ib, pb, lb, dx, dt = heapq.heappop(heap)
        if la <= lb:
            for c, (cu, ci, cp) in enumerate(curve.children(ia, pa)):
                na = (tuple(x * N + y for x, y in zip(a[0], cu)), a[1] * G + c)
                push(na, ci, cp, la + 1, b, ib, pb, lb, dx, dt)
        else:
            for c, (cu, ci, cp) in enumerate(curve.children(ib, pb)):
                nb = (tuple(x * N + y for x, y in zip(b[0], cu)), b[1] * G + c)
                push(a, ia, pa, la, nb, ci, cp, lb + 1, dx, dt)
    else:
        UP = LO
    return LO, max(UP, LO), nodes


def exact_points(curve, face_dims=(0,)):
    """{p: [(x, t)]}: entrance, exit and first/last points on the faces of given dimensions (continuous curves)."""
    out = {}
    for p in range(curve.mult):
        s = {(curve.entrance(p), F(0)), (curve.exit(p), F(1))}
        for fd in face_dims:
            for face in faces(curve.dim, fd):
                for last in (False, True):
                    t, x = face_moment(curve, p, face, last)
                    s.add((x, t))
        out[p] = sorted(s)
    return out


def faces(dim, fdim):
    for free in itertools.combinations(range(dim), fdim):
        for vals in itertools.product((0, 1), repeat=dim - fdim):
            it = iter(vals)
            yield tuple(None if j in free else next(it) for j in range(dim))


def sampled_dilation(curve, metric, p, times):
    """Exact lower bound of the dilation of pattern p from exact evaluation at given times."""
    pts = sorted(set(times))
    vals = [(t, curve.eval(p, t)) for t in pts]
    best = F(0)
    arg = None
    for i in range(len(vals)):
        for j in range(i + 1, len(vals)):
            t1, x1 = vals[i]
            t2, x2 = vals[j]
            r = ratio(metric, curve.dim, [a - b for a, b in zip(x1, x2)], t2 - t1)
            if r > best:
                best, arg = r, (t1, t2)
    return best, arg


# ---------------------------------------------------------------- gates / paths

def link_map(iso, link):
    e, x = iso_pt(iso, link[0]), iso_pt(iso, link[1])
    return (x, e) if iso[1] else (e, x)


def link_std(link):
    dim = len(link[0])
    return min(link_map(i, link) for i in iso_all(dim))


def point_std(pt):
    return min(iso_pt(i, pt) for i in iso_all(len(pt), (False,)))


def link_orbit(links):
    """All oriented images of given links (with reversals)."""
    out = set()
    for l in links:
        dim = len(l[0])
        for iso in iso_all(dim):
            out.add(link_map(iso, l))
    return out


def cube_deltas(dim, max_cdist=None):
    for delta in itertools.product((-1, 0, 1), repeat=dim):
        if any(delta) and (max_cdist is None or sum(map(abs, delta)) <= max_cdist):
            yield delta


class TooMany(Exception):
    pass


def enum_paths(dim, div, links, glink, max_cdist=None, limit=20000, node_limit=2000000, rng=None):
    """
    All pointed prototypes: sequences [(cube, link)], link in the orbit of `links`, each cube once, exit of
    each fraction = entrance of the next, entrance of the first = glink entrance, exit of the last = glink exit.
    Plain depth-first search over global points; raises TooMany if the limits are hit.
    """
    orbit = link_orbit(links)
    by_entr = {}
    for e, x in sorted(orbit):
        by_entr.setdefault(e, []).append(x)
    total = div ** dim
    gin = tuple(F(c) * div for c in glink[0])
    gout = tuple(F(c) * div for c in glink[1])
    res = []
    nodes = 0

    def cubes_at(pt):
        rngs = []
        for c in pt:
            fl = c.numerator // c.denominator
            r = [fl] if c.denominator != 1 else [fl - 1, fl]
            rngs.append([v for v in r if 0 <= v < div])
        return itertools.product(*rngs)

    path = []
    used = set()

    def rec(pt, prev_cube):
        nonlocal nodes
        nodes += 1
        if nodes > node_limit:
            raise TooMany
        if len(path) == total:
            if pt == gout:
                res.append(tuple(path))
                if len(res) > limit:
                    raise TooMany
            return
        cand = list(cubes_at(pt))
        if rng is not None:
            rng.shuffle(cand)
        for cube in cand:
            if cube in used:
                continue
            if prev_cube is not None and max_cdist is not None:
                if sum(abs(a - b) for a, b in zip(cube, prev_cube)) > max_cdist:
                    continue
            rel = tuple(p - c for p, c in zip(pt, cube))
            exits = by_entr.get(rel, ())
            if rng is not None:
                exits = list(exits)
                rng.shuffle(exits)
            for x in exits:
                used.add(cube)
                path.append((cube, (rel, x)))
                rec(tuple(c + v for c, v in zip(cube, x)), cube)
                path.pop()
                used.discard(cube)

    rec(gin, None)
    return res


def path_map(iso, div, path):
    """Image of a pointed prototype."""
    src = reversed(path) if iso[1] else path
    return tuple((iso_cube(iso, div, c), link_map(iso, l)) for c, l in src)


def specs_for_link(links, target):
    """All (iso, p) with iso * links[p] == target."""
    dim = len(target[0])
    out = []
    for p, l in enumerate(links):
        for iso in iso_all(dim):
            if link_map(iso, l) == target:
                out.append((iso, p))
    return out


# ---------------------------------------------------------------- exact equality of functions

def same_function(c1, iso1, p1, c2, iso2, p2):
    """
    Exact decision whether iso1*f_p1 (of c1) and iso2*g_p2 (of c2) are the same function: bisimulation of the two
    (finite) systems of oriented fractions, modulo a common isometry.  Returns None if same, else a witness
    (fraction numbers down to the first differing cube).
    """
    assert (c1.dim, c1.div) == (c2.dim, c2.div)
    seen = set()
    todo = [(iso1, p1, iso2, p2, ())]
    while todo:
        i1, q1, i2, q2, where = todo.pop()
        key = (iso_mul(iso_inv(i1), i2), q1, q2)
        if key in seen:
            continue
        seen.add(key)
        a, b = c1.children(i1, q1), c2.children(i2, q2)
        if len(a) != len(b):
            return where
        for c, (x, y) in enumerate(zip(a, b)):
            if x[0] != y[0]:
                return where + (c,)
            todo.append((x[1], x[2], y[1], y[2], where + (c,)))
    return None


def time_states(curve, p, first):
    """(pattern, index) positions whose spec decides the entrance (first) or exit of pattern p."""
    need = []
    rev, q = False, p
    seen = set()
    while (rev, q) not in seen:
        seen.add((rev, q))
        idx = 0 if first != rev else curve.G - 1
        need.append((q, idx))
        iso, q2 = curve.pats[q][1][idx]
        rev, q = (rev != iso[1]), q2
    return need


def face_moment(curve, p, face, last):
    """Exact first/last moment at a face and the point there (continuous curves)."""
    state = (iso_id(curve.dim), p)
    seen, cn, cubes = {}, [], []
    while state not in seen:
        seen[state] = len(cn)
        ch = curve.children(*state)
        for c in (range(curve.G - 1, -1, -1) if last else range(curve.G)):
            cube = ch[c][0]
            if all(e is None or cube[j] == (curve.div - 1) * e for j, e in enumerate(face)):
                break
        else:
            raise ValueError('no cube at the face')
        cn.append(c)
        cubes.append(cube)
        state = (ch[c][1], ch[c][2])
    k = seen[state]
    t = digits_value(cn[:k], cn[k:], curve.G)
    x = tuple(digits_value([c[j] for c in cubes[:k]], [c[j] for c in cubes[k:]], curve.div) for j in range(curve.dim))
    return t, x


def digits_value(start, period, base):
    """0.s0 s1 ... (p0 p1 ...) in the given base, by solving x = period-part + x/base^m."""
    y = F(0)
    for d in reversed(period):
        y = (y + d) / base
    if period:
        y = y / (1 - F(1, base ** len(period)))
    for d in reversed(start):
        y = (y + d) / base
    return y


# ---------------------------------------------------------------- facet subsets: (dim, div, (coord, value), cubes)

def facet_box(s):
    """Per coordinate interval (lo, hi); lo == hi for the facet coordinate.  The set is the open box."""
    dim, div, (fc, fv), cubes = s
    out = []
    m = 0
    for j in range(dim):
        if j == fc:
            out.append((F(fv), F(fv)))
            continue
        lo, size = F(0), F(1)
        for cube in cubes:
            size /= div
            lo += cube[m] * size
        out.append((lo, lo + size))
        m += 1
    return tuple(out)


def box_map(iso, box):
    out = []
    for k, b in iso[0]:
        lo, hi = box[k]
        out.append((1 - hi, 1 - lo) if b else (lo, hi))
    return tuple(out)


def box_shift(box, shift):
    return tuple((lo + s, hi + s) for (lo, hi), s in zip(box, shift))


def box_scale(box, k):
    return tuple((lo * k, hi * k) for lo, hi in box)


def box_meets(a, b):
    """Do two open boxes of the same kind meet (a degenerate coordinate is a single value)."""
    for (l1, h1), (l2, h2) in zip(a, b):
        if l1 == h1 and l2 == h2:
            if l1 != l2:
                return False
        elif l1 == h1:
            if not l2 < l1 < h2:
                return False
        elif l2 == h2:
            if not l1 < l2 < h1:
                return False
        elif not max(l1, l2) < min(h1, h2):
            return False
    return True
