"""Conversion between objects of the repository and the reference model, through public attributes only."""
from fractions import Fraction as F
from . import ref


def api():
    """Import the repository under test lazily (sys.path is set up by the runner)."""
    return _API


class _Api:
    def __init__(self):
        self._loaded = False

    def __getattr__(self, name):
        if not self.__dict__.get('_loaded'):
            self._load()
            return getattr(self, name)
        raise AttributeError(name)

    def _load(self):
        import quicktions
        from peano import base_maps, curves, dilation, gates, paths, subsets, utils, zoo
        from peano import _sat_adapters, _cube_path_trees, _bounded_items_heap
        d = self.__dict__
        d['Q'] = quicktions.Fraction
        d['base_maps'], d['curves'], d['dilation'], d['gates'] = base_maps, curves, dilation, gates
        d['paths'], d['subsets'], d['utils'], d['zoo'] = paths, subsets, utils, zoo
        d['sat'], d['tree'], d['heap'] = _sat_adapters, _cube_path_trees, _bounded_items_heap
        d['BaseMap'], d['Spec'] = base_maps.BaseMap, base_maps.Spec
        d['Curve'], d['FuzzyCurve'], d['PathFuzzyCurve'] = curves.Curve, curves.FuzzyCurve, curves.PathFuzzyCurve
        d['Pattern'], d['Proto'], d['Path'] = curves.Pattern, paths.Proto, paths.Path
        d['Point'], d['Link'], d['FacetDivSubset'] = subsets.Point, subsets.Link, subsets.FacetDivSubset
        d['PathsGenerator'], d['GatesGenerator'] = paths.PathsGenerator, gates.GatesGenerator
        d['Estimator'] = dilation.Estimator
        d['_loaded'] = True


_API = _Api()
A = _API


def fr(x):
    """Any rational of the repository -> fractions.Fraction."""
    if isinstance(x, F):
        return x
    return F(int(x.numerator), int(x.denominator))


def q(x):
    x = F(x)
    return A.Q(x.numerator, x.denominator)


# ---- isometries

def iso_of(bm):
    return (tuple((int(k), bool(b)) for k, b in bm.coords), bool(bm.time_rev))


def bm_of(iso):
    return A.BaseMap(iso[0], iso[1])


def spec_of(iso, p):
    return A.Spec(bm_of(iso), p)


def rspec(sp):
    return (iso_of(sp.base_map), int(sp.pnum))


# ---- points / links

def pt(x):
    return A.Point([q(c) for c in x])


def rpt(p):
    return tuple(fr(c) for c in p)


def link(l):
    return A.Link(pt(l[0]), pt(l[1]))


def rlink(l):
    return (rpt(l.entrance), rpt(l.exit))


# ---- curves

def _shape(curve):
    n = curve.div ** curve.dim
    if not (curve.genus == n and curve.mult == len(curve.patterns) and 0 <= curve.pnum < curve.mult):
        raise ValueError('inconsistent genus, multiplicity or selected pattern of a curve')
    for pattern in curve.patterns:
        if len(list(pattern.proto)) != n or len(pattern.specs) != n:
            raise ValueError('a pattern has %d cubes and %d specs, not %d' % (len(list(pattern.proto)), len(pattern.specs), n))


def rcurve(curve):
    """Repository curve (fully specified) -> RefCurve."""
    _shape(curve)
    pats = []
    for pattern in curve.patterns:
        pats.append((tuple(tuple(int(v) for v in c) for c in pattern.proto), tuple(rspec(s) for s in pattern.specs)))
    return ref.RefCurve(curve.dim, curve.div, pats)


def rpatterns(curve):
    """Raw (cubes, specs) of a possibly fuzzy curve; None stays None."""
    _shape(curve)
    pats = []
    for pattern in curve.patterns:
        pats.append((tuple(tuple(int(v) for v in c) if c is not None else None for c in pattern.proto),
                     tuple(rspec(s) if s is not None else None for s in pattern.specs)))
    return tuple(pats)


def curve_of(rc, pnum=0, how=0):
    """RefCurve -> repository Curve, through one of the documented constructors."""
    pats = []
    for cubes, specs in rc.pats:
        sp = [spec_of(i, p) for i, p in specs]
        if how == 0:
            pats.append((list(cubes), sp))
        else:
            pats.append(A.Pattern(A.Proto(rc.dim, rc.div, iter(cubes)), iter(sp)))     # any iterable will do
    return A.Curve(dim=rc.dim, div=rc.div, patterns=pats if how == 0 else iter(pats), pnum=pnum)


def path_of(dim, div, rp):
    return A.Path(A.Proto(dim, div, [c for c, _ in rp]), (link(l) for _, l in rp))


def rpath(path):
    if len(list(path.proto)) != len(list(path.links)):
        raise ValueError('a path has %d cubes and %d links' % (len(list(path.proto)), len(list(path.links))))
    return tuple((tuple(int(v) for v in c), rlink(l)) for c, l in zip(path.proto, path.links))


# ---- junctions

def rpair(j):
    i1, p1 = rspec(j.spec1)
    i2, p2 = rspec(j.spec2)
    return (i1, p1, i2, p2, tuple(int(fr(x)) if fr(x).denominator == 1 else fr(x) for x in j.delta_x))


METRICS = ('l1', 'l2', 'l2_squared', 'linf')


def ratio_func(metric):
    return {'l1': A.utils.ratio_l1, 'l2': A.utils.ratio_l2, 'l2_squared': A.utils.ratio_l2_squared,
            'linf': A.utils.ratio_linf}[metric]


def metrics_for(dim):
    return METRICS if dim % 2 == 0 else ('l1', 'l2_squared', 'linf')
