"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
    'C01': ('online oracle: base map operations against an independent isometry model, exhaustive in dimension 1-3', 'Every base map of dimension 1..3 and every pair in dimension 1-2 is exercised; higher dimensions and exponents are sampled. Trusts the reference isometry algebra (vlib/ref.py), which acts on points and never multiplies tables.'),
    'C02': ('online oracle: yielded maps against exhaustive filtering', 'Full enumerations for dimension 1..5; constraint enumeration on sampled point pairs.'),
    'C03': ('round-trip and independent reader monitors over random notations', 'Sampled chain codes, specs and curves; trusts an independent reader of the documented notation.'),
    'C04': ('value-semantics monitor (equality, hash, immutability) over object histories', 'Sampled objects and operation histories.'),
    'C05': ('online oracle: exact evaluation of curves before and after the group action', 'Sampled curves and base maps; exact rational evaluation and an exact equality test of self-similar functions.'),
    'C06': ('online oracle: subdivision against exact cells and function equality', 'Sampled curves, depths to 3; exact.'),
    'C07': ('online oracle: gates against exact fixed points', 'Sampled curves, exact rational solution of the self-similarity equations.'),
    'C08': ('online oracle: face moments against an independent search with exact periods', 'Sampled curves x all faces of all dimensions.'),
    'C09': ('online oracle: continuity verdicts against exact end points, with injected breaks', 'Sampled continuous curves and mutated ones.'),
    'C10': ('trace monitor over specify/forget histories against the explicit set of completions', 'Sampled fuzzy curves and specification orders; the full allowed-set is recomputed at every step.'),
    'C11': ('online oracle: junction sets and depths against an independent closure', 'Sampled curves; closure is exhaustive per curve.'),
    'C12': ('online oracle: junction templates of fuzzy curves against all completions', 'Sampled fuzzy curves; completions are enumerated when at most a few hundred.'),
    'C13': ('online oracle: bounds against independent rigorous branch and bound', 'Sampled curves, metrics, options; the enclosure is rigorous (integer arithmetic), so a reported violation is real.'),
    'C14': ('online oracle: witness pairs re-evaluated exactly, lower bound against exhaustive maximum', 'Sampled curves; exhaustive maximum only to depth 2.'),
    'C15': ('online oracle: bisection verdicts against a table of enclosures of all completions', 'Sampled small fuzzy curves (at most a few dozen completions).'),
    'C16': ('online oracle: fuzzy estimates against the enclosed minimum over all completions', 'Sampled small fuzzy curves.'),
    'C17': ('online oracle: sequence estimates against enclosed minima of all members', 'Sampled sequences of small fuzzy curves.'),
    'C18': ('trace monitor: SAT adapter against an explicit model of allowed completions', 'Sampled histories of forbid/solve on small fuzzy curves; satisfiability is decided by enumeration.'),
    'C19': ('trace monitor: bounded heap against a list model over random histories', 'Sampled operation histories.'),
    'C20': ('online oracle: cube path tree yields against plain enumeration', 'Sampled adjacency rules and limits; exhaustive per case.'),
    'C21': ('online oracle: generated pointed paths against depth-first enumeration', 'All small configurations, sampled limits; exhaustive per case.'),
    'C22': ('online oracle: facet-set paths against enumeration on boxes', 'Sampled links and parents; exhaustive per case.'),
    'C23': ('online oracle: generated gates against independently solved gates and path search', 'All small configurations; completeness judged on independently found gate tuples (all for multiplicity 1, sampled plus stored above).'),
    'C24': ('online oracle: subset operations against interval arithmetic', 'Sampled subsets.'),
    'C25': ('online oracle: standard forms against minima over the whole group', 'Sampled points and links, whole group each time.'),
    'C26': ('online oracle: helpers against their definitions, cache-confusing histories', 'Sampled arguments.'),
    'C27': ('program-level monitor: stdout of search.py and YE-proof.py against brute-forced class minima', 'Sampled command lines over classes small enough for brute force.'),
    'C28': ('monitor on drawn lines read back from the axes against curve cells', 'Sampled curves and options.'),
    'C29': ('history monitor: used estimators against fresh ones, metamorphic comparison of images and subdivisions', 'Sampled histories with interruptions and cache sizes.'),
}

props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
PY = '/opt/venv/bin/python'
man = {
    'version': 1,
    'setup_cmd': PY + ' -c "import sys; sys.path[:0] = [\'/repo\', \'.\']; import peano.dilation, peano.gates, vlib.engine; print(\'ready\')"',
    'checks': [],
    'not_applicable': [],
    'notes': 'Pure Python, single-threaded code: no hooks in /repo are needed; the monitors sit at the public boundary (vlib/bridge.py) and judge '
             'every observation with an independent exact reference model (vlib/ref.py). See DESIGN.md.',
}
for p in props:
    t, n = NOTE[p['id']]
    man['checks'].append({
        'property': p['id'], 'quick_cmd': '%s run.py %s' % (PY, p['id']), 'thorough_cmd': '%s run.py %s --tier thorough' % (PY, p['id']),
        'evidence_file': 'evidence/%s.json' % p['id'], 'technique': 'runtime monitoring: ' + t, 'level': 'exploration', 'level_note': n})
json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
