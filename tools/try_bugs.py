#!/usr/bin/env python3
"""Try planted bugs in scratch copies of /repo (development aid; no check uses it).

usage: try_bugs.py [--checks all|own|C01,C02] [--skip-tests] [-j N] ID...
For each /verif/seeded/ID: copy /repo to a scratch dir, apply patch.diff, run the
repository's tests, demo.sh (unpatched and patched) and the property's quick check.
"""
import argparse, json, os, pathlib, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = pathlib.Path(__file__).resolve().parent.parent
PY = '/opt/venv/bin/python'

def sh(cmd, cwd, timeout, env=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', **(env or {}))
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 'timeout', ''

def one(bid, a):
    sd = V / 'seeded' / bid
    meta = json.loads((sd / 'meta.json').read_text())
    tmp = pathlib.Path(tempfile.mkdtemp(prefix='bug_' + bid + '_'))
    out = {'id': bid, 'property': meta['property']}
    try:
        rep = tmp / 'repo'
        shutil.copytree('/repo', rep, symlinks=True, ignore=shutil.ignore_patterns('__pycache__'))
        demo = tmp / 'demo'
        shutil.copytree(sd, demo, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
        out['demo0'], _ = sh(['bash', str(demo / 'demo.sh')], rep, 300)
        rc, o = sh(['git', 'apply', str(sd / 'patch.diff')], rep, 60)
        if rc: out['apply'] = o; return out
        out['demo1'], o = sh(['bash', str(demo / 'demo.sh')], rep, 300)
        out['demo_msg'] = o.strip().splitlines()[-1:] 
        if not a.skip_tests:
            rc, o = sh([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], rep, 900)
            out['tests'] = rc
            if rc: out['tests_msg'] = [l for l in o.splitlines() if l.startswith('FAILED')][:3]
        checks = [meta['property']] if a.checks == 'own' else ['C%02d' % i for i in range(1, 30)] if a.checks == 'all' else [c for c in a.checks.split(',') if c != 'none']
        for c in checks:
            rc, o = sh([PY, str(V / 'run.py'), c], V, 900, {'PEANO_REPO': str(rep), 'VERIF_SEED': a.seed, 'VERIF_TIER': 'quick', 'VERIF_NO_EVIDENCE': '1'})
            out.setdefault('checks', {})[c] = rc
            if c == meta['property']: out['line'] = [l for l in o.splitlines() if 'VIOLATION' in l or 'detail' in l.lower()][:2] or o.splitlines()[-3:]
    finally:
        shutil.rmtree(tmp)
    return out

ap = argparse.ArgumentParser()
ap.add_argument('ids', nargs='*'); ap.add_argument('--checks', default='own'); ap.add_argument('--skip-tests', action='store_true'); ap.add_argument('-j', type=int, default=6); ap.add_argument('--seed', default='1')
a = ap.parse_args()
ids = a.ids or sorted(p.name for p in (V / 'seeded').iterdir() if (p / 'patch.diff').exists())
with ThreadPoolExecutor(a.j) as ex:
    for r in ex.map(lambda b: one(b, a), ids):
        ok = r.get('demo0') == 0 and r.get('demo1') not in (0, None, 'timeout') and r.get('tests', 0) == 0
        caught = r.get('checks', {}).get(r['property']) == 1
        print(('OK  ' if ok else 'BAD '), ('caught' if caught else 'MISSED'), json.dumps(r), flush=True)
