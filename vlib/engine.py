"""
Monitor engine: runs the cases of a check in worker processes, collects monitor events, decides the verdict
and writes the evidence file.

Verdicts are three-valued:
  violated      exit 1, VIOLATION line, replay file with the failing case
  held          exit 0, evidence counts what the monitors really saw
  inconclusive  exit 2 (harness error, repository not importable, monitors starved of events)
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
from collections import Counter


CPU_BUDGET = 200        # CPU seconds of one case before "no progress" is reported; normal cases use a few seconds


class Violation(Exception):
    def __init__(self, what, witness=None):
        super().__init__(what)
        self.what = what
        self.witness = witness


class NoProgress(BaseException):
    pass


class StepLimit(BaseException):
    """Raised from inside a user-supplied callback when the code under test takes absurdly many steps."""


class Ctx:
    """What a case sees: its random source, event counters and the violation channel."""

    def __init__(self, seed, tier, prop, case):
        self.seed, self.tier, self.prop, self.case = seed, tier, prop, case
        self.rng = random.Random('%s|%s|%s' % (seed, prop, json.dumps(case, sort_keys=True)))
        self.events = Counter()
        self.distinct = set()
        self.samples = []
        self.stuck = False
        self.notes = Counter()

    # -- observing
    def seen(self, kind, n=1):
        self.events[kind] += n

    def state(self, *desc):
        """Record a distinct non-trivial situation."""
        self.distinct.add(hashlib.blake2b(repr(desc).encode(), digest_size=8).hexdigest())

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    # -- deciding
    def fail(self, what, **witness):
        raise Violation(what, {k: _show(v) for k, v in witness.items()})

    def check(self, cond, what, **witness):
        self.events['oracle_evaluations'] += 1
        if not cond:
            self.fail(what, **witness)

    def equal(self, got, want, what, **witness):
        self.events['oracle_evaluations'] += 1
        if got != want:
            self.fail(what, got=got, want=want, **witness)

    # -- driving the code under test
    def call(self, what, fn, *a, **kw):
        """Call code under test on an input for which it must return; an exception is a violation."""
        try:
            return fn(*a, **kw)
        except Violation:
            raise
        except NoProgress:
            self.stuck = True
            raise
        except StepLimit as e:
            raise Violation('%s: no termination within the step budget (%s)' % (what, e), {})
        except Exception as e:
            tb = traceback.extract_tb(sys.exc_info()[2])
            raise Violation('%s raised %s: %s' % (what, type(e).__name__, str(e)[:300]),
                            {'where': ['%s:%s %s' % (os.path.basename(f.filename), f.lineno, f.name) for f in tb[-4:]]})

    def raises(self, what, exc, fn, *a, **kw):
        """Call code under test on an input that must be rejected with the documented exception."""
        self.events['oracle_evaluations'] += 1
        try:
            r = fn(*a, **kw)
        except exc:
            return
        except Exception as e:
            raise Violation('%s raised %s instead of %s' % (what, type(e).__name__, exc), {'msg': str(e)[:300]})
        raise Violation('%s was accepted, %s expected' % (what, exc), {'result': _show(r)})

    def take(self, what, it, limit):
        """Consume an iterable of the code under test; more than `limit` items is a violation."""
        def run():
            out = []
            for x in it:
                out.append(x)
                if len(out) > limit:
                    raise Violation('%s: yields more than %d items' % (what, limit), {})
            return out
        return self.call(what, run)


def _show(v, n=1500):
    try:
        s = v if isinstance(v, str) else repr(v)
    except Exception as e:
        s = '<unprintable %s>' % type(e).__name__
    return s if len(s) <= n else s[:n] + '...'


def _on_cpu(signum, frame):
    raise NoProgress()


class Reach:
    """Lines of the repository executed by the workload (each line is reported once per process, then switched off)."""
    TOOL = 3

    def __init__(self, repo):
        self.repo, self.new = os.path.realpath(repo) + os.sep, set()
        mon = getattr(sys, 'monitoring', None)
        self.on = mon is not None and mon.get_tool(self.TOOL) is None
        if self.on:
            mon.use_tool_id(self.TOOL, 'reach')
            mon.register_callback(self.TOOL, mon.events.LINE, self._line)
            mon.set_events(self.TOOL, mon.events.LINE)

    def _line(self, code, line):
        f = code.co_filename
        if f.startswith(self.repo):
            self.new.add((f[len(self.repo):], line))
        return sys.monitoring.DISABLE

    def take(self):
        new, self.new = self.new, set()
        return list(new)


_reach = None


def _run_one(payload):
    modname, seed, tier, idx, case = payload
    mod = importlib.import_module(modname)
    ctx = Ctx(seed, tier, mod.PROPERTY, case)
    out = {'idx': idx, 'case': case, 'violation': None, 'error': None}
    signal.signal(signal.SIGVTALRM, _on_cpu)
    t0 = time.process_time()
    w0 = time.time()
    try:
        signal.setitimer(signal.ITIMER_VIRTUAL, getattr(mod, 'CPU_BUDGET', CPU_BUDGET))
        try:
            mod.run_case(ctx, case)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except Violation as v:
        out['violation'] = {'what': v.what, 'witness': v.witness}
    except NoProgress:
        repo = os.path.realpath(os.environ.get('PEANO_REPO', '/repo')) + os.sep
        frames = traceback.extract_tb(sys.exc_info()[2])
        if ctx.stuck or any(os.path.realpath(f.filename).startswith(repo) for f in frames):
            out['violation'] = {'what': 'no progress: the call did not return within %d CPU seconds'
                                        % getattr(mod, 'CPU_BUDGET', CPU_BUDGET),
                                'witness': {'last_events': dict(ctx.events)}}
        else:
            out['error'] = 'harness ran out of CPU budget'
    except MemoryError:
        out['error'] = 'MemoryError'
    except BaseException as e:
        # an exception that escapes from the repository's own code on the (valid) inputs of the harness is a violation;
        # one raised by harness code is an error of the check
        tb = traceback.extract_tb(sys.exc_info()[2])
        repo = os.path.realpath(os.environ.get('PEANO_REPO', '/repo')) + os.sep
        if tb and os.path.realpath(tb[-1].filename).startswith(repo) and isinstance(e, Exception):
            out['violation'] = {'what': 'uncaught %s: %s' % (type(e).__name__, str(e)[:300]),
                                'witness': {'where': ['%s:%s %s' % (os.path.basename(f.filename), f.lineno, f.name) for f in tb[-5:]]}}
        elif isinstance(e, (TypeError, AttributeError, ValueError, LookupError, ArithmeticError, AssertionError)):
            # the monitor could not interpret what it observed (wrong type, shape or range of a returned object)
            out['violation'] = {'what': 'the observed result cannot be interpreted: %s: %s' % (type(e).__name__, str(e)[:300]),
                                'witness': {'where': ['%s:%s %s' % (os.path.basename(f.filename), f.lineno, f.name) for f in tb[-5:]]}}
        else:
            out['error'] = traceback.format_exc()
    out['events'] = dict(ctx.events)
    out['distinct'] = list(ctx.distinct)
    out['samples'] = ctx.samples
    out['notes'] = dict(ctx.notes)
    out['reach'] = _reach.take() if _reach else []
    out['cpu'] = time.process_time() - t0
    out['wall'] = time.time() - w0
    return out


def main(mod, args, here, repo):
    t0 = time.time()
    prop = mod.PROPERTY
    tier = args.tier if args.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    only = None
    if args.replay:
        rep = json.load(open(args.replay))
        seed, tier, only = rep['seed'], rep['tier'], [rep['case']]
    try:
        from .bridge import A
        A._load()
    except BaseException:
        traceback.print_exc()
        print('INCONCLUSIVE property=%s: the repository could not be imported' % prop)
        return 2
    import peano
    if not os.path.realpath(peano.__file__).startswith(os.path.realpath(repo) + os.sep):
        print('INCONCLUSIVE: wrong package', peano.__file__)
        return 2

    global _reach
    _reach = Reach(repo)
    cases = only if only is not None else list(mod.plan(tier, seed))
    if args.case is not None:
        cases = [cases[args.case]]
    payloads = [(mod.__name__, seed, tier, i, c) for i, c in enumerate(cases)]
    # heavy cases first
    weight = getattr(mod, 'weight', None)
    if weight:
        payloads.sort(key=lambda p: -weight(p[4]))

    results = []
    violations = []
    errors = []
    jobs = min(args.jobs, len(payloads)) or 1
    if jobs == 1 or args.replay:
        for p in payloads:
            r = _run_one(p)
            results.append(r)
            if r['violation']:
                violations.append(r)
                break
            if r['error']:
                errors.append(r)
    else:
        ctxm = mp.get_context('fork')
        pool = ctxm.Pool(jobs, maxtasksperchild=getattr(mod, 'TASKS_PER_CHILD', None))
        try:
            for r in pool.imap_unordered(_run_one, payloads, chunksize=getattr(mod, 'CHUNK', 1)):
                results.append(r)
                if r['violation']:
                    violations.append(r)
                    break
                if r['error']:
                    errors.append(r)
        finally:
            pool.terminate()
            pool.join()

    events, notes, distinct, samples = Counter(), Counter(), set(), []
    for r in sorted(results, key=lambda r: r['idx']):
        events.update(r['events'])
        notes.update(r['notes'])
        distinct.update(r['distinct'])
        if len(samples) < 5:
            samples += r['samples'][:1]

    reach = set()
    for r in results:
        reach.update(map(tuple, r['reach']))
    reach.update(_reach.take())
    if os.environ.get('VERIF_REACH'):
        with open(os.environ['VERIF_REACH'], 'a') as fh:
            fh.writelines('%s\t%s\t%d\n' % (prop, f, l) for f, l in sorted(reach))
    reached = Counter(f for f, _ in reach)
    wall = round(time.time() - t0, 2)
    starved = {k: (events.get(k, 0), v) for k, v in getattr(mod, 'MIN_EVENTS', {}).items() if events.get(k, 0) < v}
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': len(results),
            'distinct_nontrivial': len(distinct),
            'rule': mod.RULE,
            'samples': samples or ['(none)'],
            'oracle_evaluations': events.get('oracle_evaluations', 0),
            'monitor_events': {k: v for k, v in sorted(events.items()) if k != 'oracle_evaluations'},
            'repository_lines_reached': dict(sorted(reached.items())),
            'notes': dict(notes),
            'slowest_case_cpu_s': round(max([r['cpu'] for r in results] or [0]), 2),
            'harness_errors': len(errors),
            'starved_monitors': {k: list(v) for k, v in starved.items()},
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': wall, 'violations': len(violations),
    }
    if only is None and args.case is None:
        os.makedirs(os.path.join(here, 'evidence'), exist_ok=True)
        with open(os.path.join(here, 'evidence', prop + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1, default=str)

    if violations:
        r = violations[0]
        rd = os.path.join(here, 'replays')
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, '%s-%s.json' % (prop, hashlib.blake2b(json.dumps(r['case'], sort_keys=True).encode(), digest_size=5).hexdigest()))
        with open(path, 'w') as fh:
            json.dump({'property': prop, 'tier': tier, 'seed': seed, 'case': r['case'],
                       'what': r['violation']['what'], 'witness': r['violation']['witness'],
                       'replay_cmd': 'python run.py %s --replay %s' % (prop, path)}, fh, indent=1, default=str)
        print('violated: %s' % r['violation']['what'])
        print('  case: %s' % json.dumps(r['case'])[:400])
        for k, v in (r['violation']['witness'] or {}).items():
            print('  %s: %s' % (k, str(v)[:600]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    for line in open_findings(here, prop):
        print(line)
    if errors:
        print(errors[0]['error'])
        print('  case: %s' % json.dumps(errors[0]['case'])[:400])
        print('INCONCLUSIVE property=%s: %d harness errors' % (prop, len(errors)))
        return 2
    if starved and only is None and args.case is None:
        print('INCONCLUSIVE property=%s: monitors saw too few events: %s' % (prop, starved))
        return 2
    print('held: property=%s tier=%s seed=%d cases=%d distinct=%d oracle_evaluations=%d wall=%.1fs' % (
        prop, tier, seed, len(results), len(distinct), events.get('oracle_evaluations', 0), wall))
    print('  events: %s' % json.dumps({k: v for k, v in sorted(events.items()) if k != 'oracle_evaluations'}))
    if os.environ.get('VERIF_VERBOSE'):
        for r in sorted(results, key=lambda r: -r['wall'])[:12]:
            print('   cpu %.2f wall %.2f %s' % (r['cpu'], r['wall'], json.dumps(r['case'])[:200]))
    return 0


def open_findings(here, prop):
    path = os.path.join(here, 'known_findings.txt')
    if not os.path.exists(path):
        return []
    return [l.strip() for l in open(path) if l.startswith('KNOWN-FINDING: property=%s ' % prop)]
