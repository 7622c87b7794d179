"""What every check has in common: obligations, the falsifier, evidence."""
import collections
import hashlib
import json
import multiprocessing
import os
import sys
import time

from fals import env

TECHNIQUE = (
    'contract-based deductive verification: pre/postconditions and loop '
    'invariants on the real functions, each verified for all inputs by '
    'symbolic execution of its current source (z3, cvc5); %s')
COMMON_ASSUMPTIONS = (
    'termination is not proved (partial correctness)',
    'str/list/dict/int operations of CPython behave as the models of '
    'pyver.models state',
)
COMMON_TRUSTED = (
    'pyver: symbolic executor of Python ASTs with contracts (this '
    'repository)', 'z3', 'cvc5', 'CPython 3.12')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(object):
    """A failing input found by running the real code."""

    def __init__(self, what, replay):
        self.what, self.replay = what, replay


class Outcome(object):
    """One evaluated case: tag classifies it, key makes it distinct,
    nontrivial says whether it counts, violation is None or a Violation."""
    __slots__ = ('tag', 'key', 'nontrivial', 'violation', 'sample')

    def __init__(self, tag, key=None, nontrivial=True, violation=None,
                 sample=None):
        self.tag, self.key, self.nontrivial = tag, key, nontrivial
        self.violation, self.sample = violation, sample


def digest(*parts):
    h = hashlib.sha1()
    for p in parts:
        h.update(repr(p).encode('utf-8', 'surrogatepass'))
    return h.hexdigest()[:16]


_one = None


def _call(seed):
    try:
        return seed, _one(seed)
    except env.TooSlow:
        return seed, Outcome('too slow', nontrivial=False)
    except Exception as ex:
        import traceback
        return seed, Outcome('harness-error %s' % type(ex).__name__,
                             nontrivial=False,
                             sample=traceback.format_exc()[-1500:])


class Search(object):
    """Result of running cases."""

    def __init__(self):
        self.n = 0
        self.tags = collections.Counter()
        self.keys = set()
        self.samples = []
        self.errors = []
        self.violations = []      # (seed, Violation)
        self.wall = 0.0


def run_cases(one, seeds, stop=None, chunk=8, until=None):
    """Run one(seed) for all the seeds in parallel; deterministic result
    (violations sorted by seed), early stop only once one was found."""
    global _one
    _one = one
    s = Search()
    t0 = time.time()
    seeds = list(seeds)
    nproc = min(8, os.cpu_count() or 1, max(1, len(seeds)))
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(nproc) as pool:
        for seed, o in pool.imap(_call, seeds, chunk):
            s.n += 1
            s.tags[o.tag] += 1
            if o.tag.startswith('harness-error'):
                s.errors.append((seed, o.sample))
                continue
            if o.nontrivial and o.key is not None:
                s.keys.add(o.key)
            if o.sample is not None and len(s.samples) < 3 and o.nontrivial:
                s.samples.append(o.sample)
            if o.violation is not None:
                s.violations.append((seed, o.violation))
                if len(s.violations) >= (stop or 1):
                    break
            if until is not None and time.time() > until:
                s.tags['cut short'] += 1
                break
        pool.terminate()
    s.wall = time.time() - t0
    return s


class Known(object):
    """The committed list of known findings (never written at run time)."""

    def __init__(self):
        with open(os.path.join(VERIF, 'known-findings.json')) as f:
            self.entries = json.load(f)['findings']

    def open_for(self, prop):
        return [e for e in self.entries
                if e['property'] == prop and e['status'] == 'open']


class Check(object):
    """Base class of the checks; one subclass per property."""
    prop = None
    level = 'proof'
    rule = ''
    quick_cases = 1500
    thorough_cases = 30000
    assumptions = COMMON_ASSUMPTIONS
    trusted = COMMON_TRUSTED
    budget = {'quick': 60, 'thorough': 240}
    #: seconds the deductive part may take altogether
    limit = {'quick': 420, 'thorough': 700}

    def __init__(self, tier, seed):
        self.tier, self.seed = tier, seed
        self.started = time.time()
        self.notes = []

    # to be overridden ------------------------------------------------
    #: modules and groups of contracts that decide the property
    modules = ()
    groups = ()

    def deduce(self):
        """List of FnResult."""
        if not self.groups:
            return []
        import importlib
        from pyver import contract
        for m in self.modules:
            importlib.import_module('pyver.' + m)
        return contract.run_specs(
            self.groups, self.budget[self.tier],
            time.time() + self.limit[self.tier])

    def setup_cases(self):
        pass

    def one(self, seed):
        return Outcome('none', nontrivial=False)

    def fixed_cases(self):
        """Seeds of directed cases, run before the random ones."""
        return []

    def known_case(self, entry):
        """None, or what still fails for the known finding."""
        return None

    def replay(self, data):
        """Re-run a replay file; returns a Violation or None."""
        raise NotImplementedError

    # -----------------------------------------------------------------
    def ncases(self):
        return (self.quick_cases if self.tier == 'quick'
                else self.thorough_cases)

    def seeds(self, n, stage=0):
        base = self.seed * 1000003 + stage * 7919777
        return ([] if stage else list(self.fixed_cases())) + [
            base + i for i in range(n)]

    def search(self, n, stage=0):
        # a guard for slow machines: a check has 900 s (quick)
        until = None
        if self.tier == 'quick':
            until = self.started + (760 if stage else 640)
        return run_cases(self.one, self.seeds(n, stage), until=until)

    def run(self):
        t0 = self.started = time.time()
        try:
            rs = self.deduce()
        except Exception as ex:
            # the contracts do not fit the code any more: nothing is decided
            import traceback
            from pyver.report import FnResult
            r = FnResult('contracts of %s' % self.prop)
            r.why = '%s: %s %s' % (type(ex).__name__, ex,
                                   traceback.format_exc()[-600:])
            rs = [r]
        t1 = time.time()
        try:
            self.setup_cases()
            s = self.search(self.ncases())
        except Exception as ex:
            import traceback
            s = Search()
            s.errors.append(('setup', traceback.format_exc()[-1500:]))
        refuted = [r for r in rs if r.status == 'refuted']
        suspect = refuted or [r for r in rs if 'at most once or twice' in (
            r.why or '')]
        if suspect and not s.violations:
            s2 = self.search(self.ncases() * 4, 1)
            s.n += s2.n
            s.tags.update(s2.tags)
            s.keys |= s2.keys
            s.errors += s2.errors
            s.violations = s2.violations
        lines = []
        status = 0
        for e in Known().open_for(self.prop):
            w = self.known_case(e)
            if w:
                lines.append('KNOWN-FINDING: property=%s %s'
                             % (self.prop, e['what']))
            else:
                lines.append('note: known finding %s no longer occurs'
                             % e.get('id'))
        nviol = 0
        if s.violations:
            nviol = len(s.violations)
            seed, v = s.violations[0]
            path = self.write_replay({
                'property': self.prop, 'kind': 'input', 'seed': seed,
                'what': v.what, 'data': v.replay,
                'failed_obligations': self.failed(refuted)})
            lines.append(v.what[:1500])
            lines.append('VIOLATION property=%s replay=%s'
                         % (self.prop, path))
            status = 1
        elif refuted:
            nviol = len(refuted)
            path = self.write_replay({
                'property': self.prop, 'kind': 'obligation',
                'failed_obligations': self.failed(refuted)})
            for r in refuted:
                for o in r.obls:
                    if o[1] == 'no':
                        lines.append('obligation refuted: %s: %s'
                                     % (r.name, o[0]))
            lines.append('VIOLATION property=%s replay=%s '
                         'no-failing-input-found' % (self.prop, path))
            status = 1
        self.evidence(rs, s, nviol, time.time() - t0, t1 - t0)
        for sd, tb in s.errors[:3]:
            print('harness error for seed %s: %s' % (sd, tb))
        if s.errors and not status:
            # more than a stray case failing in the harness itself
            if len(s.errors) * 20 > s.n:
                print('the falsifier does not fit the code any more')
        und = [r for r in rs if r.status not in ('proved', 'refuted', 'bounded')]
        for r in und[:20]:
            print('undecided: %s: %s' % (r.name, (r.why or '')[:200]))
        rs = [r for r in rs if r.status != 'bounded']
        nob = sum(len(r.obls) for r in rs)
        dis = sum(1 for r in rs for o in r.obls if o[1] == 'yes')
        print('%s: %d functions under contract, %d/%d obligations discharged'
              ' (%.1f s); %d cases run on the real code, %d distinct '
              'non-trivial (%.1f s)' % (
                  self.prop, len(rs), dis, nob, t1 - t0, s.n, len(s.keys),
                  s.wall))
        print('   cases: %s' % ', '.join(
            '%s=%d' % kv for kv in s.tags.most_common(8)))
        for x in lines:
            print(x)
        sys.stdout.flush()
        return status

    def failed(self, refuted):
        return [{'function': r.name, 'where': r.where, 'obligation': o[0],
                 'verifier': o[3]}
                for r in refuted for o in r.obls if o[1] == 'no']

    def write_replay(self, data):
        d = os.path.join(VERIF, 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s.json' % (
            self.prop, digest(json.dumps(data, default=str, sort_keys=True))))
        with open(path, 'w') as f:
            json.dump(data, f, indent=1, default=str, sort_keys=True)
        return os.path.relpath(path, VERIF)

    def evidence(self, rs, s, nviol, wall, dwall):
        cov = {
            'evaluations': s.n,
            'distinct_nontrivial': len(s.keys),
            'rule': self.rule,
            'samples': s.samples[:3],
            'falsifier_outcomes': dict(s.tags.most_common(30)),
            'harness_errors': len(s.errors),
        }
        if rs or self.level == 'proof':
            cov.update({
                'obligations': sum(len(r.obls) for r in rs
                                   if r.status != 'bounded'),
                'discharged': sum(1 for r in rs for o in r.obls
                                  if o[1] == 'yes'
                                  and r.status != 'bounded'),
                'checker_cmd': 'python3-vt check.py %s --tier %s' % (
                    self.prop, self.tier),
                'trusted_base': sorted(set(self.trusted)),
                'functions_under_contract': [
                    {'name': r.name, 'status': r.status, 'where': r.where,
                     'obligations': len(r.obls),
                     'discharged': sum(1 for o in r.obls if o[1] == 'yes'),
                     'paths': r.paths,
                     'solver_s': round(r.solver, 2),
                     'why': (r.why or '')[:300] or None}
                    for r in rs],
                'functions_proved': sum(1 for r in rs
                                        if r.status == 'proved'),
                'bounded_stand_ins': [r.name for r in rs
                                      if r.status not in ('proved',)],
                'queries_decided_by': {
                    'z3': sum(r.z3 for r in rs),
                    'cvc5': sum(r.cvc5 for r in rs),
                },
                'solver_s': round(sum(r.solver for r in rs), 2),
                'deduction_wall_s': round(dwall, 2),
            })
        ass = list(self.assumptions) + list(self.notes)
        for r in rs:
            for a in getattr(r, 'assumed', ()) or ():
                if a not in ass:
                    ass.append(a)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed,
              'level': self.level, 'coverage': cov, 'assumptions': ass,
              'wall_s': round(wall, 2), 'violations': nviol}
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, self.prop + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(p + '.tmp', p)
