"""Verification of a work list of functions under contract, in parallel."""
import importlib
import time

from . import engine as E
from . import pool


def address(f):
    """(module, qualified name) of a function or class, or None."""
    if f is None:
        return None
    m, q = f.__module__, f.__qualname__
    if resolve((m, q)) is not f:
        return None
    return (m, q)


def resolve(addr):
    if addr is None:
        return None
    try:
        o = importlib.import_module(addr[0])
        for part in addr[1].split('.'):
            o = o.__dict__[part] if isinstance(o, type) else getattr(o, part)
        if isinstance(o, (staticmethod, classmethod)):
            o = o.__func__
        return o
    except Exception:
        return None


class FnResult(object):
    """What the verifier said about one function."""

    def __init__(self, name):
        self.name = name
        self.status = 'undecided'   # proved / refuted / undecided
        self.why = None
        self.obls = []              # (label, status, paths, detail)
        self.reach = {}
        self.wall = 0.0
        self.solver = 0.0
        self.z3 = self.cvc5 = 0
        self.paths = 0
        self.where = None
        self.used = []
        self.assumed = []


def session_value(engine, s, before):
    new = []
    for name, f, c, self_ in engine.work[before:]:
        new.append((name, address(E_underlying(f)), address(self_)
                    if self_ is not None else None, self_ is not None))
    return {
        'obls': [(k, o.status, o.paths, o.detail)
                 for k, o in s.obls.items()],
        'reach': dict(s.reach), 'solver': s.solver_s, 'z3': s.by_z3,
        'cvc5': s.by_cvc5, 'paths': s.paths, 'new': new,
        'used': sorted(str(x) for x in s.used_contracts),
        'inlined': sorted(str(x) for x in s.inlined),
        'assumed': sorted(str(x) for x in s.assumed),
    }


def E_underlying(f):
    while hasattr(f, '__wrapped__'):
        f = f.__wrapped__
    return f


def verify_work(engine, verify, budget=60, deadline=None, only=None):
    """Verify everything queued by the engine; returns [FnResult]."""
    seen = set()
    jobs = {}

    def task(i):
        name, f, c, self_ = engine.work[i]

        def go():
            before = len(engine.work)
            s = verify(engine, name, f, c, self_, budget)
            return session_value(engine, s, before)
        jobs[i] = (name, f)
        return (i, go)

    def pending():
        out = []
        for i in range(len(engine.work)):
            if i not in seen and (only is None or only(engine.work[i])):
                seen.add(i)
                out.append(task(i))
        return out

    unresolved = []

    def on_result(res):
        if not res.ok:
            return ()
        for name, addr, saddr, has_self in res.value['new']:
            f = resolve(addr)
            sf = resolve(saddr)
            if f is None or (has_self and sf is None):
                unresolved.append(name)
                continue
            engine.required_by_name(name, f, sf)
        return pending()

    # long ones first: by number of source lines as a guess
    first = pending()
    first.sort(key=lambda t: -engine.cost_hint(jobs[t[0]][1]))
    results = pool.run(first, on_result, timeout=budget * 1.5 + 20,
                       deadline=deadline)
    out = []
    for res in results:
        name, f = jobs[res.key]
        r = FnResult(name)
        fu = E_underlying(f)
        code = getattr(fu, '__code__', None)
        if code is not None:
            r.where = '%s:%d' % (code.co_filename, code.co_firstlineno)
        r.wall = res.wall
        if not res.ok:
            r.why = res.value
            out.append(r)
            continue
        v = res.value
        r.obls = v['obls']
        r.reach, r.solver = v['reach'], v['solver']
        r.z3, r.cvc5, r.paths = v['z3'], v['cvc5'], v['paths']
        r.used, r.inlined, r.assumed = v['used'], v['inlined'], v['assumed']
        sts = [o[1] for o in r.obls]
        if 'no' in sts:
            r.status = 'refuted'
        elif 'unknown' in sts:
            r.status = 'undecided'
            r.why = 'solver gave up on: ' + '; '.join(
                o[0] for o in r.obls if o[1] == 'unknown')
        elif not r.obls or not r.reach.get('exits'):
            # nothing was checked: not a proof (unless it always raises)
            r.status = 'vacuous'
            r.why = 'no normal exit reached'
        else:
            r.status = 'proved'
        out.append(r)
    for n in unresolved:
        r = FnResult(n)
        r.why = 'cannot address the required function'
        out.append(r)
    return out
