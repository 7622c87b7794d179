"""Contracts on single functions, written as Python harnesses.

A contract is a function of one argument, the harness h.  It builds symbolic
arguments that satisfy the precondition, calls the real function through
h.call (which executes the AST of its current source, every path, loops cut
at proved invariants, callees replaced by their contracts where one is
registered and inlined otherwise) and states the postcondition with h.ensure.
"""
import ast
import importlib
import time

import z3

from . import engine as E
from . import models as M
from . import pool
from .engine import underlying
from .report import FnResult
from .values import *  # noqa

INT, BOOL = z3.IntSort(), z3.BoolSort()


class Done(Exception):
    """The function raised: nothing more is stated on this path."""


def find(addr):
    """'module:Qual.name' -> the function (class or static methods too)."""
    mod, q = addr.split(':')
    try:
        o = importlib.import_module(mod)
        for part in q.split('.'):
            o = o.__dict__[part] if isinstance(o, type) else getattr(o, part)
        if isinstance(o, property):
            o = o.fget
        return underlying(o)
    except (ImportError, AttributeError, KeyError):
        return None


def cls_of(addr):
    mod, q = addr.split(':')
    o = importlib.import_module(mod)
    for part in q.split('.'):
        o = getattr(o, part)
    return o


class ApplyContract(object):
    """Adapts f(ip, ba) to the engine's contract interface."""
    label = 'contract'

    def __init__(self, f):
        self.f = f

    def apply(self, ip, fn, ba):
        return self.f(ip, ba)


class Harness(object):
    def __init__(self, ip, s, fn):
        self.ip, self.s, self.fn = ip, s, fn
        self.p = ip.p
        self.modifies = set()
        self.modify_all = False
        self.modify_if = None       # (object, field) -> may be written
        self.raised = None
        self.on_raise = None

    # -- building arguments
    def int(self, name, lo=None, hi=None):
        t = self.p.fresh(INT, name)
        if lo is not None:
            self.p.assume(t >= lo)
        if hi is not None:
            self.p.assume(t <= hi)
        return SInt(t)

    def bool(self, name):
        return SBool(self.p.fresh(BOOL, name))

    def str(self, name):
        return SStr(self.p.fresh(StrS, name))

    def list(self, kind, name):
        return LList([kind.fresh_seg(self.p, name)], 0, kind)

    def obj(self, cls, **fields):
        o = Obj(cls, 0, fields)
        return o

    def opaque(self, tag, name='', **kw):
        return Opaque(tag, name, **kw)

    def enum(self, cls, name):
        return self.ip.e.fresh_enum(self.ip, cls, name)

    def may_modify(self, *objs):
        self.modifies |= {id(o) for o in objs}
        self._keep = getattr(self, '_keep', []) + list(objs)

    # -- the call
    def call(self, *args, **kwargs):
        ip = self.ip
        ip.top = self.fn
        ip.entry_stamp = self.p.clock
        self.p.tick()
        ip.may_modify = lambda o, f: self.modify_all or \
            id(o) in self.modifies or bool(
                self.modify_if and self.modify_if(o, f))
        defcls = ip.defining_class(self.fn)
        try:
            r = ip.run_function(self.fn, list(args), kwargs, defcls)
            if isinstance(r, GenObj) and getattr(self, 'consume', None):
                r.call(self.consume)
        except PyExc as ex:
            self.raised = ex
            self.s.reach['raises'] += 1
            if self.on_raise is not None:
                self.on_raise(ex)
            raise Done()
        self.s.reach['exits'] += 1
        return r

    def ensure(self, label, cond, info=None):
        if isinstance(cond, SBool):
            cond = cond.t
        if isinstance(cond, bool):
            cond = z3.BoolVal(cond)
        return self.s.obligation(self.p, label, cond, info)

    def assume(self, cond):
        self.p.assume(cond)


SPECS = {}       # group -> [(name, addr, harness function, engine factory)]


def spec(group, addr, engine, name=None, must_raise=False):
    def deco(f):
        SPECS.setdefault(group, []).append(
            (name or addr.split(':')[1], addr, f, engine, must_raise))
        return f
    return deco


def bounded(group, addr, name, bound):
    """A stand-in: f(real function) enumerates cases up to the stated bound
    and returns (number of cases, None or what fails)."""
    def deco(f):
        SPECS.setdefault(group, []).append(
            (name or addr.split(':')[1], addr, f, None, bound))
        return f
    return deco


def enumerate_one(name, addr, f, bound):
    fn = find(addr)
    if fn is None:
        raise Unsupported('%s does not exist' % addr)
    n, bad = f(fn)
    return {'obls': [('holds for all %s' % bound, 'no' if bad else 'yes', n,
                      {'input': bad} if bad else None)],
            'reach': {'exits': n, 'raises': 0}, 'solver': 0.0, 'z3': 0,
            'cvc5': 0, 'paths': n, 'used': [], 'inlined': [],
            'assumed': ['bounded, not proved: %s is checked for all %s'
                        % (name, bound)]}


def verify_one(name, addr, f, engine, must_raise, budget):
    if engine is None:
        return enumerate_one(name, addr, f, must_raise)
    fn = find(addr)
    if fn is None:
        raise Unsupported('%s does not exist' % addr)
    e = engine()
    s = E.Session(name, e, budget)
    s.reach = {'exits': 0, 'raises': 0}
    r = FnResult(name)

    def run(path):
        ip = E.Interp(e, s, path)
        h = Harness(ip, s, fn)
        try:
            f(h)
        except Done:
            pass
    s.explore(run)
    return {
        'obls': [(k, o.status, o.paths, o.detail)
                 for k, o in s.obls.items()],
        'reach': dict(s.reach), 'solver': s.solver_s, 'z3': s.by_z3,
        'cvc5': s.by_cvc5, 'paths': s.paths,
        'used': sorted(str(x) for x in s.used_contracts),
        'inlined': sorted(str(x) for x in s.inlined),
        'assumed': sorted(set(map(str, s.assumed)) | set(e.assumptions)),
    }


def run_specs(groups, budget=60, deadline=None, only=None, nproc=None):
    """[FnResult] of all contracts of the groups."""
    items = []
    for g in groups:
        items += SPECS.get(g, [])
    if only:
        items = [x for x in items if only(x[0])]
    tasks = []
    for i, (name, addr, f, eng, mr) in enumerate(items):
        tasks.append((i, lambda name=name, addr=addr, f=f, eng=eng, mr=mr:
                      verify_one(name, addr, f, eng, mr, budget)))
    out = []
    for res in pool.run(tasks, timeout=budget * 1.5 + 20, deadline=deadline,
                        nproc=nproc):
        name, addr, f, eng, must_raise = items[res.key]
        r = FnResult(name)
        fn = find(addr)
        code = getattr(fn, '__code__', None)
        if code is not None:
            r.where = '%s:%d' % (code.co_filename, code.co_firstlineno)
        r.wall = res.wall
        if not res.ok:
            r.why = res.value
            out.append(r)
            continue
        v = res.value
        r.obls, r.reach, r.solver = v['obls'], v['reach'], v['solver']
        r.z3, r.cvc5, r.paths = v['z3'], v['cvc5'], v['paths']
        r.used, r.inlined, r.assumed = v['used'], v['inlined'], v['assumed']
        sts = [o[1] for o in r.obls]
        if 'no' in sts:
            r.status = 'refuted'
        elif 'unknown' in sts:
            r.status = 'undecided'
            r.why = 'solver gave up on: ' + '; '.join(
                o[0] for o in r.obls if o[1] == 'unknown')
        elif not r.obls or not (r.reach['exits'] or must_raise):
            r.status = 'vacuous'
            r.why = 'no normal exit reached'
        else:
            r.status = 'bounded' if eng is None else 'proved'
        out.append(r)
    return out
