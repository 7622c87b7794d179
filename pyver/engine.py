"""
A deductive verifier for the Python code of /repo.

The real functions are read from the source files on every run (inspect/ast)
and executed symbolically, one path at a time.  Calls to functions under
contract use the contract, other helper functions are inlined.  Loops are cut:
what a loop changes is inferred, the state is havocked at the loop head, and
candidate invariants are kept only if they are proved on entry and preserved
(so every invariant assumed has been discharged).  Obligations are discharged
by z3, or by cvc5 where z3 answers unknown.
"""
import ast
import builtins
import contextlib
import functools
import inspect
import os
import sys
import textwrap
import time
import types

import z3

from pyver.values import *  # noqa
from pyver import values as V

MAX_DEPTH = 40


# ---------------------------------------------------------------- sources
_modcache = {}


def module_index(path):
    if path not in _modcache:
        with open(path, encoding='utf-8') as f:
            src = f.read()
        tree = ast.parse(src)
        idx = {}
        lambdas = {}

        def walk(node, cls):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    lines = [ch.lineno] + [d.lineno for d in ch.decorator_list]
                    for ln in lines:
                        idx[(ch.name, ln)] = ch
                    walk(ch, cls)
                elif isinstance(ch, ast.Lambda):
                    lambdas.setdefault(ch.lineno, []).append(ch)
                    walk(ch, cls)
                else:
                    walk(ch, cls)
        walk(tree, None)
        _modcache[path] = (idx, lambdas, tree)
    return _modcache[path]


def func_ast(fn):
    code = fn.__code__
    path = code.co_filename
    if not os.path.exists(path):
        raise Unsupported('no source for %s' % fn)
    idx, lambdas, _ = module_index(path)
    if code.co_name == '<lambda>':
        cands = lambdas.get(code.co_firstlineno, [])
        if len(cands) != 1:
            raise Unsupported('cannot locate lambda source')
        return cands[0]
    node = idx.get((code.co_name, code.co_firstlineno))
    if node is None:
        raise Unsupported('cannot locate source of %s' % fn)
    return node


_gen_cache = {}


def is_generator(node):
    r = _gen_cache.get(node)
    if r is None:
        r = False
        stack = list(node.body) if isinstance(node.body, list) else [node.body]
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                continue
            stack.extend(ast.iter_child_nodes(n))
        _gen_cache[node] = r
    return r


def underlying(f):
    while True:
        if isinstance(f, (staticmethod, classmethod)):
            f = f.__func__
        elif isinstance(f, types.MethodType):
            f = f.__func__
        elif hasattr(f, '__wrapped__'):
            f = f.__wrapped__
        else:
            return f


def in_repo(fn):
    mod = getattr(fn, '__module__', None) or ''
    return mod == 'cmakelang' or mod.startswith('cmakelang.')


# ------------------------------------------------------------------- path
class Path(object):
    """One execution path: decisions, path condition, fresh names."""

    def __init__(self, session, prefix):
        self.session = session
        self.prefix = prefix
        self.trace = []          # (choice, nalts)
        self.pos = 0
        self.nfresh = 0
        self.clock = 1
        self.light = z3.Solver()
        self.light.set('timeout', session.branch_timeout)
        self.pc = []
        self.solver = None
        self.events = []         # ghost effect trace
        self.ghost = {}
        self.notes = []

    # -- names
    def fresh(self, sort, hint='v'):
        self.nfresh += 1
        return z3.Const('%s!%d' % (hint, self.nfresh), sort)

    def tick(self):
        self.clock += 1
        return self.clock

    # -- assumptions
    def assume(self, t):
        if t is True:
            return
        if t is False:
            raise PathEnd()
        if z3.is_true(t):
            return
        self.pc.append(t)
        if not _has_seq(t):
            self.light.add(t)

    def choose(self, n, label=''):
        """Nondeterministic choice among n alternatives."""
        if n == 1:
            return 0
        if self.pos < len(self.prefix):
            c = self.prefix[self.pos]
        else:
            c = 0
            for i in range(n - 1, 0, -1):
                self.session.push(self.prefix_so_far() + [i])
        self.pos += 1
        self.trace.append(c)
        return c

    def prefix_so_far(self):
        return list(self.trace)

    def feasible(self, t):
        self.light.push()
        self.light.add(t)
        r = self.light.check()
        self.light.pop()
        self.session.nfeas += 1
        return r != z3.unsat

    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(d)
            val = (d == 0 or d == 2)
            self.assume(cond if val else z3.Not(cond))
            return val
        # codes: 0 true(open) 1 false(open) 2 true(forced) 3 false(forced)
        if _has_seq(c):
            ft = ff = True
        else:
            ft = self.feasible(cond)
            ff = self.feasible(z3.Not(cond))
        if ft and ff:
            self.session.push(self.prefix_so_far() + [1])
            d = 0
        elif ft:
            d = 2
        elif ff:
            d = 3
        else:
            raise PathEnd()
        self.pos += 1
        self.trace.append(d)
        val = (d == 0 or d == 2)
        self.assume(cond if val else z3.Not(cond))
        return val

    # -- proving
    def prove(self, cond, timeout=None, second=True):
        """('yes',None) / ('no',model) / ('unknown',reason)"""
        if cond is True:
            return 'yes', None
        if self.pos < len(self.prefix):
            # decided on the sibling path that shares this prefix
            return 'yes', None
        if cond is False:
            cond = z3.BoolVal(False)
        c = z3.simplify(cond)
        if z3.is_true(c):
            return 'yes', None
        t0 = time.time()
        self.session.nprove += 1
        timeout = timeout or self.session.prove_timeout
        s = self.full_solver()
        s.set('timeout', min(timeout, 2000))
        s.push()
        s.add(z3.Not(cond))
        r = s.check()
        s.pop()
        if r != z3.unsat:
            # a fresh solver is stronger, and gives the model
            s = z3.Solver()
            s.set('timeout', timeout)
            for p in self.pc:
                s.add(p)
            s.add(z3.Not(cond))
            r = s.check()
        self.session.solver_s += time.time() - t0
        if r == z3.unsat:
            self.session.by_z3 += 1
            return 'yes', None
        if r == z3.sat:
            return 'no', s.model()
        if not second:
            return 'unknown', s.reason_unknown()
        t0 = time.time()
        r2 = cvc5_check(s, 20)
        self.session.solver_s += time.time() - t0
        if r2 == 'unsat':
            self.session.by_cvc5 += 1
            return 'yes', None
        if r2 == 'sat':
            return 'no', None
        return 'unknown', s.reason_unknown()

    def full_solver(self):
        if self.solver is None:
            self.solver = z3.Solver()
            self.nsolver = 0
        while self.nsolver < len(self.pc):
            self.solver.add(self.pc[self.nsolver])
            self.nsolver += 1
        return self.solver

    def consistent(self):
        s = z3.Solver()
        s.set('timeout', 5000)
        for p in self.pc:
            s.add(p)
        return s.check() != z3.unsat


def cvc5_check(solver, secs):
    import subprocess
    import tempfile
    txt = solver.to_smt2()
    txt = '(set-logic ALL)\n' + '\n'.join(
        l for l in txt.splitlines() if not l.startswith('(set-info'))
    fd, p = tempfile.mkstemp(suffix='.smt2')
    try:
        with os.fdopen(fd, 'w') as f:
            f.write(txt)
        try:
            out = subprocess.run(
                ['cvc5', '--strings-exp', '--tlimit=%d' % (secs * 1000), p],
                capture_output=True, text=True, timeout=secs + 5).stdout
        except (OSError, subprocess.TimeoutExpired):
            return 'unknown'
        w = out.strip().splitlines()
        return w[0] if w else 'unknown'
    finally:
        os.unlink(p)


_seq_cache = {}


def _has_seq(t):
    """True if the term mentions a token sequence (kept out of the branch
    solver, which only prunes).  Cached terms are kept alive, so their ids
    stay valid."""
    key = t.get_id()
    r = _seq_cache.get(key)
    if r is not None:
        return r[0]
    so = t.sort()
    if so.kind() == z3.Z3_SEQ_SORT and so != StrS:
        res = True
    elif z3.is_quantifier(t):
        res = _has_seq(t.body())
    else:
        res = False
        for c in t.children():
            if _has_seq(c):
                res = True
                break
    _seq_cache[key] = (res, t)
    return res


# ---------------------------------------------------------------- session
class LoopInfo(object):
    def __init__(self, key):
        self.key = key
        self.mods = set()
        self.live = set()
        self.shapes = []
        self.dropped = set()
        self.kept = set()
        self.tried = set()
        self.reached = False

    def more(self, kind, key):
        """A new modified or live variable: the known shapes lack it."""
        s = self.mods if kind == 'mods' else self.live
        if key not in s:
            s.add(key)
            self.shapes = []
            self.dropped = set()
            self.tried = set()


class Obligation(object):
    def __init__(self, label):
        self.label = label
        self.status = 'yes'
        self.paths = 0
        self.detail = None


class Session(object):
    """Verification of one function against one contract."""

    def __init__(self, name, engine, budget_s=240):
        self.name = name
        self.engine = engine
        self.loops = {}
        self.budget_s = budget_s
        self.t0 = time.time()
        self.branch_timeout = 3000
        self.prove_timeout = 20000
        self.inv_timeout = 5000
        self.solver_s = 0.0
        self.nprove = 0
        self.nfeas = 0
        self.by_z3 = 0
        self.by_cvc5 = 0
        self.paths = 0
        self.exits = {}
        self.obls = {}
        self.inlined = set()
        self.used_contracts = set()
        self.assumed = set()
        self.work = []
        self.changed = False
        self.passes = 0
        self.peel = 0       # > 0: loops are executed, up to so many rounds

    def push(self, prefix):
        self.work.append(prefix)

    def obligation(self, path, label, cond, info=None):
        o = self.obls.get(label)
        if o is None:
            o = self.obls[label] = Obligation(label)
        o.paths += 1
        st, model = path.prove(cond)
        if st != 'yes':
            rank = {'yes': 0, 'unknown': 1, 'no': 2}
            if rank[st] > rank[o.status]:
                o.status = st
                o.detail = {
                    'info': info, 'condition': str(z3.simplify(cond))[:1500]
                    if not isinstance(cond, bool) else str(cond),
                    'path_condition': [str(p)[:200] for p in path.pc][-25:],
                    'model': (str(model)[:2000] if model is not None else None),
                    'notes': path.notes[-30:],
                }
        return st

    def explore(self, run):
        """run(path) executes the function once; explores all decisions."""
        self.passes_of(run)
        if self.loops and self.refuted():
            self.confirm(run)

    def refuted(self):
        return [o for o in self.obls.values() if o.status == 'no']

    def confirm(self, run):
        """An obligation may fail only because the invariant found for a loop
        does not say enough.  It counts as refuted if one also fails when the
        loops are executed, for at most two rounds, from known states; when
        none does, it is not decided (the two rounds end with the time)."""
        obls, reach = self.obls, self.paths
        self.t0 = time.time()
        self.budget_s = max(20, self.budget_s * .45)
        for self.peel in (1, 2):
            try:
                self.passes_of(run)
            except Unsupported:
                # not all of it could be executed: it stands, unless
                # nothing failed with one round and in part of the second
                if not self.refuted() and (self.peel == 1 or self.paths < 50):
                    self.obls, self.paths = obls, reach
                    return
            bad = self.refuted()
            if bad:
                for o in bad:
                    o.detail['loops'] = 'executed for at most %d rounds' % (
                        self.peel)
                    obls[o.label] = o
                self.obls, self.paths = obls, reach
                return
        self.obls, self.paths = {}, reach
        for label, o in obls.items():
            if o.status == 'no':
                o.status = 'unknown'
                label += ' (it holds when the loops run at most once or twice)'
            self.obls[label] = o

    def passes_of(self, run):
        while True:
            self.passes += 1
            if self.passes > 60:
                raise Unsupported('loop inference does not converge')
            self.changed = False
            self.obls = {}
            self.paths = 0
            self.exits = {}
            self.work = [[]]
            restarted = False
            while self.work:
                if time.time() - self.t0 > self.budget_s:
                    raise Unsupported('time budget of %ds exceeded'
                                      % self.budget_s)
                prefix = self.work.pop()
                path = Path(self, prefix)
                self.paths += 1
                if self.paths > 6000:
                    raise Unsupported('too many paths')
                try:
                    run(path)
                except PathEnd:
                    pass
                except Restart:
                    restarted = True
                    break
                if self.peel and self.refuted():
                    return
            if not restarted and not self.changed:
                return

    def loopinfo(self, key):
        if key not in self.loops:
            self.loops[key] = LoopInfo(key)
        return self.loops[key]


# ----------------------------------------------------------------- frames
class Frame(object):
    def __init__(self, fn, node, glob, closure, defcls, callid):
        self.fn = fn
        self.node = node
        self.glob = glob
        self.closure = closure    # Frame or None
        self.cells = {}
        self.locals = {}
        self.defcls = defcls
        self.callid = callid
        self.loopno = {}
        self.on_yield = None
        self.hid = 0
        if fn is not None and getattr(fn, '__closure__', None):
            for n, c in zip(fn.__code__.co_freevars, fn.__closure__):
                try:
                    self.cells[n] = c.cell_contents
                except ValueError:
                    pass
        self.globals_decl = set()


class ActiveLoop(object):
    def __init__(self, info, names, frames, stamp):
        self.info = info
        self.names = names      # id(obj) -> path
        self.frames = frames    # list of frames live at entry
        self.stamp = stamp
        self.keep = []          # keep ids alive


def ast_loops(node):
    n = 0
    out = {}
    for x in ast.walk(node):
        if isinstance(x, (ast.While, ast.For, ast.ListComp, ast.GeneratorExp,
                          ast.SetComp, ast.DictComp)):
            out[x] = n
            n += 1
    return out


_loopno_cache = {}


# ------------------------------------------------------------ interpreter
class Interp(object):
    """Executes the AST of real functions on symbolic values."""

    def __init__(self, engine, session, path):
        self.e = engine
        self.s = session
        self.p = path
        self.frames = []
        self.indexed = []   # (list, unchanged?, place, what stands there)
        self.active = []          # active loops
        self.depth = 0
        self.entry_stamp = None   # objects older than this belong to the caller
        self.may_modify = None    # callable(obj, field) -> bool
        self.top = None

    # ---- object creation
    ncuts = 0

    def new_list(self, items=None, kind=None, frozen=False):
        return LList(items or [], self.p.tick(), kind, frozen)

    def new_obj(self, cls, fields=None):
        return Obj(cls, self.p.tick(), fields)

    # ---- write tracking
    def note_write(self, obj, field):
        if self.entry_stamp is not None and obj.stamp <= self.entry_stamp:
            if self.may_modify is None or not self.may_modify(obj, field):
                self.s.obligation(
                    self.p, 'frame: only declared objects are modified',
                    z3.BoolVal(False),
                    'write to %r field %s' % (obj, field))
        for al in self.active:
            if obj.stamp <= al.stamp:
                nm = al.names.get(id(obj))
                if nm is None:
                    raise Unsupported(
                        'loop writes to an object it cannot name (%r.%s)'
                        % (obj, field))
                key = ('f', nm, field)
                if key not in al.info.mods:
                    al.info.more('mods', key)
                    raise Restart()

    def note_var_write(self, frame, name):
        for al in self.active:
            if any(f is frame for f in al.frames):
                fi = [i for i, f in enumerate(al.frames) if f is frame][0]
                key = ('v', fi, name)
                if key not in al.info.mods:
                    al.info.more('mods', key)
                    raise Restart()

    # ---- variables
    def lookup(self, frame, name):
        f = frame
        while f is not None:
            if name in f.locals:
                v = f.locals[name]
                if isinstance(v, Poison):
                    v.info.more('live', v.key)
                    raise Restart()
                if v is UNBOUND:
                    raise PyExc(UnboundLocalError, None, name)
                return v
            if name in f.cells:
                return self.lift(f.cells[name])
            if f.closure is None:
                break
            f = f.closure
        g = frame.glob
        if name in g:
            return self.lift_global(g, name)
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise PyExc(NameError, None, name)

    def lift_global(self, g, name):
        key = (id(g), name)
        cache = self.p.ghost.setdefault('globals', {})
        if key in cache:
            return cache[key]
        ov = self.e.global_override(g.get('__name__'), name)
        v = ov(self) if ov is not None else self.lift(g[name])
        cache[key] = v
        return v

    def lift(self, v, stamp=0):
        """Turn a real Python value met in the environment into a value the
        interpreter can use (mutable containers are copied)."""
        if isinstance(v, list):
            return LList([El(self.lift(x, stamp)) for x in v], stamp)
        if type(v) is dict:
            return DDict({k: self.lift(x, stamp) for k, x in v.items()},
                         stamp)
        if isinstance(v, (set, frozenset)):
            return SSet(set(v), stamp)
        return v

    def store(self, frame, name, v):
        if name in frame.globals_decl:
            raise Unsupported('assignment to a global')
        self.note_var_write(frame, name)
        frame.locals[name] = v

    # ---- truth and equality
    def truth(self, v):
        if isinstance(v, SBool):
            return self.p.branch(v.t)
        return self.p.branch(self.truth_term(v))

    def truth_term(self, v):
        if v is None:
            return False
        if isinstance(v, SBool):
            return v.t
        if isinstance(v, SInt):
            return v.t != 0
        if isinstance(v, SStr):
            return v.t != z3.StringVal('')
        if isinstance(v, LList):
            return self.len_term(v) > 0 if not v.explicit() else bool(v.items)
        if isinstance(v, (DDict, SSet)) and v.unk:
            return self.p.fresh(z3.BoolSort(), 'nonempty')
        if isinstance(v, DDict):
            return bool(v.d)
        if isinstance(v, SSet):
            return bool(v.s)
        if isinstance(v, (STok, SEnum, BoundMethod, Closure, Builtin)):
            return True
        if isinstance(v, Opaque):
            h = self.e.tag(v.tag)
            return h.truth(self, v)
        if isinstance(v, Obj):
            for nm in ('__bool__', '__len__'):
                if self.class_attr(v.cls, nm) is not None:
                    r = self.call(self.getattr(v, nm), [], {})
                    return self.truth_term(r)
            return True
        if isinstance(v, GenObj):
            return True
        return bool(v)

    def len_term(self, v):
        n = z3.IntVal(0)
        for it in v.items:
            if isinstance(it, El):
                n = n + 1
            else:
                n = n + it.m['n']
        return n

    def eq_term(self, a, b, identity=False):
        if a is b:
            return True
        for x, y in ((a, b), (b, a)):
            if isinstance(x, SEnum):
                if isinstance(y, SEnum):
                    return x.t == y.t if x.cls is y.cls else False
                if isinstance(y, x.cls):
                    return x.t == y.value
                return False
            if isinstance(x, Opaque):
                h = self.e.tag(x.tag)
                return h.eq(self, x, y)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, STok):
                if isinstance(y, STok):
                    return x.t == y.t
                return False
            if isinstance(x, SInt):
                if isinstance(y, SInt):
                    return x.t == y.t
                if isinstance(y, bool):
                    return x.t == int(y)
                if isinstance(y, int):
                    return x.t == y
                if isinstance(y, SBool):
                    return x.t == z3.If(y.t, 1, 0)
                return False
            if isinstance(x, SStr):
                if isinstance(y, SStr):
                    return x.t == y.t
                if isinstance(y, str):
                    return x.t == z3.StringVal(y)
                return False
            if isinstance(x, SBool):
                if isinstance(y, SBool):
                    return x.t == y.t
                if isinstance(y, bool):
                    return x.t if y else z3.Not(x.t)
                if isinstance(y, int):
                    return z3.If(x.t, 1, 0) == y
                return False
        if isinstance(a, LList) and isinstance(b, (LList, tuple)) or \
                isinstance(b, LList) and isinstance(a, tuple):
            la = a.items if isinstance(a, LList) else [El(x) for x in a]
            lb = b.items if isinstance(b, LList) else [El(x) for x in b]
            if identity:
                return False
            if all(isinstance(i, El) for i in la + lb):
                if len(la) != len(lb):
                    return False
                return self.conj([self.eq_term(x.v, y.v)
                                  for x, y in zip(la, lb)])
            raise Unsupported('comparison of unknown lists')
        if isinstance(a, tuple) and isinstance(b, tuple) and not identity:
            if len(a) != len(b):
                return False
            return self.conj([self.eq_term(x, y) for x, y in zip(a, b)])
        if isinstance(a, Obj) or isinstance(b, Obj):
            o = a if isinstance(a, Obj) else b
            if not identity and isinstance(o, Obj) \
                    and self.class_attr(o.cls, '__eq__') not in (
                        None, object.__eq__):
                raise Unsupported('__eq__ of %s' % o.cls)
            if isinstance(a, Obj) and isinstance(b, Obj):
                al = self.p.ghost.get('mayalias')
                if al and al(a, b):
                    raise Unsupported('aliasing of unknown objects')
            return False
        if isinstance(a, (DDict, SSet, Closure, BoundMethod)) or isinstance(
                b, (DDict, SSet, Closure, BoundMethod)):
            if identity or not type(a) is type(b):
                return False
            raise Unsupported('comparison of containers')
        if identity:
            if isinstance(a, (int, str)) and isinstance(b, (int, str)):
                return a == b and type(a) is type(b)
            return a is b
        return a == b

    def conj(self, ts):
        out = []
        for t in ts:
            if t is True:
                continue
            if t is False:
                return False
            out.append(t)
        if not out:
            return True
        return z3.And(out) if len(out) > 1 else out[0]

    def disj(self, ts):
        out = []
        for t in ts:
            if t is False:
                continue
            if t is True:
                return True
            out.append(t)
        if not out:
            return False
        return z3.Or(out) if len(out) > 1 else out[0]

    def neg(self, t):
        if isinstance(t, bool):
            return not t
        return z3.Not(t)

    def mkbool(self, t):
        if isinstance(t, bool):
            return t
        return SBool(t)

    def contains_term(self, item, coll):
        if isinstance(coll, (tuple, list)):
            return self.disj([self.eq_term(item, x) for x in coll])
        if isinstance(coll, LList):
            if coll.explicit():
                return self.disj([self.eq_term(item, x.v) for x in coll.items])
            r = self.e.list_contains(self, item, coll)
            if r is not None:
                return r
            raise Unsupported('membership in an unknown list')
        if isinstance(coll, (DDict, SSet)) and coll.unk:
            return self.p.fresh(z3.BoolSort(), 'in')
        if isinstance(coll, DDict):
            return self.disj([self.eq_term(item, k) for k in coll.d])
        if isinstance(coll, SSet):
            return self.disj([self.eq_term(item, k) for k in coll.s])
        if isinstance(coll, (str, SStr)):
            if isinstance(item, str) and isinstance(coll, str):
                return item in coll
            return z3.Contains(self.strterm(coll), self.strterm(item))
        if isinstance(coll, (dict, set, frozenset)):
            return self.disj([self.eq_term(item, k) for k in coll])
        if isinstance(coll, Opaque):
            return self.e.tag(coll.tag).contains(self, coll, item)
        if isinstance(coll, Obj):
            f = self.class_attr(coll.cls, '__contains__')
            if f is not None and in_repo(underlying(f)):
                return self.truth_term(
                    self.call(self.getattr(coll, '__contains__'), [item], {}))
            if '__items__' in coll.fields:
                return self.disj([self.eq_term(item, x)
                                  for x in coll.fields['__items__']])
        raise Unsupported('membership in %r' % (coll,))

    def strterm(self, v):
        if isinstance(v, SStr):
            return v.t
        if isinstance(v, str):
            return z3.StringVal(v)
        raise Unsupported('not a string: %r' % (v,))

    def intterm(self, v):
        if isinstance(v, SInt):
            return v.t
        if isinstance(v, SBool):
            return z3.If(v.t, 1, 0)
        if isinstance(v, bool):
            return z3.IntVal(int(v))
        if isinstance(v, int):
            return z3.IntVal(v)
        raise Unsupported('not an integer: %r' % (v,))

    def is_sym(self, v):
        if isinstance(v, (SV, Opaque, Obj, LList, DDict, SSet, Closure,
                          BoundMethod, GenObj, Builtin, SuperProxy)):
            return True
        if isinstance(v, tuple):
            return any(self.is_sym(x) for x in v)
        return False

    # ---- attributes
    def class_attr(self, cls, name):
        for k in cls.__mro__:
            if name in k.__dict__:
                return k.__dict__[name]
        return None

    def class_attr_owner(self, cls, name, after=None):
        mro = list(cls.__mro__)
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for k in mro:
            if name in k.__dict__:
                return k.__dict__[name], k
        return None, None

    def getattr(self, v, name):
        p = self.p
        ov = self.e.attr_override(self, v, name)
        if ov is not None:
            return ov[0]
        if isinstance(v, Obj):
            a, owner = self.class_attr_owner(v.cls, name)
            if isinstance(a, property):
                return self.call_function(underlying(a.fget), [v], {}, owner)
            if a is not None and hasattr(type(a), '__get__') and hasattr(
                    type(a), '__set__') and not isinstance(
                        a, types.FunctionType):
                if in_repo(type(a)):
                    g = self.class_attr(type(a), '__get__')
                    return self.call_function(
                        underlying(g), [a, v, v.cls], {}, type(a))
            if name in v.fields:
                return v.fields[name]
            if name == '__class__':
                return v.cls
            if name == '__dict__':
                return DDict(dict(v.fields), v.stamp)
            if a is not None:
                return self.bind(a, v, owner)
            if v.lazy is not None:
                r = v.lazy(self, v, name)
                if r is not UNBOUND:
                    return r
            raise PyExc(AttributeError, None, '%r.%s' % (v, name))
        if isinstance(v, STok):
            return self.e.tok_attr(self, v, name)
        if isinstance(v, SEnum):
            return self.e.enum_attr(self, v, name)
        if isinstance(v, Opaque):
            return self.e.tag(v.tag).getattr(self, v, name)
        if isinstance(v, SuperProxy):
            if isinstance(v.obj, Opaque):
                return self.e.tag(v.obj.tag).super_getattr(
                    self, v.obj, v.cls, name)
            a, owner = self.class_attr_owner(
                v.obj.cls if isinstance(v.obj, Obj) else v.obj, name, v.cls)
            if a is None:
                raise PyExc(AttributeError, None, name)
            if name == '__init__' and owner is object:
                return Builtin('object.__init__', lambda i, a, k: None)
            if name == '__new__':
                return a
            return self.bind(a, v.obj, owner)
        if isinstance(v, (LList, DDict, SSet, SStr, SInt, str, tuple)):
            m = self.e.method_model(self, v, name)
            if m is not None:
                return m
            if isinstance(v, tuple) and hasattr(v, name) and not hasattr(
                    tuple, name):
                return getattr(v, name)
            raise Unsupported('attribute %s of %r' % (name, type(v).__name__))
        if isinstance(v, type):
            a, owner = self.class_attr_owner(v, name)
            if a is None:
                if hasattr(v, name):
                    return getattr(v, name)
                raise PyExc(AttributeError, None, '%s.%s' % (v, name))
            if isinstance(a, classmethod):
                return BoundMethod(underlying(a), v, owner)
            if isinstance(a, staticmethod):
                return underlying(a)
            if isinstance(a, types.FunctionType):
                return a
            if isinstance(a, property):
                return a
            return self.lift(getattr(v, name))
        if isinstance(v, Closure):
            if name == '__name__':
                return v.name
        # plain Python object (module, enum constant, function ...)
        if isinstance(v, types.ModuleType):
            if not hasattr(v, name):
                raise PyExc(AttributeError, None, name)
            return self.lift_global(v.__dict__, name) if name in v.__dict__ \
                else getattr(v, name)
        if hasattr(v, name):
            a, owner = self.class_attr_owner(type(v), name)
            if isinstance(a, types.FunctionType) and in_repo(a):
                return BoundMethod(a, v, owner)
            return self.lift(getattr(v, name))
        raise PyExc(AttributeError, None, '%r.%s' % (v, name))

    def bind(self, a, v, owner):
        if isinstance(a, types.FunctionType):
            return BoundMethod(a, v, owner)
        if isinstance(a, classmethod):
            cls = v.cls if isinstance(v, Obj) else v
            return BoundMethod(underlying(a), cls, owner)
        if isinstance(a, staticmethod):
            return underlying(a)
        return self.lift(a)

    def setattr(self, v, name, val):
        if isinstance(v, Obj):
            a, owner = self.class_attr_owner(v.cls, name)
            if isinstance(a, property):
                if a.fset is None:
                    raise PyExc(AttributeError, None, name)
                self.call_function(underlying(a.fset), [v, val], {}, owner)
                return
            if a is not None and hasattr(type(a), '__set__') and in_repo(
                    type(a)):
                s = self.class_attr(type(a), '__set__')
                self.call_function(underlying(s), [a, v, val], {}, type(a))
                return
            self.note_write(v, name)
            v.fields[name] = val
            return
        if isinstance(v, Opaque):
            self.e.tag(v.tag).setattr(self, v, name, val)
            return
        raise Unsupported('assignment to attribute %s of %r' % (name, v))

    # ---- calls
    def call(self, f, args, kwargs):
        if isinstance(f, BoundMethod):
            return self.call_function(f.fn, [f.self_] + list(args), kwargs,
                                      f.defcls)
        if isinstance(f, Builtin):
            return f.fn(self, args, kwargs)
        if isinstance(f, Closure):
            return self.call_closure(f, args, kwargs)
        if isinstance(f, Opaque):
            return self.e.tag(f.tag).call(self, f, args, kwargs)
        if isinstance(f, Obj):
            m = self.getattr(f, '__call__')
            return self.call(m, args, kwargs)
        if isinstance(f, functools.partial):
            kw = dict(f.keywords)
            kw.update(kwargs)
            return self.call(f.func, list(f.args) + list(args), kw)
        m = self.e.call_model(self, f, args, kwargs)
        if m is not None:
            return m[0]
        if isinstance(f, type):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, types.MethodType):
            return self.call_function(f.__func__, [f.__self__] + list(args),
                                      kwargs)
        if isinstance(f, types.FunctionType):
            return self.call_function(f, args, kwargs)
        if callable(f) and in_repo(type(f)):
            c = self.class_attr(type(f), '__call__')
            return self.call_function(underlying(c), [f] + list(args), kwargs,
                                      type(f))
        if callable(f) and not any(self.is_sym(a) for a in args) and not any(
                self.is_sym(a) for a in kwargs.values()):
            return self.native(f, args, kwargs)
        raise Unsupported('call of %r' % (f,))

    def native(self, f, args, kwargs):
        if not self.e.native_ok(f):
            raise Unsupported('call of external %r' % (f,))
        try:
            return self.lift(f(*args, **kwargs), self.p.tick())
        except Exception as ex:  # noqa
            raise PyExc(type(ex), ex)

    def instantiate(self, cls, args, kwargs):
        if isinstance(cls, type) and issubclass(cls, BaseException):
            o = self.new_obj(cls)
            o.fields['args'] = tuple(args)
            if in_repo(cls):
                o.fields['msg'] = args[0] if args else kwargs.get('msg')
            return o
        if not in_repo(cls):
            if not any(self.is_sym(a) for a in args) and not any(
                    self.is_sym(a) for a in kwargs.values()) \
                    and self.e.native_ok(cls):
                return self.native(cls, args, kwargs)
            raise Unsupported('instantiation of %r' % cls)
        new, owner = self.class_attr_owner(cls, '__new__')
        if issubclass(cls, tuple):
            if new is not None and owner is not tuple and in_repo(
                    underlying(new)):
                return self.call_function(underlying(new), [cls] + list(args),
                                          kwargs, owner)
            if hasattr(cls, '_fields'):
                vals = list(args)
                for nm in cls._fields[len(vals):]:
                    vals.append(kwargs[nm])
                o = self.new_obj(cls)
                o.fields['__items__'] = tuple(vals)
                for nm, x in zip(cls._fields, vals):
                    o.fields[nm] = x
                return o
            return self.make_tuple_obj(cls, args[0] if args else ())
        o = self.new_obj(cls)
        init, owner = self.class_attr_owner(cls, '__init__')
        if init is not None and owner is not object:
            self.call_function(underlying(init), [o] + list(args), kwargs,
                               owner)
        return o

    def make_tuple_obj(self, cls, seq):
        o = self.new_obj(cls)
        o.fields['__items__'] = tuple(self.iter_explicit(seq))
        return o

    def iter_explicit(self, v):
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, LList) and v.explicit():
            return [i.v for i in v.items]
        if isinstance(v, (DDict, SSet)) and v.unk:
            raise Unsupported('unknown container')
        if isinstance(v, Opaque):
            r = self.e.tag(v.tag).iterate(self, v)
            if isinstance(r, LList) and r.explicit():
                return [i.v for i in r.items]
        if isinstance(v, DDict):
            return list(v.d)
        if isinstance(v, Obj):
            if '__items__' in v.fields:
                return list(v.fields['__items__'])
            if self.class_attr(v.cls, '__getitem__') is not None and \
                    self.class_attr(v.cls, '__iter__') is None:
                out = []
                for i in range(64):
                    try:
                        out.append(self.call(self.getattr(v, '__getitem__'),
                                             [i], {}))
                    except PyExc as ex:
                        if issubclass(ex.cls, IndexError):
                            return out
                        raise
        if isinstance(v, str):
            return list(v)
        if isinstance(v, (range, list, dict)):
            return list(v)
        if isinstance(v, SSet):
            return sorted(v.s, key=repr)
        raise Unsupported('iteration over %r' % (v,))

    def call_function(self, fn, args, kwargs, defcls=None):
        fn = underlying(fn)
        if not isinstance(fn, types.FunctionType):
            m = self.e.call_model(self, fn, args, kwargs)
            if m is not None:
                return m[0]
            if fn is object.__init__:
                return None
            raise Unsupported('call of %r' % (fn,))
        c = self.e.contract_for(fn)
        if c is not None and not (self.top is fn and self.depth == 0):
            ba = self.bind_args(fn, args, kwargs)
            self.s.used_contracts.add(self.e.qualname(fn))
            return c.apply(self, fn, ba)
        m = self.e.call_model(self, fn, args, kwargs)
        if m is not None:
            return m[0]
        if not in_repo(fn):
            if not any(self.is_sym(a) for a in args) and not any(
                    self.is_sym(a) for a in kwargs.values()):
                return self.native(fn, args, kwargs)
            raise Unsupported('call of external function %s.%s'
                              % (fn.__module__, fn.__qualname__))
        return self.run_function(fn, args, kwargs, defcls)

    def bind_args(self, fn, args, kwargs):
        node = func_ast(fn)
        return self._bind(node, args, kwargs, fn, None)

    def _bind(self, node, args, kwargs, fn, defframe):
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        kwargs = dict(kwargs)
        if len(args) > len(names):
            if a.vararg is None:
                raise PyExc(TypeError, None, 'too many arguments')
            out[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            out[a.vararg.arg] = ()
        for n, v in zip(names, args):
            out[n] = v
        for n in names[len(args):] + [x.arg for x in a.kwonlyargs]:
            if n in kwargs:
                out[n] = kwargs.pop(n)
        if kwargs:
            if a.kwarg is None:
                raise PyExc(TypeError, None, 'unexpected keyword')
            out[a.kwarg.arg] = self.e.kwargs_map(self, kwargs)
        elif a.kwarg is not None:
            out[a.kwarg.arg] = self.e.kwargs_map(self, {})
        # defaults
        if fn is not None:
            d = fn.__defaults__ or ()
            for n, v in zip(names[len(names) - len(d):], d):
                if n not in out:
                    out[n] = self.lift(v)
            for n, v in (fn.__kwdefaults__ or {}).items():
                if n not in out:
                    out[n] = self.lift(v)
        else:
            d = a.defaults
            for n, v in zip(names[len(names) - len(d):], d):
                if n not in out:
                    out[n] = self.eval(v, defframe)
        for n in names:
            if n not in out:
                raise PyExc(TypeError, None, 'missing argument %s' % n)
        return out

    def run_function(self, fn, args, kwargs, defcls=None):
        node = func_ast(fn)
        if self.depth > MAX_DEPTH:
            raise Unsupported('inlining too deep at %s' % fn.__qualname__)
        if self.frames:
            self.s.inlined.add(self.e.qualname(fn))
            cnt = sum(1 for f in self.frames if f.fn is fn)
            if cnt > 3:
                raise Unsupported('recursion of %s without a contract'
                                  % fn.__qualname__)
        ba = self.bind_args(fn, args, kwargs)
        callid = tuple(f.callid[-1] + '@%d' % getattr(f, 'line', 0)
                       for f in self.frames) + (self.e.qualname(fn),)
        fr = Frame(fn, node, fn.__globals__, None,
                   defcls or self.defining_class(fn), callid)
        fr.locals.update(ba)
        return self.run_frame(fr, node)

    def defining_class(self, fn):
        q = fn.__qualname__.split('.')
        if len(q) < 2 or '<locals>' in q:
            return None
        o = sys.modules.get(fn.__module__)
        try:
            for part in q[:-1]:
                o = getattr(o, part)
        except AttributeError:
            return None
        return o if isinstance(o, type) else None

    def call_closure(self, c, args, kwargs):
        ba = self._bind(c.node, args, kwargs, None, c.frame)
        callid = c.frame.callid + ('<%s>' % c.name,)
        fr = Frame(None, c.node, c.frame.glob, c.frame, c.frame.defcls, callid)
        fr.locals.update(ba)
        if isinstance(c.node, ast.Lambda):
            self.frames.append(fr)
            self.depth += 1
            try:
                return self.eval(c.node.body, fr)
            finally:
                self.depth -= 1
                self.frames.pop()
        return self.run_frame(fr, c.node)

    def run_frame(self, fr, node):
        if not isinstance(node, ast.Lambda) and is_generator(node):
            def gen(cb):
                fr.on_yield = cb
                self.frames.append(fr)
                self.depth += 1
                try:
                    self.exec_block(node.body, fr)
                except ReturnSig:
                    pass
                finally:
                    self.depth -= 1
                    self.frames.pop()
            return GenObj(gen)
        self.frames.append(fr)
        self.depth += 1
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, fr)
            self.exec_block(node.body, fr)
            return None
        except ReturnSig as r:
            return r.val
        finally:
            self.depth -= 1
            self.frames.pop()

    # ---- statements
    def exec_block(self, stmts, fr):
        for st in stmts:
            self.exec(st, fr)

    def exec(self, st, fr):
        fr.line = getattr(st, 'lineno', 0)
        m = getattr(self, 'x_' + type(st).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(st).__name__)
        return m(st, fr)

    def x_Pass(self, st, fr):
        pass

    def x_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        if isinstance(st.value, ast.Yield):
            self.do_yield(st.value, fr)
            return
        self.eval(st.value, fr)

    def do_yield(self, node, fr):
        v = None if node.value is None else self.eval(node.value, fr)
        if fr.on_yield is None:
            raise Unsupported('yield')
        fr.on_yield(v)
        return None

    def x_Return(self, st, fr):
        raise ReturnSig(None if st.value is None else self.eval(st.value, fr))

    def x_Break(self, st, fr):
        raise BreakSig()

    def x_Continue(self, st, fr):
        raise ContinueSig()

    def x_Import(self, st, fr):
        for a in st.names:
            try:
                m = __import__(a.name)
            except ImportError:
                raise PyExc(ImportError)
            if a.asname:
                for part in a.name.split('.')[1:]:
                    m = getattr(m, part)
            self.store(fr, a.asname or a.name.split('.')[0], m)

    def x_ImportFrom(self, st, fr):
        try:
            m = __import__(st.module, fromlist=[a.name for a in st.names])
        except ImportError:
            raise PyExc(ImportError)
        for a in st.names:
            if not hasattr(m, a.name):
                try:
                    __import__(st.module + '.' + a.name)
                except ImportError:
                    raise PyExc(ImportError)
            self.store(fr, a.asname or a.name, self.lift(getattr(m, a.name)))

    def x_Global(self, st, fr):
        fr.globals_decl.update(st.names)

    def x_FunctionDef(self, st, fr):
        if st.decorator_list:
            raise Unsupported('decorated nested function')
        self.store(fr, st.name, Closure(st, fr, st.name))

    def x_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.note_var_write(fr, t.id)
                fr.locals[t.id] = UNBOUND
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, fr)
                k = self.eval(t.slice, fr)
                self.e.delitem(self, o, k)
            else:
                raise Unsupported('del')

    def x_Assign(self, st, fr):
        v = self.eval(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, fr), fr)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store(fr, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            k = self.eval_slice(t.slice, fr)
            self.e.setitem(self, o, k, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts), t.elts)
            for x, y in zip(t.elts, vals):
                self.assign(x, y, fr)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, n, elts):
        if any(isinstance(e, ast.Starred) for e in elts):
            raise Unsupported('starred unpacking')
        if isinstance(v, Opaque) and v.tag == 'any':
            return [Opaque('any', 'part') for _ in range(n)]
        vals = self.iter_explicit(v)
        if len(vals) != n:
            raise PyExc(ValueError, None, 'unpack')
        return vals

    def x_AugAssign(self, st, fr):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(fr, t.id)
            v = self.eval(st.value, fr)
            r = self.inplace(st.op, cur, v)
            self.store(fr, t.id, r)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            cur = self.getattr(o, t.attr)
            v = self.eval(st.value, fr)
            self.setattr(o, t.attr, self.inplace(st.op, cur, v))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            k = self.eval_slice(t.slice, fr)
            cur = self.e.getitem(self, o, k)
            v = self.eval(st.value, fr)
            self.e.setitem(self, o, k, self.inplace(st.op, cur, v))
        else:
            raise Unsupported('augmented assignment')

    def inplace(self, op, cur, v):
        if isinstance(cur, LList) and isinstance(op, ast.Add):
            self.note_write(cur, 'items')
            cur.items.extend(self.items_of(v))
            return cur
        return self.binop(op, cur, v)

    def items_of(self, v):
        if isinstance(v, LList):
            return v.copy_items()
        return [El(x) for x in self.iter_explicit(v)]

    def x_Assert(self, st, fr):
        v = self.eval(st.test, fr)
        if not self.truth(v):
            raise PyExc(AssertionError, None, st.lineno)

    def x_Raise(self, st, fr):
        if st.exc is None:
            cur = getattr(fr, 'handling', None)
            for f in reversed(self.frames):
                cur = getattr(f, 'handling', None)
                if cur is not None:
                    break
            if cur is None:
                raise Unsupported('re-raise')
            raise cur
        ex = st.exc
        if isinstance(ex, ast.Call) and isinstance(
                ex.func, (ast.Name, ast.Attribute)):
            f = self.eval(ex.func, fr)
            if isinstance(f, type) and issubclass(f, BaseException):
                # the message expression is not evaluated
                o = self.new_obj(f)
                o.fields['msg'] = Opaque('any', 'msg')
                o.fields['args'] = ()
                raise PyExc(f, o, st.lineno)
        v = self.eval(ex, fr)
        if isinstance(v, Obj) and isinstance(v.cls, type):
            raise PyExc(v.cls, v, st.lineno)
        if isinstance(v, type):
            raise PyExc(v, None, st.lineno)
        raise Unsupported('raise of %r' % (v,))

    def x_If(self, st, fr):
        if self.truth(self.eval(st.test, fr)):
            self.exec_block(st.body, fr)
        else:
            self.exec_block(st.orelse, fr)

    def x_Try(self, st, fr):
        def body():
            try:
                self.exec_block(st.body, fr)
            except PyExc as ex:
                if ex.cls is _EngineExit:
                    raise
                for h in st.handlers:
                    if h.type is None:
                        match = True
                    else:
                        hc = self.eval(h.type, fr)
                        hcs = hc if isinstance(hc, tuple) else (hc,)
                        match = self.exc_matches(ex.cls, hcs)
                    if match:
                        saved = getattr(fr, 'handling', None)
                        fr.handling = ex
                        try:
                            if h.name:
                                v = ex.val
                                if v is None:
                                    v = self.new_obj(ex.cls, {
                                        'msg': Opaque('any', 'msg'),
                                        'args': ()})
                                self.store(fr, h.name, v)
                            self.exec_block(h.body, fr)
                        finally:
                            fr.handling = saved
                        return
                raise
            else:
                self.exec_block(st.orelse, fr)
        if st.finalbody:
            try:
                body()
            except (PyExc, ReturnSig, BreakSig, ContinueSig, GenStop) as ex:
                self.exec_block(st.finalbody, fr)
                raise ex
            self.exec_block(st.finalbody, fr)
        else:
            body()

    def exc_matches(self, cls, hcs):
        for h in hcs:
            if isinstance(h, type) and isinstance(cls, type) and issubclass(
                    cls, h):
                return True
            if isinstance(cls, Opaque):      # unknown exception class
                if h in (Exception, BaseException):
                    return True
                return self.p.choose(2, 'exc') == 0
        return False

    def x_With(self, st, fr):
        self.with_items(st.items, st.body, fr)

    def with_items(self, items, body, fr):
        if not items:
            self.exec_block(body, fr)
            return
        it = items[0]
        cm = self.eval(it.context_expr, fr)
        if isinstance(cm, GenObj):
            sig = []
            ran = []

            def cb(v):
                ran.append(1)
                if len(ran) > 1:
                    raise Unsupported('context manager yields twice')
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, fr)
                # the body runs in the caller's frame
                top = self.frames.pop()
                self.depth -= 1
                try:
                    self.with_items(items[1:], body, fr)
                except (ReturnSig, BreakSig, ContinueSig) as s:
                    sig.append(s)
                finally:
                    self.frames.append(top)
                    self.depth += 1
            cm.call(cb)
            if not ran:
                raise PyExc(RuntimeError, None, "generator didn't yield")
            if sig:
                raise sig[0]
            return
        if isinstance(cm, (Obj, Opaque)):
            v = self.call(self.getattr(cm, '__enter__'), [], {})
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
            try:
                self.with_items(items[1:], body, fr)
            except PyExc as ex:
                r = self.call(self.getattr(cm, '__exit__'),
                              [ex.cls, ex.val, None], {})
                if r is True:
                    return
                raise
            except (ReturnSig, BreakSig, ContinueSig):
                self.call(self.getattr(cm, '__exit__'), [None] * 3, {})
                raise
            self.call(self.getattr(cm, '__exit__'), [None] * 3, {})
            return
        raise Unsupported('with %r' % (cm,))

    # ---- loops
    def loop_key(self, st, fr):
        node = fr.node
        if node not in _loopno_cache:
            _loopno_cache[node] = ast_loops(node)
        return (fr.callid, _loopno_cache[node].get(st, st.lineno))

    def x_While(self, st, fr):
        if self.e.unroll:
            # complete: the loop must end within the limit on every path
            for _ in range(self.e.unroll):
                if not self.truth(self.eval(st.test, fr)):
                    self.exec_block(st.orelse, fr)
                    return
                try:
                    self.exec_block(st.body, fr)
                except ContinueSig:
                    pass
                except BreakSig:
                    return
            raise Unsupported('a loop that does not end within %d rounds'
                              % self.e.unroll)
        over = counted_while(st)
        if over is not None and type(fr.locals.get(over[0])) is int and \
                fr.locals[over[0]] == 0 and self.eval(
                    st.test.comparators[0].func, fr) is len:
            lst = self.eval(over[1], fr)
            if isinstance(lst, LList) and not lst.explicit():
                self.for_indexed(
                    self.loop_key(st, fr), fr, lst, over[1],
                    ast.copy_location(ast.Name(over[0], ast.Store()), st),
                    st.body[:-1], lambda: self.store(
                        fr, over[0], self.call(len, [lst], {})))
                return
        self.cut_loop(
            self.loop_key(st, fr), fr,
            lambda: self.truth(self.eval(st.test, fr)),
            lambda: self.exec_block(st.body, fr),
            lambda: self.exec_block(st.orelse, fr))

    def for_indexed(self, key, fr, lst, expr, target, stmts, orelse):
        """Iterate over the places of a list: what stands at the current
        place is known, as long as the list is left alone."""
        snap = tuple(lst.items)

        def same():
            return len(snap) == len(lst.items) and all(
                x is y for x, y in zip(snap, lst.items))

        def body(v):
            self.assign(target, v[0], fr)
            e = (lst, same, self.intterm(v[0]), v[1])
            self.indexed.append(e)
            try:
                self.exec_block(stmts, fr)
            finally:
                self.indexed.remove(e)
            if not same() or self.eval(expr, fr) is not lst:
                raise Unsupported('list changed during iteration')
        o = self.new_obj(enumerate)
        o.fields['__enumerate__'] = lst
        o.fields['__start__'] = 0
        self.for_each(key, fr, o, body, orelse)

    def x_For(self, st, fr):
        over = counted_for(st)
        if over is not None and self.eval(st.iter.func, fr) is range and \
                self.eval(st.iter.args[0].func, fr) is len:
            lst = self.eval(over, fr)
            if isinstance(lst, LList) and not lst.explicit():
                self.for_indexed(
                    self.loop_key(st, fr), fr, lst, over, st.target, st.body,
                    lambda: self.exec_block(st.orelse, fr))
                return
        it = self.eval(st.iter, fr)
        self.for_each(
            self.loop_key(st, fr), fr, it,
            lambda v: (self.assign(st.target, v, fr),
                       self.exec_block(st.body, fr)),
            lambda: self.exec_block(st.orelse, fr))

    def for_each(self, key, fr, it, body, orelse=lambda: None):
        """Iterate `body(value)` over `it`."""
        if isinstance(it, GenObj):
            stop = []

            def cb(v):
                # the loop body runs in the consumer's frame
                i = self.frames.index(fr)
                saved = self.frames[i + 1:]
                del self.frames[i + 1:]
                try:
                    body(v)
                except ContinueSig:
                    pass
                except (BreakSig, ReturnSig) as s:
                    stop.append(s)
                    raise GenStop()
                finally:
                    self.frames.extend(saved)
            nfr = len(self.frames)
            try:
                it.call(cb)
            except GenStop:
                del self.frames[nfr:]
                if not stop:
                    raise
                if isinstance(stop[-1], ReturnSig):
                    raise stop[-1]
                return
            orelse()
            return
        enum0 = None
        if isinstance(it, Obj) and it.fields.get('__enumerate__') is not None:
            enum0 = it.fields['__start__']
            if it.fields.get('__range__'):
                inner, i0 = body, enum0

                def body(v, inner=inner):
                    inner(v[0])
            it = it.fields['__enumerate__']
        if isinstance(it, Obj) and '__iterlist__' in it.fields:
            it = it.fields['__iterlist__']
        if isinstance(it, Opaque):
            r = self.e.tag(it.tag).iterate(self, it)
            it = r
        if isinstance(it, SStr):
            it = self.e.as_list(self, it)
        if isinstance(it, (DDict, SSet)) and it.unk:
            it = self.e.method_model(self, it, 'keys').fn(self, [], {}) \
                if isinstance(it, DDict) else self.e.unk_iter(self, it)
        if isinstance(it, LList) and not it.explicit():
            self.for_symbolic(key, fr, it, body, orelse, enum0)
            return
        if isinstance(it, Obj) and it.fields.get('__zip__') is not None:
            raise Unsupported('zip over unknown lists')
        vals = self.iter_explicit(it)
        if isinstance(it, LList):
            src = it
            n0 = len(src.items)
        else:
            src = None
        for i, v in enumerate(vals):
            try:
                body(v if enum0 is None else (i + enum0, v))
            except ContinueSig:
                continue
            except BreakSig:
                return
            if src is not None and len(src.items) != n0:
                raise Unsupported('list changed during iteration')
        orelse()

    def for_symbolic(self, key, fr, it, body, orelse, enum0):
        no = key[1]
        rn, dn, kn = '$rest%s' % no, '$done%s' % no, '$idx%s' % no
        kind = self.e.list_kind(self, it)
        mark = it.mark_of()
        fr.locals[rn] = self.new_list(it.copy_items(), kind)
        fr.locals[dn] = self.new_list([], kind)
        fr.locals[kn] = 0
        for al in self.active:
            # hidden variables are always treated as loop state of outer loops
            pass

        def cond():
            return self.truth(fr.locals[rn])

        def step():
            rest = self.lookup(fr, rn)
            v = self.e.list_pop(self, rest, 0)
            done = self.lookup(fr, dn)
            self.note_write(done, 'items')
            done.items.append(El(v))
            idx = self.lookup(fr, kn)
            self.store(fr, kn, self.binop(ast.Add(), idx, 1))
            if mark is not None:
                self.iter_done = done
                self.e.on_iter(self, mark, idx, v)
            if enum0 is not None:
                v = (self.binop(ast.Add(), idx, enum0), v)
            body(v)
        self.cut_loop(key, fr, cond, step, orelse, hidden=(rn, dn, kn))

    def names_at(self, fr):
        """Names of all objects reachable from the frames' variables."""
        names = {}
        keep = []
        queue = []
        for fi, f in enumerate(self.frames):
            for n in sorted(f.locals):
                queue.append(((fi, n), f.locals[n]))
            if f.closure is not None and f.closure not in self.frames:
                for n in sorted(f.closure.locals):
                    queue.append(((fi, '^' + n), f.closure.locals[n]))
        for k in sorted(x for x in self.p.ghost if isinstance(x, str)):
            # ghost state
            queue.append(((0, '%' + k), self.p.ghost[k]))
        i = 0
        while i < len(queue):
            nm, v = queue[i]
            i += 1
            if isinstance(v, tuple):
                for j, x in enumerate(v):
                    queue.append((nm + ('[%d]' % j,), x))
                continue
            if isinstance(v, BoundMethod):
                queue.append((nm + ('__self__',), v.self_))
                continue
            if not isinstance(v, (Obj, LList, DDict, SSet, Opaque)):
                continue
            if id(v) in names:
                continue
            names[id(v)] = nm
            keep.append(v)
            if isinstance(v, Obj):
                for k in sorted(v.fields):
                    queue.append((nm + (k,), v.fields[k]))
            elif isinstance(v, LList):
                for j, el in enumerate(v.items):
                    if isinstance(el, El):
                        queue.append((nm + ('#%d' % j,), el.v))
            elif isinstance(v, DDict):
                for k in v.d:
                    queue.append((nm + ('[%r]' % (k,),), v.d[k]))
            elif isinstance(v, Opaque):
                for k in sorted(v.attrs):
                    queue.append((nm + (k,), v.attrs[k]))
        return names, keep

    def cut_loop(self, key, fr, cond, body, orelse, hidden=()):
        if self.s.peel:
            for _ in range(self.s.peel):
                if not cond():
                    orelse()
                    return
                try:
                    body()
                except ContinueSig:
                    pass
                except BreakSig:
                    return
            if cond():
                raise PathEnd()
            orelse()
            return
        info = self.s.loopinfo(key)
        info.reached = True
        self.ncuts += 1
        names, keep = self.names_at(fr)
        al = ActiveLoop(info, names, list(self.frames), self.p.clock)
        al.keep = keep
        fi = len(self.frames) - 1
        for h in hidden:
            k = ('v', fi, h)
            info.more('mods', k)
            info.more('live', k)
        # havoc changes objects in place, so named objects stay reachable
        al.objs = {nm: o for o in keep for nm in [names[id(o)]]}
        pre = self.e.loop_pre(self, al)
        al.pre = pre
        self.arrive(al, 'entry')
        if not info.shapes:
            raise Restart()
        si = self.p.choose(len(info.shapes), 'shape')
        # objects built for the loop head count as created inside the loop
        al.stamp = self.p.clock
        self.p.tick()
        self.havoc(al, info.shapes[si])
        self.assume_invs(al)
        self.active.append(al)
        try:
            go = cond()
        except BaseException:
            self.drop_active(al)
            raise
        if go:
            try:
                body()
            except ContinueSig:
                pass
            except BreakSig:
                self.drop_active(al)
                return
            except BaseException:
                self.drop_active(al)
                raise
            self.drop_active(al)
            self.arrive(al, 'back')
            raise PathEnd()
        self.drop_active(al)
        orelse()

    def drop_active(self, al):
        if self.active and self.active[-1] is al:
            self.active.pop()
        elif al in self.active:
            self.active.remove(al)

    # -- shapes
    def arrive(self, al, where):
        info = al.info
        shape = self.shape_of(al, where)
        if not any(shape_covers(x, shape) for x in info.shapes):
            if len(info.shapes) > 40:
                raise Unsupported('too many shapes at loop %s' % (info.key,))
            for i, x in enumerate(info.shapes):
                j = shape_join(x, shape, len(info.shapes) > 16)
                if j is not None:
                    info.shapes[i] = j
                    break
            else:
                info.shapes.append(shape)
            self.s.changed = True
        # candidate invariants: a label is assumed at the loop head only if
        # it was offered and proved at every arrival of this pass
        here = set()
        todo = []
        for label, term in self.e.loop_candidates(self, al, where):
            here.add(label)
            if label in info.dropped:
                continue
            if label not in info.tried:
                info.tried.add(label)
                self.s.changed = True
                if where != 'entry':
                    info.dropped.add(label)
                    continue
            todo.append((label, term))
        # usually all of them hold: try them together first
        whole = self.conj([t for _, t in todo])
        allok = len(todo) > 1 and self.p.prove(
            whole, self.s.inv_timeout, False)[0] == 'yes'
        for label, term in todo:
            st = 'yes' if allok else self.p.prove(
                term, self.s.inv_timeout, False)[0]
            if st != 'yes':
                info.dropped.add(label)
                self.s.changed = True
            else:
                o = self.s.obls.setdefault(
                    'loop %s invariant: %s' % (self.loopname(info), label),
                    Obligation(label))
                o.paths += 1
        for label in info.tried - here - info.dropped:
            info.dropped.add(label)
            self.s.changed = True

    def loopname(self, info):
        return '%s#%s' % (info.key[0][-1], info.key[1])

    def assume_invs(self, al):
        for label, term in self.e.loop_candidates(self, al, 'head'):
            if label in al.info.dropped or label not in al.info.tried:
                continue
            self.p.assume(term)

    def shape_of(self, al, where):
        info = al.info
        ctx = ShapeCtx(self, al)
        out = []
        fkeys = sorted((k for k in info.mods if k[0] == 'f'), key=repr)
        vkeys = sorted((k for k in info.mods if k[0] == 'v'), key=repr)
        # new objects held directly by live variables or fields
        for k in vkeys:
            if k in info.live:
                f = al.frames[k[1]]
                v = f.locals.get(k[2], UNBOUND)
                if type(v) is int and k[2] in mode_vars(f):
                    # a state machine's state: one shape per state
                    out.append((k, ('cint', v)))
                    continue
                out.append((k, ctx.shape(v, ('v',) + k)))
        for k in fkeys:
            o = al.objs[k[1]]
            if isinstance(o, Obj):
                v = o.fields.get(k[2], UNBOUND)
                out.append((k, ctx.shape(v, k)))
            elif isinstance(o, Opaque):
                v = o.attrs.get(k[2], UNBOUND)
                out.append((k, ctx.shape(v, k)))
        for k in fkeys:
            o = al.objs[k[1]]
            if isinstance(o, LList):
                out.append((k, ctx.list_shape(o, k[1])))
            elif isinstance(o, (DDict, SSet)):
                out.append((k, self.e.container_shape(self, o)))
        return tuple(out)

    def havoc(self, al, shape):
        info = al.info
        b = ShapeBuilder(self, al)
        for k in sorted(info.mods, key=repr):
            if k[0] == 'v' and k not in info.live:
                f = al.frames[k[1]]
                f.locals[k[2]] = Poison(info, k)
        lists = []
        for k, sh in shape:
            if k[0] == 'v':
                al.frames[k[1]].locals[k[2]] = b.build(sh, k[2])
            else:
                o = al.objs[k[1]]
                if isinstance(o, Obj):
                    v = b.build(sh, k[2])
                    if v is UNBOUND:
                        o.fields.pop(k[2], None)
                    else:
                        o.fields[k[2]] = v
                elif isinstance(o, Opaque):
                    o.attrs[k[2]] = b.build(sh, k[2])
                else:
                    lists.append((o, sh, k))
        for o, sh, k in lists:
            if isinstance(o, LList):
                o.items = b.build_items(sh, k[1][-1])
            else:
                self.e.havoc_container(self, o, sh)

    # ---- comprehensions
    def comp(self, node, fr, elt, kind_hint):
        """Evaluate a comprehension into a fresh list."""
        gens = node.generators
        acc_name = '$acc%s' % self.loop_key(node, fr)[1]
        acc = self.new_list([], self.e.comp_kind(self, node, fr))
        sub = Frame(fr.fn, fr.node, fr.glob, fr, fr.defcls,
                    fr.callid + ('<comp>',))
        sub.locals[acc_name] = acc
        self.frames.append(sub)
        self.depth += 1

        def run(gi):
            if gi == len(gens):
                v = self.eval(elt, sub)
                a = self.lookup(sub, acc_name)
                self.note_write(a, 'items')
                a.items.append(El(v))
                return
            g = gens[gi]
            it = self.eval(g.iter, sub)

            def body(v):
                self.assign(g.target, v, sub)
                for c in g.ifs:
                    if not self.truth(self.eval(c, sub)):
                        return
                run(gi + 1)
            self.for_each((sub.callid,
                           '%s.%d' % (self.loop_key(node, fr)[1], gi)),
                          sub, it, body)
        try:
            run(0)
            return sub.locals[acc_name]
        finally:
            self.depth -= 1
            self.frames.remove(sub)

    # ---- expressions
    def eval(self, node, fr):
        m = getattr(self, 'e_' + type(node).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(node).__name__)
        return m(node, fr)

    def e_Constant(self, n, fr):
        return n.value

    def e_Name(self, n, fr):
        return self.lookup(fr, n.id)

    def e_Attribute(self, n, fr):
        return self.getattr(self.eval(n.value, fr), n.attr)

    def e_Tuple(self, n, fr):
        return tuple(self.eval_elts(n.elts, fr))

    def e_List(self, n, fr):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                out.extend(self.items_of(self.eval(e.value, fr)))
            else:
                out.append(El(self.eval(e, fr)))
        return self.new_list(out)

    def eval_elts(self, elts, fr):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.iter_explicit(self.eval(e.value, fr)))
            else:
                out.append(self.eval(e, fr))
        return out

    def e_Dict(self, n, fr):
        if not n.keys:
            return self.e.empty_dict(self)
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.eval(v, fr)
                if not isinstance(o, DDict):
                    raise Unsupported('dict unpacking')
                d.update(o.d)
                continue
            kk = self.eval(k, fr)
            if self.is_sym(kk) and not isinstance(kk, Opaque):
                raise Unsupported('symbolic dict key')
            d[kk] = self.eval(v, fr)
        return DDict(d, self.p.tick())

    def e_Set(self, n, fr):
        return SSet(set(self.eval_elts(n.elts, fr)), self.p.tick())

    def e_ListComp(self, n, fr):
        return self.comp(n, fr, n.elt, 'list')

    def e_GeneratorExp(self, n, fr):
        return self.comp(n, fr, n.elt, 'gen')

    def e_SetComp(self, n, fr):
        r = self.comp(n, fr, n.elt, 'set')
        if r.explicit():
            return SSet(set(i.v for i in r.items), self.p.tick())
        raise Unsupported('set comprehension over an unknown list')

    def e_DictComp(self, n, fr):
        tup = ast.Tuple(elts=[n.key, n.value], ctx=ast.Load())
        ast.copy_location(tup, n)
        r = self.comp(n, fr, tup, 'dict')
        if r.explicit():
            return DDict({i.v[0]: i.v[1] for i in r.items}, self.p.tick())
        return self.e.dict_from_pairs(self, r)

    def e_Lambda(self, n, fr):
        return Closure(n, fr, 'lambda')

    def e_IfExp(self, n, fr):
        if self.truth(self.eval(n.test, fr)):
            return self.eval(n.body, fr)
        return self.eval(n.orelse, fr)

    def e_BoolOp(self, n, fr):
        # pure operands are combined into one term; otherwise short circuit
        isand = isinstance(n.op, ast.And)
        v = None
        for i, x in enumerate(n.values):
            v = self.eval(x, fr)
            if i == len(n.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return v
            if not isand and t:
                return v
        return v

    def e_UnaryOp(self, n, fr):
        v = self.eval(n.operand, fr)
        if isinstance(n.op, ast.Not):
            return self.mkbool(self.neg(self.truth_term(v)))
        if isinstance(n.op, ast.USub):
            if isinstance(v, SInt):
                return SInt(-v.t)
            if isinstance(v, (int, float)):
                return -v
        raise Unsupported('unary operator')

    def e_NamedExpr(self, n, fr):
        v = self.eval(n.value, fr)
        self.assign(n.target, v, fr)
        return v

    def e_BinOp(self, n, fr):
        a = self.eval(n.left, fr)
        b = self.eval(n.right, fr)
        return self.binop(n.op, a, b)

    def binop(self, op, a, b):
        return self.e.binop(self, op, a, b)

    def e_Compare(self, n, fr):
        left = self.eval(n.left, fr)
        terms = []
        for i, (op, r) in enumerate(zip(n.ops, n.comparators)):
            right = self.eval(r, fr)
            t = self.compare(op, left, right)
            if len(n.ops) == 1:
                return self.mkbool(t)
            terms.append(t)
            left = right
        return self.mkbool(self.conj(terms))

    def compare(self, op, a, b):
        if isinstance(op, ast.Eq):
            return self.eq_term(a, b)
        if isinstance(op, ast.NotEq):
            return self.neg(self.eq_term(a, b))
        if isinstance(op, ast.Is):
            return self.eq_term(a, b, True)
        if isinstance(op, ast.IsNot):
            return self.neg(self.eq_term(a, b, True))
        if isinstance(op, ast.In):
            return self.contains_term(a, b)
        if isinstance(op, ast.NotIn):
            return self.neg(self.contains_term(a, b))
        return self.e.order(self, op, a, b)

    def e_Call(self, n, fr):
        f = None
        if isinstance(n.func, ast.Name) and n.func.id == 'super' \
                and 'super' not in fr.locals:
            if n.args:
                cls = self.eval(n.args[0], fr)
                obj = self.eval(n.args[1], fr)
            else:
                cls = fr.defcls
                obj = fr.locals[fr.node.args.args[0].arg]
            return SuperProxy(cls, obj)
        f = self.eval(n.func, fr)
        if self.e.skip_call(self, f):
            return None
        args = self.eval_elts(n.args, fr)
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                o = self.eval(k.value, fr)
                if isinstance(o, DDict):
                    kwargs.update(o.d)
                else:
                    r = self.e.star_kwargs(self, f, o)
                    kwargs.update(r)
            else:
                kwargs[k.arg] = self.eval(k.value, fr)
        return self.call(f, args, kwargs)

    def e_Subscript(self, n, fr):
        o = self.eval(n.value, fr)
        k = self.eval_slice(n.slice, fr)
        if self.indexed and isinstance(o, LList) and (
                isinstance(k, SInt) or type(k) is int):
            for lst, same, idx, v in reversed(self.indexed):
                if lst is o and same() and z3.eq(
                        z3.simplify(self.intterm(k)), z3.simplify(idx)):
                    return v
        return self.e.getitem(self, o, k)

    def eval_slice(self, s, fr):
        if isinstance(s, ast.Slice):
            return slice(*[None if x is None else self.eval(x, fr)
                           for x in (s.lower, s.upper, s.step)])
        return self.eval(s, fr)

    def e_JoinedStr(self, n, fr):
        tmpl, args = '', []
        for v in n.values:
            if isinstance(v, ast.Constant):
                tmpl += v.value.replace('{', '{{').replace('}', '}}')
                continue
            spec = ''
            if v.format_spec is not None:
                for c in v.format_spec.values:
                    if not isinstance(c, ast.Constant):
                        raise Unsupported('computed format')
                    spec += c.value
            conv = '' if v.conversion == -1 else '!' + chr(v.conversion)
            args.append(self.eval(v.value, fr))
            tmpl += '{%s:%s}' % (conv, spec)
        return self.e.fstring(self, tmpl, args)

    def e_Yield(self, n, fr):
        return self.do_yield(n, fr)

    def e_Starred(self, n, fr):
        raise Unsupported('starred expression')


def place(e):
    """A variable or an attribute of one."""
    while isinstance(e, ast.Attribute):
        e = e.value
    return isinstance(e, ast.Name)


def len_of(e):
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
            e.func.id == 'len' and len(e.args) == 1 and not e.keywords and \
            place(e.args[0]):
        return e.args[0]
    return None


def counted_for(st):
    """E of `for i in range(len(E))`, or None."""
    it = st.iter
    if isinstance(st.target, ast.Name) and isinstance(it, ast.Call) and \
            isinstance(it.func, ast.Name) and it.func.id == 'range' and \
            len(it.args) == 1 and not it.keywords and not stores(
                st.body, st.target.id):
        return len_of(it.args[0])
    return None


def stores(stmts, name):
    return any(isinstance(x, ast.Name) and x.id == name and isinstance(
        x.ctx, (ast.Store, ast.Del)) for st in stmts for x in ast.walk(st))


def counted_while(st):
    """(i, E) of `while i < len(E): ...; i += 1` whose body does nothing
    else to i and reaches its end, or None."""
    t = st.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(
            t.ops[0], ast.Lt) and isinstance(t.left, ast.Name)
            and not st.orelse and st.body):
        return None
    e, i, last = len_of(t.comparators[0]), t.left.id, st.body[-1]
    if e is None or not (isinstance(last, ast.AugAssign) and isinstance(
            last.op, ast.Add) and isinstance(last.target, ast.Name)
            and last.target.id == i and isinstance(last.value, ast.Constant)
            and last.value.value == 1) or stores(st.body[:-1], i):
        return None
    queue = list(st.body)
    while queue:
        x = queue.pop()
        if isinstance(x, (ast.Continue, ast.Global, ast.Nonlocal)):
            return None
        if not isinstance(x, (ast.For, ast.While, ast.FunctionDef,
                              ast.Lambda)):
            queue += ast.iter_child_nodes(x)
        elif isinstance(x, (ast.For, ast.While)):
            queue += x.orelse
    return i, e


class _EngineExit(Exception):
    pass


class ShapeCtx(object):
    def __init__(self, ip, al):
        self.ip = ip
        self.al = al
        self.new = {}       # id -> label
        self.keep = []
        self.depth = 0

    def shape(self, v, label):
        ip, al = self.ip, self.al
        if v is UNBOUND or isinstance(v, Poison):
            return ('unbound',)
        if v is None or isinstance(v, bool):
            return ('const', repr(v))
        if isinstance(v, int):
            return ('int',)
        if isinstance(v, SInt):
            return ('int',)
        if isinstance(v, SBool):
            return ('bool',)
        if isinstance(v, SStr):
            return ('str',)
        if isinstance(v, str):
            return ip.e.str_shape(v)
        if isinstance(v, STok):
            return ('tok',)
        if isinstance(v, SEnum):
            return ('enum', v.cls)
        if isinstance(v, SV):
            return ('sv', type(v), v.t.sort())
        if isinstance(v, (Obj, LList, DDict, SSet, Opaque)):
            if id(v) in al.names and al.objs[al.names[id(v)]] is v:
                return ('ref', al.names[id(v)])
            if isinstance(v, Opaque):
                return ('opaque', v.tag)
            if id(v) in self.new:
                return ('same', self.new[id(v)])
            self.new[id(v)] = label
            self.keep.append(v)
            self.depth += 1
            if self.depth > 6:
                raise Unsupported('shape too deep')
            try:
                if isinstance(v, Obj):
                    fs = []
                    for k in sorted(v.fields):
                        if k in ip.e.ghostless_fields:
                            continue
                        fs.append((k, self.shape(v.fields[k],
                                                 label + (k,))))
                    return ('obj', label, v.cls, tuple(fs))
                if isinstance(v, LList):
                    return ('newlist', label, self.list_shape(v, label))
                return ('container', label, ip.e.container_shape(ip, v))
            finally:
                self.depth -= 1
        if isinstance(v, tuple):
            return ('tuple', tuple(
                self.shape(x, label + ('[%d]' % i,))
                for i, x in enumerate(v)))
        return ('const', Const(v))

    def list_shape(self, lst, label):
        kind = lst.kind or self.ip.e.list_kind(self.ip, lst, label)
        items = []
        for it in lst.items:
            if isinstance(it, El) and isinstance(it.v, (Obj, LList)):
                if id(it.v) in self.new:
                    items.append(('same', self.new[id(it.v)]))
                    continue
            if items and items[-1][0] == 'seg':
                continue
            items.append(('seg', kind))
        # an empty list is an instance of an unknown run
        if kind is not None:
            if not items or items[0][0] != 'seg':
                items.insert(0, ('seg', kind))
        elif not lst.items:
            items = []
        else:
            raise Unsupported('loop changes a list of unknown kind (%s)'
                              % (label,))
        return tuple(items)


_MODE_VARS = {}


def mode_vars(f):
    """Names of f compared (is, ==) with a constant or another name."""
    node = f.node
    r = _MODE_VARS.get(id(node))
    if r is not None and r[0] is node:
        return r[1]
    out = set()
    for n in ast.walk(node) if isinstance(node, ast.AST) else ():
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(
                n.ops[0], (ast.Is, ast.Eq)):
            a, b = n.left, n.comparators[0]
            for x, y in ((a, b), (b, a)):
                if isinstance(x, ast.Name) and (
                        isinstance(y, ast.Name)
                        or isinstance(y, ast.Constant)
                        and type(y.value) is int):
                    out.add(x.id)
    _MODE_VARS[id(node)] = (node, out)
    return out


def _is_lshape(x):
    return isinstance(x, tuple) and all(
        isinstance(i, tuple) and i and i[0] in ('seg', 'same') for i in x)


def shape_join(a, b, wide=False):
    """The least common generalisation of two shapes, or None."""
    if a == b:
        return a
    if not isinstance(a, tuple) or not isinstance(b, tuple):
        return None
    if _is_lshape(a) and _is_lshape(b):
        # an empty list is an instance of an unknown run
        if not a and all(i[0] == 'seg' for i in b):
            return b
        if not b and all(i[0] == 'seg' for i in a):
            return a
        if not a or not b:
            return None
    if a and b and a[0] in ('const', 'bool') and b[0] in (
            'const', 'bool'):
        bools = ("'True'", "'False'")
        if all(x[0] == 'bool' or x[1] in ('True', 'False') for x in (a, b)):
            return ('bool',)
    if a and b and a[0] in ('int', 'cint') and b[0] in ('int', 'cint'):
        # int, or two different states
        return ('int',) if wide or ('int',) in (a, b) else None
    if len(a) != len(b):
        return None
    out = []
    for x, y in zip(a, b):
        j = shape_join(x, y, wide)
        if j is None:
            return None
        out.append(j)
    return tuple(out)


def shape_covers(a, b):
    """Whether every state of shape b is a state of shape a."""
    j = shape_join(a, b)
    return j is not None and j == a


class Const(object):
    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Const) and (o.v is self.v or (
            type(o.v) is type(self.v) and isinstance(self.v, (str, float))
            and o.v == self.v))

    def __hash__(self):
        return hash(repr(self.v)) if isinstance(self.v, str) else id(self.v)

    def __repr__(self):
        return 'Const(%r)' % (self.v,)


class ShapeBuilder(object):
    def __init__(self, ip, al):
        self.ip = ip
        self.al = al
        self.built = {}

    def build(self, sh, hint):
        ip = self.ip
        p = ip.p
        k = sh[0]
        hint = str(hint)
        if k == 'unbound':
            return UNBOUND
        if k == 'const':
            if isinstance(sh[1], Const):
                return sh[1].v
            return {'None': None, 'True': True, 'False': False}[sh[1]]
        if k == 'cint':
            return sh[1]
        if k == 'int':
            return SInt(p.fresh(z3.IntSort(), hint))
        if k == 'bool':
            return SBool(p.fresh(z3.BoolSort(), hint))
        if k == 'str':
            return SStr(p.fresh(StrS, hint))
        if k == 'tok':
            return STok(p.fresh(TokS, hint))
        if k == 'enum':
            return ip.e.fresh_enum(ip, sh[1], hint)
        if k == 'sv':
            return sh[1](p.fresh(sh[2], hint))
        if k == 'ref':
            return self.al.objs[sh[1]]
        if k == 'opaque':
            h = ip.e.tag(sh[1])
            if hasattr(h, 'havoc'):
                return h.havoc(ip, hint)
            return Opaque(sh[1], hint)
        if k == 'same':
            return self.built[sh[1]]
        if k == 'obj':
            o = ip.new_obj(sh[2])
            self.built[sh[1]] = o
            for f, s in sh[3]:
                v = self.build(s, f)
                if v is not UNBOUND:
                    o.fields[f] = v
            ip.e.havocked_obj(ip, o)
            return o
        if k == 'newlist':
            o = ip.new_list()
            self.built[sh[1]] = o
            o.items = self.build_items(sh[2], hint)
            return o
        if k == 'tuple':
            return tuple(self.build(s, hint) for s in sh[1])
        if k == 'container':
            o = ip.e.build_container(ip, sh[2])
            self.built[sh[1]] = o
            return o
        raise Unsupported('shape %r' % (sh,))

    def build_items(self, sh, hint):
        out = []
        for s in sh:
            if s[0] == 'seg':
                out.append(s[1].fresh_seg(self.ip.p, str(hint)))
            else:
                out.append(El(self.built[s[1]]))
        return out
