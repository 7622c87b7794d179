"""The base engine: models of Python's built-in operations."""
import ast
import builtins
import collections
import functools
import logging
import operator
import re
import string
import types

import z3

from pyver.values import *  # noqa
from pyver import engine as E
from pyver.engine import in_repo, underlying

INT = z3.IntSort()
BOOL = z3.BoolSort()

upper_f = z3.Function('str_upper', StrS, StrS)
lower_f = z3.Function('str_lower', StrS, StrS)
strip_f = z3.Function('str_strip', StrS, StrS)
lstrip_f = z3.Function('str_lstrip', StrS, StrS)
rstrip_f = z3.Function('str_rstrip', StrS, StrS)


def len_measure():
    return Measure('n', INT, z3.IntVal(0), lambda a, b: a + b,
                   lambda ip, v: z3.IntVal(1))


def simple_kind(name, fresh):
    return Kind(name, [len_measure()], fresh)


ANY = simple_kind('any', lambda ip: Opaque('any', 'elem'))
STRS = simple_kind('str', lambda ip: SStr(ip.p.fresh(StrS, 'es')))
STRPAIRS = simple_kind('strpairs', lambda ip: (
    SStr(ip.p.fresh(StrS, 'pk')), SStr(ip.p.fresh(StrS, 'pv'))))
ANYPAIRS = simple_kind('anypairs', lambda ip: (
    SStr(ip.p.fresh(StrS, 'pk')), Opaque('any', 'pv')))

def str_concat(a, b):
    for x, y in ((a, b), (b, a)):
        if z3.is_string_value(x) and x.as_string() == '':
            return y
    return z3.Concat(a, b)


def _char(ip):
    c = SStr(ip.p.fresh(StrS, 'ch'))
    ip.p.assume(z3.Length(c.t) == 1)
    return c


# the characters of a string
CHARS = Kind('chars', [
    len_measure(),
    Measure('str', StrS, z3.StringVal(''), str_concat,
            lambda ip, v: ip.strterm(v)),
], _char, lambda p, seg: p.assume(z3.Length(seg.m['str']) == seg.m['n']))


def chars_of(ip, v):
    seg = CHARS.fresh_seg(ip.p, 'chars')
    ip.p.assume(seg.m['str'] == v.t)
    return LList([seg], ip.p.tick(), CHARS)


INTS = simple_kind('int', lambda ip: SInt(ip.p.fresh(INT, 'ei')))


class TagHandler(object):
    """Behaviour of an unknown object; the default allows nothing."""
    isa = ()        # classes such an object may be an instance of
    pyclass = None  # known class

    def truth(self, ip, v):
        raise Unsupported('truth of unknown %s' % v.tag)

    def eq(self, ip, v, other):
        if v is other:
            return True
        if other is None:
            return False
        raise Unsupported('equality of unknown %s' % v.tag)

    def getattr(self, ip, v, name):
        raise Unsupported('attribute %s of unknown %s' % (name, v.tag))

    def setattr(self, ip, v, name, val):
        raise Unsupported('write to attribute %s of unknown %s'
                          % (name, v.tag))

    def call(self, ip, v, args, kwargs):
        raise Unsupported('call of unknown %s' % v.tag)

    def contains(self, ip, v, item):
        raise Unsupported('membership in unknown %s' % v.tag)

    def iterate(self, ip, v):
        raise Unsupported('iteration over unknown %s' % v.tag)

    def getitem(self, ip, v, key):
        raise Unsupported('subscript of unknown %s' % v.tag)

    def setitem(self, ip, v, key, val):
        raise Unsupported('item write to unknown %s' % v.tag)

    def length(self, ip, v):
        raise Unsupported('len of unknown %s' % v.tag)

    def isinstance(self, ip, v, cls):
        raise Unsupported('isinstance of unknown %s' % v.tag)


def memo(v, key, make):
    if key not in v.attrs:
        v.attrs[key] = make()
    return v.attrs[key]


class AnyHandler(TagHandler):
    """Immutable data about which nothing is known."""

    def truth(self, ip, v):
        return memo(v, '$truth', lambda: ip.p.fresh(BOOL, 'truth'))

    def eq(self, ip, v, other):
        return ip.p.fresh(BOOL, 'eq')

    def getattr(self, ip, v, name):
        return memo(v, name, lambda: Opaque('any', name))

    def contains(self, ip, v, item):
        return ip.p.fresh(BOOL, 'in')

    def iterate(self, ip, v):
        return LList([ANY.fresh_seg(ip.p, 'any')], ip.p.tick(), ANY)

    def getitem(self, ip, v, key):
        return Opaque('any', 'item')

    def length(self, ip, v):
        n = ip.p.fresh(INT, 'len')
        ip.p.assume(n >= 0)
        return SInt(n)

    def isinstance(self, ip, v, cls):
        key = '$isa%r' % (cls,)
        return memo(v, key, lambda: ip.p.fresh(BOOL, 'isa'))

    def call(self, ip, v, args, kwargs):
        if v.kw.get('callable'):
            return Opaque('any', 'ret')
        raise Unsupported('call of unknown %s' % v.name)


class SinkHandler(AnyHandler):
    """An object whose methods have no effect on the state we reason about
    (assumed: loggers, lint contexts)."""

    def truth(self, ip, v):
        return True

    def getattr(self, ip, v, name):
        return memo(v, name, lambda: Opaque('sink', name))

    def call(self, ip, v, args, kwargs):
        return Opaque('any', 'ret')

    def eq(self, ip, v, other):
        if other is None:
            return False
        return ip.p.fresh(BOOL, 'eq')


class Engine(object):
    ghostless_fields = ()
    unroll = 0          # execute while loops round by round, up to this

    def __init__(self):
        self.tags = {'any': AnyHandler(), 'sink': SinkHandler()}
        self.contracts = {}          # function -> contract
        self.overrides = {}          # (module, name) -> f(ip)
        self.attr_overrides = []     # f(ip, v, name) -> (value,) | None
        self.call_models = {}        # callable -> f(ip, args, kwargs)
        self.candidate_fns = []
        self.assumptions = {}        # text -> used?
        self.natives = set()

    def assume_note(self, text):
        self.assumptions[text] = self.assumptions.get(text, 0) + 1

    # ---- lookups
    def tag(self, tag):
        return self.tags[tag]

    def qualname(self, fn):
        return '%s.%s' % (getattr(fn, '__module__', '?'),
                          getattr(fn, '__qualname__', repr(fn)))

    def contract_for(self, fn):
        return self.contracts.get(fn)

    def global_override(self, mod, name):
        return self.overrides.get((mod, name))

    def attr_override(self, ip, v, name):
        for f in self.attr_overrides:
            r = f(ip, v, name)
            if r is not None:
                return r
        return None

    def tok_attr(self, ip, v, name):
        raise Unsupported('token attribute %s' % name)

    def enum_attr(self, ip, v, name):
        if name in ('value',):
            return SInt(v.t)
        if name in ('name', 'name_'):
            return SStr(ip.p.fresh(StrS, 'enumname'))
        raise Unsupported('enum attribute %s' % name)

    def fresh_enum(self, ip, cls, hint):
        t = ip.p.fresh(INT, hint)
        ids = sorted(cls._id_map)
        ip.p.assume(z3.Or([t == i for i in ids]))
        return SEnum(t, cls)

    def skip_call(self, ip, f):
        s = getattr(f, '__self__', None)
        return isinstance(s, (logging.Logger, types.ModuleType)) and (
            isinstance(s, logging.Logger)) or getattr(
                f, '__module__', None) == 'logging' and not isinstance(f, type)

    def native_ok(self, f):
        if f in self.natives if _hashable(f) else False:
            return True
        mod = getattr(f, '__module__', None)
        s = getattr(f, '__self__', None)
        if isinstance(s, (str, re.Pattern, re.Match, tuple, int, float,
                          frozenset)):
            return True
        if f in (re.compile, re.match, re.escape, re.search,
                 collections.OrderedDict, collections.namedtuple):
            return True
        if mod in ('operator', 'math'):
            return True
        if f in (str, int, bool, float, repr, len, ord, chr, abs, min, max,
                 sum, tuple, frozenset, hash, type, callable, issubclass,
                 isinstance, round):
            return True
        return False

    def star_kwargs(self, ip, f, o):
        raise Unsupported('** of unknown mapping')

    def kwargs_map(self, ip, kw):
        """What **kwargs of the callee holds."""
        return DDict(kw, ip.p.tick())

    def dict_from_pairs(self, ip, r):
        raise Unsupported('dict comprehension over an unknown list')

    def comp_kind(self, ip, node, fr):
        return None

    def opaque_str(self, ip, parts):
        return SStr(ip.p.fresh(StrS, 'str'))

    def fstring(self, ip, template, args):
        s = self.filled(ip, template, args)
        return s if s is not None else self.opaque_str(ip, [template] + args)

    def filled(self, ip, template, args):
        """A template whose fields are plain and are filled with texts; None
        if it is another one (what it gives is then some text)."""
        if not isinstance(template, str):
            return None
        parts, n = [], 0
        try:
            fields = list(string.Formatter().parse(template))
        except ValueError:
            return None
        if len(fields) > 4:
            return None
        for lit, name, spec, conv in fields:
            if lit:
                parts.append(z3.StringVal(lit))
            if name is None:
                continue
            if spec or conv or name not in ('', str(n)) or n >= len(args) or \
                    not isinstance(args[n], (str, SStr)):
                return None
            parts.append(ip.strterm(args[n]))
            n += 1
        if n != len(args) or not parts:
            return None
        return SStr(parts[0] if len(parts) == 1 else z3.Concat(*parts))

    def str_shape(self, v):
        return ('str',)

    def havocked_obj(self, ip, o):
        pass

    def container_shape(self, ip, o):
        """A container changed in a loop has unknown contents."""
        if isinstance(o, DDict):
            if o.unk:
                return ('udict', o.unk)
            vs = list(o.d.values())
            if all(isinstance(v, (str, SStr)) for v in vs):
                return ('udict', 'str')
            return ('udict', 'any')
        return ('uset', 'str')

    def build_container(self, ip, sh):
        if sh[0] == 'udict':
            o = DDict({}, ip.p.tick())
        else:
            o = SSet(set(), ip.p.tick())
        o.unk = sh[1]
        return o

    def havoc_container(self, ip, o, sh):
        if isinstance(o, DDict):
            o.d = {}
        else:
            o.s = set()
        o.unk = sh[1]

    def empty_dict(self, ip):
        """What {} makes."""
        return DDict({}, ip.p.tick())

    def unk_iter(self, ip, o):
        return LList([STRS.fresh_seg(ip.p, 'members')], ip.p.tick(), STRS)

    def unk_value(self, ip, o):
        if o.unk == 'str':
            return SStr(ip.p.fresh(StrS, 'dv'))
        return Opaque('any', 'dv')

    def unk_store(self, ip, o, v):
        ip.note_write(o, 'items')
        if o.unk == 'str' and not isinstance(v, (str, SStr)):
            o.unk = 'any'

    def on_iter(self, ip, mark, idx, v):
        """A loop over the marked list reached element idx: it is v."""

    def loop_pre(self, ip, al):
        return {}

    def loop_candidates(self, ip, al, where):
        out = []
        seen = set()
        for f in self.candidate_fns:
            for label, t in f(ip, al, where):
                if label in seen:
                    continue
                seen.add(label)
                out.append((label, t))
        return out

    # ---- lists
    def kind_of_value(self, ip, v):
        if isinstance(v, (SStr, str)):
            return STRS
        if isinstance(v, (SInt, int)) and not isinstance(v, bool):
            return INTS
        return ANY

    def list_kind(self, ip, lst, label=None):
        if lst.kind is not None:
            return lst.kind
        for it in lst.items:
            if isinstance(it, Seg):
                return it.kind
        ks = set()
        for it in lst.items:
            ks.add(self.kind_of_value(ip, it.v))
        if len(ks) == 1:
            return ks.pop()
        if not ks:
            return None
        return ANY

    def measure(self, ip, lst, name, kind=None):
        kind = kind or self.list_kind(ip, lst)
        if kind is None:
            raise Unsupported('measure of a list of unknown kind')
        me = kind.measures[name]
        t = None
        for it in lst.items:
            x = self.measure_item(ip, me, it)
            t = x if t is None else me.op(t, x)
        return me.unit if t is None else t

    def measure_item(self, ip, me, it):
        if isinstance(it, Seg):
            if me.name not in it.m:
                raise Unsupported('run without measure %s' % me.name)
            return it.m[me.name]
        return me.of(ip, it.v)

    def split_front(self, ip, lst, i):
        """Make lst.items[i] an El (items[i] is a Seg known non-empty)."""
        seg = lst.items[i]
        e = seg.kind.fresh_elem(ip)
        rest = seg.kind.fresh_seg(ip.p, 'rest')
        for k, me in seg.kind.measures.items():
            ip.p.assume(seg.m[k] == me.op(me.of(ip, e), rest.m[k]))
        lst.items[i:i + 1] = [El(e), rest]

    def split_back(self, ip, lst, i):
        seg = lst.items[i]
        e = seg.kind.fresh_elem(ip)
        rest = seg.kind.fresh_seg(ip.p, 'rest')
        for k, me in seg.kind.measures.items():
            ip.p.assume(seg.m[k] == me.op(rest.m[k], me.of(ip, e)))
        lst.items[i:i + 1] = [rest, El(e)]

    def materialize(self, ip, lst, n):
        """Ensure the first n elements are explicit; returns how many are."""
        i = 0
        while i < n:
            if i >= len(lst.items):
                return i
            it = lst.items[i]
            if isinstance(it, El):
                i += 1
                continue
            if ip.p.branch(it.m['n'] > 0):
                self.split_front(ip, lst, i)
                i += 1
            else:
                ip.p.assume(it.m['n'] == 0)
                del lst.items[i]
        return i

    def materialize_back(self, ip, lst, n):
        i = 0
        while i < n:
            j = len(lst.items) - 1 - i
            if j < 0:
                return i
            it = lst.items[j]
            if isinstance(it, El):
                i += 1
                continue
            if ip.p.branch(it.m['n'] > 0):
                self.split_back(ip, lst, j)
                i += 1
            else:
                ip.p.assume(it.m['n'] == 0)
                del lst.items[j]
        return i

    def list_pop(self, ip, lst, idx):
        if not isinstance(idx, int):
            raise Unsupported('pop at unknown index')
        if idx >= 0:
            if self.materialize(ip, lst, idx + 1) <= idx:
                raise PyExc(IndexError, None, 'pop from empty list')
            ip.note_write(lst, 'items')
            return lst.items.pop(idx).v
        if self.materialize_back(ip, lst, -idx) < -idx:
            raise PyExc(IndexError, None, 'pop from empty list')
        ip.note_write(lst, 'items')
        return lst.items.pop(idx).v

    def list_get(self, ip, lst, idx):
        if isinstance(idx, bool) or not isinstance(idx, int):
            return self.list_get_sym(ip, lst, idx)
        if idx >= 0:
            if self.materialize(ip, lst, idx + 1) <= idx:
                raise PyExc(IndexError, None, 'list index')
            return lst.items[idx].v
        if self.materialize_back(ip, lst, -idx) < -idx:
            raise PyExc(IndexError, None, 'list index')
        return lst.items[idx].v

    def list_get_sym(self, ip, lst, idx):
        t = ip.intterm(idx)
        n = ip.len_term(lst)
        if not ip.p.branch(z3.And(t >= -n, t < n)):
            raise PyExc(IndexError, None, 'list index')
        if lst.explicit():
            k = len(lst.items)
            for i in range(k - 1):
                if ip.p.branch(z3.Or(t == i, t == i - k)):
                    return lst.items[i].v
            return lst.items[k - 1].v
        kind = self.list_kind(ip, lst)
        return self.elem_at(ip, lst, kind, t)

    def elem_at(self, ip, lst, kind, t):
        return kind.fresh_elem(ip)

    def list_slice(self, ip, lst, sl):
        lo, hi, st = sl.start, sl.stop, sl.step
        if st == -1 and lo is None and hi is None:
            if lst.explicit():
                return ip.new_list(list(reversed(lst.items)), lst.kind)
            kind = self.list_kind(ip, lst)
            return self.reversed_list(ip, lst, kind)
        if st not in (None, 1):
            raise Unsupported('slice step')
        src = LList(lst.copy_items(), 0, lst.kind)
        if (lo is None or (isinstance(lo, int) and lo >= 0)) and hi is None:
            k = lo or 0
            got = self.materialize(ip, src, k)
            return ip.new_list(src.items[got:], lst.kind)
        if lo in (None, 0) and isinstance(hi, int):
            if hi >= 0:
                got = self.materialize(ip, src, hi)
                return ip.new_list(src.items[:min(got, hi)], lst.kind)
            got = self.materialize_back(ip, src, -hi)
            return ip.new_list(src.items[:len(src.items) - got], lst.kind)
        if isinstance(lo, int) and lo < 0 and hi is None:
            got = self.materialize_back(ip, src, -lo)
            return ip.new_list(src.items[len(src.items) - got:], lst.kind)
        if isinstance(lo, int) and isinstance(hi, int) and 0 <= lo <= hi:
            got = self.materialize(ip, src, hi)
            return ip.new_list(src.items[lo:min(got, hi)], lst.kind)
        if isinstance(lo, int) and isinstance(hi, int) and lo >= 0 and hi < 0:
            got = self.materialize(ip, src, lo)
            if got < lo:
                return ip.new_list([], lst.kind)
            tail = LList(src.items[lo:], 0, lst.kind)
            got = self.materialize_back(ip, tail, -hi)
            return ip.new_list(tail.items[:len(tail.items) - got], lst.kind)
        return self.list_slice_sym(ip, lst, lo, hi)

    def list_slice_sym(self, ip, lst, lo, hi):
        kind = self.list_kind(ip, lst)
        if kind is None:
            return ip.new_list([], None)
        seg = kind.fresh_seg(ip.p, 'slice')
        ip.p.assume(seg.m['n'] <= ip.len_term(lst))
        return ip.new_list([seg], kind)

    def reversed_list(self, ip, lst, kind):
        seg = kind.fresh_seg(ip.p, 'rev')
        ip.p.assume(seg.m['n'] == ip.len_term(lst))
        for k, me in kind.measures.items():
            if getattr(me, 'commutative', False):
                ip.p.assume(seg.m[k] == self.measure(ip, lst, k, kind))
        return ip.new_list([seg], kind)

    def list_contains(self, ip, item, coll):
        return ip.p.fresh(BOOL, 'in')

    def list_method(self, ip, v, name):
        e = self

        def append(ip, a, k):
            ip.note_write(v, 'items')
            v.items.append(El(a[0]))

        def extend(ip, a, k):
            items = ip.items_of(e.as_list(ip, a[0]))
            ip.note_write(v, 'items')
            v.items.extend(items)

        def insert(ip, a, k):
            idx = a[0]
            if not isinstance(idx, int) or idx < 0:
                raise Unsupported('insert at %r' % (idx,))
            got = e.materialize(ip, v, idx)
            ip.note_write(v, 'items')
            v.items.insert(min(idx, got), El(a[1]))

        def pop(ip, a, k):
            return e.list_pop(ip, v, a[0] if a else -1)

        def clear(ip, a, k):
            ip.note_write(v, 'items')
            v.items = []

        def copy(ip, a, k):
            return ip.new_list(v.copy_items(), v.kind)

        def reverse(ip, a, k):
            ip.note_write(v, 'items')
            r = e.list_slice(ip, v, slice(None, None, -1))
            v.items = r.items

        def index(ip, a, k):
            if not v.explicit():
                raise Unsupported('index')
            for i, it in enumerate(v.items):
                t = ip.eq_term(a[0], it.v)
                if ip.p.branch(t):
                    return i
            raise PyExc(ValueError)

        def remove(ip, a, k):
            if not v.explicit():
                raise Unsupported('remove')
            for i, it in enumerate(v.items):
                if ip.p.branch(ip.eq_term(a[0], it.v)):
                    ip.note_write(v, 'items')
                    del v.items[i]
                    return None
            raise PyExc(ValueError)

        def count(ip, a, k):
            n = z3.IntVal(0)
            if not v.explicit():
                raise Unsupported('count')
            for it in v.items:
                t = ip.eq_term(a[0], it.v)
                n = n + (int(t) if isinstance(t, bool) else z3.If(t, 1, 0))
            return SInt(n)

        def sort(ip, a, k):
            r = e.sorted_model(ip, v, k)
            ip.note_write(v, 'items')
            v.items = r.items

        table = dict(append=append, extend=extend, insert=insert, pop=pop,
                     clear=clear, copy=copy, reverse=reverse, index=index,
                     remove=remove, count=count, sort=sort)
        if name in table:
            return Builtin('list.' + name, table[name])
        return None

    def sorted_model(self, ip, v, kw):
        """A permutation: the length and commutative measures are kept."""
        kind = self.list_kind(ip, v)
        if kind is None:
            raise Unsupported('sort of unknown values')
        seg = kind.fresh_seg(ip.p, 'sorted')
        for m, me in kind.measures.items():
            if m == 'n' or getattr(me, 'commutative', False):
                ip.p.assume(seg.m[m] == self.measure(ip, v, m, kind))
        return LList([seg], ip.p.tick(), kind)

    def as_list(self, ip, v):
        """The elements of an iterable as a list value."""
        if isinstance(v, LList):
            return v
        if isinstance(v, GenObj):
            out = []

            def cb(x):
                out.append(El(x))
            n = ip.ncuts
            v.call(cb)
            if ip.ncuts != n:
                # what earlier iterations yielded is not in `out`
                raise Unsupported('list of an unknown number of yields')
            return LList(out, 0)
        if isinstance(v, Opaque):
            return self.tag(v.tag).iterate(ip, v)
        if isinstance(v, Obj) and '__iterlist__' in v.fields:
            return v.fields['__iterlist__']
        if isinstance(v, SStr):
            return chars_of(ip, v)
        return LList([El(x) for x in ip.iter_explicit(v)], 0)

    # ---- dicts
    def dict_key(self, ip, v, key):
        """Find `key` in a concrete dict; branches on symbolic keys."""
        if not ip.is_sym(key):
            try:
                return (key,) if key in v.d else None
            except TypeError:
                raise PyExc(TypeError, None, 'unhashable')
        for k in list(v.d):
            t = ip.eq_term(key, k)
            if ip.p.branch(t):
                return (k,)
        return None

    def unk_dict_method(self, ip, v, name):
        e = self
        strs = v.unk == 'str'

        def get(ip, a, k):
            if ip.p.choose(2, 'get') == 0:
                return e.unk_value(ip, v)
            return a[1] if len(a) > 1 else k.get('default')

        def pop(ip, a, k):
            ip.note_write(v, 'items')
            if ip.p.choose(2, 'pop') == 0:
                return e.unk_value(ip, v)
            if len(a) > 1:
                return a[1]
            raise PyExc(KeyError)

        def setdefault(ip, a, k):
            if ip.p.choose(2, 'setdefault') == 0:
                return e.unk_value(ip, v)
            x = a[1] if len(a) > 1 else None
            e.unk_store(ip, v, x)
            return x

        def seq(kind):
            return Builtin('dict.' + name, lambda ip, a, k: LList(
                [kind.fresh_seg(ip.p, name)], ip.p.tick(), kind))
        if name == 'keys':
            return seq(STRS)
        if name == 'values':
            return seq(STRS if strs else ANY)
        if name == 'items':
            return seq(STRPAIRS if strs else ANYPAIRS)

        def update(ip, a, k):
            e.unk_store(ip, v, None)

        def copy(ip, a, k):
            o = DDict({}, ip.p.tick())
            o.unk = v.unk
            return o
        table = dict(get=get, pop=pop, setdefault=setdefault, update=update,
                     copy=copy)
        if name in table:
            return Builtin('dict.' + name, table[name])
        return None

    def dict_method(self, ip, v, name):
        if v.unk:
            return self.unk_dict_method(ip, v, name)
        e = self

        def get(ip, a, k):
            r = e.dict_key(ip, v, a[0])
            if r is None:
                return a[1] if len(a) > 1 else k.get('default')
            return v.d[r[0]]

        def pop(ip, a, k):
            r = e.dict_key(ip, v, a[0])
            if r is None:
                if len(a) > 1:
                    return a[1]
                raise PyExc(KeyError)
            ip.note_write(v, 'items')
            return v.d.pop(r[0])

        def keys(ip, a, k):
            return LList([El(x) for x in v.d], ip.p.tick())

        def values(ip, a, k):
            return LList([El(x) for x in v.d.values()], ip.p.tick())

        def items(ip, a, k):
            return LList([El((x, y)) for x, y in v.d.items()], ip.p.tick())

        def update(ip, a, k):
            ip.note_write(v, 'items')
            if a:
                if not isinstance(a[0], DDict):
                    raise Unsupported('dict.update')
                v.d.update(a[0].d)
            v.d.update(k)

        def copy(ip, a, k):
            return DDict(dict(v.d), ip.p.tick())

        def setdefault(ip, a, k):
            r = e.dict_key(ip, v, a[0])
            if r is not None:
                return v.d[r[0]]
            if ip.is_sym(a[0]):
                raise Unsupported('symbolic key')
            ip.note_write(v, 'items')
            v.d[a[0]] = a[1] if len(a) > 1 else None
            return v.d[a[0]]

        table = dict(get=get, pop=pop, keys=keys, values=values, items=items,
                     update=update, copy=copy, setdefault=setdefault)
        if name in table:
            return Builtin('dict.' + name, table[name])
        return None

    def set_method(self, ip, v, name):
        e = self
        if v.unk and name in ('add', 'update', 'discard'):
            return Builtin('set.' + name, lambda ip, a, k: ip.note_write(
                v, 'items'))

        def add(ip, a, k):
            if ip.is_sym(a[0]):
                raise Unsupported('symbolic set member')
            ip.note_write(v, 'items')
            v.s.add(a[0])

        def update(ip, a, k):
            xs = ip.iter_explicit(a[0])
            if any(ip.is_sym(x) for x in xs):
                raise Unsupported('symbolic set member')
            ip.note_write(v, 'items')
            v.s.update(xs)
        table = dict(add=add, update=update)
        if name in table:
            return Builtin('set.' + name, table[name])
        return None

    # ---- strings
    def str_method(self, ip, v, name):
        e = self
        t = ip.strterm(v) if isinstance(v, (SStr, str)) else None

        def uf(f, pyname):
            def m(ip, a, k):
                if isinstance(v, str) and not any(ip.is_sym(x) for x in a):
                    return getattr(v, pyname)(*a)
                if a:
                    return SStr(ip.p.fresh(StrS, pyname))
                return SStr(f(t))
            return m

        def startswith(ip, a, k):
            xs = a[0] if isinstance(a[0], tuple) else (a[0],)
            return ip.mkbool(ip.disj([
                v.startswith(x) if isinstance(v, str) and isinstance(x, str)
                else z3.PrefixOf(ip.strterm(x), t) for x in xs]))

        def endswith(ip, a, k):
            xs = a[0] if isinstance(a[0], tuple) else (a[0],)
            return ip.mkbool(ip.disj([
                v.endswith(x) if isinstance(v, str) and isinstance(x, str)
                else z3.SuffixOf(ip.strterm(x), t) for x in xs]))

        def join(ip, a, k):
            lst = e.as_list(ip, a[0])
            if lst.explicit():
                out = None
                for it in lst.items:
                    x = ip.strterm(it.v)
                    out = x if out is None else z3.Concat(out, t, x)
                if out is None:
                    return ''
                return SStr(out)
            return SStr(ip.p.fresh(StrS, 'joined'))

        def fmt(ip, a, k):
            if isinstance(v, str) and not any(
                    ip.is_sym(x) for x in list(a) + list(k.values())):
                try:
                    return v.format(*a, **k)
                except Exception as ex:  # noqa
                    raise PyExc(type(ex), ex)
            s = None if k else e.filled(ip, v, list(a))
            return s if s is not None else e.opaque_str(ip, [v] + list(a))

        def split(ip, a, k):
            if isinstance(v, str) and not any(ip.is_sym(x) for x in a):
                return ip.lift(v.split(*a, **k), ip.p.tick())
            return LList([STRS.fresh_seg(ip.p, 'parts')], ip.p.tick(), STRS)

        def anystr(ip, a, k):
            if isinstance(v, str) and not any(ip.is_sym(x) for x in a):
                return getattr(v, name)(*a, **k)
            return SStr(ip.p.fresh(StrS, name))

        def anyint(ip, a, k):
            if isinstance(v, str) and not any(ip.is_sym(x) for x in a):
                return getattr(v, name)(*a, **k)
            return SInt(ip.p.fresh(INT, name))

        def anybool(ip, a, k):
            if isinstance(v, str):
                return getattr(v, name)(*a, **k)
            return SBool(ip.p.fresh(BOOL, name))

        table = {
            'upper': uf(upper_f, 'upper'), 'lower': uf(lower_f, 'lower'),
            'strip': uf(strip_f, 'strip'), 'lstrip': uf(lstrip_f, 'lstrip'),
            'rstrip': uf(rstrip_f, 'rstrip'),
            'startswith': startswith, 'endswith': endswith, 'join': join,
            'format': fmt, 'split': split, 'splitlines': split,
            'replace': anystr, 'title': anystr, 'capitalize': anystr,
            'ljust': anystr, 'rjust': anystr, 'encode': anystr,
            'decode': anystr,
            'find': anyint, 'rfind': anyint, 'index': anyint,
            'count': anyint,
            'isspace': anybool, 'isdigit': anybool, 'isupper': anybool,
            'islower': anybool, 'isalnum': anybool,
        }
        if name in ('rsplit', 'partition', 'rpartition') and isinstance(
                v, str):
            return Builtin('str.' + name, lambda ip, a, k: ip.lift(
                getattr(v, name)(*a, **k)))
        if name in table:
            return Builtin('str.' + name, table[name])
        return None

    def method_model(self, ip, v, name):
        if isinstance(v, LList):
            return self.list_method(ip, v, name)
        if isinstance(v, DDict):
            return self.dict_method(ip, v, name)
        if isinstance(v, SSet):
            return self.set_method(ip, v, name)
        if isinstance(v, (SStr, str)):
            return self.str_method(ip, v, name)
        if isinstance(v, tuple):
            if name in ('index', 'count'):
                return self.list_method(
                    ip, LList([El(x) for x in v], 0), name)
        return None

    # ---- subscripts
    def getitem(self, ip, o, k):
        if isinstance(o, LList):
            if isinstance(k, slice):
                return self.list_slice(ip, o, k)
            return self.list_get(ip, o, k)
        if isinstance(o, tuple):
            if isinstance(k, slice):
                return o[k]
            if isinstance(k, int):
                if -len(o) <= k < len(o):
                    return o[k]
                raise PyExc(IndexError)
            return self.list_get_sym(ip, LList([El(x) for x in o], 0), k)
        if isinstance(o, DDict) and o.unk:
            if ip.p.choose(2, 'getitem') == 0:
                return self.unk_value(ip, o)
            raise PyExc(KeyError)
        if isinstance(o, DDict):
            r = self.dict_key(ip, o, k)
            if r is None:
                raise PyExc(KeyError)
            return o.d[r[0]]
        if isinstance(o, Opaque):
            return self.tag(o.tag).getitem(ip, o, k)
        if isinstance(o, (SStr, str)):
            return self.str_getitem(ip, o, k)
        if isinstance(o, Obj):
            if '__items__' in o.fields and ip.class_attr(
                    o.cls, '__getitem__') in (None, tuple.__getitem__):
                return self.getitem(ip, o.fields['__items__'], k)
            f = ip.class_attr(o.cls, '__getitem__')
            if f is not None and in_repo(underlying(f)):
                return ip.call(ip.getattr(o, '__getitem__'), [k], {})
        if isinstance(o, (dict, list)):
            return self.getitem(ip, ip.lift(o), k)
        if isinstance(o, (re.Match,)):
            return o[k]
        raise Unsupported('subscript of %r' % (o,))

    def str_getitem(self, ip, o, k):
        if isinstance(o, str) and not ip.is_sym(k) and not (
                isinstance(k, slice) and any(
                    ip.is_sym(x) for x in (k.start, k.stop, k.step))):
            try:
                return o[k]
            except IndexError:
                raise PyExc(IndexError)
        t = ip.strterm(o)
        n = z3.Length(t)
        if isinstance(k, slice):
            if k.step not in (None, 1):
                return SStr(ip.p.fresh(StrS, 'rev'))

            def pos(x, dflt):
                if x is None:
                    return dflt
                if isinstance(x, int):
                    if x >= 0:
                        return z3.If(n < x, n, z3.IntVal(x))
                    return z3.If(n + x < 0, z3.IntVal(0), n + x)
                xt = ip.intterm(x)
                return z3.If(xt < 0, z3.If(n + xt < 0, z3.IntVal(0), n + xt),
                             z3.If(xt > n, n, xt))
            lo, hi = pos(k.start, z3.IntVal(0)), pos(k.stop, n)
            return SStr(z3.If(hi > lo, z3.SubString(t, lo, hi - lo),
                              z3.StringVal('')))
        i = ip.intterm(k)
        if not ip.p.branch(z3.And(i >= -n, i < n)):
            raise PyExc(IndexError)
        return SStr(z3.SubString(t, z3.If(i < 0, n + i, i), 1))

    def setitem(self, ip, o, k, v):
        if isinstance(o, LList):
            if isinstance(k, slice):
                return self.list_setslice(ip, o, k, v)
            if isinstance(k, int):
                if k >= 0:
                    if self.materialize(ip, o, k + 1) <= k:
                        raise PyExc(IndexError)
                elif self.materialize_back(ip, o, -k) < -k:
                    raise PyExc(IndexError)
                ip.note_write(o, 'items')
                o.items[k] = El(v)
                return
            if o.explicit():
                t = ip.intterm(k)
                n = len(o.items)
                for i in range(n):
                    if ip.p.branch(z3.Or(t == i, t == i - n)):
                        ip.note_write(o, 'items')
                        o.items[i] = El(v)
                        return
                raise PyExc(IndexError)
            return self.list_setitem_sym(ip, o, k, v)
        if isinstance(o, DDict) and o.unk:
            return self.unk_store(ip, o, v)
        if isinstance(o, DDict):
            r = self.dict_key(ip, o, k)
            ip.note_write(o, 'items')
            if r is None:
                if ip.is_sym(k) and not isinstance(k, Opaque):
                    raise Unsupported('symbolic dict key')
                o.d[k] = v
            else:
                o.d[r[0]] = v
            return
        if isinstance(o, Opaque):
            return self.tag(o.tag).setitem(ip, o, k, v)
        if isinstance(o, Obj):
            f = ip.class_attr(o.cls, '__setitem__')
            if f is not None and in_repo(underlying(f)):
                return ip.call(ip.getattr(o, '__setitem__'), [k, v], {})
        raise Unsupported('item assignment to %r' % (o,))

    def list_setslice(self, ip, o, k, v):
        lo, hi = k.start, k.stop
        if k.step is not None or not (lo is None or isinstance(lo, int)
                                      and lo >= 0):
            raise Unsupported('slice assignment')
        if not (hi is None or (isinstance(hi, int) and hi >= 0)):
            raise Unsupported('slice assignment')
        new = ip.items_of(self.as_list(ip, v))
        lo = lo or 0
        got = self.materialize(ip, o, lo if hi is None else hi)
        ip.note_write(o, 'items')
        o.items[min(lo, got):(len(o.items) if hi is None
                              else min(hi, got))] = new

    def list_setitem_sym(self, ip, o, k, v):
        raise Unsupported('item assignment at unknown index')

    def delitem(self, ip, o, k):
        if isinstance(o, LList) and isinstance(k, int):
            self.list_pop(ip, o, k)
            return
        if isinstance(o, LList) and isinstance(k, slice):
            return self.list_setslice(ip, o, k, LList([], 0))
        if isinstance(o, DDict) and o.unk:
            ip.note_write(o, 'items')
            if ip.p.choose(2, 'del') == 0:
                return
            raise PyExc(KeyError)
        if isinstance(o, DDict):
            r = self.dict_key(ip, o, k)
            if r is None:
                raise PyExc(KeyError)
            ip.note_write(o, 'items')
            del o.d[r[0]]
            return
        raise Unsupported('del of item')

    # ---- operators
    def binop(self, ip, op, a, b):
        if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
            if isinstance(op, ast.Add):
                if isinstance(a, str) and isinstance(b, str):
                    return a + b
                if a == '':
                    return b
                if b == '':
                    return a
                return SStr(z3.Concat(ip.strterm(a), ip.strterm(b)))
        if isinstance(op, ast.Add) and isinstance(
                a, (SStr, str, Opaque)) and isinstance(
                b, (SStr, str, Opaque)) and (
                    isinstance(a, (SStr, str)) or isinstance(b, (SStr, str))):
            # text from the configuration: some string (a wrong type raises)
            return self.opaque_str(ip, [a, b])
        if isinstance(op, ast.Mult) and (
                isinstance(a, (SStr, str)) or isinstance(b, (SStr, str))):
            if not ip.is_sym(a) and not ip.is_sym(b):
                return a * b
            return self.str_repeat(ip, a, b)
        if isinstance(op, ast.Mod) and isinstance(a, (str, SStr)):
            if isinstance(a, str) and not ip.is_sym(b):
                return a % b
            s = None
            if isinstance(a, str) and a.replace('%s', '').count('%') == 0:
                s = self.filled(
                    ip, a.replace('{', '{{').replace('}', '}}').replace(
                        '%s', '{}'), list(b) if isinstance(b, tuple) else [b])
            return s if s is not None else self.opaque_str(ip, [a, b])
        if isinstance(a, LList) and isinstance(op, ast.Add) and isinstance(
                b, (LList,)):
            return ip.new_list(a.copy_items() + b.copy_items(),
                               a.kind or b.kind)
        if isinstance(a, tuple) and isinstance(b, tuple) and isinstance(
                op, ast.Add):
            return a + b
        if isinstance(a, LList) and isinstance(op, ast.Mult) and isinstance(
                b, int):
            return ip.new_list(a.copy_items() * b, a.kind)
        if isinstance(a, SSet) and isinstance(b, SSet):
            f = {ast.BitOr: operator.or_, ast.BitAnd: operator.and_,
                 ast.Sub: operator.sub}.get(type(op))
            if f:
                return SSet(f(a.s, b.s), ip.p.tick())
        num = (SInt, SBool, int, bool)
        if isinstance(a, num) and isinstance(b, num):
            if not ip.is_sym(a) and not ip.is_sym(b):
                return self.pybin(op, a, b)
            x, y = ip.intterm(a), ip.intterm(b)
            if isinstance(op, ast.Add):
                return SInt(x + y)
            if isinstance(op, ast.Sub):
                return SInt(x - y)
            if isinstance(op, ast.Mult):
                return SInt(x * y)
            if isinstance(op, (ast.FloorDiv, ast.Mod)):
                if ip.p.branch(y == 0):
                    raise PyExc(ZeroDivisionError)
                # Python rounds towards minus infinity
                if ip.p.prove(y > 0, 1000, False)[0] == 'yes':
                    q = x / y
                else:
                    q = z3.If(y > 0, x / y, (-x) / (-y))
                if isinstance(op, ast.FloorDiv):
                    return SInt(q)
                return SInt(x - y * q)
            if isinstance(op, ast.BitAnd) and isinstance(
                    a, (SBool, bool)) and isinstance(b, (SBool, bool)):
                return SBool(z3.And(self.bt(a), self.bt(b)))
            if isinstance(op, ast.BitOr) and isinstance(
                    a, (SBool, bool)) and isinstance(b, (SBool, bool)):
                return SBool(z3.Or(self.bt(a), self.bt(b)))
        if isinstance(a, Opaque) and hasattr(self.tag(a.tag), 'binop'):
            return self.tag(a.tag).binop(ip, op, a, b)
        if isinstance(b, Opaque) and hasattr(self.tag(b.tag), 'rbinop'):
            return self.tag(b.tag).rbinop(ip, op, a, b)
        if isinstance(a, Obj):
            nm = {ast.Add: '__add__', ast.Sub: '__sub__'}.get(type(op))
            f = nm and ip.class_attr(a.cls, nm)
            if f is not None and in_repo(underlying(f)):
                return ip.call(ip.getattr(a, nm), [b], {})
        if not ip.is_sym(a) and not ip.is_sym(b):
            return ip.lift(self.pybin(op, a, b))
        if isinstance(a, (Opaque,)) and a.tag == 'any' or isinstance(
                b, Opaque) and b.tag == 'any':
            return Opaque('any', 'binop')
        raise Unsupported('operator %s on %r and %r'
                          % (type(op).__name__, a, b))

    def bt(self, v):
        return v.t if isinstance(v, SBool) else z3.BoolVal(v)

    def pybin(self, op, a, b):
        f = {ast.Add: operator.add, ast.Sub: operator.sub,
             ast.Mult: operator.mul, ast.FloorDiv: operator.floordiv,
             ast.Mod: operator.mod, ast.Div: operator.truediv,
             ast.BitOr: operator.or_, ast.BitAnd: operator.and_,
             ast.Pow: operator.pow, ast.BitXor: operator.xor,
             ast.LShift: operator.lshift,
             ast.RShift: operator.rshift}[type(op)]
        try:
            return f(a, b)
        except Exception as ex:  # noqa
            raise PyExc(type(ex), ex)

    def str_repeat(self, ip, a, b):
        s = ip.p.fresh(StrS, 'rep')
        x, n = (a, b) if isinstance(a, (str, SStr)) else (b, a)
        if type(n) is int and n <= 1:
            return x if n == 1 else ''
        nt = ip.intterm(n)
        ip.p.assume(z3.Length(s) == z3.If(
            nt > 0, nt * z3.Length(ip.strterm(x)), z3.IntVal(0)))
        return SStr(s)

    def order(self, ip, op, a, b):
        if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
            if isinstance(a, str) and isinstance(b, str):
                return self.pyorder(op, a, b)
            x, y = ip.strterm(a), ip.strterm(b)
            return {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y,
                    ast.Gt: lambda: y < x,
                    ast.GtE: lambda: y <= x}[type(op)]()
        num = (SInt, SBool, int, float, bool)
        if isinstance(a, num) and isinstance(b, num):
            if not ip.is_sym(a) and not ip.is_sym(b):
                return self.pyorder(op, a, b)
            if isinstance(a, float) or isinstance(b, float):
                x = z3.RealVal(a) if isinstance(a, float) else ip.intterm(a)
                y = z3.RealVal(b) if isinstance(b, float) else ip.intterm(b)
            else:
                x, y = ip.intterm(a), ip.intterm(b)
            return {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y,
                    ast.Gt: lambda: x > y,
                    ast.GtE: lambda: x >= y}[type(op)]()
        if isinstance(a, Opaque) and a.tag == 'any' or isinstance(
                b, Opaque) and b.tag == 'any':
            return ip.p.fresh(BOOL, 'cmp')
        if isinstance(a, Opaque) and hasattr(self.tag(a.tag), 'order'):
            return self.tag(a.tag).order(ip, op, a, b)
        if isinstance(b, Opaque) and hasattr(self.tag(b.tag), 'order'):
            return self.tag(b.tag).order(ip, op, a, b)
        if isinstance(a, Obj):
            nm = {ast.Lt: '__lt__', ast.LtE: '__le__', ast.Gt: '__gt__',
                  ast.GtE: '__ge__'}[type(op)]
            f = ip.class_attr(a.cls, nm)
            if f is not None and in_repo(underlying(f)):
                return ip.truth_term(ip.call(ip.getattr(a, nm), [b], {}))
            if '__items__' in a.fields:
                a = a.fields['__items__']
        if isinstance(b, Obj) and '__items__' in b.fields:
            b = b.fields['__items__']
        if isinstance(a, tuple) and isinstance(b, tuple):
            return self.tuple_order(ip, op, a, b)
        if not ip.is_sym(a) and not ip.is_sym(b):
            return self.pyorder(op, a, b)
        raise Unsupported('comparison of %r and %r' % (a, b))

    def tuple_order(self, ip, op, a, b):
        strict = ast.Lt() if isinstance(op, (ast.Lt, ast.LtE)) else ast.Gt()
        n = min(len(a), len(b))
        if len(a) == len(b):
            out = isinstance(op, (ast.LtE, ast.GtE))
        elif isinstance(op, (ast.Lt, ast.LtE)):
            out = len(a) < len(b)
        else:
            out = len(a) > len(b)
        for i in reversed(range(n)):
            eq = ip.eq_term(a[i], b[i])
            lt = self.order(ip, strict, a[i], b[i])
            out = ip.disj([lt, ip.conj([eq, out])])
        return out

    def pyorder(self, op, a, b):
        f = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt,
             ast.GtE: operator.ge}[type(op)]
        try:
            return f(a, b)
        except Exception as ex:  # noqa
            raise PyExc(type(ex), ex)

    # ---- isinstance
    def isinstance_term(self, ip, v, cls):
        if isinstance(cls, LList):
            cls = tuple(i.v for i in cls.items)
        if isinstance(cls, tuple):
            return ip.disj([self.isinstance_term(ip, v, c) for c in cls])
        if not isinstance(cls, type):
            raise Unsupported('isinstance with %r' % (cls,))
        if isinstance(v, Opaque):
            h = self.tag(v.tag)
            if h.pyclass is not None:
                return issubclass(h.pyclass, cls)
            return h.isinstance(ip, v, cls)
        c = self.pyclass(ip, v)
        return issubclass(c, cls)

    def tok_class(self):
        return None

    def pyclass(self, ip, v):
        if isinstance(v, Obj):
            return v.cls
        if isinstance(v, STok):
            return self.tok_class()
        if isinstance(v, SStr):
            return str
        if isinstance(v, SInt):
            return int
        if isinstance(v, SBool):
            return bool
        if isinstance(v, SEnum):
            return v.cls
        if isinstance(v, LList):
            return tuple if v.frozen else list
        if isinstance(v, DDict):
            return dict
        if isinstance(v, SSet):
            return set
        if isinstance(v, Closure):
            return types.FunctionType
        return type(v)

    # ---- builtin calls
    def call_model(self, ip, f, args, kwargs):
        if _hashable(f) and f in self.call_models:
            return (self.call_models[f](ip, args, kwargs),)
        if isinstance(f, operator.itemgetter):
            k = f.__reduce__()[1][0]
            return (self.getitem(ip, args[0], k),)
        if f is len:
            return (self.m_len(ip, args[0]),)
        if f is isinstance:
            return (ip.mkbool(self.isinstance_term(ip, args[0], args[1])),)
        if f is bool:
            if not args:
                return (False,)
            return (ip.mkbool(ip.truth_term(args[0])),)
        if f in (list, tuple):
            if not args:
                return (ip.new_list([]) if f is list else (),)
            src = self.as_list(ip, args[0])
            if f is tuple and src.explicit():
                return (tuple(i.v for i in src.items),)
            return (LList(src.copy_items(), ip.p.tick(), src.kind,
                          f is tuple),)
        if f is dict:
            if args:
                a = args[0]
                if isinstance(a, DDict):
                    d = dict(a.d)
                elif isinstance(a, Opaque):
                    return (self.dict_copy(ip, a, kwargs),)
                else:
                    d = {}
                    for x in self.as_list(ip, a).items:
                        if not isinstance(x, El):
                            raise Unsupported('dict() of unknown pairs')
                        k, v = ip.iter_explicit(x.v)
                        d[k] = v
            else:
                d = {}
            d.update(kwargs)
            return (DDict(d, ip.p.tick()),)
        if f in (set, frozenset):
            if not args:
                return (SSet(set(), ip.p.tick()),)
            if isinstance(args[0], SSet):
                return (SSet(set(args[0].s), ip.p.tick()),)
            xs = self.as_list(ip, args[0])
            if xs.explicit() and not any(ip.is_sym(i.v) for i in xs.items):
                return (SSet(set(i.v for i in xs.items), ip.p.tick()),)
            return (self.set_of(ip, xs),)
        if f is divmod and any(ip.is_sym(a) for a in args):
            return ((self.binop(ip, ast.FloorDiv(), *args),
                     self.binop(ip, ast.Mod(), *args)),)
        if f is enumerate:
            o = ip.new_obj(enumerate)
            src = args[0]
            if not isinstance(src, LList) and not isinstance(src, GenObj):
                src = self.as_list(ip, src)
            start = args[1] if len(args) > 1 else kwargs.get('start', 0)
            if isinstance(src, GenObj):
                raise Unsupported('enumerate of a generator')
            o.fields['__enumerate__'] = src
            o.fields['__start__'] = start
            return (o,)
        if f is zip:
            ls = [self.as_list(ip, a) for a in args]
            if all(x.explicit() for x in ls):
                return (LList([El(tuple(y.v for y in t)) for t in zip(
                    *[x.items for x in ls])], ip.p.tick()),)
            raise Unsupported('zip of unknown lists')
        if f is range:
            if not any(ip.is_sym(a) for a in args):
                return (range(*args),)
            return (self.m_range(ip, args),)
        if f is reversed:
            src = self.as_list(ip, args[0])
            return (self.list_slice(ip, src, slice(None, None, -1)),)
        if f is sorted:
            src = self.as_list(ip, args[0])
            return (self.m_sorted(ip, src, kwargs),)
        if f in (max, min):
            xs = args if len(args) > 1 else None
            if xs is None:
                src = self.as_list(ip, args[0])
                if not src.explicit():
                    return (self.m_minmax(ip, f, src, kwargs),)
                xs = [i.v for i in src.items]
            if not xs:
                if 'default' in kwargs:
                    return (kwargs['default'],)
                raise PyExc(ValueError)
            if not any(ip.is_sym(x) for x in xs):
                try:
                    return (f(xs),)
                except Exception as ex:  # noqa
                    raise PyExc(type(ex), ex)
            out = xs[0]
            for x in xs[1:]:
                op = ast.Gt() if f is max else ast.Lt()
                c = self.order(ip, op, x, out)
                if isinstance(x, (int, SInt)) and isinstance(
                        out, (int, SInt)) and not isinstance(c, bool):
                    out = SInt(z3.If(c, ip.intterm(x), ip.intterm(out)))
                elif ip.p.branch(c):
                    out = x
            return (out,)
        if f is sum:
            src = self.as_list(ip, args[0])
            if src.explicit():
                out = args[1] if len(args) > 1 else 0
                for it in src.items:
                    out = self.binop(ip, ast.Add(), out, it.v)
                return (out,)
            return (self.m_sum(ip, src),)
        if f in (any, all):
            if isinstance(args[0], GenObj) or True:
                src = self.as_list(ip, args[0])
                if src.explicit():
                    ts = [ip.truth_term(i.v) for i in src.items]
                    return (ip.mkbool(ip.disj(ts) if f is any
                                      else ip.conj(ts)),)
                return (SBool(ip.p.fresh(BOOL, f.__name__)),)
        if f is str:
            if not args:
                return ('',)
            a = args[0]
            if isinstance(a, SStr):
                return (a,)
            if ip.is_sym(a):
                return (self.opaque_str(ip, [a]),)
            return (str(a),)
        if f is int and args and ip.is_sym(args[0]):
            a = args[0]
            if isinstance(a, (SInt, SBool)):
                return (SInt(ip.intterm(a)),)
            if ip.p.choose(2, 'int()') == 0:
                return (SInt(ip.p.fresh(INT, 'int')),)
            raise PyExc(ValueError)
        if f is repr and ip.is_sym(args[0]):
            return (self.opaque_str(ip, args),)
        if f is hasattr:
            try:
                ip.getattr(args[0], args[1])
                return (True,)
            except PyExc as ex:
                if issubclass(ex.cls, AttributeError):
                    return (False,)
                raise
        if f is getattr and isinstance(args[1], SStr):
            for name in ('lower', 'upper'):
                if ip.p.branch(args[1].t == z3.StringVal(name)):
                    return (ip.getattr(args[0], name),)
            raise Unsupported('getattr with an unknown name')
        if f is getattr:
            try:
                return (ip.getattr(args[0], args[1]),)
            except PyExc as ex:
                if issubclass(ex.cls, AttributeError) and len(args) > 2:
                    return (args[2],)
                raise
        if f is setattr:
            ip.setattr(args[0], args[1], args[2])
            return (None,)
        if f is callable:
            a = args[0]
            if isinstance(a, (Closure, BoundMethod, Builtin)):
                return (True,)
        if f is id:
            a = args[0]
            return (('$id', id(a)),)
        if f is type and len(args) == 1:
            if ip.is_sym(args[0]) and not isinstance(args[0], Opaque):
                return (self.pyclass(ip, args[0]),)
        if f is next:
            return (self.m_next(ip, args),)
        if f is iter:
            if isinstance(args[0], LList):
                return (LList(args[0].copy_items(), ip.p.tick(),
                              args[0].kind),)
            return (args[0],)
        if f is print:
            return (None,)
        if f is abs and ip.is_sym(args[0]):
            t = ip.intterm(args[0])
            return (SInt(z3.If(t < 0, -t, t)),)
        if f is map:
            src = self.as_list(ip, args[1])
            if src.explicit():
                return (LList([El(ip.call(args[0], [i.v], {}))
                               for i in src.items], ip.p.tick()),)
        if f is tuple.__new__ or f is object.__new__:
            if f is object.__new__:
                return (ip.new_obj(args[0]),)
            return (ip.make_tuple_obj(args[0], args[1] if len(args) > 1
                                      else ()),)
        if f is functools.partial:
            a = list(args)

            def part(ip, a2, k2):
                kw = dict(kwargs)
                kw.update(k2)
                return ip.call(a[0], a[1:] + list(a2), kw)
            return (Builtin('partial', part),)
        if f is collections.OrderedDict:
            return self.call_model(ip, dict, args, kwargs)
        s = getattr(f, '__self__', None)
        if isinstance(s, str) and isinstance(f, types.BuiltinMethodType):
            m = self.str_method(ip, s, f.__name__)
            if m is not None:
                return (m.fn(ip, args, kwargs),)
        if isinstance(s, re.Pattern) and any(ip.is_sym(a) for a in args):
            return (self.regex_call(ip, s, f.__name__, args),)
        if f in (re.match, re.search) and any(ip.is_sym(a) for a in args):
            return (self.regex_call(ip, args[0], f.__name__, args[1:]),)
        if f is re.compile and any(ip.is_sym(a) for a in args):
            return (Opaque('regex', 'regex'),)
        return None

    def regex_call(self, ip, pat, name, args):
        if name in ('match', 'search', 'fullmatch'):
            if ip.p.choose(2, 'match') == 0:
                return Opaque('match', 'm', pat=pat, arg=args[0])
            return None
        if name == 'sub':
            return SStr(ip.p.fresh(StrS, 'sub'))
        if name in ('split', 'findall'):
            return LList([STRS.fresh_seg(ip.p, 'parts')], ip.p.tick(), STRS)
        raise Unsupported('regex %s' % name)

    def dict_copy(self, ip, a, kw):
        raise Unsupported('dict() of unknown mapping')

    def set_of(self, ip, xs):
        raise Unsupported('set of symbolic values')

    def m_len(self, ip, v):
        if isinstance(v, LList):
            if v.explicit():
                return len(v.items)
            return SInt(ip.len_term(v))
        if isinstance(v, DDict):
            return len(v.d)
        if isinstance(v, SSet):
            return len(v.s)
        if isinstance(v, SStr):
            return SInt(z3.Length(v.t))
        if isinstance(v, Opaque):
            return self.tag(v.tag).length(ip, v)
        if isinstance(v, Obj):
            if '__items__' in v.fields:
                return len(v.fields['__items__'])
            return ip.call(ip.getattr(v, '__len__'), [], {})
        return len(v)

    def m_range(self, ip, args):
        if len(args) == 1:
            lo, hi = z3.IntVal(0), ip.intterm(args[0])
        elif len(args) == 2:
            lo, hi = ip.intterm(args[0]), ip.intterm(args[1])
        else:
            raise Unsupported('range with a step')
        n = z3.If(hi > lo, hi - lo, z3.IntVal(0))
        o = ip.new_obj(enumerate)
        seg = ANY.fresh_seg(ip.p, 'range')
        ip.p.assume(seg.m['n'] == n)
        o.fields['__enumerate__'] = LList([seg], 0, ANY)
        o.fields['__start__'] = SInt(lo)
        o.fields['__range__'] = True
        return o

    def m_sorted(self, ip, src, kw):
        if src.explicit() and not any(ip.is_sym(i.v) for i in src.items) \
                and not kw:
            try:
                return LList([El(x) for x in sorted(
                    i.v for i in src.items)], ip.p.tick(), src.kind)
            except TypeError as ex:
                raise PyExc(TypeError, ex)
        return self.sorted_model(ip, src, kw)

    def m_minmax(self, ip, f, src, kw):
        if not kw and isinstance(src, LList) and src.items and all(
                isinstance(i, El) and type(i.v) in (int, str)
                for i in src.items):
            return f(i.v for i in src.items)
        return SInt(ip.p.fresh(INT, f.__name__))

    def m_sum(self, ip, src):
        return SInt(ip.p.fresh(INT, 'sum'))

    def m_next(self, ip, args):
        it = args[0]
        if isinstance(it, LList):
            try:
                return self.list_pop(ip, it, 0)
            except PyExc as ex:
                if issubclass(ex.cls, IndexError):
                    if len(args) > 1:
                        return args[1]
                    raise PyExc(StopIteration)
                raise
        if isinstance(it, GenObj):
            got = []

            def cb(x):
                got.append(x)
                raise GenStop()
            if getattr(it, 'used', False):
                raise Unsupported('second next() on a generator')
            it.used = True
            n = len(ip.frames)
            try:
                it.call(cb)
            except GenStop:
                del ip.frames[n:]
            if got:
                return got[0]
            if len(args) > 1:
                return args[1]
            raise PyExc(StopIteration)
        raise Unsupported('next of %r' % (it,))


class RegexHandler(TagHandler):
    def truth(self, ip, v):
        return True

    def getattr(self, ip, v, name):
        return Builtin('regex.' + name, lambda ip, a, k: ip.e.regex_call(
            ip, v, name, a))


class MatchHandler(TagHandler):
    def truth(self, ip, v):
        return True

    def eq(self, ip, v, other):
        return False

    def getattr(self, ip, v, name):
        if name in ('group', 'string'):
            return Builtin('match.group', lambda ip, a, k: memo(
                v, 'g%r' % (a,), lambda: SStr(ip.p.fresh(StrS, 'group'))))
        if name in ('start', 'end'):
            return Builtin('match.start', lambda ip, a, k: memo(
                v, name + '%r' % (a,), lambda: SInt(ip.p.fresh(INT, name))))
        if name == 'span':
            return Builtin('match.span', lambda ip, a, k: (
                SInt(ip.p.fresh(INT, 's')), SInt(ip.p.fresh(INT, 'e'))))
        if name in ('groups', 'groupdict'):
            return Builtin('match.groups',
                           lambda ip, a, k: Opaque('any', 'groups'))
        raise Unsupported('match.%s' % name)


def _hashable(f):
    try:
        hash(f)
        return True
    except TypeError:
        return False
