"""Symbolic values of the deductive verifier."""
import z3


class Unsupported(Exception):
    """The code uses something outside the verifier's reach."""


class PathEnd(Exception):
    """This path is finished (loop back-edge, infeasible, ...)."""


class Restart(Exception):
    """Loop information changed; the exploration starts again."""


class PyExc(Exception):
    """A Python exception raised by the interpreted code."""

    def __init__(self, cls, val=None, where=None):
        Exception.__init__(self, getattr(cls, '__name__', str(cls)))
        self.cls = cls
        self.val = val
        self.where = where


class ReturnSig(Exception):
    def __init__(self, val):
        self.val = val


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class GenStop(Exception):
    """The consumer of a generator does not want more elements."""


TokS = z3.DeclareSort('Tok')
TokSeq = z3.SeqSort(TokS)
StrS = z3.StringSort()


class SV(object):
    """A scalar symbolic value wrapping a z3 term."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return '%s(%s)' % (type(self).__name__, self.t)


class SInt(SV):
    pass


class SBool(SV):
    pass


class SStr(SV):
    pass


class STok(SV):
    pass


class SEnum(SV):
    """A value of an EnumObject class (term: its integer value)."""
    __slots__ = ('cls',)

    def __init__(self, t, cls):
        self.t = t
        self.cls = cls


class Opaque(object):
    """An unknown object of a declared kind (tag)."""

    def __init__(self, tag, name='', **kw):
        self.tag = tag
        self.name = name
        self.attrs = {}
        self.kw = kw
        self.stamp = 0

    def __repr__(self):
        return 'Opaque(%s,%s)' % (self.tag, self.name)


class Obj(object):
    """An instance of a real class with symbolic fields."""

    def __init__(self, cls, stamp, fields=None):
        self.cls = cls
        self.stamp = stamp
        self.fields = fields if fields is not None else {}
        self.ghost = {}          # measure values for snapshots of unknown nodes
        self.lazy = None         # callable(path, obj, name) -> value

    def __repr__(self):
        return '<%s obj>' % getattr(self.cls, '__name__', self.cls)


class El(object):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Seg(object):
    """An unknown run of list elements; only its measures are known."""
    __slots__ = ('kind', 'm', 'extra')

    def __init__(self, kind, m, extra=None):
        self.kind = kind
        self.m = m
        self.extra = extra


class LList(object):
    """A Python list (or, with frozen set, a tuple) of known and unknown runs."""

    def __init__(self, items=None, stamp=0, kind=None, frozen=False):
        self.items = items if items is not None else []
        self.stamp = stamp
        self.kind = kind
        self.frozen = frozen

    def mark_of(self):
        """The name given to a list that is still as it was marked."""
        if len(self.items) != 1 or not isinstance(self.items[0], Seg):
            return None
        m = getattr(self, 'mark', None)
        if m is not None and self.items[0] is m[1]:
            return m[0]
        return self.items[0].extra

    def explicit(self):
        return all(isinstance(i, El) for i in self.items)

    def copy_items(self):
        return list(self.items)

    def __repr__(self):
        return 'LList(%s)' % ','.join(
            repr(i.v) if isinstance(i, El) else '~' + i.kind.name
            for i in self.items)


class DDict(object):
    """A dict with concrete keys (insertion ordered)."""

    def __init__(self, d=None, stamp=0):
        self.d = d if d is not None else {}
        self.stamp = stamp
        self.unk = None      # 'str' or 'any': contents unknown


class SSet(object):
    """A set with concrete members."""

    def __init__(self, s=None, stamp=0):
        self.s = s if s is not None else set()
        self.stamp = stamp
        self.unk = None      # contents unknown


class BoundMethod(object):
    def __init__(self, fn, self_, defcls=None):
        self.fn = fn
        self.self_ = self_
        self.defcls = defcls

    def __repr__(self):
        return 'bound %s' % getattr(self.fn, '__qualname__', self.fn)


class Closure(object):
    """A nested def or lambda of interpreted code."""

    def __init__(self, node, frame, name):
        self.node = node
        self.frame = frame
        self.name = name
        self.stamp = 0


class SuperProxy(object):
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class GenObj(object):
    """A suspended call of a generator function."""

    def __init__(self, call):
        self.call = call   # callable(yield_callback)


class Builtin(object):
    """A bound model method, e.g. list.append of a particular list."""

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return 'builtin %s' % self.name


class Poison(object):
    """Value of a variable that is dead at a loop head."""

    def __init__(self, info, key):
        self.info = info
        self.key = key


class Unbound(object):
    pass


UNBOUND = Unbound()


class Measure(object):
    """A monoid homomorphism on lists of some kind."""

    def __init__(self, name, sort, unit, op, of):
        self.name = name
        self.sort = sort
        self.unit = unit
        self.op = op
        self.of = of      # (path, value) -> term


class Kind(object):
    """What the elements of a symbolic list are, and which measures it has."""

    def __init__(self, name, measures, fresh_elem, side=None):
        self.name = name
        self.measures = {m.name: m for m in measures}
        self.fresh_elem = fresh_elem      # (path) -> value, with ghosts
        self.side = side                  # (path, seg) -> assume facts

    def fresh_seg(self, path, hint='s'):
        m = {}
        for k, me in self.measures.items():
            m[k] = path.fresh(me.sort, '%s_%s' % (hint, k))
        seg = Seg(self, m)
        path.assume(m['n'] >= 0)
        path.assume(z3.Implies(m['n'] == 0, z3.And(
            [m[k] == me.unit for k, me in self.measures.items()])))
        if self.side:
            self.side(path, seg)
        return seg
