"""Contract on cmakelang.format.formatter.sort_arguments: the order it makes.

X and Y are two arbitrary children.  U is the argument X follows (X itself if
it is an argument; NONE if no argument precedes it), V the one Y follows.  The
positions of these four nodes in a list, the last argument of a list, and the
argument X and Y follow in it are summarized per list (datatype SOrd, a monoid
under concatenation), so that an arbitrary list is one symbolic segment.
"""
import z3

from . import models as M
from . import parsing as P
from . import formatting as FM
from .contract import spec
from .models import TagHandler, memo, INT, BOOL
from .values import *  # noqa
from .formatting import FMT, F, nt, NodeType
from .writing import WEngine

NodeS = z3.DeclareSort('SNode')
NONE = z3.Const('no_node', NodeS)
X, Y, U, V = [z3.Const(c, NodeS) for c in 'XYUV']
SetS = z3.ArraySort(NodeS, BOOL)
EMPTY = z3.K(NodeS, z3.BoolVal(False))
ARGS = z3.Const('argument_nodes', SetS)         # those of type ARGUMENT
first_f = z3.Function('first_spelling', NodeS, StrS)
other_f = z3.Function('other_spelling', NodeS, INT, StrS)
before_f = z3.Function('str_before', StrS, StrS, BOOL)
I0 = z3.IntVal(0)


def record(name, fields):
    """A datatype with fields, and an accessor that sees through `make`."""
    d = z3.Datatype(name)
    d.declare('mk' + name, *fields)
    d = d.create()
    names = [f for f, _ in fields]

    def get(t, f):
        if z3.is_app(t) and t.decl().eq(getattr(d, 'mk' + name)):
            return t.arg(names.index(f))
        return getattr(d, f)(t)
    return d, getattr(d, 'mk' + name), get


def ite(c, a, b):
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.eq(b):
        return a
    c = z3.simplify(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    return z3.If(c, a, b)


def union(a, b):
    if a.eq(EMPTY):
        return b
    if b.eq(EMPTY):
        return a
    return z3.SetUnion(a, b)


# ---- lists of nodes
SOrd, mkS, S = record('SOrd', [('n', INT)] + [
    (f + t, INT) for t in 'XYUV' for f in 'ci'] + [
    ('la', NodeS), ('ila', INT), ('oX', NodeS), ('ioX', INT),
    ('oY', NodeS), ('ioY', INT)])
S0 = mkS(*([I0] * 9 + [NONE, I0, NONE, I0, NONE, I0]))
CONST = dict(X=X, Y=Y, U=U, V=V)


def s_op(a, b):
    out = [S(a, 'n') + S(b, 'n')]
    for t in 'XYUV':
        out.append(S(a, 'c' + t) + S(b, 'c' + t))
        out.append(ite(S(a, 'c' + t) > 0, S(a, 'i' + t), ite(
            S(b, 'c' + t) > 0, S(a, 'n') + S(b, 'i' + t), I0)))
    has = S(b, 'la') != NONE
    out.append(ite(has, S(b, 'la'), S(a, 'la')))
    out.append(ite(has, S(a, 'n') + S(b, 'ila'), S(a, 'ila')))
    for t in 'XY':
        ina, inb = S(a, 'c' + t) > 0, S(b, 'c' + t) > 0
        own = S(b, 'o' + t) != NONE
        out.append(ite(ina, S(a, 'o' + t), ite(inb, ite(
            own, S(b, 'o' + t), S(a, 'la')), NONE)))
        out.append(ite(ina, S(a, 'io' + t), ite(inb, ite(
            own, S(a, 'n') + S(b, 'io' + t), S(a, 'ila')), I0)))
    return mkS(*out)


def nid(v):
    if isinstance(v, Opaque) and v.tag == 'snode':
        return v.kw['nid']
    raise Unsupported('identity of %r' % (v,))


def s_of(ip, v):
    i = nid(v)
    arg = z3.Select(ARGS, i)
    out = [z3.IntVal(1)]
    for t in 'XYUV':
        out += [z3.If(i == CONST[t], z3.IntVal(1), I0), I0]
    out += [z3.If(arg, i, NONE), I0]
    for t in 'XY':
        out += [z3.If(z3.And(arg, i == CONST[t]), i, NONE), I0]
    return mkS(*out)


def s_facts(o, s):
    """What holds of every list of nodes."""
    f = [S(o, 'n') >= 0]
    for t in 'XYUV':
        c, i = S(o, 'c' + t), S(o, 'i' + t)
        f += [c >= 0, c <= S(o, 'n'), z3.Implies(c == 0, i == 0),
              z3.Implies(c > 0, z3.And(i >= 0, i < S(o, 'n'))),
              z3.Select(s, CONST[t]) == (c > 0)]
    for i, t in enumerate('XYUV'):
        for r in 'XYUV'[:i]:
            f.append(z3.Implies(
                CONST[t] == CONST[r], z3.And(
                    S(o, 'c' + t) == S(o, 'c' + r),
                    S(o, 'i' + t) == S(o, 'i' + r))))
            f.append(z3.Implies(z3.And(
                CONST[t] != CONST[r], S(o, 'c' + t) > 0, S(o, 'c' + r) > 0),
                S(o, 'i' + t) != S(o, 'i' + r)))
    la = S(o, 'la')
    f.append(z3.If(la == NONE, S(o, 'ila') == 0, z3.And(
        z3.Select(ARGS, la), z3.Select(s, la), S(o, 'ila') >= 0,
        S(o, 'ila') < S(o, 'n'))))
    for t in 'XY':
        w, i = S(o, 'o' + t), S(o, 'io' + t)
        f.append(z3.Implies(S(o, 'c' + t) == 0, w == NONE))
        f.append(z3.If(w == NONE, i == 0, z3.And(
            la != NONE, z3.Select(ARGS, w), z3.Select(s, w), i >= 0,
            i <= S(o, 'i' + t))))
        # the argument followed is the only one at its place
        for r in 'UV':
            f.append(z3.Implies(z3.And(
                w == CONST[r], w != NONE, S(o, 'c' + r) <= 1),
                i == S(o, 'i' + r)))
    return z3.And(f)


def fresh_node(ip):
    i = ip.p.fresh(NodeS, 'node')
    ip.p.assume(i != NONE)
    return Opaque('snode', 'child', nid=i)


def set_measure(of):
    m = Measure('set', SetS, EMPTY, union, of)
    m.commutative = True
    return m


def one(i):
    return z3.Store(EMPTY, i, z3.BoolVal(True))


SNODES = Kind('snodes', [
    M.len_measure(), set_measure(lambda ip, v: one(nid(v))),
    Measure('ord', SOrd, S0, s_op, s_of)], fresh_node,
    lambda p, seg: p.assume(z3.And(
        S(seg.m['ord'], 'n') == seg.m['n'],
        s_facts(seg.m['ord'], seg.m['set']))))

# ---- pairs (identity, rank), as put in a dictionary: the last one counts
SRank, mkR, R = record('SRank', [('cU', INT), ('rU', INT), ('cV', INT),
                                 ('rV', INT)])


def r_op(a, b):
    out = []
    for t in 'UV':
        out += [R(a, 'c' + t) + R(b, 'c' + t), ite(
            R(b, 'c' + t) > 0, R(b, 'r' + t), R(a, 'r' + t))]
    return mkR(*out)


def pair_id(v):
    if isinstance(v[0], Opaque) and v[0].tag == 'nid':
        return v[0].kw['nid']
    raise Unsupported('key of a pair')


def r_of(ip, v):
    i = pair_id(v)
    out = []
    for t in 'UV':
        hit = i == CONST[t]
        out += [z3.If(hit, z3.IntVal(1), I0),
                z3.If(hit, ip.intterm(v[1]), I0)]
    return mkR(*out)


def fresh_pair(ip):
    return (Opaque('nid', 'id', nid=nid(fresh_node(ip))),
            SInt(ip.p.fresh(INT, 'rank')))


PAIRS = Kind('pairs', [
    M.len_measure(), set_measure(lambda ip, v: one(pair_id(v))),
    Measure('rank', SRank, mkR(I0, I0, I0, I0), r_op, r_of)], fresh_pair,
    lambda p, seg: p.assume(z3.And([z3.And(
        R(seg.m['rank'], 'c' + t) >= 0,
        (R(seg.m['rank'], 'c' + t) > 0) == z3.Select(
            seg.m['set'], CONST[t])) for t in 'UV'])))

# ---- triples (key, position, node)
STrip, mkT, T = record('STrip', [('n', INT)] + [
    (f + t, INT) for t in 'XY' for f in 'cikp'])


def t_op(a, b):
    out = [T(a, 'n') + T(b, 'n')]
    for t in 'XY':
        ina, inb = T(a, 'c' + t) > 0, T(b, 'c' + t) > 0
        out += [T(a, 'c' + t) + T(b, 'c' + t), ite(ina, T(a, 'i' + t), ite(
            inb, T(a, 'n') + T(b, 'i' + t), I0))]
        out += [ite(ina, T(a, f + t), T(b, f + t)) for f in 'kp']
    return mkT(*out)


def t_of(ip, v):
    i = nid(v[2])
    out = [z3.IntVal(1)]
    for t in 'XY':
        hit = i == CONST[t]
        out += [z3.If(hit, z3.IntVal(1), I0), I0] + [
            z3.If(hit, ip.intterm(v[j]), I0) for j in (0, 1)]
    return mkT(*out)


def t_facts(o, s):
    f = []
    for t in 'XY':
        c, i = T(o, 'c' + t), T(o, 'i' + t)
        f += [c >= 0, c <= T(o, 'n'), z3.Implies(c == 0, z3.And(
            i == 0, T(o, 'k' + t) == 0, T(o, 'p' + t) == 0)), z3.Implies(
                c > 0, z3.And(i >= 0, i < T(o, 'n'))),
            (c > 0) == z3.Select(s, CONST[t])]
    f.append(z3.Implies(z3.And(X != Y, T(o, 'cX') > 0, T(o, 'cY') > 0),
                        T(o, 'iX') != T(o, 'iY')))
    return z3.And(f)


def fresh_triple(ip):
    return (SInt(ip.p.fresh(INT, 'key')), SInt(ip.p.fresh(INT, 'pos')),
            fresh_node(ip))


STRIPS = Kind('triples of nodes', [
    M.len_measure(), set_measure(lambda ip, v: one(nid(v[2]))),
    Measure('trip', STrip, mkT(*([I0] * 9)), t_op, t_of)], fresh_triple,
    lambda p, seg: p.assume(z3.And(
        T(seg.m['trip'], 'n') == seg.m['n'],
        t_facts(seg.m['trip'], seg.m['set']))))


# ------------------------------------------------------------- handlers
class NodeHandler(TagHandler):
    def truth(self, ip, v):
        return True

    def getattr(self, ip, v, name):
        if name == 'pnode':
            return memo(v, 'pnode', lambda: Opaque(
                'spnode', 'pnode', nid=v.kw['nid']))
        if name == 'node_type':
            return arg_type(ip, v)
        raise Unsupported('%s of a child to sort' % name)


def arg_type(ip, v):
    def mk():
        e = ip.e.fresh_enum(ip, NodeType, 'nt')
        ip.p.assume((e.t == nt('ARGUMENT')) == z3.Select(ARGS, v.kw['nid']))
        return e
    return memo(v, '$nt', mk)


class PnodeHandler(TagHandler):
    def getattr(self, ip, v, name):
        if name == 'node_type':
            return arg_type(ip, v)
        if name == 'children':
            return Opaque('spkids', 'children', nid=v.kw['nid'])
        raise Unsupported('%s of the parse node of a child to sort' % name)


class KidsHandler(TagHandler):
    """The first child of an argument is its token (C06)."""

    def truth(self, ip, v):
        return True

    def getitem(self, ip, v, key):
        if type(key) is not int:
            raise Unsupported('child of a parse node')
        if ip.p.prove(z3.Select(ARGS, v.kw['nid']))[0] != 'yes':
            raise Unsupported('children of something else than an argument')
        return Opaque('sptok', 'token', nid=v.kw['nid'], key=key)


class TokHandler(TagHandler):
    def getattr(self, ip, v, name):
        if name != 'spelling':
            raise Unsupported('%s of a token' % name)
        if v.kw['key'] == 0:
            return SStr(first_f(v.kw['nid']))
        return SStr(other_f(v.kw['nid'], z3.IntVal(v.kw['key'])))


class MapHandler(TagHandler):
    """The dictionary of the pairs: for the keys in it, a function of the
    node."""

    def truth(self, ip, v):
        raise Unsupported('whether a map is empty')

    def contains(self, ip, v, item):
        return z3.Select(v.kw['set'], pair_id((item,)))

    def getitem(self, ip, v, key):
        i = pair_id((key,))
        if not ip.p.branch(z3.Select(v.kw['set'], i)):
            raise PyExc(KeyError)
        return SInt(z3.Select(v.kw['rk'], i))

    def getattr(self, ip, v, name):
        if name == 'get':
            def get(ip, a, k):
                i = pair_id(a)
                if ip.p.branch(z3.Select(v.kw['set'], i)):
                    return SInt(z3.Select(v.kw['rk'], i))
                return a[1] if len(a) > 1 else None
            return Builtin('get', get)
        raise Unsupported('map.' + name)


class IdHandler(TagHandler):
    def truth(self, ip, v):
        return True

    def eq(self, ip, v, other):
        if isinstance(other, Opaque) and other.tag == 'nid':
            return v.kw['nid'] == other.kw['nid']
        raise Unsupported('comparison of an id')


# --------------------------------------------------------------- sorting
def less(ip, a, b):
    """(a < b, a == b) of two keys, as Python compares them."""
    if isinstance(a, tuple) and isinstance(b, tuple):
        lt, eq = z3.BoolVal(False), z3.BoolVal(True)
        for x, y in zip(a, b):
            if isinstance(x, Opaque) or isinstance(y, Opaque):
                # nodes do not compare: the keys before them have to differ
                ip.s.obligation(ip.p, 'no two nodes are compared',
                                z3.Not(eq), {})
                ip.p.assume(z3.Not(eq))
                return lt, z3.BoolVal(False)
            l, e = less(ip, x, y)
            lt, eq = z3.Or(lt, z3.And(eq, l)), z3.And(eq, e)
        if len(a) != len(b):
            raise Unsupported('keys of different lengths')
        return lt, eq
    if isinstance(a, (SInt, int)) and isinstance(b, (SInt, int)):
        return ip.intterm(a) < ip.intterm(b), ip.intterm(a) == ip.intterm(b)
    if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
        s, t = ip.strterm(a), ip.strterm(b)
        ip.p.assume(z3.And(
            z3.Not(z3.And(before_f(s, t), before_f(t, s))),
            z3.Implies(s == t, z3.Not(before_f(s, t)))))
        return before_f(s, t), s == t
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        s, t = [ip.truth_term(x) if hasattr(ip, 'truth_term') else (
            x.t if isinstance(x, SBool) else z3.BoolVal(x)) for x in (a, b)]
        return z3.And(z3.Not(s), t), s == t
    raise Unsupported('comparison of keys')


class SortEngine(WEngine):
    def __init__(self):
        WEngine.__init__(self)
        self.tags.update({
            'snode': NodeHandler(), 'spnode': PnodeHandler(),
            'spkids': KidsHandler(), 'sptok': TokHandler(),
            'keymap': MapHandler(), 'nid': IdHandler()})
        self.call_models[id] = lambda ip, a, k: Opaque(
            'nid', 'id', nid=nid(a[0]))
        self.candidate_fns.append(candidates)

    def kind_of_value(self, ip, v):
        if isinstance(v, Opaque) and v.tag == 'snode':
            return SNODES
        if isinstance(v, tuple) and len(v) == 3 and isinstance(
                v[2], Opaque) and v[2].tag == 'snode':
            return STRIPS
        if isinstance(v, tuple) and len(v) == 2 and isinstance(
                v[0], Opaque) and v[0].tag == 'nid':
            return PAIRS
        return WEngine.kind_of_value(self, ip, v)

    def dict_from_pairs(self, ip, r):
        if self.list_kind(ip, r) is not PAIRS:
            raise Unsupported('dict of other pairs')
        s = self.measure(ip, r, 'set', PAIRS)
        k = self.measure(ip, r, 'rank', PAIRS)
        rk = ip.p.fresh(z3.ArraySort(NodeS, INT), 'rank_of')
        for t in 'UV':
            ip.p.assume(z3.Implies(z3.Select(s, CONST[t]), z3.Select(
                rk, CONST[t]) == R(k, 'r' + t)))
        return Opaque('keymap', 'map', set=s, rk=rk)

    def sorted_model(self, ip, v, kw):
        """A permutation; the keys of the nodes of interest decide their
        order, equal keys keep it."""
        kind = self.list_kind(ip, v)
        if kind not in (SNODES, STRIPS) or set(kw) - {'key', 'reverse'}:
            raise Unsupported('sort of something else')
        rev = kw.get('reverse', False)
        if type(rev) is not bool:
            raise Unsupported('sort with reverse')
        name = 'ord' if kind is SNODES else 'trip'
        G = S if kind is SNODES else T
        old = self.measure(ip, v, name, kind)
        seg = kind.fresh_seg(ip.p, 'sorted')
        new = seg.m[name]
        for m in ('n', 'set'):
            ip.p.assume(seg.m[m] == self.measure(ip, v, m, kind))
        pair = 'UV' if kind is SNODES else 'XY'
        for t in 'XYUV' if kind is SNODES else 'XY':
            ip.p.assume(G(new, 'c' + t) == G(old, 'c' + t))
        if kind is STRIPS:
            for t in 'XY':
                for f in 'kp':
                    ip.p.assume(T(new, f + t) == T(old, f + t))
        a, b = pair
        # both of them are in the list, and they are not the same
        there = z3.And(G(old, 'c' + a) == 1, G(old, 'c' + b) == 1,
                       CONST[a] != CONST[b])
        if ip.p.branch(there):
            keys = []
            for t in pair:
                e = Opaque('snode', t, nid=CONST[t])
                if kind is STRIPS:
                    e = (SInt(T(old, 'k' + t)), SInt(T(old, 'p' + t)), e)
                if kw.get('key') is not None:
                    e = ip.call(kw['key'], [e], {})
                keys.append(e)
            if isinstance(keys[0], Opaque):
                raise Unsupported('sort without a key')
            lt, eq = less(ip, keys[0], keys[1])
            gt, _ = less(ip, keys[1], keys[0])
            if rev:
                lt, gt = gt, lt
            na, nb = G(new, 'i' + a), G(new, 'i' + b)
            oa, ob = G(old, 'i' + a), G(old, 'i' + b)
            ip.p.assume(z3.Implies(lt, na < nb))
            ip.p.assume(z3.Implies(gt, na > nb))
            ip.p.assume(z3.Implies(eq, (na < nb) == (oa < ob)))
        return LList([seg], ip.p.tick(), kind)

    def loop_pre(self, ip, al):
        pre = WEngine.loop_pre(self, ip, al)
        for fi, n, v in P.frame_vars(al, ip):
            if not n.startswith('$') and type(v) is not bool and isinstance(
                    v, (SInt, int)):
                pre[n, fi] = ip.intterm(v)
        return pre


def candidates(ip, al, where):
    ms = lambda v, m, k: ip.e.measure(ip, v, m, k)
    kinds = (SNODES, STRIPS, PAIRS)
    vs = list(P.frame_vars(al, ip))
    lists = [(n, v, ip.e.list_kind(ip, v)) for fi, n, v in vs
             if isinstance(v, LList)]
    live = set(key[2] for a in list(ip.active) + [al] for key in a.info.live
               if key[0] == 'v')
    dones = [(n, v, k) for n, v, k in lists if n in live and
             n.startswith('$done') and k in (SNODES, STRIPS)]
    for fi, n, v in vs:
        for dn, d, dk in dones:
            if n == '$idx' + dn[5:]:
                yield 'the index counts the rounds [%s]' % dn, \
                    ip.intterm(v) == ip.len_term(d)
    maps = [(n, v) for fi, n, v in vs
            if isinstance(v, Opaque) and v.tag == 'keymap']
    ints = [(fi, n, v) for fi, n, v in vs if not n.startswith('$') and
            type(v) is not bool and isinstance(v, (SInt, int))]

    def rank(mp, node, pre):
        return z3.If(node == NONE, pre, z3.Select(mp.kw['rk'], node))
    for dn, d, dk in dones:
        ds, dlen = ms(d, 'set', dk), ip.len_term(d)
        if dk is STRIPS:
            o, G = ms(d, 'trip', dk), T
        else:
            o, G = ms(d, 'ord', dk), S
        for n, v, k in lists:
            if n.startswith(('$done', '$rest')) or k is not None and \
                    k not in kinds:
                continue
            lab = '%s/%s' % (n, dn)
            z = k is None
            yield 'nodes of %s' % lab, (
                EMPTY if z else ms(v, 'set', k)) == ds
            if z or k is SNODES:
                q = S0 if z else ms(v, 'ord', k)
                yield 'arguments of %s' % lab, (
                    EMPTY if z else ms(v, 'set', k)) == z3.SetIntersect(
                        ds, ARGS)
                for t in 'XYUV' if dk is SNODES else 'XY':
                    yield 'count of %s in %s' % (t, lab), \
                        S(q, 'c' + t) == G(o, 'c' + t)
                    yield 'place of %s in %s' % (t, lab), \
                        S(q, 'i' + t) == G(o, 'i' + t)
                if dk is SNODES:
                    yield 'order of U, V in %s' % lab, z3.Implies(z3.And(
                        S(o, 'cU') > 0, S(o, 'cV') > 0),
                        (S(q, 'iU') < S(q, 'iV')) == (
                            S(o, 'iU') < S(o, 'iV')))
                yield 'length of %s' % lab, (
                    z3.IntVal(0) if z else ip.len_term(v)) == dlen
            if (z or k is PAIRS) and dk is SNODES:
                q = PAIRS.measures['rank'].unit if z else ms(v, 'rank', k)
                for t in 'UV':
                    for c in (0, 1):
                        yield 'rank of %s in %s +%d' % (t, lab, c), \
                            z3.Implies(S(o, 'c' + t) > 0, R(
                                q, 'r' + t) == S(o, 'i' + t) + c)
            if (z or k is STRIPS) and dk is SNODES:
                q = STRIPS.measures['trip'].unit if z else ms(v, 'trip', k)
                yield 'length of %s (triples)' % lab, (
                    z3.IntVal(0) if z else ip.len_term(v)) == dlen
                for t in 'XY':
                    in_ = S(o, 'c' + t) > 0
                    yield 'count of %s in %s (triples)' % (t, lab), \
                        T(q, 'c' + t) == S(o, 'c' + t)
                    yield 'place of %s in %s (triples)' % (t, lab), \
                        T(q, 'i' + t) == S(o, 'i' + t)
                    yield 'position of %s in %s' % (t, lab), z3.Implies(
                        in_, T(q, 'p' + t) == S(o, 'i' + t) - S(
                            o, 'io' + t))
                    yield 'position of %s in %s, absolute' % (t, lab), \
                        z3.Implies(in_, T(q, 'p' + t) == S(o, 'i' + t))
                    for mn, mp in maps:
                        for fi, vn, x in ints:
                            if (vn, fi) in al.pre:
                                yield 'key of %s in %s by %s %s%d' % (
                                    t, lab, mn, vn, fi), z3.Implies(
                                    in_, T(q, 'k' + t) == rank(
                                        mp, S(o, 'o' + t), al.pre[vn, fi]))
        if dk is SNODES:
            for fi, n, v in ints:
                x = ip.intterm(v)
                if (n, fi) not in al.pre:
                    continue
                yield '%s%d counts the rounds of %s' % (n, fi, dn), \
                    x == al.pre[n, fi] + dlen
                yield '%s%d counts from the last argument of %s' % (
                    n, fi, dn), x == dlen - S(o, 'ila')
                for mn, mp in maps:
                    yield '%s%d is the rank in %s of the last argument of ' \
                        '%s' % (n, fi, mn, dn), x == rank(
                            mp, S(o, 'la'), al.pre[n, fi])


@spec('sort', FMT + 'sort_arguments', SortEngine,
      name='sort_arguments (order)')
def order(h):
    """Two children, each once in the list, come out in the order of the
    arguments they follow; those following the same one keep their order."""
    ip = h.ip
    ch = LList([SNODES.fresh_seg(h.p, 'children')], 0, SNODES)
    o = ip.e.measure(ip, ch, 'ord', SNODES)
    h.assume(z3.And(X != Y, X != NONE, Y != NONE,
                    S(o, 'cX') == 1, S(o, 'cY') == 1,
                    S(o, 'oX') == U, S(o, 'oY') == V,
                    z3.Not(z3.Select(ARGS, NONE)),
                    S(o, 'cU') <= 1, S(o, 'cV') <= 1))
    r = h.call(ch)
    k = ip.e.list_kind(ip, r)
    h.ensure('a list of nodes', z3.BoolVal(k is SNODES))
    if k is not SNODES:
        return
    q = ip.e.measure(ip, r, 'ord', SNODES)
    h.ensure('the same nodes', z3.And(
        ip.e.measure(ip, r, 'set', SNODES) == ip.e.measure(
            ip, ch, 'set', SNODES), ip.len_term(r) == ip.len_term(ch)))
    h.ensure('each once', z3.And(S(q, 'cX') == 1, S(q, 'cY') == 1))
    xy = S(q, 'iX') < S(q, 'iY')
    was = S(o, 'iX') < S(o, 'iY')
    kx, ky = M.lower_f(first_f(U)), M.lower_f(first_f(V))
    h.ensure('what follows the same argument keeps its order',
             z3.Implies(U == V, xy == was))
    h.ensure('what precedes every argument stays in front', z3.And(
        z3.Implies(z3.And(U == NONE, V != NONE), xy),
        z3.Implies(z3.And(V == NONE, U != NONE), z3.Not(xy))))
    h.ensure('arguments are ordered by their lower-cased spelling, each '
             'with what follows it', z3.Implies(
                 z3.And(U != V, U != NONE, V != NONE), z3.And(
                     z3.Implies(before_f(kx, ky), xy),
                     z3.Implies(before_f(ky, kx), z3.Not(xy)))))
    h.ensure('arguments spelled alike keep their order', z3.Implies(
        z3.And(U != V, U != NONE, V != NONE, kx == ky),
        xy == (S(o, 'iU') < S(o, 'iV'))))
