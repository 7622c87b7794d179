"""Contracts on the parser: cmakelang.parse.*"""
import ast
import importlib
import inspect
import pkgutil
import types

import z3

from pyver import engine as E
from pyver import models as M
from pyver.engine import underlying, in_repo
from pyver.models import TagHandler, memo, INT, BOOL
from pyver.values import *  # noqa

from cmakelang import lex, parse as parse_pkg, common as ccommon
from cmakelang.lex import TokenType, Token, SourceLocation
from cmakelang.parse import simple_nodes, argument_nodes, additional_nodes
from cmakelang.parse import statement_node, body_nodes
from cmakelang.parse.common import TreeNode, NodeType
from cmakelang.parse import funs as pfuns

putil = importlib.import_module('cmakelang.parse.util')
pcommon = importlib.import_module('cmakelang.parse.common')

ttype = z3.Function('ttype', TokS, INT)
tspell = z3.Function('tspell', TokS, StrS)
tline = z3.Function('tline', TokS, INT)
tcol = z3.Function('tcol', TokS, INT)
toff = z3.Function('toff', TokS, INT)
teline = z3.Function('teline', TokS, INT)
tecol = z3.Function('tecol', TokS, INT)
teoff = z3.Function('teoff', TokS, INT)
tindex = z3.Function('tindex', TokS, INT)

EMPTY = z3.Empty(TokSeq)


def cat(a, b):
    if a.eq(EMPTY):
        return b
    if b.eq(EMPTY):
        return a
    return z3.Concat(a, b)


def tokflat(t):
    return z3.If(ttype(t) == TokenType.BYTEORDER_MARK.value, EMPTY,
                 z3.Unit(t))


def mk_tok(ip):
    t = ip.p.fresh(TokS, 'tok')
    ids = sorted(TokenType._id_map)
    ip.p.assume(z3.And(ttype(t) >= min(ids), ttype(t) <= max(ids)))
    return STok(t)


def is_ws(t):
    return z3.Or([ttype(t) == x.value for x in (TokenType.WHITESPACE,
                                                TokenType.NEWLINE)])


def seq_measure(name, of):
    return Measure(name, TokSeq, EMPTY, cat, of)


def and_measure(name, of):
    m = Measure(name, BOOL, z3.BoolVal(True), lambda a, b: z3.And(a, b), of)
    m.commutative = True
    return m


def or_measure(name, of):
    m = Measure(name, BOOL, z3.BoolVal(False), lambda a, b: z3.Or(a, b), of)
    m.commutative = True
    return m


CW_TYPES = (TokenType.WHITESPACE, TokenType.NEWLINE, TokenType.COMMENT,
            TokenType.BRACKET_COMMENT)


def tokhead(t):
    """0: blank or comment, 1: right parenthesis, 2: anything else."""
    return z3.If(z3.Or([ttype(t) == x.value for x in CW_TYPES]), 0,
                 z3.If(ttype(t) == TokenType.RIGHT_PAREN.value, 1, 2))


# the class of the first token that is neither blank nor comment
HEAD = Measure('head', INT, z3.IntVal(0),
               lambda a, b: z3.If(a == 0, b, a),
               lambda ip, v: tokhead(v.t))

TOKS = Kind('toks', [
    M.len_measure(),
    seq_measure('flat', lambda ip, v: tokflat(v.t)),
    HEAD,
], mk_tok, lambda p, seg: p.assume(z3.And(seg.m['head'] >= 0,
                                          seg.m['head'] <= 2)))


def node_flat(ip, v):
    if isinstance(v, STok):
        return tokflat(v.t)
    if isinstance(v, Opaque) and v.tag == 'node':
        return v.kw['flat']
    if isinstance(v, Obj) and issubclass(v.cls, TreeNode):
        ch = v.fields['children']
        return list_flat(ip, ch)
    raise Unsupported('tree contains %r' % (v,))


def list_flat(ip, lst):
    t = EMPTY
    for it in lst.items:
        t = cat(t, it.m['flat'] if isinstance(it, Seg)
                else node_flat(ip, it.v))
    return t


def fresh_node(ip, hint='node', cls=None):
    f = ip.p.fresh(TokSeq, hint + '_flat')
    o = Opaque('node', hint, flat=f, cls=cls)
    o.stamp = ip.p.tick()
    return o


def node_or_tok(ip):
    if ip.p.choose(2, 'tok or node') == 0:
        return mk_tok(ip)
    return fresh_node(ip, 'child')


NODES = Kind('nodes', [
    M.len_measure(),
    seq_measure('flat', node_flat),
], node_or_tok)


def is_paren_breaker(ip, v):
    """Whether a break check is certainly true of a right parenthesis."""
    if isinstance(v, Opaque):
        return memo(v, '$paren', lambda: ip.p.fresh(BOOL, 'isparen'))
    if isinstance(v, Obj) and v.cls is pcommon.ParenBreaker:
        return z3.BoolVal(True)
    return z3.BoolVal(False)


def is_only_paren(ip, v):
    """Whether a break check is certainly false of anything else."""
    if isinstance(v, Opaque):
        return memo(v, '$onlyparen', lambda: ip.p.fresh(BOOL, 'onlyparen'))
    if isinstance(v, Obj) and v.cls is pcommon.ParenBreaker:
        return z3.BoolVal(True)
    return z3.BoolVal(False)


BREAKERS = Kind('breakers', [
    M.len_measure(),
    or_measure('paren', is_paren_breaker),
    and_measure('onlyparen', is_only_paren),
], lambda ip: Opaque('breaker', 'brk'))

PSPECS = M.simple_kind('pspecs', lambda ip: Opaque('pspec', 'pspec'))
FLAGS = M.STRS


class LocHandler(TagHandler):
    pyclass = SourceLocation

    def truth(self, ip, v):
        return True

    def _f(self, ip, v, name):
        t = v.kw.get('tok')
        if t is None:
            return SInt(memo(v, name, lambda: ip.p.fresh(INT, name)))
        f = {'line': (tline, teline), 'col': (tcol, tecol),
             'offset': (toff, teoff)}[name][1 if v.kw.get('end') else 0]
        return SInt(f(t))

    def getattr(self, ip, v, name):
        if name in ('line', 'col', 'offset'):
            return self._f(ip, v, name)
        raise PyExc(AttributeError)

    def getitem(self, ip, v, key):
        if isinstance(key, int):
            return self._f(ip, v, ('line', 'col', 'offset')[key])
        raise Unsupported('location subscript')

    def order(self, ip, op, a, b):
        return ip.p.fresh(BOOL, 'cmp')

    def eq(self, ip, v, other):
        if other is None:
            return False
        return ip.p.fresh(BOOL, 'eq')


class NodeHandler(TagHandler):
    """A parse node returned by a contract: its structure is private."""

    def truth(self, ip, v):
        return True

    def eq(self, ip, v, other):
        return False

    def isinstance(self, ip, v, cls):
        if cls is TreeNode or cls is object:
            return True
        if not issubclass(cls, TreeNode):
            return False
        c = v.kw.get('cls')
        if c is not None and issubclass(c, cls):
            return True
        return memo(v, '$isa' + cls.__name__,
                    lambda: ip.p.fresh(BOOL, 'isa'))

    def getattr(self, ip, v, name):
        if name == 'children':
            def mk():
                seg = NODES.fresh_seg(ip.p, 'ch')
                ip.p.assume(seg.m['flat'] == v.kw['flat'])
                l = LList([seg], v.stamp, NODES)
                l.owner = v
                return l
            return memo(v, name, mk)
        if name == 'node_type':
            return memo(v, name, lambda: ip.e.fresh_enum(
                ip, NodeType, 'nt'))
        if name == '__class__':
            return Opaque('any', 'cls')
        cls = v.kw.get('cls') or TreeNode
        a, owner = ip.class_attr_owner(cls, name)
        if isinstance(a, types.FunctionType):
            return BoundMethod(a, v, owner)
        if isinstance(a, (classmethod, staticmethod)):
            return ip.bind(a, v, owner)
        if name in ('parg_groups', 'kwarg_groups'):
            return memo(v, name, lambda: LList(
                [NODES_ONLY.fresh_seg(ip.p, name)], v.stamp, NODES_ONLY))
        if name in ('keyword', 'body', 'argtree', 'funnode'):
            return memo(v, name, lambda: fresh_node(ip, name))
        if name in ('token', 'varname'):
            return memo(v, name, lambda: mk_tok(ip))
        if name == 'tags':
            # not part of any measure; unknown whenever it is read
            return LList([M.STRS.fresh_seg(ip.p, 'tags')], ip.p.tick(),
                         M.STRS)
        return memo(v, name, lambda: Opaque('any', name))

    def setattr(self, ip, v, name, val):
        if name in ('children', 'node_type'):
            raise Unsupported('write to %s of a finished node' % name)
        v.attrs[name] = val


NODES_ONLY = M.simple_kind('nodeobjs', lambda ip: fresh_node(ip, 'n'))


class BreakerHandler(TagHandler):
    def truth(self, ip, v):
        return True

    def call(self, ip, v, args, kwargs):
        r = ip.p.fresh(BOOL, 'brk')
        if args and isinstance(args[0], STok):
            rp = ttype(args[0].t) == TokenType.RIGHT_PAREN.value
            ip.p.assume(z3.Implies(z3.And(is_paren_breaker(ip, v), rp), r))
            ip.p.assume(z3.Implies(z3.And(is_only_paren(ip, v), r), rp))
        return SBool(r)


class ParserHandler(TagHandler):
    """A callable that satisfies the parser contract."""

    def truth(self, ip, v):
        return True

    def eq(self, ip, v, other):
        if other is None:
            return False
        return ip.p.fresh(BOOL, 'eq')

    def isinstance(self, ip, v, cls):
        return memo(v, '$isa' + cls.__name__, lambda: ip.p.fresh(BOOL, 'isa'))

    def getattr(self, ip, v, name):
        if name in ('cmdspec',):
            return memo(v, name, lambda: Opaque('cmdspec', name))
        return memo(v, name, lambda: Opaque('any', name))

    def call(self, ip, v, args, kwargs):
        ip.s.used_contracts.add('<parser callable>')
        if v.kw.get('db'):
            bs = args[2] if len(args) > 2 else kwargs.get('breakstack')
            ParserContract().require(ip, bs)
        elif not v.kw.get('node') and ip.p.choose(2, 'no node') == 1:
            return None
        return ParserContract().apply_tokens(ip, args[1], 'sub')


class KwmapHandler(TagHandler):
    """A mapping from keyword to parser."""

    def truth(self, ip, v):
        return memo(v, '$t', lambda: ip.p.fresh(BOOL, 't'))

    def contains(self, ip, v, item):
        if item is None:
            return False
        return ip.p.fresh(BOOL, 'iskw')

    def getitem(self, ip, v, key):
        return Opaque('parser', 'subparser')

    def getattr(self, ip, v, name):
        if name == 'keys':
            return Builtin('keys', lambda ip, a, k: LList(
                [M.STRS.fresh_seg(ip.p, 'keys')], ip.p.tick(), M.STRS))
        if name == 'get':
            def get(ip, a, k):
                if ip.p.choose(2, 'get') == 0:
                    return Opaque('parser', 'subparser')
                return a[1] if len(a) > 1 else None
            return Builtin('get', get)
        raise Unsupported('%s of a keyword map' % name)

    def iterate(self, ip, v):
        return LList([M.STRS.fresh_seg(ip.p, 'keys')], ip.p.tick(), M.STRS)

    def isinstance(self, ip, v, cls):
        return cls is dict


class CmdspecHandler(M.AnyHandler):
    def getattr(self, ip, v, name):
        if name == 'pargs':
            return memo(v, name, lambda: LList(
                [PSPECS.fresh_seg(ip.p, 'pargs')], v.stamp, PSPECS))
        if name == 'kwargs':
            return memo(v, name, lambda: Opaque('any', name))
        return M.AnyHandler.getattr(self, ip, v, name)


class PspecHandler(M.AnyHandler):
    pyclass = putil.PositionalSpec

    def truth(self, ip, v):
        return True

    def eq(self, ip, v, other):
        if other is None:
            return False
        return ip.p.fresh(BOOL, 'eq')

    def getattr(self, ip, v, name):
        if name in ('flags', 'tags'):
            return memo(v, name, lambda: LList(
                [M.STRS.fresh_seg(ip.p, name)], v.stamp, M.STRS))
        if name in ('nargs', 'npargs'):
            return memo(v, 'nargs', lambda: Opaque('npargs', 'nargs'))
        if name in ('legacy', 'sortable'):
            return memo(v, name, lambda: SBool(ip.p.fresh(BOOL, name)))
        a = getattr(putil.PositionalSpec, name, None)
        if isinstance(a, types.FunctionType):
            return BoundMethod(a, v, putil.PositionalSpec)
        return M.AnyHandler.getattr(self, ip, v, name)


class NpargsHandler(M.AnyHandler):
    """An arity: an integer or one of the documented strings."""

    def truth(self, ip, v):
        return memo(v, '$t', lambda: ip.p.fresh(BOOL, 't'))

    def getattr(self, ip, v, name):
        # methods of str; the result says nothing about the text
        if name in ('endswith', 'startswith'):
            return Builtin(name, lambda ip, a, k: SBool(
                ip.p.fresh(BOOL, name)))
        if name in ('strip', 'rstrip', 'lstrip', 'lower', 'upper'):
            return Builtin(name, lambda ip, a, k: SStr(
                ip.p.fresh(StrS, name)))
        raise Unsupported('%s of an arity' % name)

    def getitem(self, ip, v, key):
        return SStr(ip.p.fresh(StrS, 'part'))

    def isinst_int(self, ip, v):
        return memo(v, '$int', lambda: ip.p.fresh(BOOL, 'isint'))

    def isinstance(self, ip, v, cls):
        if cls is int:
            return self.isinst_int(ip, v)
        if cls is str:
            return z3.Not(self.isinst_int(ip, v))
        return False

    def order(self, ip, op, a, b):
        return ip.p.fresh(BOOL, 'cmp')


class ParsedbHandler(TagHandler):
    def truth(self, ip, v):
        return True

    def getattr(self, ip, v, name):
        if name == 'get':
            def get(ip, a, k):
                if ip.p.choose(2, 'get') == 0:
                    return Opaque('parser', 'dbparser', db=True)
                return a[1] if len(a) > 1 else None
            return Builtin('get', get)
        raise Unsupported('parse_db.%s' % name)

    def getitem(self, ip, v, key):
        if ip.p.choose(2, 'getitem') == 0:
            return Opaque('parser', 'dbparser', db=True)
        raise PyExc(KeyError)

    def contains(self, ip, v, item):
        return ip.p.fresh(BOOL, 'in')


class ConfigHandler(M.AnyHandler):
    """A configuration: immutable data.  Its vartags_ pair compiled regular
    expressions with lists of strings (assumed; configuration.py)."""

    def getattr(self, ip, v, name):
        if name == 'vartags_':
            return LList([VARTAGS.fresh_seg(ip.p, name)], 0, VARTAGS)
        return memo(v, name, lambda: Opaque('config', name))


VARTAGS = M.simple_kind('vartags', lambda ip: (
    Opaque('regex', 'pattern'),
    LList([M.STRS.fresh_seg(ip.p, 'tags')], 0, M.STRS)))


class CtxHandler(TagHandler):
    pyclass = parse_pkg.ParseContext

    def truth(self, ip, v):
        return True

    def eq(self, ip, v, other):
        return False

    def getattr(self, ip, v, name):
        if name == 'argstack':
            # its contents are never relied upon
            return LList([NODES_ONLY.fresh_seg(ip.p, 'argstack')], v.stamp,
                         NODES_ONLY)
        if name == 'lint_ctx':
            return memo(v, name, lambda: Opaque('sink', name))
        if name == 'config':
            return memo(v, name, lambda: Opaque('config', name))
        if name == 'parse_db':
            return memo(v, name, lambda: Opaque('parsedb', name))
        a, owner = ip.class_attr_owner(parse_pkg.ParseContext, name)
        if a is not None and callable(a):
            return BoundMethod(underlying(a), v, owner)
        raise PyExc(AttributeError, None, name)


# ------------------------------------------------------------- contracts
class Contract(object):
    label = 'contract'


class ParserContract(Contract):
    """flat(result) ++ tokens' == tokens; only `tokens` is modified."""
    label = 'parser'

    parens = False     # precondition: parenstack(breakstack)
    #: the parser of a keyword may also return None, taking no token
    null_ok = False

    def __init__(self, cls_hint=None):
        self.cls_hint = cls_hint

    def require(self, ip, bs):
        ok = isinstance(bs, LList) and parenstack(ip, bs)
        ip.s.obligation(
            ip.p, 'a database parser gets a break stack that fires on right'
            ' parentheses only', ok if not isinstance(ok, bool)
            else z3.BoolVal(ok))

    def apply_tokens(self, ip, toks, hint, cls=None):
        if not isinstance(toks, LList):
            raise Unsupported('tokens argument %r' % (toks,))
        old = list_flat(ip, toks)
        oldn = ip.len_term(toks)
        node = fresh_node(ip, hint, cls)
        seg = TOKS.fresh_seg(ip.p, 'tk')
        ip.note_write(toks, 'items')
        toks.items = [seg]
        ip.p.assume(old == z3.Concat(node.kw['flat'], seg.m['flat']))
        ip.p.assume(seg.m['n'] <= oldn)
        ip.p.assume(z3.Implies(seg.m['n'] == oldn,
                               node.kw['flat'] == EMPTY))
        return node

    def may_raise(self, ip):
        # every parse function may reject its input
        if ip.p.choose(2, 'rejects') == 1:
            raise PyExc(putil.UserError, None, 'rejected')

    def require_args(self, ip, ba):
        """Precondition: what is passed on as a parser is one."""
        e = ip.e
        if 'kwargs' in ba:
            kw = ba['kwargs']
            e.require_kwargs(ip, kw)
        if 'subparser' in ba:
            sub = ba['subparser']
            ip.s.obligation(
                ip.p, 'the parser passed on fulfils its contract',
                z3.BoolVal(e.require_value(ip, sub, 'subparser', True)),
                repr(sub))

    def apply(self, ip, fn, ba):
        toks = ba.get('tokens')
        cls = ba.get('cls')
        if self.parens:
            self.require(ip, ba.get('breakstack'))
        self.require_args(ip, ba)
        if self.null_ok and ip.p.choose(2, 'no node') == 1:
            return None
        return self.apply_tokens(ip, toks, fn.__name__,
                                 cls if isinstance(cls, type) else None)


KEYWORD = ' (of a keyword)'


def keyword_parser():
    c = ParserContract()
    c.null_ok = True
    return c


class AppendContract(Contract):
    """tree.children' == tree.children ++ x, flat(x) ++ tokens' == tokens."""
    label = 'append'

    def __init__(self, param):
        self.param = param

    def apply(self, ip, fn, ba):
        toks, tree = ba['tokens'], ba[self.param]
        ch = ip.getattr(tree, 'children')
        if not isinstance(tree, Obj):
            raise Unsupported('appending to a finished node')
        old = list_flat(ip, toks)
        oldn = ip.len_term(toks)
        seg = NODES.fresh_seg(ip.p, 'app')
        tk = TOKS.fresh_seg(ip.p, 'tk')
        ip.note_write(toks, 'items')
        toks.items = [tk]
        ip.note_write(ch, 'items')
        ch.items.append(seg)
        ip.p.assume(old == z3.Concat(seg.m['flat'], tk.m['flat']))
        ip.p.assume(tk.m['n'] <= oldn)
        ip.p.assume(z3.Implies(tk.m['n'] == oldn, seg.m['flat'] == EMPTY))
        return None


class PureContract(Contract):
    """Modifies nothing; the result is only known to be of a type."""
    label = 'pure'

    def __init__(self, result, post=None):
        self.result = result
        self.post = post

    def apply(self, ip, fn, ba):
        r = self.result
        if r == 'bool':
            v = SBool(ip.p.fresh(BOOL, fn.__name__))
        elif r == 'tok?':
            v = mk_tok(ip) if ip.p.choose(2, 'tok?') == 0 else None
        elif r == 'str?':
            v = SStr(ip.p.fresh(StrS, fn.__name__)) \
                if ip.p.choose(2, 'str?') == 0 else None
        elif r == 'loc':
            v = Opaque('loc', fn.__name__)
        elif r == 'int':
            v = SInt(ip.p.fresh(INT, fn.__name__))
        elif r == 'toks':
            v = LList([TOKS.fresh_seg(ip.p, fn.__name__)], ip.p.tick(), TOKS)
        elif r == 'any':
            v = Opaque('any', fn.__name__)
        else:
            raise ValueError(r)
        if self.post is not None:
            t = self.post(ip, ba, v)
            if t is not None:
                ip.p.assume(t)
        return v

    def check(self, ip, v):
        r = self.result
        if r == 'bool':
            return isinstance(v, (bool, SBool))
        if r == 'tok?':
            return v is None or isinstance(v, STok)
        if r == 'str?':
            return v is None or isinstance(v, (SStr, str))
        if r == 'loc':
            return isinstance(v, Opaque) and v.tag == 'loc' or (
                isinstance(v, Obj) and v.cls is SourceLocation)
        if r == 'int':
            return isinstance(v, (int, SInt))
        if r == 'toks':
            return isinstance(v, LList)
        return True


class GetTokensContract(Contract):
    """Appends to `out` (a new list if None) the leaves of the tree, all of
    them and in order for kind None/'all', a selection otherwise."""
    label = 'leaves'

    def apply(self, ip, fn, ba):
        out, kind, node = ba.get('out'), ba.get('kind'), ba['self']
        if out is None:
            out = LList([], ip.p.tick(), TOKS)
        if not isinstance(out, LList):
            raise Unsupported('get_tokens(out=%r)' % (out,))
        seg = TOKS.fresh_seg(ip.p, 'leaves')
        if kind is None or kind == 'all':
            ip.p.assume(seg.m['flat'] == node_flat(ip, node))
        elif isinstance(kind, SStr):
            ip.p.assume(z3.Implies(kind.t == z3.StringVal('all'),
                                   seg.m['flat'] == node_flat(ip, node)))
        ip.note_write(out, 'items')
        out.items.append(seg)
        if out.kind is None:
            out.kind = TOKS
        return out


class SinkOnly(Contract):
    """No effect on anything the proof talks about (lint reporting)."""
    label = 'frame'

    def apply(self, ip, fn, ba):
        return None


class PushargContract(Contract):
    """A scope: the argument stack is restored on normal exit."""
    label = 'scope'

    def apply(self, ip, fn, ba):
        return GenObj(lambda cb: cb(None))


class IterToksContract(Contract):
    """Yields tokens of the list, in order; modifies nothing."""
    label = 'iter'

    def apply(self, ip, fn, ba):
        return LList([TOKS.fresh_seg(ip.p, 'it')], ip.p.tick(), TOKS)


class EnumLookup(Contract):
    """Assumed: looks a member up by name, without side effects."""
    label = 'assumed'

    def __init__(self, raises):
        self.raises = raises

    def apply(self, ip, fn, ba):
        if ip.p.choose(2, 'enum') == 0:
            return ip.e.fresh_enum(ip, ba['cls'], 'flow')
        if self.raises:
            raise PyExc(ValueError)
        return ba.get('default')


def rparen_post(ip, ba, v):
    tok, bs = ba.get('token'), ba.get('breakstack')
    if isinstance(tok, STok) and isinstance(bs, LList):
        rp = ttype(tok.t) == TokenType.RIGHT_PAREN.value
        return z3.And(
            z3.Implies(z3.And(ip.e.measure(ip, bs, 'paren', BREAKERS), rp),
                       v.t),
            z3.Implies(z3.And(ip.e.measure(ip, bs, 'onlyparen', BREAKERS),
                              v.t), rp))
    return None


def parenstack(ip, bs):
    """The break stack fires on right parentheses and on nothing else."""
    return z3.And(ip.e.measure(ip, bs, 'paren', BREAKERS),
                  ip.e.measure(ip, bs, 'onlyparen', BREAKERS))


def onlycw_post(ip, ba, v):
    toks, bs = ba.get('tokens'), ba.get('breakstack')
    if isinstance(toks, LList) and isinstance(bs, LList):
        return z3.Implies(parenstack(ip, bs), v.t == (
            ip.e.measure(ip, toks, 'head', TOKS) != 2))
    return None


def find(mod, path):
    """The function at mod.path in the current tree, or None."""
    o = mod
    for part in path.split('.'):
        if isinstance(o, type):
            o = o.__dict__.get(part)
        else:
            o = getattr(o, part, None)
        if o is None:
            return None
    f = underlying(o)
    return f if isinstance(f, types.FunctionType) else None


PARSERS = [
    (simple_nodes, 'WhitespaceNode.consume'),
    (simple_nodes, 'CommentNode.consume'),
    (simple_nodes, 'OnOffNode.consume'),
    (argument_nodes, 'StandardArgTree.parse2'),
    (argument_nodes, 'StandardArgTree.parse'),
    (argument_nodes, 'KeywordNode.parse'),
    (argument_nodes, 'KeywordGroupNode.parse'),
    (argument_nodes, 'PositionalGroupNode.parse2'),
    (argument_nodes, 'PositionalGroupNode.parse'),
    (argument_nodes, 'ParenGroupNode.parse'),
    (argument_nodes, 'ConditionalGroupNode.parse'),
    (additional_nodes, 'TupleGroupNode.parse'),
    (additional_nodes, 'ShellCommandNode.parse'),
    (additional_nodes, 'PatternNode.parse'),
    (additional_nodes, 'FlagGroupNode.parse'),
    (statement_node, 'FunctionNameNode.parse'),
    (statement_node, 'StatementNode.consume'),
    (statement_node, 'AtWordNode.parse'),
    (statement_node, 'AtWordStatementNode.consume'),
    (body_nodes, 'BodyNode.consume'),
    (body_nodes, 'FlowControlNode.consume'),
    (body_nodes, 'IfBlockNode.consume'),
]
APPENDERS = [
    (simple_nodes, 'CommentNode.consume_explicit_trailing', 'parent'),
    (simple_nodes, 'CommentNode.consume_implicit_trailing', 'parent'),
    (simple_nodes, 'CommentNode.consume_trailing', 'parent'),
    (simple_nodes, 'consume_whitespace_and_comments', 'tree'),
]
PURES = [
    (putil, 'next_is_explicit_trailing_comment', 'bool'),
    (putil, 'are_column_aligned', 'bool'),
    (putil, 'next_is_trailing_comment', 'bool'),
    (putil, 'comment_is_tag', 'bool'),
    (putil, 'pargs_are_full', 'bool'),
    (putil, 'npargs_is_exact', 'bool'),
    (putil, 'get_tag', 'str?'),
    (putil, 'get_normalized_kwarg', 'str?'),
    (putil, 'get_next_syntactic_token', 'tok?'),
    (putil, 'get_nth_semantic_token', 'tok?'),
    (putil, 'get_first_semantic_token', 'tok?'),
    (putil, 'comment_belongs_up_tree', 'bool'),
    (putil, 'is_valid_trailing_comment', 'bool'),
    (pcommon, 'TreeNode.get_location', 'loc'),
]
ITERS = [
    (putil, 'iter_syntactic_tokens'),
    (putil, 'iter_semantic_tokens'),
]


class ParseEngine(M.Engine):
    def __init__(self):
        M.Engine.__init__(self)
        self.tags.update({
            "scratchdict": ScratchDict(),
            'loc': LocHandler(), 'node': NodeHandler(),
            'breaker': BreakerHandler(), 'parser': ParserHandler(),
            'kwmap': KwmapHandler(), 'cmdspec': CmdspecHandler(),
            'pspec': PspecHandler(), 'npargs': NpargsHandler(),
            'parsedb': ParsedbHandler(), 'ctx': CtxHandler(),
            'config': ConfigHandler(), 'regex': M.RegexHandler(), 'match': M.MatchHandler(),
        })
        self.work = []         # (name, function, contract, builder extras)
        self.queued = set()
        self.from_db = False
        pc = ParserContract()
        for mod, path in PARSERS:
            self.add(mod, path, pc)
        for mod, path, param in APPENDERS:
            self.add(mod, path, AppendContract(param))
        for mod, path, res in PURES:
            self.add(mod, path, PureContract(res))
        for mod, path in ITERS:
            self.add(mod, path, IterToksContract())
        self.add(putil, 'should_break', PureContract('bool', rparen_post))
        self.add(putil, 'only_comments_and_whitespace_remain',
                 PureContract('bool', onlycw_post))
        self.add(parse_pkg, 'ParseContext.pusharg', PushargContract())
        self.add(argument_nodes, 'StandardArgTree.check_required_kwargs',
                 SinkOnly())
        f = find(pcommon, 'TreeNode.get_tokens')
        if f:
            self.contracts[f] = GetTokensContract()
            self.queue('TreeNode.get_tokens', f, self.contracts[f])
        self.db_callables()
        self.candidate_fns += [flat_candidates, for_candidates,
                               leaves_candidates, head_candidates]

        self.required = set()
        f = find(ccommon, 'EnumObject.get')
        if f:
            self.contracts[f] = EnumLookup(False)
        f = find(ccommon, 'EnumObject.from_name')
        if f:
            self.contracts[f] = EnumLookup(True)

    def add(self, mod, path, contract):
        f = find(mod, path)
        if f is None:
            return
        self.contracts[f] = contract
        self.queue(path, f, contract)

    def queue(self, name, f, contract, self_=None):
        key = (f, id(self_) if self_ is not None else None)
        if getattr(contract, 'null_ok', False) and \
                not name.endswith(KEYWORD):
            name += KEYWORD
        if key in self.queued:
            return
        self.queued.add(key)
        self.work.append((name, f, contract, self_))

    def required_by_name(self, name, f, self_):
        """A callee found to be required while verifying in a worker."""
        c = self.contracts.get(f)
        null = name.endswith(KEYWORD)
        if c is None or c.null_ok and not null:
            c = keyword_parser() if null else ParserContract()
            self.queued.discard((f, None))
            if self_ is None:
                self.contracts[f] = c
        self.queue(name, f, self.contracts.get(f, c), self_)

    def cost_hint(self, f):
        f = underlying(f)
        code = getattr(f, '__code__', None)
        if code is None:
            return 0
        n = len(list(ast.walk(E.func_ast(f))))
        if 'add_library' in f.__name__ or 'add_executable' in f.__name__:
            n *= 3
        return n

    def db_callables(self):
        db = pfuns.get_parse_db()
        pc = ParserContract()
        self.from_db = True
        for name in sorted(db):
            self.require_parser(db[name], name)
        self.from_db = False

    def takes_parser_args(self, c):
        f, skip = c, 0
        if isinstance(c, Opaque):
            return c.tag == 'parser'
        if isinstance(c, Obj):
            f, skip = self.class_call(c.cls), 1
        elif isinstance(c, BoundMethod):
            f, skip = c.fn, 1
        elif isinstance(c, Closure):
            return len(c.node.args.args) == 3
        elif isinstance(c, types.MethodType):
            f, skip = c.__func__, 1
        elif not isinstance(c, types.FunctionType):
            f, skip = self.class_call(type(c)), 1
        if f is None:
            return False
        a = E.func_ast(underlying(f)).args
        n = len(a.args) - skip
        return n >= 3 and n - len(a.defaults) <= 3

    def require_parser(self, c, name, null_ok=False):
        """Every callable stored as a parser must satisfy its contract; the
        parser of a keyword may also return None (null_ok)."""
        pc = ParserContract()
        if not self.takes_parser_args(c):
            return False
        if isinstance(c, (Opaque,)):
            return c.tag == 'parser' and bool(
                null_ok or c.kw.get('db') or c.kw.get('node'))
        if isinstance(c, Obj):
            call = self.class_call(c.cls)
            if call is None:
                return False
            self.queue('%s.__call__' % c.cls.__name__, call, pc)
            return True
        f = underlying(c) if isinstance(
            c, (types.FunctionType, types.MethodType)) else getattr(
                c, 'fn', None)
        kpc = keyword_parser() if null_ok else pc
        if not null_ok and getattr(self.contracts.get(f), 'null_ok', False):
            # also used where a node is needed
            self.contracts.pop(f)
            self.queued.discard((f, None))
        if isinstance(c, BoundMethod):
            self.contracts.setdefault(f, kpc)
            self.queue(self.qualname(f), f, self.contracts[f])
            return isinstance(self.contracts[f], ParserContract)
        if isinstance(c, (types.FunctionType, types.MethodType)):
            f = underlying(c)
            if self.from_db and f not in self.contracts:
                # looked up in the database: called with a parenthesis
                # break stack only (checked at the call)
                pc = ParserContract()
                pc.parens = True
            elif not self.from_db and getattr(
                    self.contracts.get(f), 'parens', False):
                # also used as a keyword parser: no precondition then
                self.contracts[f] = pc
                self.queued.discard((f, None))
            self.contracts.setdefault(f, pc if pc.parens else kpc)
            self.queue(self.qualname(f), f, self.contracts[f])
            return isinstance(self.contracts[f], ParserContract)
        if isinstance(c, Closure):
            return False
        call = self.class_call(type(c))
        if call is None:
            return False
        self.queue('%s.__call__' % type(c).__name__, call, pc)
        for attr in ('funtree', 'kwargs'):
            d = getattr(c, attr, None)
            if isinstance(d, dict):
                for k in sorted(d):
                    if callable(d[k]):
                        self.require_parser(d[k], '%s/%s' % (name, k), True)
        return True

    def class_call(self, cls):
        for k in cls.__mro__:
            if '__call__' in k.__dict__:
                f = underlying(k.__dict__['__call__'])
                return f if isinstance(f, types.FunctionType) else None
        return None

    # ---- engine hooks
    def tok_class(self):
        return Token

    def kind_of_value(self, ip, v):
        if isinstance(v, STok):
            return NODES
        if isinstance(v, Obj) and issubclass(v.cls, TreeNode):
            return NODES
        if isinstance(v, Opaque) and v.tag == 'node':
            return NODES
        if isinstance(v, Opaque) and v.tag == 'breaker' or isinstance(
                v, Obj) and v.cls in (pcommon.ParenBreaker,
                                      pcommon.KwargBreaker):
            return BREAKERS
        if isinstance(v, Opaque) and v.tag == 'pspec' or isinstance(
                v, Obj) and v.cls is putil.PositionalSpec:
            return PSPECS
        return M.Engine.kind_of_value(self, ip, v)

    def list_kind(self, ip, lst, label=None):
        if lst.kind is None and label and label[-1] == 'children':
            return NODES
        return M.Engine.list_kind(self, ip, lst, label)

    def tok_attr(self, ip, v, name):
        if name == 'type':
            return SEnum(ttype(v.t), TokenType)
        if name in ('spelling', 'content'):
            return SStr(tspell(v.t))
        if name == 'begin':
            return Opaque('loc', 'begin', tok=v.t)
        if name == 'end':
            return Opaque('loc', 'end', tok=v.t, end=True)
        if name == 'index':
            return SInt(tindex(v.t))
        a, owner = ip.class_attr_owner(Token, name)
        if isinstance(a, types.FunctionType):
            return BoundMethod(a, v, owner)
        if isinstance(a, property):
            return ip.call_function(underlying(a.fget), [v], {}, owner)
        raise PyExc(AttributeError, None, name)

    def getitem(self, ip, o, k):
        if isinstance(o, DDict) and ip.is_sym(k) and self.parser_map(o):
            return self.parser_from(ip, o)
        return M.Engine.getitem(self, ip, o, k)

    def require_kwargs(self, ip, kw):
        """Every value of a keyword map must be a parser."""
        if isinstance(kw, Opaque) and kw.tag == 'kwmap':
            return
        ok = isinstance(kw, DDict) and not kw.unk
        if ok:
            for k in kw.d:
                ip.s.obligation(
                    ip.p, 'the parsers of the keywords fulfil their '
                    'contract', z3.BoolVal(
                        self.require_value(ip, kw.d[k], k, True)), repr(k))
        else:
            ip.s.obligation(ip.p, 'the parsers of the keywords fulfil their '
                            'contract', z3.BoolVal(False), repr(kw))

    def require_value(self, ip, v, name, null_ok=False):
        if not self.require_parser(v, name, null_ok):
            return False
        if isinstance(v, Obj):
            for a in ('kwargs', 'funtree'):
                if a in v.fields:
                    self.require_kwargs(ip, v.fields[a])
        self.note_parser(ip, v, name)
        return True

    def note_parser(self, ip, v, name):
        pass

    def parser_map(self, o):
        return bool(o.d) and not o.unk and all(
            (callable(v) or isinstance(v, (Obj, BoundMethod, Closure))
             or (isinstance(v, Opaque) and v.tag == 'parser'))
            and self.takes_parser_args(v) for v in o.d.values())

    def parser_from(self, ip, o):
        for k in o.d:
            v = o.d[k]
            if v is None:
                continue
            ok = self.require_value(ip, v, k)
            if not ok:
                raise Unsupported('keyword %r maps to %r' % (k, v))
            self.note_required(v)
        return Opaque('parser', 'subparser', node=True)

    def note_required(self, v):
        pass

    def dict_method(self, ip, v, name):
        m = M.Engine.dict_method(self, ip, v, name)
        if name == 'get' and self.parser_map(v):
            e = self

            def get(ip, a, k):
                if not ip.is_sym(a[0]):
                    return m.fn(ip, a, k)
                dflt = a[1] if len(a) > 1 else None
                if ip.p.choose(2, 'get') == 0:
                    return e.parser_from(ip, v)
                return dflt
            return Builtin('dict.get', get)
        return m

    def instantiate_pspec(self, ip, args, kwargs):
        return None

    def loop_pre(self, ip, al):
        pre = {}
        for key, lst, toks, tk in flat_roots(ip, al):
            pre[key] = (z3.Concat(list_flat(ip, lst), list_flat(ip, toks)),
                        list_flat(ip, lst), ip.len_term(toks))
        for fi, n, v in frame_vars(al, ip):
            if n.startswith('$rest') and isinstance(v, LList):
                k = self.list_kind(ip, v)
                if k is not None:
                    pre[n, fi] = {m: self.measure(ip, v, m, k)
                                  for m in k.measures}
        al.pre = pre
        list(leaves_candidates(ip, al, 'pre'))
        return pre

    def havocked_obj(self, ip, o):
        pass


def frame_vars(al, ip):
    for fi, f in enumerate(al.frames):
        for n in sorted(f.locals):
            v = f.locals[n]
            if isinstance(v, Poison) or v is UNBOUND:
                continue
            yield fi, n, v


def flat_roots(ip, al):
    toks = []
    roots = []
    for fi, n, v in frame_vars(al, ip):
        if isinstance(v, LList) and v.kind is TOKS and not n.startswith('$'):
            toks.append((fi, n, v))
        elif isinstance(v, Obj) and issubclass(v.cls, TreeNode) and \
                isinstance(v.fields.get('children'), LList):
            roots.append((fi, n, v.fields['children']))
        elif isinstance(v, LList) and v.kind is NODES:
            roots.append((fi, n, v))
    for tf, tn, tv in toks:
        for rf, rn, rv in roots:
            yield ('flat(%d:%s)+%d:%s' % (rf, rn, tf, tn), rv, tv, tn)


def flat_candidates(ip, al, where):
    for key, rv, tv, tn in flat_roots(ip, al):
        if key not in al.pre:
            continue
        total, flat0, n0 = al.pre[key]
        fl = list_flat(ip, rv)
        n = ip.len_term(tv)
        nm = key.split('+')[0].split(':')[1].rstrip(')')
        yield ('flat(%s) ++ %s is unchanged [%s]' % (nm, tn, key),
               z3.Concat(fl, list_flat(ip, tv)) == total)
        yield ('%s does not grow [%s]' % (tn, key), n <= n0)
        yield ('%s unchanged => flat(%s) unchanged [%s]' % (tn, nm, key),
               z3.Implies(n == n0, fl == flat0))
        yield ('flat(%s) does not shrink [%s]' % (nm, key),
               z3.Length(fl) >= z3.Length(flat0))


def for_candidates(ip, al, where):
    """What was iterated followed by the rest is the whole list."""
    vs = {(n, fi): v for fi, n, v in frame_vars(al, ip)
          if n.startswith('$')}
    for (n, fi), v in vs.items():
        if not n.startswith('$rest') or (n, fi) not in al.pre:
            continue
        done = vs.get(('$done' + n[5:], fi))
        if done is None:
            continue
        k = ip.e.list_kind(ip, v) or ip.e.list_kind(ip, done)
        if k is None:
            continue
        for m, me in k.measures.items():
            if m not in al.pre[n, fi]:
                continue
            yield ('done ++ rest, %s [%s]' % (m, n), me.op(
                ip.e.measure(ip, done, m, k),
                ip.e.measure(ip, v, m, k)) == al.pre[n, fi][m])
        if k is TOKS:
            yield ('only blanks and comments so far [%s]' % n,
                   ip.e.measure(ip, done, 'head', k) == 0)
        if k is BREAKERS:
            for fj, tn, tok in frame_vars(al, ip):
                if isinstance(tok, STok):
                    yield ('no breaker so far fires on %s' % tn, z3.Not(
                        z3.And(ip.e.measure(ip, done, 'paren', k),
                               ttype(tok.t) ==
                               TokenType.RIGHT_PAREN.value)))


# --------------------------------------------------------------- harness
def build_param(ip, name, fn, self_):
    p = ip.p
    if name == 'cls':
        return self_
    if name in ('ctx', '_ctx'):
        return Opaque('ctx', 'ctx')
    if name == 'tokens':
        return LList([TOKS.fresh_seg(p, 'tokens')], 0, TOKS)
    if name in ('breakstack', '_breakstack'):
        return LList([BREAKERS.fresh_seg(p, 'bs')], 0, BREAKERS)
    if name in ('token', 'token_a', 'token_b'):
        return mk_tok(ip)
    if name in ('npargs',):
        return Opaque('npargs', 'npargs')
    if name in ('kwargs', 'funtree'):
        return Opaque('kwmap', 'kwargs')
    if name in ('flags', 'tags'):
        return LList([M.STRS.fresh_seg(p, name)], 0, M.STRS)
    if name == 'cmdspec':
        return Opaque('cmdspec', name)
    if name == 'spec':
        return Opaque('pspec', name)
    if name == 'word':
        return SStr(p.fresh(StrS, name))
    if name == 'subparser':
        return Opaque('parser', name)
    if name in ('sortable',):
        return SBool(p.fresh(BOOL, name))
    if name in ('parent', 'tree', 'node'):
        o = Obj(TreeNode, 0)
        o.fields['children'] = LList([NODES.fresh_seg(p, 'ch')], 0, NODES)
        o.fields['node_type'] = ip.e.fresh_enum(ip, NodeType, 'nt')
        o.fields['parent'] = None
        return o
    if name in ('nconsumed', 'nth', 'ntup'):
        return SInt(p.fresh(INT, name))
    if name in ('breakset',):
        return Opaque('any', name)
    if name == 'config':
        return Opaque('config', name)
    if name in ('lint_ctx',):
        return Opaque('sink', name)
    if name in ('required_kwargs',):
        return Opaque('scratchdict', name)
    return Opaque('any', name)


def build_self(ip, fn, cls):
    """An arbitrary instance of a parser class (e.g. StandardParser)."""
    o = Obj(cls, 0)

    def lazy(ip, obj, name):
        v = build_param(ip, {'npargs': 'npargs'}.get(name, name), None, None)
        obj.fields[name] = v
        return v
    o.lazy = lazy
    return o


def verify(engine, name, fn, contract, self_, budget=200):
    s = E.Session(name, engine, budget)
    node = E.func_ast(fn)
    params = [a.arg for a in node.args.args]
    reach = {'exits': 0, 'raises': 0}

    def run(path):
        ip = E.Interp(engine, s, path)
        ip.top = fn
        args = {}
        defcls = ip.defining_class(fn)
        for pn in params:
            if pn == 'cls':
                args[pn] = self_ or defcls
            elif pn == 'self':
                if issubclass(defcls, TreeNode):
                    o = build_param(ip, 'tree', fn, None)
                    o.cls = defcls
                    if 'parg_groups' in params or True:
                        o.fields['parg_groups'] = LList(
                            [NODES_ONLY.fresh_seg(path, 'pg')], 0,
                            NODES_ONLY)
                        o.fields['kwarg_groups'] = LList(
                            [NODES_ONLY.fresh_seg(path, 'kg')], 0,
                            NODES_ONLY)
                    args[pn] = o
                elif defcls is parse_pkg.ParseContext:
                    o = Obj(defcls, 0)
                    o.fields['argstack'] = LList(
                        [NODES_ONLY.fresh_seg(path, 'as')], 0, NODES_ONLY)
                    args[pn] = o
                else:
                    args[pn] = build_self(ip, fn, defcls)
            else:
                args[pn] = build_param(ip, pn, fn, None)
        ip.entry_stamp = path.clock
        path.tick()
        check = CHECKS[contract.label]
        check(ip, s, fn, contract, args, params, defcls, reach)

    s.explore(run)
    s.reach = reach
    return s


def call_top(ip, fn, args, params, defcls):
    return ip.run_function(fn, [args[p] for p in params], {}, defcls)


def check_parser(ip, s, fn, contract, args, params, defcls, reach):
    toks = args['tokens']
    if contract.parens and isinstance(args.get('breakstack'), LList):
        ip.p.assume(parenstack(ip, args['breakstack']))
    old = list_flat(ip, toks)
    n0 = ip.len_term(toks)
    ip.may_modify = lambda o, f: o is toks
    try:
        r = call_top(ip, fn, args, params, defcls)
    except PyExc as ex:
        reach['raises'] += 1
        return
    reach['exits'] += 1
    if r is None and contract.null_ok:
        s.obligation(ip.p, 'returns no node only if it takes no token',
                     z3.And(list_flat(ip, toks) == old,
                            ip.len_term(toks) == n0))
        return
    ok = isinstance(r, Obj) and issubclass(r.cls, TreeNode) or (
        isinstance(r, Opaque) and r.tag == 'node')
    s.obligation(ip.p, 'returns a parse node', z3.BoolVal(bool(ok)),
                 repr(r))
    if ok:
        s.obligation(
            ip.p, 'flat(result) ++ remaining tokens == tokens',
            z3.Concat(node_flat(ip, r), list_flat(ip, toks)) == old)
        n1 = ip.len_term(toks)
        s.obligation(ip.p, 'token count does not grow', n1 <= n0)
        s.obligation(
            ip.p, 'no token consumed => empty result',
            z3.Implies(n1 == n0, node_flat(ip, r) == EMPTY))


def check_append(ip, s, fn, contract, args, params, defcls, reach):
    toks, tree = args['tokens'], args[contract.param]
    ch = tree.fields['children']
    old = z3.Concat(list_flat(ip, ch), list_flat(ip, toks))
    oldch = list_flat(ip, ch)
    n0 = ip.len_term(toks)
    ip.may_modify = lambda o, f: o is toks or o is ch
    try:
        call_top(ip, fn, args, params, defcls)
    except PyExc:
        reach['raises'] += 1
        return
    reach['exits'] += 1
    s.obligation(ip.p, 'children stay in place',
                 z3.BoolVal(tree.fields['children'] is ch))
    new = list_flat(ip, ch)
    s.obligation(
        ip.p, 'flat(children) ++ remaining tokens is unchanged',
        z3.Concat(new, list_flat(ip, toks)) == old)
    # with the equation above this is 'oldch is a prefix of new' (LEVI)
    s.obligation(ip.p, 'children are only appended',
                 z3.Length(new) >= z3.Length(oldch))
    n1 = ip.len_term(toks)
    s.obligation(ip.p, 'token count does not grow', n1 <= n0)
    s.obligation(ip.p, 'no token consumed => nothing appended',
                 z3.Implies(n1 == n0, new == oldch))


def check_pure(ip, s, fn, contract, args, params, defcls, reach):
    ip.may_modify = lambda o, f: False
    try:
        r = call_top(ip, fn, args, params, defcls)
    except PyExc:
        reach['raises'] += 1
        return
    reach['exits'] += 1
    s.obligation(ip.p, 'result type (%s)' % contract.result,
                 z3.BoolVal(contract.check(ip, r)), repr(r))
    if contract.post is not None and contract.check(ip, r):
        if isinstance(r, bool):
            r = SBool(z3.BoolVal(r))
        t = contract.post(ip, args, r)
        if t is not None:
            s.obligation(ip.p, 'postcondition', t)


def check_frame(ip, s, fn, contract, args, params, defcls, reach):
    rk = args.get('required_kwargs')
    ip.may_modify = lambda o, f: o is rk
    try:
        call_top(ip, fn, args, params, defcls)
    except PyExc:
        reach['raises'] += 1
        return
    reach['exits'] += 1
    s.obligation(ip.p, 'terminates normally without effects', True)


def check_scope(ip, s, fn, contract, args, params, defcls, reach):
    st = args['self'].fields['argstack']
    before = list(st.items)
    ip.may_modify = lambda o, f: o is st
    g = call_top(ip, fn, args, params, defcls)
    try:
        g.call(lambda v: None)
    except PyExc:
        reach['raises'] += 1
        return
    reach['exits'] += 1
    s.obligation(ip.p, 'argument stack restored', z3.BoolVal(
        len(before) == len(st.items) and all(
            a is b for a, b in zip(before, st.items))))


def check_iter(ip, s, fn, contract, args, params, defcls, reach):
    ip.may_modify = lambda o, f: False
    g = call_top(ip, fn, args, params, defcls)
    if not isinstance(g, GenObj):
        s.obligation(ip.p, 'yields tokens', z3.BoolVal(
            isinstance(g, LList)))
        reach['exits'] += 1
        return

    def cb(v):
        s.obligation(ip.p, 'yields tokens', z3.BoolVal(isinstance(v, STok)))
    try:
        g.call(cb)
    except PyExc:
        reach['raises'] += 1
        return
    reach['exits'] += 1


def check_leaves(ip, s, fn, contract, args, params, defcls, reach):
    p = ip.p
    o = fresh_node(ip, 'self', None)
    mode = p.choose(3, 'kind')
    if mode < 2:
        kind = (None, 'all')[mode]
    else:
        kind = SStr(p.fresh(StrS, 'kind'))
    if p.choose(2, 'out') == 0:
        out, before = None, EMPTY
    else:
        out = LList([TOKS.fresh_seg(p, 'out')], 0, TOKS)
        before = list_flat(ip, out)
    ip.entry_stamp = p.clock
    p.tick()
    ip.may_modify = lambda ob, f: ob is out
    try:
        r = ip.run_function(fn, [o], {'out': out, 'kind': kind}, defcls)
    except PyExc:
        reach['raises'] += 1
        return
    reach['exits'] += 1
    s.obligation(p, 'returns a list', z3.BoolVal(isinstance(r, LList)))
    if not isinstance(r, LList):
        return
    if out is not None:
        s.obligation(p, 'returns the list it was given',
                     z3.BoolVal(r is out))
    want = z3.Concat(before, o.kw['flat'])
    if mode == 2:
        s.obligation(p, 'all leaves in order (kind == "all")', z3.Implies(
            kind.t == z3.StringVal('all'), list_flat(ip, r) == want))
    else:
        s.obligation(p, 'all leaves in order (kind %r)' % (kind,),
                     list_flat(ip, r) == want)


def leaves_candidates(ip, al, where):
    """kind 'all': out ++ flat(rest) is unchanged."""
    outs, rests = [], []
    for fi, n, v in frame_vars(al, ip):
        if isinstance(v, LList) and v.kind is NODES and n.startswith('$rest'):
            rests.append((fi, n, v))
        elif isinstance(v, LList) and (v.kind is TOKS or (
                v.kind is None and n == 'out')) and not n.startswith('$'):
            outs.append((fi, n, v))
    # only binding if every token is asked for
    strs = {}
    for fi, n, v in frame_vars(al, ip):
        if isinstance(v, (str, SStr)) and not n.startswith('$'):
            strs[n] = ip.strterm(v) == z3.StringVal('all')
    if not strs:
        return
    isall = z3.And(list(strs.values()))
    for fi, n, v in rests:
        for fj, m, w in outs:
            key = 'leaves %s %s' % (m, n)
            t = z3.Concat(list_flat(ip, w), list_flat(ip, v))
            if where == 'pre':
                al.pre[key] = t
            elif key in al.pre:
                yield key, z3.Implies(isall, t == al.pre[key])


def head_candidates(ip, al, where):
    """While two node variables are one (and another group exists), only
    blanks and comments come before the closing parenthesis."""
    for fi, f in enumerate(al.frames):
        if f.fn is None or 'only_comments_and_whitespace_remain' not in \
                f.fn.__code__.co_names:
            continue
        pairs = alias_pairs(f.node)
        toks = [v for n, v in f.locals.items() if isinstance(v, LList)
                and v.kind is TOKS and not n.startswith('$')]
        if len(toks) != 1:
            continue
        head = ip.e.measure(ip, toks[0], 'head', TOKS) != 2

        def node(n):
            v = f.locals.get(n)
            return v if isinstance(v, Obj) and issubclass(
                v.cls, TreeNode) else None
        for a, b in pairs:
            on = node(a) is not None and node(a) is node(b) and any(
                node(c) is not None and node(c) is not node(a)
                and node(c).cls is not TreeNode for c in f.locals)
            yield ('%s is %s and another group is open => only blanks and '
                   'comments remain' % (a, b),
                   head if on else z3.BoolVal(True))


_alias_cache = {}


def alias_pairs(node):
    """Pairs of local names x, y of which `x = y` is assigned somewhere."""
    if node not in _alias_cache:
        out = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        out.add((t.id, n.value.id))
        _alias_cache[node] = sorted(out)
    return _alias_cache[node]


CHECKS = {'leaves': check_leaves, 'parser': check_parser, 'append': check_append,
          'pure': check_pure, 'frame': check_frame, 'scope': check_scope,
          'iter': check_iter}


class ScratchDict(TagHandler):
    """A mapping the function owns."""

    def truth(self, ip, v):
        return ip.p.fresh(BOOL, 't')

    def getattr(self, ip, v, name):
        if name == 'pop':
            return Builtin('pop', lambda ip, a, k: Opaque('any', 'popped'))
        if name == 'items':
            return Builtin('items', lambda ip, a, k: LList(
                [PAIRS.fresh_seg(ip.p, 'items')], 0, PAIRS))
        raise Unsupported(name)


PAIRS = M.STRPAIRS
