"""Contracts on the parser: the shape of argument groups (C18).

On top of the engine of pyver.parsing.  Where that one follows every token,
this one follows, for every list of children, how many closing parentheses
it holds that are not its own (`rp`), how many positional arguments (`args`),
whether every positional group below it fits its specification (`fits`), and
whether every keyword group below it starts with its keyword (`kwok`).
"""
import ast
import types

import z3

from pyver import engine as E
from pyver import models as M
from pyver import parsing as P
from pyver.engine import underlying
from pyver.models import memo, INT, BOOL
from pyver.values import *  # noqa

from cmakelang.lex import TokenType
from cmakelang.parse import argument_nodes, additional_nodes, statement_node
from cmakelang.parse.common import TreeNode, NodeType

RP = TokenType.RIGHT_PAREN.value
NOARG = (TokenType.WHITESPACE, TokenType.NEWLINE, TokenType.COMMENT,
         TokenType.BRACKET_COMMENT)
#: what stands for 'no upper bound'
tokid = z3.Function('tokid', TokS, INT)


def int_sum(name, of):
    return Measure(name, INT, z3.IntVal(0), lambda a, b: a + b, of)


def first_measure(name, unit, of):
    return Measure(name, INT, z3.IntVal(unit),
                   lambda a, b: z3.If(a == unit, b, a), of)


# ------------------------------------------------------------ the measures
def children(v):
    return v.fields.get('children')


def sum_over(ip, lst, name):
    return ip.e.measure(ip, lst, name, P.NODES)


def rp_of(ip, v):
    """Closing parentheses below v that do not close a group below v."""
    if isinstance(v, STok):
        return z3.If(P.ttype(v.t) == RP, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, Opaque):
        return memo(v, '$rp', lambda: ip.p.fresh(INT, 'rp'))
    n = sum_over(ip, children(v), 'rp')
    if issubclass(v.cls, argument_nodes.ParenGroupNode):
        return n - 1
    return n


def is_arg_type(ip, nt):
    return ip.disj([ip.eq_term(nt, NodeType.ARGUMENT),
                    ip.eq_term(nt, NodeType.FLAG)])


def asbool(t):
    return z3.BoolVal(t) if isinstance(t, bool) else t


def args_of(ip, v):
    """1 for a positional argument, 0 for anything else."""
    if isinstance(v, STok):
        return z3.IntVal(0)
    if isinstance(v, Opaque):
        return memo(v, '$args', lambda: ip.p.fresh(INT, 'args'))
    return z3.If(asbool(is_arg_type(ip, v.fields.get('node_type'))),
                 z3.IntVal(1), z3.IntVal(0))


def nargs_terms(ip, n):
    """(is it bounded, the bound) of an arity."""
    if isinstance(n, bool):
        raise Unsupported('arity %r' % (n,))
    if isinstance(n, int):
        return z3.BoolVal(True), z3.IntVal(n)
    if isinstance(n, SInt):
        return z3.BoolVal(True), n.t
    if isinstance(n, (str, SStr)):
        return ip.strterm(n) == z3.StringVal('?'), z3.IntVal(1)
    if isinstance(n, Opaque) and n.tag == 'npargs':
        isint, val, opt = nargs_parts(ip, n)
        return z3.Or(isint, opt), z3.If(isint, val, z3.IntVal(1))
    return z3.BoolVal(False), z3.IntVal(0)


def nargs_parts(ip, n):
    def mk():
        isint = memo(n, '$int', lambda: ip.p.fresh(BOOL, 'isint'))
        val = ip.p.fresh(INT, 'arity')
        opt = ip.p.fresh(BOOL, 'optional')
        ip.p.assume(z3.And(z3.Not(z3.And(isint, opt)), val >= 0))
        return isint, val, opt
    return memo(n, '$parts', mk)


def own_fit(ip, v):
    """A positional group does not hold more arguments than it may."""
    if not issubclass(v.cls, argument_nodes.PositionalGroupNode):
        return z3.BoolVal(True)
    b, cap = arity_of(ip, v)
    return z3.Implies(b, sum_over(ip, children(v), 'args') <= cap)


def arity_of(ip, v):
    """(is it bounded, the bound) of a positional group."""
    spec = v.fields.get('spec')
    if spec is None or isinstance(spec, Poison):
        return z3.BoolVal(False), z3.IntVal(0)
    return nargs_terms(ip, ip.getattr(spec, 'nargs'))


def fits_of(ip, v):
    if isinstance(v, STok):
        return z3.BoolVal(True)
    if isinstance(v, Opaque):
        return memo(v, '$fits', lambda: ip.p.fresh(BOOL, 'fits'))
    return z3.And(own_fit(ip, v), sum_over(ip, children(v), 'fits'))


def kwid_of(ip, v):
    """Identifies a child that is a keyword node; -2 for tokens, -3 for
    other nodes."""
    if isinstance(v, STok):
        return z3.IntVal(-2)
    if isinstance(v, Opaque):
        return memo(v, '$kwid', lambda: z3.IntVal(-3))
    if issubclass(v.cls, argument_nodes.KeywordNode):
        ch = children(v)
        if len(ch.items) == 1 and isinstance(ch.items[0], El) and \
                isinstance(ch.items[0].v, STok):
            return tokid(ch.items[0].v.t)
    return z3.IntVal(-3)


def own_kw(ip, v):
    """A keyword group starts with a keyword."""
    if not issubclass(v.cls, argument_nodes.KeywordGroupNode):
        return z3.BoolVal(True)
    return sum_over(ip, children(v), 'kwid') >= 0


def kwok_of(ip, v):
    if isinstance(v, STok):
        return z3.BoolVal(True)
    if isinstance(v, Opaque):
        return memo(v, '$kwok', lambda: ip.p.fresh(BOOL, 'kwok'))
    return z3.And(own_kw(ip, v), sum_over(ip, children(v), 'kwok'))


P.NODES.measures.update({m.name: m for m in [
    int_sum('rp', rp_of), int_sum('args', args_of),
    P.and_measure('fits', fits_of), P.and_measure('kwok', kwok_of),
    first_measure('kwid', -1, kwid_of)]})
P.TOKS.measures.update({m.name: m for m in [
    first_measure('first', -1, lambda ip, v: P.ttype(v.t)),
    first_measure('syn', -1, lambda ip, v: z3.If(
        P.is_ws(v.t), z3.IntVal(-1), P.ttype(v.t)))]})
_side = P.TOKS.side


def toks_side(p, seg):
    _side(p, seg)
    ws = z3.Or([seg.m['first'] == x.value for x in (
        TokenType.WHITESPACE, TokenType.NEWLINE)])
    p.assume(z3.And(seg.m['first'] >= -1, seg.m['syn'] >= -1,
                    (seg.m['first'] == -1) == (seg.m['n'] == 0),
                    z3.Implies(z3.Not(ws), seg.m['syn'] == seg.m['first'])))


P.TOKS.side = toks_side


# ---------------------------------------------------------------- contracts
NEEDS_FIRST = ('KeywordGroupNode.parse',)
NEEDS_ONE = ('KeywordGroupNode.parse', 'KeywordNode.parse',
             'StatementNode.consume')
#: above the level of arguments nothing is claimed about parentheses
ABOVE = ('StatementNode.consume', 'FlowControlNode.consume',
         'IfBlockNode.consume', 'BodyNode.consume')


def closed_when(ip, fn, toks, bs):
    """Under which condition the result holds no closing parenthesis of an
    enclosing group."""
    cond = []
    if fn.__qualname__ in ABOVE:
        return z3.BoolVal(False)
    if isinstance(bs, LList):
        cond.append(ip.e.measure(ip, bs, 'paren', P.BREAKERS))
    if bs is None or fn.__qualname__ in NEEDS_FIRST:
        cond.append(ip.e.measure(ip, toks, 'first', P.TOKS) != RP)
    if bs is not None and not isinstance(bs, LList):
        return z3.BoolVal(False)
    return z3.And(cond)


def norm(t):
    """The keyword a token spells."""
    return z3.If(P.ttype(t) == TokenType.WORD.value,
                 M.upper_f(P.tspell(t)), M.lower_f(P.tspell(t)))


def good(node, rp=None):
    node.attrs['$args'] = z3.IntVal(0)
    node.attrs['$fits'] = z3.BoolVal(True)
    node.attrs['$kwok'] = z3.BoolVal(True)


class ShapeParser(P.ParserContract):
    """The result is no argument itself; all its positional groups fit, its
    keyword groups start with their keyword; and given a break stack that
    fires on closing parentheses it holds none but of its own groups."""
    label = 'shape'

    def __init__(self, old=None):
        P.ParserContract.__init__(self)
        if old is not None:
            self.parens = old.parens
            self.null_ok = old.null_ok

    def fresh_result(self, ip, toks, hint, cls, closed):
        oldn = ip.len_term(toks)
        node = P.fresh_node(ip, hint, cls)
        good(node)
        rp = ip.p.fresh(INT, 'rp')
        node.attrs['$rp'] = rp
        ip.p.assume(z3.Implies(closed, rp == 0))
        seg = P.TOKS.fresh_seg(ip.p, 'tk')
        ip.note_write(toks, 'items')
        toks.items = [seg]
        ip.p.assume(seg.m['n'] <= oldn)
        return node

    def apply(self, ip, fn, ba):
        toks = ba.get('tokens')
        cls = ba.get('cls')
        q = fn.__qualname__
        bs = ba.get('breakstack', ba.get('_breakstack'))
        if not isinstance(toks, LList):
            raise Unsupported('tokens argument %r' % (toks,))
        if self.parens:
            self.require(ip, bs)
        self.require_args(ip, ba)
        if q == 'KeywordGroupNode.parse':
            require_keyword(ip, toks, ba.get('word'), ba.get('subparser'))
        if '_breakstack' in ba:
            bs = None
        if self.null_ok and ip.p.choose(2, 'no node') == 1:
            return None
        first = None
        if q == 'KeywordNode.parse' and toks.items and isinstance(
                toks.items[0], El):
            first = toks.items[0].v
        node = self.fresh_result(
            ip, toks, fn.__name__, cls if isinstance(cls, type) else None,
            closed_when(ip, fn, toks, bs))
        if q == 'KeywordNode.parse':
            t = first.t if first is not None else ip.p.fresh(TokS, 'kw')
            node.attrs['$kwid'] = tokid(t)
            ip.p.assume(tokid(t) >= 0)
            node.attrs['token'] = STok(t)
        return node


def require_keyword(ip, toks, word, sub):
    """What a keyword group is parsed for: the first token spells the word,
    and the word is a keyword of the map the parser was found in."""
    t = ip.e.getitem(ip, toks, 0)
    s, p = ip.s, ip.p
    if not isinstance(word, (str, SStr)):
        s.obligation(p, 'a keyword group is parsed for a word',
                     z3.BoolVal(False), repr(word))
        return
    w = ip.strterm(word)
    s.obligation(p, 'a keyword group is parsed for the word that comes next',
                 w == norm(t.t))
    key = sub.kw.get('key') if isinstance(sub, Opaque) else None
    if key is not None:
        s.obligation(p, 'a keyword is parsed by the parser of that keyword',
                     w == key)
    else:
        s.obligation(p, 'a keyword group is parsed for one of the keywords'
                     ' the function names', z3.Or(
                         [w == z3.StringVal(c) for c in words(ip.top)] or
                         [z3.BoolVal(False)]))


def words(fn):
    out = set()

    def go(code):
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                go(c)
            elif isinstance(c, str):
                out.add(c)
            elif isinstance(c, (tuple, frozenset)):
                out.update(x for x in c if isinstance(x, str))
    go(fn.__code__)
    return sorted(w for w in out if w and w.upper() == w and len(w) < 40)


class ShapeAppend(P.AppendContract):
    """Only blanks and comments are appended."""
    label = 'shape-append'

    def apply(self, ip, fn, ba):
        toks, tree = ba['tokens'], ba[self.param]
        ch = ip.getattr(tree, 'children')
        if not isinstance(tree, Obj):
            raise Unsupported('appending to a finished node')
        oldn = ip.len_term(toks)
        seg = P.NODES.fresh_seg(ip.p, 'app')
        tk = P.TOKS.fresh_seg(ip.p, 'tk')
        ip.note_write(toks, 'items')
        toks.items = [tk]
        ip.note_write(ch, 'items')
        kw0 = sum_over(ip, ch, 'kwid')
        ch.items.append(seg)
        ip.p.assume(z3.And(
            seg.m['rp'] == 0, seg.m['args'] == 0, seg.m['fits'],
            seg.m['kwok'], seg.m['kwid'] < 0, tk.m['n'] <= oldn))
        return None


class NodeHandler(P.NodeHandler):
    def getattr(self, ip, v, name):
        if name == 'children':
            def mk():
                l = P.NodeHandler.getattr(self, ip, v, name)
                seg = l.items[0]
                for m in ('fits', 'kwok'):
                    ip.p.assume(z3.Implies(v.attrs[
                        '$' + m] if '$' + m in v.attrs else z3.BoolVal(False),
                        seg.m[m]))
                return l
            if '$ch' not in v.attrs:
                v.attrs['$ch'] = mk()
            return v.attrs['$ch']
        return P.NodeHandler.getattr(self, ip, v, name)


class ParserHandler(P.ParserHandler):
    def call(self, ip, v, args, kwargs):
        ip.s.used_contracts.add('<parser callable>')
        bs = args[2] if len(args) > 2 else kwargs.get('breakstack')
        c = ShapeParser()
        if v.kw.get('db'):
            c.require(ip, bs)
        elif not v.kw.get('node') and ip.p.choose(2, 'no node') == 1:
            return None
        toks = args[1]
        closed = ip.e.measure(ip, bs, 'paren', P.BREAKERS) if isinstance(
            bs, LList) else z3.BoolVal(False)
        return c.fresh_result(ip, toks, 'sub', None, closed)


class KwmapHandler(P.KwmapHandler):
    """A mapping from keyword to parser."""

    def iskw(self, ip, v):
        return memo(v, '$iskw', lambda: z3.Function(
            'iskw!%d' % ip.p.tick(), StrS, BOOL))

    def contains(self, ip, v, item):
        if item is None:
            return False
        return self.iskw(ip, v)(ip.strterm(item))

    def getitem(self, ip, v, key):
        if key is None:
            raise PyExc(KeyError)
        t = ip.strterm(key)
        if not ip.p.branch(self.iskw(ip, v)(t)):
            raise PyExc(KeyError)
        return Opaque('parser', 'subparser', key=t)

    def getattr(self, ip, v, name):
        if name == 'get':
            def get(ip, a, k):
                if a[0] is not None and ip.p.branch(
                        self.iskw(ip, v)(ip.strterm(a[0]))):
                    return Opaque('parser', 'subparser',
                                  key=ip.strterm(a[0]))
                return a[1] if len(a) > 1 else None
            return Builtin('get', get)
        return P.KwmapHandler.getattr(self, ip, v, name)


class NpargsHandler(P.NpargsHandler):
    def isinst_int(self, ip, v):
        return nargs_parts(ip, v)[0]

    def eq(self, ip, v, other):
        isint, val, opt = nargs_parts(ip, v)
        if isinstance(other, bool) or other is None:
            return ip.p.fresh(BOOL, 'eq')
        if isinstance(other, (int, SInt)):
            return z3.And(isint, val == ip.intterm(other))
        if other == '?':
            return opt
        if isinstance(other, str):
            return z3.And(z3.Not(isint), z3.Not(opt), memo(
                v, '$eq ' + other, lambda: ip.p.fresh(BOOL, 'eq')))
        return ip.p.fresh(BOOL, 'eq')

    def order(self, ip, op, a, b):
        def t(x):
            if isinstance(x, Opaque) and x.tag == 'npargs':
                isint, val, opt = nargs_parts(ip, x)
                if not ip.p.prove(isint)[0]:
                    return None
                return val
            return ip.intterm(x)
        x, y = t(a), t(b)
        if x is None or y is None:
            return ip.p.fresh(BOOL, 'cmp')
        return {'Lt': x < y, 'LtE': x <= y, 'Gt': x > y,
                'GtE': x >= y}[type(op).__name__]


# ----------------------------------------------------------- postconditions
def full_post(ip, ba, v):
    b, cap = nargs_terms(ip, ba.get('npargs'))
    n = ba.get('nconsumed')
    if not isinstance(n, (int, SInt)):
        return None
    return v.t == z3.And(b, ip.intterm(n) >= cap)


def exact_post(ip, ba, v):
    n = ba.get('npargs')
    if isinstance(n, (str, SStr)):
        return z3.Not(v.t)
    if isinstance(n, (int, SInt)):
        return v.t
    if isinstance(n, Opaque) and n.tag == 'npargs':
        return v.t == nargs_parts(ip, n)[0]
    return None


def norm_post(ip, ba, v):
    tok = ba.get('token')
    if not isinstance(tok, STok):
        return None
    word = P.ttype(tok.t) == TokenType.WORD.value
    lit = z3.And(P.ttype(tok.t) == TokenType.UNQUOTED_LITERAL.value,
                 z3.PrefixOf(z3.StringVal('-'), P.tspell(tok.t)))
    if v is None:
        return z3.Not(z3.Or(word, lit))
    return z3.And(z3.Or(word, lit), ip.strterm(v) == norm(tok.t))


def expl_post(ip, ba, v):
    """A comment comes first, after blanks only."""
    toks = ba.get('tokens')
    if not isinstance(toks, LList):
        return None
    return z3.Implies(v.t, ip.e.measure(
        ip, toks, 'syn', P.TOKS) == TokenType.COMMENT.value)


POSTS = {'pargs_are_full': full_post, 'npargs_is_exact': exact_post,
         'get_normalized_kwarg': norm_post,
         'next_is_explicit_trailing_comment': expl_post}


class Pure(P.PureContract):
    """As pure, with a postcondition that may also speak of None."""


# ------------------------------------------------------------------- engine
class ShapeEngine(P.ParseEngine):
    def __init__(self):
        self.swap = {}
        P.ParseEngine.__init__(self)
        self.tags.update({
            'node': NodeHandler(), 'parser': ParserHandler(),
            'kwmap': KwmapHandler(), 'npargs': NpargsHandler()})
        f = P.find(P.putil, 'iter_syntactic_tokens')
        if f:
            self.contracts.pop(f, None)
        f = P.find(P.pcommon, 'TreeNode.get_tokens')
        drop = {P.find(P.pcommon, 'TreeNode.get_tokens'),
                P.find(P.putil, 'iter_syntactic_tokens'),
                P.find(P.putil, 'iter_semantic_tokens'),
                P.find(P.parse_pkg, 'ParseContext.pusharg')}
        self.work = [w for w in self.work if w[1] not in drop and not (
            isinstance(w[2], P.PureContract) and w[2].post is None)
            and w[2].label != 'frame']
        self.candidate_fns = [shape_candidates, P.for_candidates,
                              syn_candidates]

    def convert(self, f, c):
        if type(c) is P.ParserContract:
            return ShapeParser(c)
        if type(c) is P.AppendContract:
            return ShapeAppend(c.param)
        if isinstance(c, P.PureContract) and f.__name__ in POSTS:
            return P.PureContract(c.result, POSTS[f.__name__])
        return c

    def queue(self, name, f, contract, self_=None):
        c = self.convert(f, contract)
        if self.contracts.get(f) is contract:
            self.contracts[f] = c
        P.ParseEngine.queue(self, name, f, c, self_)

    def note_parser(self, ip, v, k):
        if isinstance(v, Obj) and issubclass(
                v.cls, additional_nodes.TupleParser):
            ip.s.obligation(
                ip.p, 'tuples are pairs (precondition of '
                'TupleGroupNode.parse)',
                ip.intterm(v.fields['ntup']) == 2, repr(k))
        elif isinstance(v, additional_nodes.TupleParser) and v.ntup != 2:
            raise Unsupported('tuples of %r' % (v.ntup,))

    def parser_from_key(self, ip, o, k):
        """The parser a concrete map has for a symbolic key."""
        t = ip.strterm(k)
        if not ip.p.branch(ip.disj([t == z3.StringVal(x) for x in o.d
                                    if isinstance(x, str)])):
            return None
        r = self.parser_from(ip, o)
        r.kw['key'] = t
        return r

    def getitem(self, ip, o, k):
        if isinstance(o, DDict) and ip.is_sym(k) and self.parser_map(o):
            r = self.parser_from_key(ip, o, k)
            if r is None:
                raise PyExc(KeyError)
            return r
        return P.ParseEngine.getitem(self, ip, o, k)

    def dict_method(self, ip, v, name):
        m = P.ParseEngine.dict_method(self, ip, v, name)
        if name == 'get' and self.parser_map(v):
            def get(ip, a, k):
                if not ip.is_sym(a[0]):
                    return m.fn(ip, a, k)
                r = self.parser_from_key(ip, v, a[0])
                if r is None:
                    return a[1] if len(a) > 1 else None
                return r
            return Builtin('dict.get', get)
        return m

    def loop_pre(self, ip, al):
        pre = {}
        for fi, n, o in roots(ip, al):
            pre[n, fi] = {m: sum_over(ip, children(o), m)
                          for m in ('rp', 'args', 'fits', 'kwok', 'kwid')}
        for fi, n, v in P.frame_vars(al, ip):
            if isinstance(v, LList) and v.kind is P.TOKS and \
                    not n.startswith('$'):
                pre['len', n, fi] = ip.len_term(v)
            if n.startswith('$rest') and isinstance(v, LList):
                k = self.list_kind(ip, v)
                if k is not None:
                    pre[n, fi] = {m: self.measure(ip, v, m, k)
                                  for m in k.measures}
        al.pre = pre
        return pre


def roots(ip, al):
    """Local variables that hold nodes under construction."""
    for fi, n, v in P.frame_vars(al, ip):
        if isinstance(v, Obj) and issubclass(v.cls, TreeNode) and \
                isinstance(children(v), LList):
            yield fi, n, v


TRUE = z3.BoolVal(True)


_COUNTERS = {}


def counters(f):
    """The local names a function counts with."""
    node = f.node
    r = _COUNTERS.get(id(node))
    if r is None or r[0] is not node:
        out = set()
        for n in ast.walk(node) if isinstance(node, ast.AST) else ():
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                out.add(n.target.id)
            elif isinstance(n, ast.Assign) and isinstance(
                    n.value, ast.BinOp):
                out.update(t.id for t in n.targets if isinstance(t, ast.Name))
        r = _COUNTERS[id(node)] = (node, out)
    return r[1]


def shape_candidates(ip, al, where):
    live = {(n, fi): v for fi, n, v in roots(ip, al)}
    for fi, f in enumerate(al.frames):
        ints = {n: w for n, w in f.locals.items()
                if (isinstance(w, SInt) or type(w) is int and
                    n in counters(f)) and not n.startswith('$')}
        bss = {n: w for n, w in f.locals.items()
               if isinstance(w, LList) and w.kind is P.BREAKERS}
        bs = bss.get('breakstack')
        paren = ip.e.measure(ip, bs, 'paren', P.BREAKERS) \
            if bs is not None else TRUE
        isgroup = False
        for n in sorted(f.locals):
            v = f.locals[n]
            if n.startswith('$'):
                continue
            lab = '%s/%d' % (n, fi)
            if isinstance(v, LList) and v.kind is P.TOKS:
                if ('len', n, fi) in al.pre:
                    yield ('%s does not grow' % lab,
                           ip.len_term(v) <= al.pre['len', n, fi])
                continue
            if isinstance(v, (int, SInt, str, SStr, bool, SBool, DDict,
                              LList, STok, Opaque)) or callable(v):
                continue
            o = live.get((n, fi))
            ch = children(o) if o is not None else None

            def ms(m):
                return sum_over(ip, ch, m)
            yield 'nothing of %s closes another group' % lab, (
                TRUE if ch is None else z3.Implies(paren, ms('rp') == 0))
            yield 'the groups in %s fit' % lab, (
                TRUE if ch is None else ms('fits'))
            yield 'the keyword groups in %s have keywords' % lab, (
                TRUE if ch is None else ms('kwok'))
            pre = al.pre.get((n, fi))
            pre = pre if isinstance(pre, dict) and 'rp' in pre else None
            if pre is not None:
                for m in ('rp', 'args', 'fits', 'kwok'):
                    yield '%s of %s is unchanged' % (m, lab), (
                        TRUE if ch is None else ms(m) == pre[m])
                yield 'the keyword of %s is unchanged' % lab, (
                    TRUE if ch is None else z3.Or(
                        ms('kwid') == pre['kwid'],
                        z3.And(pre['kwid'] == -1, ms('kwid') < 0)))
            if o is not None and issubclass(
                    o.cls, argument_nodes.PositionalGroupNode):
                isgroup = True
                b, cap = arity_of(ip, o)
                yield '%s fits its specification' % lab, own_fit(ip, o)
                yield '%s is unbounded' % lab, z3.Not(b)
                for i, w in ints.items():
                    yield 'arity of %s == %s' % (lab, i), z3.And(
                        b, cap == ip.intterm(w))
                    yield 'args of %s == %s' % (lab, i), \
                        ms('args') == ip.intterm(w)
                    yield 'args of %s < %s' % (lab, i), \
                        ms('args') < ip.intterm(w)
            else:
                yield '%s fits its specification' % lab, TRUE
                yield '%s is unbounded' % lab, TRUE
                for i, w in ints.items():
                    yield 'arity of %s == %s' % (lab, i), TRUE
                    yield 'args of %s == %s' % (lab, i), TRUE
                    yield 'args of %s < %s' % (lab, i), TRUE
        for i, w in ints.items():
            for j, x in ints.items():
                if i != j:
                    yield '%s < %s/%d' % (i, j, fi), \
                        ip.intterm(w) < ip.intterm(x)


def syn_candidates(ip, al, where):
    """While looking for the first token that is no blank."""
    for fi, n, v in P.frame_vars(al, ip):
        if n.startswith('$done') and isinstance(v, LList):
            k = ip.e.list_kind(ip, v)
            if k is P.TOKS:
                yield ('only blanks so far [%s]' % n,
                       ip.e.measure(ip, v, 'syn', k) == -1)


# -------------------------------------------------------------------- checks
def node_terms(ip, r):
    return {m: f(ip, r) for m, f in (('rp', rp_of), ('args', args_of),
                                     ('fits', fits_of), ('kwok', kwok_of))}


def check_shape(ip, s, fn, contract, args, params, defcls, reach):
    toks = args['tokens']
    q = fn.__qualname__
    p = ip.p
    if contract.parens and isinstance(args.get('breakstack'), LList):
        p.assume(P.parenstack(ip, args['breakstack']))
    bs = args.get('breakstack')
    n0 = ip.len_term(toks)
    if q == 'TupleGroupNode.parse':
        # precondition: tuples are pairs (each construction is checked)
        p.assume(ip.intterm(args['ntup']) == 2)
    if q in NEEDS_ONE:
        p.assume(n0 >= 1)
    if q == 'StatementNode.consume':
        # precondition: starts with the name of a command
        t = ip.e.getitem(ip, toks, 0)
        p.assume(P.ttype(t.t) != RP)
    if q == 'KeywordGroupNode.parse':
        t = ip.e.getitem(ip, toks, 0)
        p.assume(ip.strterm(args['word']) == norm(t.t))
        p.assume(tokid(t.t) >= 0)
    if q == 'KeywordNode.parse':
        t = ip.e.getitem(ip, toks, 0)
    closed = closed_when(ip, fn, toks, bs)
    ip.may_modify = lambda o, f: o is toks
    try:
        r = P.call_top(ip, fn, args, params, defcls)
    except PyExc:
        reach['raises'] += 1
        return
    reach['exits'] += 1
    if r is None and contract.null_ok:
        s.obligation(p, 'returns no node only if it takes no token',
                     ip.len_term(toks) == n0)
        return
    ok = isinstance(r, Obj) and issubclass(r.cls, TreeNode) or (
        isinstance(r, Opaque) and r.tag == 'node')
    s.obligation(p, 'returns a parse node', z3.BoolVal(bool(ok)), repr(r))
    if not ok:
        return
    t_ = node_terms(ip, r)
    s.obligation(p, 'the result is no argument itself', t_['args'] == 0)
    s.obligation(p, 'no positional group holds more arguments than its '
                 'specification allows', t_['fits'])
    s.obligation(p, 'every keyword group starts with a keyword', t_['kwok'])
    s.obligation(p, 'the argument list does not extend past the parenthesis '
                 'that closes it', z3.Implies(closed, t_['rp'] == 0))
    s.obligation(p, 'token count does not grow', ip.len_term(toks) <= n0)
    if q == 'KeywordGroupNode.parse':
        s.obligation(p, 'the group starts with the keyword it was parsed for',
                     isinstance(r, Obj) and
                     sum_over(ip, children(r), 'kwid') == tokid(t.t))
        kw = r.fields.get('keyword') if isinstance(r, Obj) else None
        ok = isinstance(kw, Obj) or isinstance(kw, Opaque)
        s.obligation(p, 'its keyword is that node', z3.BoolVal(False) if not
                     ok else kwid_of(ip, kw) == tokid(t.t))
    if q == 'KeywordNode.parse':
        s.obligation(p, 'a keyword node holds the next token',
                     kwid_of(ip, r) == tokid(t.t))
        tk = r.fields.get('token') if isinstance(r, Obj) else None
        s.obligation(p, 'and remembers it', z3.BoolVal(False) if not
                     isinstance(tk, STok) else tk.t == t.t)
    if q == 'PositionalGroupNode.parse2' and isinstance(r, Obj):
        s.obligation(p, 'the group remembers its specification', z3.BoolVal(
            r.fields.get('spec') is args.get('spec')))
    if q == 'StatementNode.consume' and isinstance(r, Obj):
        at = r.fields.get('argtree')
        s.obligation(
            p, 'the arguments of a statement hold no closing parenthesis of '
            'another', z3.BoolVal(False) if not isinstance(
                at, (Obj, Opaque)) else rp_of(ip, at) == 0)
        s.obligation(p, 'a statement holds exactly one closing parenthesis',
                     t_['rp'] == 1)


def check_append(ip, s, fn, contract, args, params, defcls, reach):
    toks, tree = args['tokens'], args[contract.param]
    ch = tree.fields['children']
    old = {m: sum_over(ip, ch, m) for m in ('rp', 'args', 'fits', 'kwok',
                                            'kwid')}
    ip.may_modify = lambda o, f: o is toks or o is ch
    if 'implicit' in fn.__name__:
        pass
    try:
        P.call_top(ip, fn, args, params, defcls)
    except PyExc:
        reach['raises'] += 1
        return
    reach['exits'] += 1
    s.obligation(ip.p, 'children stay in place',
                 z3.BoolVal(tree.fields['children'] is ch))
    for m, what in (('rp', 'no closing parenthesis is taken'),
                    ('args', 'no argument is appended'),
                    ('fits', 'positional groups stay as they are'),
                    ('kwok', 'keyword groups stay as they are')):
        s.obligation(ip.p, what, sum_over(ip, ch, m) == old[m])
    s.obligation(ip.p, 'no keyword is appended', z3.Or(
        sum_over(ip, ch, 'kwid') == old['kwid'],
        z3.And(old['kwid'] == -1, sum_over(ip, ch, 'kwid') < 0)))


def check_pure(ip, s, fn, contract, args, params, defcls, reach):
    if 'npargs' in args and fn.__name__ in POSTS:
        # an arity is an integer or a string
        args['npargs'] = (SInt(ip.p.fresh(INT, 'npargs'))
                          if ip.p.choose(2, 'arity') == 0 else
                          SStr(ip.p.fresh(StrS, 'npargs')))
    ip.may_modify = lambda o, f: False
    try:
        r = P.call_top(ip, fn, args, params, defcls)
    except PyExc:
        reach['raises'] += 1
        return
    reach['exits'] += 1
    s.obligation(ip.p, 'result type (%s)' % contract.result,
                 z3.BoolVal(contract.check(ip, r)), repr(r))
    if contract.post is not None and contract.check(ip, r):
        if isinstance(r, bool):
            r = SBool(z3.BoolVal(r))
        t = contract.post(ip, args, r)
        if t is not None:
            s.obligation(ip.p, 'postcondition', t)


def verify(engine, name, fn, contract, self_, budget=200):
    return P.verify(engine, name, fn, contract, self_, budget)


P.CHECKS.update({'shape': check_shape, 'shape-append': check_append,
                 'pure': check_pure})
