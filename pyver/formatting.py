"""Contracts on the layout engine: cmakelang.format.formatter, _reflow side.

A layout node that the function under contract did not create is an 'lnode':
an arbitrary LayoutNode.  What its reflow() promises is stated once, in
reflow_contract, and proved of LayoutNode.reflow and of every _reflow.
"""
import types

import z3

from . import engine as E
from . import models as M
from .contract import (spec, ApplyContract, find, cls_of, Harness)
from .models import TagHandler, memo, INT, BOOL
from .values import *  # noqa
from . import parsing as P

from cmakelang import lex
from cmakelang.lex import TokenType
from cmakelang.parse.common import NodeType, TreeNode, FlowType
from cmakelang.parse.argument_nodes import PositionalGroupNode
from cmakelang.format import formatter as F

FMT = 'cmakelang.format.formatter:'

norm_f = z3.Function('norm', StrS, StrS)
line0_f = z3.Function('line0', StrS, StrS)       # first line
resolve_f = z3.Function('resolve', StrS, StrS, StrS)
perclass_f = z3.Function('declared', StrS, StrS, BOOL)
nps_f = z3.Function('nps', StrS, BOOL)           # need_paren_space
restmax_f = z3.Function('restmax', StrS, INT)    # longest of the others

NT = {n.name: n.value for n in NodeType} if hasattr(
    NodeType, '__iter__') else None


def nt(name):
    return getattr(NodeType, name).value


SCALARS = tuple(x.value for x in F.SCALAR_TYPES)
PARENS = (nt('LPAREN'), nt('RPAREN'))

# LayoutNode.create: node type -> class (checked against the real function by
# the contract on LayoutNode.create)
CLS = {}
for _n in ('FUNNAME', 'ARGUMENT', 'KEYWORD', 'FLAG', 'ATWORD'):
    CLS[nt(_n)] = F.ScalarNode
CLS.update({nt('ONOFFSWITCH'): F.OnOffSwitchNode,
            nt('STATEMENT'): F.StatementNode,
            nt('ATWORDSTATEMENT'): F.AtWordStatementNode,
            nt('KWARGGROUP'): F.KwargGroupNode,
            nt('ARGGROUP'): F.ArgGroupNode,
            nt('PARGGROUP'): F.PargGroupNode,
            nt('FLAGGROUP'): F.PargGroupNode,
            nt('PARENGROUP'): F.ParenGroupNode,
            nt('BODY'): F.BodyNode,
            nt('FLOW_CONTROL'): F.FlowControlNode,
            nt('COMMENT'): F.CommentNode,
            nt('WHITESPACE'): F.WhitespaceNode,
            nt('LPAREN'): F.ParenNode, nt('RPAREN'): F.ParenNode})


def is_one(t, vals):
    return z3.Or([t == v for v in vals])


# ------------------------------------------------------------------ kinds
def lnode_id(ip, v):
    if isinstance(v, Opaque):
        return memo(v, '$id', lambda: ip.p.fresh(TokS, 'lnode'))
    raise Unsupported('identity of %r' % (v,))


def lnode_nt(ip, v):
    def mk():
        e = ip.e.fresh_enum(ip, NodeType, 'nt')
        ip.p.assume(is_one(e.t, sorted(CLS)))
        return e
    return memo(v, 'node_type', mk)


def lnode_lc(ip, v):
    """Whether the text of the node ends in a line comment.

    Keywords, command names and parentheses hold a single token and no
    comment (contracts on the parser, see parse_shapes)."""
    def mk():
        t = ip.p.fresh(BOOL, 'lc')
        ip.p.assume(z3.Implies(is_one(lnode_nt(ip, v).t, (
            nt('KEYWORD'), nt('FUNNAME'), nt('ATWORD')) + PARENS),
            z3.Not(t)))
        return SBool(t)
    return memo(v, '$lc', mk).t


WHICH = z3.Const('which', TokS)


def lnode_count(ip, v):
    """1 if v is the (arbitrary) node WHICH"""
    return z3.If(lnode_id(ip, v) == WHICH, z3.IntVal(1), z3.IntVal(0))


def count_measure(of):
    m = Measure('cnt', INT, z3.IntVal(0), lambda a, b: a + b, of)
    m.commutative = True
    return m


LNODES = Kind('lnodes', [
    M.len_measure(), count_measure(lnode_count),
    P.seq_measure('ids', lambda ip, v: z3.Unit(lnode_id(ip, v))),
], lambda ip: Opaque('lnode', 'child'))


def max_measure(name, of):
    m = Measure(name, INT, z3.IntVal(0),
                lambda a, b: z3.If(a >= b, a, b), of)
    m.commutative = True
    return m


ENDL = z3.Const('endl', StrS)
restE_f = z3.Function('restE', StrS, StrS)   # other lines, each after an endl
rep_f = z3.Function('rep', StrS, INT, StrS)
EMPTYS = z3.StringVal('')


def joinE_measure():
    return Measure('joinE', StrS, EMPTYS, M_concat, lambda ip, v: M_concat(
        ENDL, ip.strterm(v)))


def M_concat(a, b):
    if z3.is_string_value(a) and a.as_string() == '':
        return b
    if z3.is_string_value(b) and b.as_string() == '':
        return a
    return z3.Concat(a, b)


def cat_measure():
    return Measure('cat', StrS, EMPTYS, M_concat,
                   lambda ip, v: ip.strterm(v))


wr_f = z3.Function('wr', StrS, TokS)         # event: this text is written


LINES = Kind('lines', [
    M.len_measure(), joinE_measure(), cat_measure(),
    P.seq_measure('evs', lambda ip, v: z3.Unit(wr_f(ip.strterm(v)))),
    max_measure('max', lambda ip, v: z3.Length(ip.strterm(v))),
], lambda ip: SStr(ip.p.fresh(StrS, 'line')),
    lambda p, seg: p.assume(seg.m['max'] >= 0))

LENS = Kind('lens', [
    M.len_measure(),
    P.or_measure('neg', lambda ip, v: ip.intterm(v) < 0),
    max_measure('max', lambda ip, v: ip.intterm(v)),
], lambda ip: SInt(ip.p.fresh(INT, 'len')),
    lambda p, seg: p.assume(seg.m['max'] >= 0))


# -------------------------------------------------------------- the ghost
class Rec(object):
    __slots__ = ('node', 'valid', 'ext', 'bx', 'by', 'ex', 'ey')

    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)


SCAL = ('ids', 'allok', 'maxext', 'sep', 'ex', 'ey', 'lc', 'any', 'paren')


def new_ghost(ip, cursor):
    """What is known about the children laid out so far."""
    g = Opaque('ghost', 'G')
    g.attrs.update({
        'ids': P_seq(P.EMPTY), 'allok': SBool(z3.BoolVal(True)),
        'maxext': SInt(z3.IntVal(-1)), 'sep': SBool(z3.BoolVal(True)),
        'ex': cursor[0], 'ey': cursor[1], 'lc': SBool(z3.BoolVal(False)),
        'any': SBool(z3.BoolVal(False)), 'paren': SBool(z3.BoolVal(False))})
    g.recs = []
    return g


class SSeq(SV):
    """A sequence of identities, as a ghost value."""
    __slots__ = ()


def P_seq(t):
    return SSeq(t)


def same_place(bx, by, ex, ey):
    return z3.Or(bx > ex, z3.And(bx == ex, by >= ey))


def folded(ip, g):
    """The scalars with the records of this iteration folded in."""
    a = {k: g.attrs[k].t for k in SCAL}
    for r in g.recs:
        n = lnode_nt(ip, r.node).t
        paren = is_one(n, PARENS)
        a['ids'] = P.cat(a['ids'], z3.Unit(lnode_id(ip, r.node)))
        a['allok'] = z3.And(a['allok'], z3.Or(r.valid, paren))
        a['maxext'] = z3.If(r.ext > a['maxext'], r.ext, a['maxext'])
        gap = z3.If(z3.Or(paren, a['paren'], z3.Not(a['any'])), 0, 1)
        a['sep'] = z3.And(a['sep'], z3.If(
            z3.And(a['any'], a['lc']), r.bx > a['ex'],
            same_place(r.bx, r.by, a['ex'], a['ey'] + gap)))
        a['ex'], a['ey'] = r.ex, r.ey
        a['lc'] = lnode_lc(ip, r.node)
        a['any'] = z3.BoolVal(True)
        a['paren'] = paren
    return a


def fold(ip, g):
    a = folded(ip, g)
    for k in SCAL:
        g.attrs[k] = type(g.attrs[k])(a[k])
    g.recs = []


class GhostHandler(TagHandler):
    pass


def ghosts(ip, al):
    for v in al.objs.values():
        if isinstance(v, Opaque) and v.tag == 'ghost' and hasattr(v, 'recs'):
            yield v


def cursor_xy(ip, c):
    if isinstance(c, Obj):
        return ip.intterm(c.fields['x']), ip.intterm(c.fields['y'])
    if isinstance(c, tuple):
        return ip.intterm(c[0]), ip.intterm(c[1])
    raise Unsupported('not a cursor: %r' % (c,))


def new_cursor(ip, x, y):
    return ip.new_obj(F.Cursor, {'x': SInt(x), 'y': SInt(y)})


def do_reflow(ip, v, args, kwargs):
    """Contract of child.reflow(stack_context, cursor, passno): lays the
    child out at the cursor; returns the end of its text; valid means that
    its extent is within the line width."""
    ip.s.used_contracts.add('LayoutNode.reflow')
    names = ('stack_context', 'cursor', 'parent_passno')
    ba = dict(zip(names, args))
    ba.update(kwargs)
    x, y = cursor_xy(ip, ba['cursor'])
    ex, ey = ip.p.fresh(INT, 'ex'), ip.p.fresh(INT, 'ey')
    ext = ip.p.fresh(INT, 'ext')
    valid = ip.p.fresh(BOOL, 'valid')
    ip.p.assume(same_place(ex, ey, x, y))
    ip.p.assume(z3.And(ey >= 0, ext >= 0))
    ip.p.assume(z3.Implies(valid, ext <= LW(ip)))
    ip.p.assume(z3.Implies(is_one(lnode_nt(ip, v).t, PARENS),
                           z3.And(ext == y + 1, ex == x, ey == y + 1)))
    # a command name has no line break (lexical contract)
    ip.p.assume(z3.Implies(lnode_nt(ip, v).t == nt('FUNNAME'), ex == x))
    v.attrs['colextent'] = SInt(ext)
    v.attrs['reflow_valid'] = SBool(valid)
    v.attrs['position'] = new_cursor(ip, x, y)
    g = ip.p.ghost.get('G')
    if g is not None:
        for k in SCAL:
            ip.note_write(g, k)
        for r in g.recs:
            if r.node is v:
                r.valid, r.ext, r.bx, r.by, r.ex, r.ey = (
                    valid, ext, x, y, ex, ey)
                break
        else:
            g.recs.append(Rec(node=v, valid=valid, ext=ext, bx=x, by=y,
                              ex=ex, ey=ey))
    return new_cursor(ip, ex, ey)


def LW(ip):
    return ip.p.ghost.setdefault('LW', ip.p.fresh(INT, 'linewidth'))


class LnodeHandler(TagHandler):
    def truth(self, ip, v):
        return True

    def eq(self, ip, v, other):
        if isinstance(other, Opaque) and other.tag == 'lnode':
            return lnode_id(ip, v) == lnode_id(ip, other)
        return False

    def isinstance(self, ip, v, cls):
        if cls in (F.LayoutNode, object):
            return True
        if cls is TreeNode or not issubclass(cls, F.LayoutNode):
            return False
        return is_one(lnode_nt(ip, v).t, [k for k, c in CLS.items()
                                          if issubclass(c, cls)] or [-99])

    def getattr(self, ip, v, name):
        if name == 'node_type':
            return lnode_nt(ip, v)
        if name == 'reflow':
            return Builtin('reflow', lambda ip, a, k: do_reflow(ip, v, a, k))
        if name in ('colextent', '_colextent'):
            return memo(v, 'colextent', lambda: SInt(ip.p.fresh(INT, 'cx')))
        if name in ('reflow_valid', '_reflow_valid'):
            return memo(v, 'reflow_valid', lambda: SBool(
                ip.p.fresh(BOOL, 'rv')))
        if name == 'has_terminal_comment':
            def htc(ip, a, k):
                ip.s.used_contracts.add('LayoutNode.has_terminal_comment')
                r = ip.p.fresh(BOOL, 'htc')
                ip.p.assume(z3.Implies(z3.And(
                    lnode_lc(ip, v), lnode_nt(ip, v).t != nt('COMMENT')), r))
                return SBool(r)
            return Builtin('htc', htc)
        if name == 'is_tag':
            return Builtin('is_tag', lambda ip, a, k: SBool(
                ip.p.fresh(BOOL, 'is_tag')))
        if name == 'write':
            return Builtin('write', lambda ip, a, k: do_write(ip, v, a))
        if name == 'lock':
            return Builtin('lock', lambda ip, a, k: None)
        if name == 'get_depth':
            return Builtin('get_depth', lambda ip, a, k: SInt(
                ip.p.fresh(INT, 'depth')))
        if name == 'statement_terminal':
            return SBool(ip.p.fresh(BOOL, 'st'))
        if name == 'pnode':
            return memo(v, name, lambda: mk_pnode(ip, v))
        if name == 'name':
            return memo(v, name, lambda: SStr(ip.p.fresh(StrS, 'name')))
        if name == 'position':
            return memo(v, name, lambda: new_cursor(
                ip, ip.p.fresh(INT, 'px'), ip.p.fresh(INT, 'py')))
        if name in ('children', '_children'):
            return memo(v, 'children', lambda: LList(
                [LNODES.fresh_seg(ip.p, 'gc')], 0, LNODES, True))
        if name == '__class__':
            return Opaque('any', 'cls')
        raise Unsupported('layout node attribute %s' % name)

    def setattr(self, ip, v, name, val):
        if name in ('statement_terminal', '_parent'):
            return                 # read back as unknown
        raise Unsupported('write to layout node attribute %s' % name)


def event(ip, e):
    """Something that changes the output: appended to the ghost trace."""
    w = ip.p.ghost.get('W')
    if w is None:
        raise Unsupported('no output trace')
    ip.note_write(w, 'evs')
    w.attrs['evs'] = SSeq(P.cat(w.attrs['evs'].t, z3.Unit(e)))


def do_write(ip, v, a):
    """child.write(config, ctx): one event; it leaves the switch alone
    unless the child holds one."""
    ip.s.used_contracts.add('LayoutNode.write')
    event(ip, lnode_id(ip, v))
    ctx = a[1] if len(a) > 1 else None
    if isinstance(ctx, Obj) and ip.p.prove(
            lnode_nt(ip, v).t == nt('COMMENT'), 2000, False)[0] != 'yes':
        ip.note_write(ctx, 'offswitch_location')
        ctx.fields['offswitch_location'] = (
            None if ip.p.choose(2, 'switched') == 0
            else Opaque('loc', 'offswitch'))
    return None


def mk_pnode(ip, v):
    o = Opaque('pnode', 'pnode', of=v)
    o.attrs['node_type'] = lnode_nt(ip, v)
    return o


def comment_tokens(ip, v):
    """The tokens of a parse node.  Those of a comment are one bracket
    comment, or a line comment and then line comments and blanks (group
    shapes: CommentNode.consume and consume_trailing)."""
    of = v.kw.get('of')
    if of is None or not ip.p.branch(lnode_nt(ip, of).t == nt('COMMENT')):
        return LList([P.TOKS.fresh_seg(ip.p, 'ptoks')], 0, P.TOKS)
    first = P.mk_tok(ip)
    seg = P.TOKS.fresh_seg(ip.p, 'ctoks')
    line = P.ttype(first.t) == TokenType.COMMENT.value
    ip.p.assume(lnode_lc(ip, of) == line)
    if ip.p.choose(2, 'comment tokens') == 0:
        ip.p.assume(z3.Or(line, P.ttype(first.t)
                          == TokenType.BRACKET_COMMENT.value))
        return LList([El(first)], 0, P.TOKS)
    ip.p.assume(line)
    return LList([El(first), seg], 0, P.TOKS)


class PnodeHandler(M.AnyHandler):
    """A parse node: immutable here."""

    def truth(self, ip, v):
        return True

    def eq(self, ip, v, other):
        if other is None:
            return False
        return ip.p.fresh(BOOL, 'eq')

    def isinstance(self, ip, v, cls):
        if cls is TreeNode or cls is object:
            return True
        if not issubclass(cls, TreeNode):
            return False
        return memo(v, '$isa' + cls.__name__,
                    lambda: ip.p.fresh(BOOL, 'isa'))

    def getattr(self, ip, v, name):
        if name == 'node_type':
            return memo(v, name, lambda: ip.e.fresh_enum(ip, NodeType, 'nt'))
        if name == 'children':
            return memo(v, name, lambda: comment_tokens(ip, v))
        if name in ('cmdspec', 'spec'):
            def mk():
                if ip.p.choose(2, name) == 0:
                    return None
                return Opaque('spec', name)
            return memo(v, name, mk)
        if name in ('sortable', 'is_explicit_trailing'):
            return memo(v, name, lambda: SBool(ip.p.fresh(BOOL, name)))
        return M.AnyHandler.getattr(self, ip, v, name)


class SpecHandler(M.AnyHandler):
    def truth(self, ip, v):
        return True

    def eq(self, ip, v, other):
        return False

    def getattr(self, ip, v, name):
        if name.startswith('max_'):
            def mk():
                if ip.p.choose(2, name) == 0:
                    return None
                return SInt(ip.p.fresh(INT, name))
            return memo(v, name, mk)
        if name == 'spelling':
            def mk():
                if ip.p.choose(2, name) == 0:
                    return None
                return SStr(ip.p.fresh(StrS, 'declared'))
            return memo(v, name, mk)
        return M.AnyHandler.getattr(self, ip, v, name)


INTOPTS = ('tab_size', 'max_subgroups_hwrap', 'max_pargs_hwrap',
           'max_rows_cmdline', 'min_prefix_chars', 'max_prefix_chars',
           'max_lines_hwrap', 'line_width', 'linewidth',
           'hashruler_min_length')
BOOLOPTS = ('separate_ctrl_name_with_space', 'separate_fn_name_with_space',
            'dangle_parens', 'use_tabchars', 'autosort', 'enable_sort',
            'enable_markup', 'first_comment_is_literal',
            'emit_byteorder_mark', 'require_valid_layout')
STROPTS = ('dangle_align', 'command_case', 'keyword_case',
           'fractional_tab_policy', 'line_ending', 'endl',
           'explicit_trailing_pattern')


class CfgHandler(M.AnyHandler):
    """A configuration (or one of its sections): immutable, each option of
    its declared type."""

    def truth(self, ip, v):
        return True

    def getattr(self, ip, v, name):
        if name in ('linewidth', 'line_width'):
            return SInt(LW(ip))
        if name in INTOPTS:
            return memo(v, name, lambda: self._tab(ip, name))
        if name in BOOLOPTS:
            return memo(v, name, lambda: SBool(ip.p.fresh(BOOL, name)))
        if name == 'endl':
            return SStr(ENDL)
        if name in STROPTS:
            return memo(v, name, lambda: SStr(ip.p.fresh(StrS, name)))
        if name in ('format', 'markup', 'encode', 'parse', 'misc', 'lint'):
            return memo(v, name, lambda: Opaque('config', name))
        if name == 'layout_passes':
            return Opaque('mapping', name, make=lambda ip: LList(
                [PASSES.fresh_seg(ip.p, 'passes')], 0, PASSES))
        if name == 'resolve_for_command':
            def rfc(ip, a, k):
                return ip.e.resolve(ip, v, a)
            return Builtin('resolve_for_command', rfc)
        return memo(v, name, lambda: Opaque('any', name))

    def _tab(self, ip, name):
        t = ip.p.fresh(INT, name)
        if name == 'tab_size':
            ip.p.assume(t >= 1)
        return SInt(t)


class MappingHandler(M.AnyHandler):
    """An option that maps names to values of a known form."""

    def getattr(self, ip, v, name):
        if name == 'get':
            def get(ip, a, k):
                if ip.p.choose(2, 'get') == 0:
                    return v.kw['make'](ip)
                return a[1] if len(a) > 1 else None
            return Builtin('get', get)
        raise Unsupported('%s of an option' % name)


PASSES = M.simple_kind('passes', lambda ip: (
    SInt(ip.p.fresh(INT, 'passno')), SBool(ip.p.fresh(BOOL, 'wrap'))))


# ------------------------------------------------------------- the engine
class FmtEngine(M.Engine):
    def __init__(self):
        M.Engine.__init__(self)
        self.tags.update({
            'lnode': LnodeHandler(), 'ghost': GhostHandler(),
            'pnode': PnodeHandler(), 'spec': SpecHandler(),
            'config': CfgHandler(), 'loc': P.LocHandler(),
            'mapping': MappingHandler(),
            'regex': M.RegexHandler(), 'match': M.MatchHandler(),
        })
        self.pure(FMT + 'normalize_line_endings', lambda ip, ba: SStr(
            norm_f(ip.strterm(ba['instr']))))
        self.pure(FMT + 'get_pathstr', lambda ip, ba: SStr(
            ip.p.fresh(StrS, 'pathstr')))
        self.pure(FMT + 'is_line_comment', lambda ip, ba: SBool(z3.And(
            lnode_lc(ip, ba['node']),
            lnode_nt(ip, ba['node']).t == nt('COMMENT'))))
        self.pure(FMT + 'count_arguments', lambda ip, ba: SInt(
            ip.p.fresh(INT, 'count')))
        self.pure(FMT + 'count_subgroups', lambda ip, ba: SInt(
            ip.p.fresh(INT, 'count')))
        self.pure(FMT + 'need_paren_space', lambda ip, ba: SBool(
            nps_f(ip.strterm(ba['spelling']))))
        self.pure(FMT + 'StatementNode.get_prefix_width', lambda ip, ba: SInt(
            ip.p.ghost.setdefault('PW', ip.p.fresh(INT, 'pw'))))
        self.pure(FMT + 'format_comment_lines', self.comment_lines)
        self.candidate_fns += [ghost_candidates, ext_candidates,
                               len_candidates,
                               P.for_candidates]

    def comment_lines(self, ip, ba):
        seg = LINES.fresh_seg(ip.p, 'lines')
        ip.p.assume(seg.m['n'] >= 1)
        return LList([seg], ip.p.tick(), LINES)

    def pure(self, addr, f):
        fn = find(addr)
        if fn is not None:
            self.contracts[fn] = ApplyContract(f)

    # hooks
    def tok_class(self):
        return lex.Token

    def tok_attr(self, ip, v, name):
        return P.ParseEngine.tok_attr(self, ip, v, name)

    def kind_of_value(self, ip, v):
        if isinstance(v, Opaque) and v.tag == 'lnode':
            return LNODES
        if isinstance(v, STok):
            return P.TOKS
        if isinstance(v, SInt) or type(v) is int:
            return LENS
        if isinstance(v, (SStr, str)):
            return LINES
        return M.Engine.kind_of_value(self, ip, v)

    def comp_kind(self, ip, node, fr):
        return None

    def str_method(self, ip, v, name):
        if name == 'split' and isinstance(v, SStr):
            def split(ip, a, k):
                if list(a) != ['\n']:
                    raise Unsupported('split at %r' % (a,))
                return split_lines(ip, v)
            return Builtin('split', split)
        return M.Engine.str_method(self, ip, v, name)

    def str_repeat(self, ip, a, b):
        x, n = (a, b) if isinstance(a, (str, SStr)) else (b, a)
        xt = ip.strterm(x)
        if type(n) is int and n <= 2:
            return SStr(z3.Concat(xt, xt) if n == 2 else xt) if n > 0 else ''
        nt_ = ip.intterm(n)
        t = rep_f(xt, nt_)
        ip.p.assume(z3.Implies(nt_ == 1, t == xt))
        ip.p.assume(z3.Length(t) == z3.If(
            nt_ > 0, nt_ * z3.Length(xt), z3.IntVal(0)))
        return SStr(t)

    def resolve(self, ip, v, a):
        """config.resolve_for_command(command, key[, default])"""
        key = a[1]
        if not isinstance(key, str):
            raise Unsupported('resolve of an unknown option')
        ip.s.used_contracts.add('resolve_for_command')
        t = resolve_f(z3.StringVal(key), ip.strterm(a[0]))
        if len(a) < 3:
            return SStr(t)
        if ip.p.branch(perclass_f(z3.StringVal(key), ip.strterm(a[0]))):
            return SStr(t)
        return a[2]

    def m_minmax(self, ip, f, src, kw):
        k = self.list_kind(ip, src)
        if f is max and not kw and k is LENS:
            if not ip.p.branch(ip.len_term(src) > 0):
                raise PyExc(ValueError)
            r = ip.p.fresh(INT, 'max')
            ip.p.assume(z3.Implies(
                z3.Not(self.measure(ip, src, 'neg', LENS)),
                r == self.measure(ip, src, 'max', LENS)))
            return SInt(r)
        raise Unsupported('max/min of an unknown list')

    def loop_pre(self, ip, al):
        pre = {}
        for g in ghosts(ip, al):
            fold(ip, g)
        for fi, n, v in P.frame_vars(al, ip):
            if isinstance(v, LList):
                k = self.list_kind(ip, v)
                if k is not None:
                    pre[n, fi] = {m: self.measure(ip, v, m, k)
                                  for m in k.measures}
        sf = self_obj(ip, al)
        if sf is not None and '_colextent' in sf.fields:
            pre['ext'] = ip.intterm(sf.fields['_colextent'])
        for g in ghosts(ip, al):
            pre['ids'] = g.attrs['ids'].t
            pre['start'] = (g.attrs['ex'].t, g.attrs['ey'].t)
        return pre


def split_lines(ip, v):
    """s.split('\\n'): a first line and any number of others."""
    seg = LINES.fresh_seg(ip.p, 'more')
    ip.p.assume(seg.m['max'] == restmax_f(v.t))
    ip.p.assume(seg.m['joinE'] == restE_f(v.t))
    return LList([El(SStr(line0_f(v.t))), seg], ip.p.tick(), LINES)


def self_obj(ip, al):
    for f in al.frames:
        v = f.locals.get('self')
        if isinstance(v, Obj):
            return v
    return None


def mx(a, b):
    return z3.If(a >= b, a, b)


def ghost_candidates(ip, al, where):
    sf = self_obj(ip, al)
    for g in ghosts(ip, al):
        if where == 'head':
            g.recs = []
        else:
            fold(ip, g)
        a = {k: g.attrs[k].t for k in SCAL}
        yield 'children laid out so far are apart', a['sep']
        if 'start' in al.pre:
            yield ('no child yet: the end is the start', z3.Or(
                a['any'], z3.And(a['ex'] == al.pre['start'][0],
                                 a['ey'] == al.pre['start'][1])))
        if sf is None:
            continue
        if '_reflow_valid' in sf.fields:
            yield ('valid => the children so far are', z3.Implies(
                ip.truth_term(sf.fields['_reflow_valid'])
                if not isinstance(sf.fields['_reflow_valid'], bool)
                else z3.BoolVal(sf.fields['_reflow_valid']), a['allok']))
        if '_colextent' in sf.fields:
            yield ('the extent covers the children so far',
                   ip.intterm(sf.fields['_colextent']) >= a['maxext'])
        for fi, n, v in P.frame_vars(al, ip):
            if isinstance(v, LList) and not n.startswith('$') and \
                    v.kind is LNODES and (n, fi) in al.pre:
                yield ('laid out ++ %s is unchanged' % n, P.cat(
                    a['ids'], ip.e.measure(ip, v, 'ids', LNODES))
                    == P.cat(al.pre['ids'], al.pre[n, fi]['ids']))
            if n.startswith('$done') and isinstance(v, LList):
                yield ('laid out are those iterated [%s]' % n,
                       a['ids'] == P.cat(al.pre['ids'], ip.e.measure(
                           ip, v, 'ids', LNODES)))
            if isinstance(v, Obj) and v.cls is F.Cursor and \
                    not n.startswith('$'):
                x, y = cursor_xy(ip, v)
                yield ('%s is after the children' % n, same_place(
                    x, y, a['ex'], a['ey']))
                yield ('%s is in the row of the last child' % n,
                       x == a['ex'])
                yield ('%s is where the last child ends' % n,
                       z3.And(x == a['ex'], y == a['ey']))
                yield '%s is not negative' % n, z3.And(x >= 0, y >= 0)
                yield ('%s is not above the last child' % n, x >= a['ex'])
                yield ('%s is below the last child' % n, z3.Implies(
                    a['any'], x > a['ex']))
                yield ('%s is below the last child if it ends in a comment'
                       % n, z3.Implies(a['lc'], x > a['ex']))
        for n in ('prev', 'child'):
            for f in al.frames:
                v = f.locals.get(n, 0)
                if isinstance(v, Opaque) and v.tag == 'lnode':
                    t = z3.And(
                        a['any'], a['lc'] == lnode_lc(ip, v),
                        a['paren'] == is_one(lnode_nt(ip, v).t, PARENS))
                elif v is None:
                    t = z3.Not(a['any'])
                else:
                    continue
                yield '%s is the last child, or None' % n, t


def len_candidates(ip, al, where):
    done = [v for fi, n, v in P.frame_vars(al, ip)
            if n.startswith('$done') and isinstance(v, LList)
            and ip.e.list_kind(ip, v) is LINES]
    for fi, n, v in P.frame_vars(al, ip):
        if isinstance(v, LList) and n.startswith('$acc'):
            k = ip.e.list_kind(ip, v)
            if k in (LENS, None):
                yield ('no negative number in %s' % n, z3.Not(
                    ip.e.measure(ip, v, 'neg', LENS)))
                for d in done:
                    yield ('%s are the lengths so far' % n, z3.And(
                        ip.e.measure(ip, v, 'max', LENS)
                        == ip.e.measure(ip, d, 'max', LINES),
                        ip.e.measure(ip, v, 'n', LENS)
                        == ip.e.measure(ip, d, 'n', LINES)))


def ext_candidates(ip, al, where):
    sf = self_obj(ip, al)
    if sf is None or '_colextent' not in sf.fields or 'ext' not in al.pre:
        return
    ext = ip.intterm(sf.fields['_colextent'])
    yield 'the extent does not shrink', ext >= al.pre['ext']
    for fi, n, v in P.frame_vars(al, ip):
        if isinstance(v, LList) and not n.startswith('$') and \
                v.kind is LINES and (n, fi) in al.pre:
            yield ('the extent covers the lines popped from %s' % n,
                   mx(ext, ip.e.measure(ip, v, 'max', LINES))
                   >= al.pre[n, fi]['max'])
    for fi, n, v in P.frame_vars(al, ip):
        if isinstance(v, Obj) and v.cls is F.Cursor and (n, fi) not in al.pre:
            pass


# ------------------------------------------------------------ the harness
def symcursor(h, name):
    x, y = h.int(name + '_x', 0), h.int(name + '_y', 0)
    return h.obj(F.Cursor, x=x, y=y)


def base_node(h, cls, types_, children=None, **kw):
    """An arbitrary node of a layout class."""
    ip = h.ip
    o = h.obj(cls)
    pn = Opaque('pnode', 'pnode', of=None)
    e = h.enum(NodeType, 'nt')
    h.assume(is_one(e.t, types_))
    pn.attrs['node_type'] = e
    o.fields.update({
        'pnode': pn, '_reflow_valid': h.bool('rv0'),
        'statement_terminal': h.bool('st'), '_parent': None,
        '_passno': h.int('passno0'), '_colextent': h.int('ext0'),
        '_rowextent': h.int('rowext0'), '_stmt_depth': h.int('sd'),
        '_subtree_depth': h.int('std'), '_locked': True,
        '_layout_passes': LList([PASSES.fresh_seg(h.p, 'passes')], 0,
                                PASSES),
        '_wrap': h.bool('wrap'), '__position': symcursor(h, 'pos'),
        '__size': symcursor(h, 'size'),
        '_children': children if children is not None else LList(
            [LNODES.fresh_seg(h.p, 'children')], 0, LNODES, True)})
    o.fields.update(kw)
    h.may_modify(o)
    return o


def stackctx(h):
    sc = h.obj(F.StackContext)
    sc.fields.update({
        'config': Opaque('config', 'config'),
        'node_path': LList([M.ANY.fresh_seg(h.p, 'path')], 0, M.ANY),
        'first_token': P.mk_tok(h.ip)})
    h.may_modify(sc, sc.fields['node_path'])
    return sc


def types_of(cls):
    return [k for k, c in CLS.items() if c is cls]


GROUPS = [('StatementNode', True), ('AtWordStatementNode', True),
          ('KwargGroupNode', True), ('PargGroupNode', True),
          ('ArgGroupNode', True), ('ParenGroupNode', True),
          ('BodyNode', False), ('FlowControlNode', False)]


def group_contract(clsname, h):
    """_reflow of a node with children: every child is laid out, in order,
    each after (and apart from) the one before; valid means that all of them
    are; the extent covers theirs; the result is the end of the last."""
    ip = h.ip
    cls = getattr(F, clsname)
    o = base_node(h, cls, types_of(cls), _reflow_valid=True)
    if clsname == 'PargGroupNode':
        o.fields['_max_pargs_hwrap'] = h.int('mph')
    if clsname == 'ArgGroupNode':
        o.fields['_max_subgroups_hwrap'] = h.int('msh')
    cur = symcursor(h, 'cursor')
    x0, y0 = cursor_xy(ip, cur)
    g = new_ghost(ip, (SInt(x0), SInt(y0)))
    o.fields['$G'] = g
    h.p.ghost['G'] = g
    h.may_modify(cur, g)
    ids = ip.e.measure(ip, o.fields['_children'], 'ids', LNODES)
    r = h.call(o, stackctx(h), cur, h.int('passno'))
    a = folded(ip, g)
    rv = o.fields['_reflow_valid']
    rv = rv.t if isinstance(rv, SBool) else z3.BoolVal(rv)
    h.ensure('every child is laid out exactly once, in order',
             a['ids'] == ids)
    h.ensure('valid => every child is valid', z3.Implies(rv, a['allok']))
    h.ensure('the extent covers every child',
             ip.intterm(o.fields['_colextent']) >= a['maxext'])
    h.ensure('no child starts before its predecessor ends, on the line of '
             'its final line comment, or glued to it', a['sep'])
    h.ensure('the extent is not negative',
             ip.intterm(o.fields['_colextent']) >= 0)
    rx, ry = cursor_xy(ip, r)
    h.ensure('the result is the end of the text', z3.Implies(
        a['any'], z3.And(rx == a['ex'], ry == a['ey'])))
    h.ensure('the result is not before the start',
             z3.Implies(z3.Not(a['any']), same_place(rx, ry, x0, y0)))


for _c, _ in GROUPS:
    spec('reflow', FMT + _c + '._reflow', FmtEngine)(
        lambda h, _c=_c: group_contract(_c, h))


# ----------------------------------------------------------------- leaves
def leaf_tokens(h, o):
    """The own parse node holds a token, then anything."""
    tok = P.mk_tok(h.ip)
    o.fields['pnode'].attrs['children'] = LList(
        [El(tok), P.TOKS.fresh_seg(h.p, 'ptoks')], 0, P.TOKS)
    return tok


def ext_of(h, o):
    return h.ip.intterm(o.fields['_colextent'])


@spec('reflow', FMT + 'ScalarNode._reflow', FmtEngine)
def scalar_reflow(h):
    """The extent covers every line of the token and the comment."""
    ip = h.ip
    o = base_node(h, F.ScalarNode, types_of(F.ScalarNode),
                  _reflow_valid=True)
    tok = leaf_tokens(h, o)
    cur = symcursor(h, 'cursor')
    x0, y0 = cursor_xy(ip, cur)
    g = new_ghost(ip, (SInt(x0), SInt(y0)))
    h.p.ghost['G'] = g
    o.fields['$G'] = g
    h.may_modify(cur, g)
    ids = ip.e.measure(ip, o.fields['_children'], 'ids', LNODES)
    r = h.call(o, stackctx(h), cur, h.int('passno'))
    a = folded(ip, g)
    text = norm_f(P.tspell(tok.t))
    h.ensure('the extent covers the first line of the token',
             ext_of(h, o) >= y0 + z3.Length(line0_f(text)))
    h.ensure('the extent covers the other lines of the token',
             ext_of(h, o) >= restmax_f(text))
    h.ensure('the comment is laid out', a['ids'] == ids)
    h.ensure('the extent covers the comment', ext_of(h, o) >= a['maxext'])
    rv = o.fields['_reflow_valid']
    h.ensure('valid => the comment is valid', z3.Implies(
        rv.t if isinstance(rv, SBool) else z3.BoolVal(rv), a['allok']))
    rx, ry = cursor_xy(ip, r)
    h.ensure('the end is not before the start', same_place(rx, ry, x0, z3.If(
        rx == x0, y0, 0)))
    h.ensure('the result is the end of the comment', z3.Implies(
        a['any'], z3.And(rx == a['ex'], ry == a['ey'])))


@spec('reflow', FMT + 'OnOffSwitchNode._reflow', FmtEngine)
def onoff_reflow(h):
    ip = h.ip
    o = base_node(h, F.OnOffSwitchNode, [nt('ONOFFSWITCH')])
    tok = leaf_tokens(h, o)
    ty = P.ttype(tok.t)
    on, off = TokenType.FORMAT_ON.value, TokenType.FORMAT_OFF.value
    h.assume(is_one(ty, (on, off)))
    cur = symcursor(h, 'cursor')
    x0, y0 = cursor_xy(ip, cur)
    h.may_modify(cur)
    r = h.call(o, stackctx(h), cur, h.int('passno'))
    n = z3.If(ty == on, len('# cmake-format: on'), len('# cmake-format: off'))
    h.ensure('the extent covers the switch', ext_of(h, o) >= y0 + n)
    rx, ry = cursor_xy(ip, r)
    h.ensure('the result is the end', z3.And(rx == x0, ry == y0 + n))


@spec('reflow', FMT + 'ParenNode._reflow', FmtEngine)
def paren_reflow(h):
    ip = h.ip
    o = base_node(h, F.ParenNode, PARENS)
    cur = symcursor(h, 'cursor')
    x0, y0 = cursor_xy(ip, cur)
    h.may_modify(cur)
    r = h.call(o, stackctx(h), cur, h.int('passno'))
    rx, ry = cursor_xy(ip, r)
    h.ensure('the extent covers the parenthesis', ext_of(h, o) == y0 + 1)
    h.ensure('the result is the end', z3.And(rx == x0, ry == y0 + 1))


@spec('reflow', FMT + 'WhitespaceNode._reflow', FmtEngine)
def white_reflow(h):
    ip = h.ip
    o = base_node(h, F.WhitespaceNode, [nt('WHITESPACE')])
    cur = symcursor(h, 'cursor')
    x0, y0 = cursor_xy(ip, cur)
    h.may_modify(cur)
    r = h.call(o, stackctx(h), cur, h.int('passno'))
    rx, ry = cursor_xy(ip, r)
    h.ensure('the result is the start', z3.And(rx == x0, ry == y0))


@spec('reflow', FMT + 'CommentNode._reflow', FmtEngine)
def comment_reflow(h):
    """The extent covers every line that is written."""
    ip = h.ip
    o = base_node(h, F.CommentNode, [nt('COMMENT')])
    o.fields['_lines'] = LList([], 0, LINES)
    tok = leaf_tokens(h, o)
    pch = o.fields['pnode'].attrs['children']
    cur = symcursor(h, 'cursor')
    x0, y0 = cursor_xy(ip, cur)
    h.may_modify(cur)
    r = h.call(o, stackctx(h), cur, h.int('passno'))
    bracket = z3.And(P.ttype(tok.t) == TokenType.BRACKET_COMMENT.value,
                     ip.len_term(pch) == 1)
    text = norm_f(P.tspell(tok.t))
    h.ensure('the extent covers a bracket comment', z3.Implies(
        bracket, z3.And(ext_of(h, o) >= y0 + z3.Length(line0_f(text)),
                        ext_of(h, o) >= restmax_f(text))))
    lines = o.fields['_lines']
    h.ensure('the extent covers every line', z3.Or(
        bracket, ext_of(h, o) >= y0 + ip.e.measure(ip, lines, 'max', LINES)))
    rx, ry = cursor_xy(ip, r)
    h.ensure('the result is in the row of the last line', z3.Or(
        bracket, rx == x0 + ip.len_term(lines) - 1))


# ------------------------------------------------------ reflow and validity
def reflow_impl_contract(ip, ba):
    """_reflow of an unknown class: the postconditions above."""
    o = ba['self']
    ip.s.used_contracts.add('_reflow')
    x, y = cursor_xy(ip, ba['cursor'])
    for f, v in (('_colextent', SInt(ip.p.fresh(INT, 'ext'))),
                 ('_reflow_valid', SBool(ip.p.fresh(BOOL, 'rv')))):
        ip.note_write(o, f)
        o.fields[f] = v
    ex, ey = ip.p.fresh(INT, 'ex'), ip.p.fresh(INT, 'ey')
    ip.p.assume(z3.Or(ex > x, z3.And(ex == x, ey >= y)))
    ip.p.ghost['last'] = (ex, ey, o.fields['_colextent'].t)
    return new_cursor(ip, ex, ey)


class ReflowEngine(FmtEngine):
    def __init__(self):
        FmtEngine.__init__(self)
        for c in ('LayoutNode', 'StatementNode', 'KwargGroupNode'):
            fn = find(FMT + c + '._reflow')
            if fn is not None:
                self.contracts[fn] = ApplyContract(reflow_impl_contract)
        self.candidate_fns = [reflow_loop_candidates] + self.candidate_fns


def reflow_loop_candidates(ip, al, where):
    sf = self_obj(ip, al)
    if sf is None:
        return
    oc = [f.locals['outcursor'] for f in al.frames
          if 'outcursor' in f.locals]
    if not oc:
        return
    rv = sf.fields['_reflow_valid']
    rv = rv.t if isinstance(rv, SBool) else z3.BoolVal(bool(rv))
    yield 'a valid layout is within the line width', z3.BoolVal(True) \
        if oc[-1] is None else z3.Implies(
            rv, ip.intterm(sf.fields['_colextent']) <= LW(ip))


def reflow_contract(h, cls):
    ip = h.ip
    o = base_node(h, cls, [k for k in CLS])
    if cls is not F.LayoutNode:
        h.assume(is_one(o.fields['pnode'].attrs['node_type'].t,
                        types_of(cls)))
    o.fields['_children'] = LList(
        [El(named_lnode(h)), LNODES.fresh_seg(h.p, 'children')], 0,
        LNODES, True)
    cur = symcursor(h, 'cursor')
    x0, y0 = cursor_xy(ip, cur)
    r = h.call(o, stackctx(h), cur, h.int('passno'))
    rv = o.fields['_reflow_valid']
    rv = rv.t if isinstance(rv, SBool) else z3.BoolVal(bool(rv))
    h.ensure('valid => the extent is within the line width',
             z3.Implies(rv, ext_of(h, o) <= LW(ip)))
    pos = o.fields['__position']
    px, py = cursor_xy(ip, pos)
    h.ensure('the position is the cursor', z3.And(px == x0, py == y0))
    x1, y1 = cursor_xy(ip, cur)
    h.ensure('the cursor argument is unchanged', z3.And(x1 == x0, y1 == y0))
    last = ip.p.ghost.get('last')
    h.ensure('some pass was tried', z3.BoolVal(r is not None))


def named_lnode(h):
    v = Opaque('lnode', 'child0')
    return v


for _c in ('LayoutNode',):
    spec('reflow', FMT + 'LayoutNode.reflow', ReflowEngine,
         name='LayoutNode.reflow')(
        lambda h: reflow_contract(h, F.LayoutNode))
spec('reflow', FMT + 'LayoutNode.reflow', ReflowEngine,
     name='LayoutNode.reflow(KwargGroupNode)')(
    lambda h: reflow_contract(h, F.KwargGroupNode))
spec('reflow', FMT + 'StatementNode.reflow', ReflowEngine)(
    lambda h: reflow_contract(h, F.StatementNode))


def validate_contract(h, cls):
    ip = h.ip
    o = base_node(h, cls, types_of(cls) or [k for k in CLS])
    o.fields['_children'] = LList(
        [El(named_lnode(h)), LNODES.fresh_seg(h.p, 'children')], 0,
        LNODES, True)
    end = symcursor(h, 'end')
    r = h.call(o, stackctx(h), symcursor(h, 'start'), end)
    t = ip.truth_term(r) if not isinstance(r, bool) else z3.BoolVal(r)
    h.ensure('accepted => within the line width',
             z3.Implies(t, cursor_xy(ip, end)[1] <= LW(ip)))


for _c in ('LayoutNode', 'StatementNode', 'KwargGroupNode'):
    spec('reflow', FMT + _c + '._validate_layout', FmtEngine)(
        lambda h, _c=_c: validate_contract(h, getattr(F, _c)))


# ------------------------------------------------------- terminal comments
def terminal_contract(h, clsname):
    """A node whose text ends in a line comment says so."""
    ip = h.ip
    cls = getattr(F, clsname)
    o = base_node(h, cls, types_of(cls))
    ch = o.fields['_children']
    if clsname == 'ParenGroupNode':
        kids = [Opaque('lnode', n) for n in ('lp', 'args', 'rp', 'comment')]
        for k, t in zip(kids, ('LPAREN', 'ARGGROUP', 'RPAREN', 'COMMENT')):
            h.assume(lnode_nt(ip, k).t == nt(t))
        n = 3 + ip.p.choose(2, 'trailing comment')
        ch.items = [El(k) for k in kids[:n]]
    elif ip.p.choose(2, 'empty') == 0:
        ch.items = []
    else:
        last = Opaque('lnode', 'last')
        ch.items = [LNODES.fresh_seg(h.p, 'children'), El(last)]
        if clsname == 'ScalarNode':
            h.assume(lnode_nt(ip, last).t == nt('COMMENT'))
    want = z3.BoolVal(False)
    if ch.items:
        want = lnode_lc(ip, ch.items[-1].v)
    r = h.call(o)
    t = ip.truth_term(r)
    t = z3.BoolVal(t) if isinstance(t, bool) else t
    h.ensure('ends in a line comment => reported', z3.Implies(want, t))


class UnrollEngine(FmtEngine):
    unroll = 6


for _c in ('ScalarNode', 'KwargGroupNode', 'PargGroupNode', 'ArgGroupNode',
           'ParenGroupNode'):
    spec('reflow', FMT + _c + '.has_terminal_comment', UnrollEngine)(
        lambda h, _c=_c: terminal_contract(h, _c))


@spec('reflow', FMT + 'OnOffSwitchNode.has_terminal_comment', FmtEngine)
def onoff_terminal(h):
    o = base_node(h, F.OnOffSwitchNode, [nt('ONOFFSWITCH')])
    r = h.call(o)
    h.ensure('a switch is a line comment', h.ip.truth_term(r))


class LineCommentEngine(FmtEngine):
    def __init__(self):
        FmtEngine.__init__(self)
        self.contracts.pop(find(FMT + 'is_line_comment'), None)


@spec('reflow', FMT + 'is_line_comment', LineCommentEngine)
def line_comment(h):
    ip = h.ip
    v = Opaque('lnode', 'node')
    r = h.call(v)
    h.ensure('a node that ends in a line comment of its own is reported',
             z3.Implies(z3.And(lnode_lc(ip, v),
                               lnode_nt(ip, v).t == nt('COMMENT')),
                        ip.truth_term(r)))


@spec('reflow', FMT + 'LayoutNode.create', FmtEngine)
def create(h):
    """The node type decides the class: the table the other contracts use."""
    ip = h.ip
    pn = Opaque('pnode', 'pnode', of=None)
    e = h.enum(NodeType, 'nt')
    pn.attrs['node_type'] = e
    pn.attrs['$isaTreeNode'] = z3.BoolVal(True)
    r = h.call(pn)
    cls = r.cls if isinstance(r, Obj) else None
    h.ensure('the class is that of the node type', is_one(e.t, [
        k for k, c in CLS.items() if c is cls] or [-99]))
    h.ensure('the node is of the parse node',
             z3.BoolVal(isinstance(r, Obj) and r.fields.get('pnode') is pn))
