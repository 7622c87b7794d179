"""Contracts on the checks that walk the parse tree.

As in linting.py everything is stated about something arbitrary but fixed: a
code C, a record R, a position I in a list.
"""
import z3

from . import contract, models as M
from . import parsing as P
from .contract import spec, ApplyContract, find
from .models import TagHandler, memo, INT, BOOL
from .linting import (  # noqa
    CHK, LCTX, C, XR, S, IDS, RECS, LintEngine, SuppressEngine, ids_list,
    file_context, sum_measure, SomeConfig, idx_vars, counter)
from .values import *  # noqa

from cmakelang.lex import Token, TokenType
from cmakelang.lint import basic_checker as BC
from cmakelang.lint import lint_util as LU
from cmakelang.parse import argument_nodes, body_nodes, statement_node
from cmakelang.parse.argument_nodes import ArgGroupNode, PositionalGroupNode
from cmakelang.parse.body_nodes import BodyNode, FlowControlNode
from cmakelang.parse.statement_node import StatementNode
import importlib
PC = importlib.import_module('cmakelang.parse.common')
NodeType, TreeNode = PC.NodeType, PC.TreeNode


# ------------------------------------------------------- C11: record_lint
class SpecDbHandler(TagHandler):
    """The data base of lint codes."""

    def truth(self, ip, v):
        return True

    def getitem(self, ip, v, key):
        return memo(v, str(ip.strterm(key)), lambda: Opaque(
            'lspec', 'spec', code=ip.strterm(key)))

    def contains(self, ip, v, item):
        return isid(ip.strterm(item))


isid = z3.Function('is_code', StrS, BOOL)


class LspecHandler(TagHandler):
    def truth(self, ip, v):
        return True

    def getattr(self, ip, v, name):
        if name == 'idstr':
            return SStr(v.kw['code'])
        if name == 'msgfmt':
            return Opaque('fmt', 'msgfmt')
        return Opaque('any', name)


class FmtHandler(TagHandler):
    def getattr(self, ip, v, name):
        if name == 'format':
            return Builtin(name, lambda ip, a, k: SStr(
                ip.p.fresh(StrS, 'msg')))
        raise Unsupported('%s of a format' % name)


class RecordEngine(SuppressEngine):
    def __init__(self):
        SuppressEngine.__init__(self)
        self.tags.update(specdb=SpecDbHandler(), lspec=LspecHandler(),
                         fmt=FmtHandler(), lcfg=SomeConfig())
        self.assume_note('the message of a lint record can be formatted '
                         'from its arguments (their number is checked at '
                         'each place that reports a literal code)')

    def kind_of_value(self, ip, v):
        if isinstance(v, Obj) and v.cls is LU.LintRecord:
            return RECS
        return SuppressEngine.kind_of_value(self, ip, v)


@spec('suppress', LCTX + 'record_lint', RecordEngine)
def record_lint(h):
    """A finding is recorded, with its code and its place, exactly if its
    code is neither disabled nor suppressed at the moment."""
    ip = h.ip
    dis = Opaque('idset', 'disabled_codes')
    dis.attrs['C'] = SBool(z3.Const('disabled', BOOL))
    lint = Opaque('lcfg', 'lint')
    lint.attrs['disabled_codes'] = dis
    cfg = Opaque('lcfg', 'config')
    cfg.attrs['lint'] = lint
    g = Opaque('lcfg', 'global_ctx')
    g.attrs['lintdb'] = Opaque('specdb', 'lintdb')
    o, f = file_context(h, global_ctx=g, config=cfg)
    h.may_modify(f['_supressed_count'], f['_lint'])
    old = list(f['_lint'].items)
    kw, loc = {}, ()
    if h.p.choose(2, 'with a location') == 0:
        loc = kw['location'] = (SInt(h.p.fresh(INT, 'line')),
                                SInt(h.p.fresh(INT, 'col')))
    h.call(o, SStr(C), h.str('arg'), **kw)
    new = o.fields['_lint'].items
    keep = z3.And(z3.Not(dis.attrs['C'].t),
                  z3.Not(f['_suppressions'].attrs['C'].t))
    if new == old:
        h.ensure('nothing is recorded only if C is disabled or suppressed',
                 z3.Not(keep))
        return
    h.ensure('recorded only if C is neither disabled nor suppressed', keep)
    ok = len(new) == 2 and isinstance(new[1], El) and new[:1] == old and \
        isinstance(new[1].v, Obj) and new[1].v.cls is LU.LintRecord
    h.ensure('one record is appended', ok)
    if not ok:
        return
    r = new[1].v
    h.ensure('the record has the code', ip.strterm(
        ip.getattr(r.fields['spec'], 'idstr')) == C)
    h.ensure('the record has the place', place_eq(
        ip, r.fields['location'], loc))


def place_eq(ip, a, b):
    if isinstance(a, LList) and a.explicit():
        a = tuple(x.v for x in a.items)
    if not isinstance(a, tuple) or len(a) != len(b):
        return False
    return z3.And([z3.BoolVal(True)] + [
        ip.intterm(x) == ip.intterm(y) for x, y in zip(a, b)])


# ------------------------------------------------------- C11: the pragmas
# which codes a pragma's words request, and what comes of a comment:
# first: the first line that requests C; onx: how many at the line of R
FirstS = z3.Datatype('First')
FirstS.declare('first', ('none', BOOL), ('line', INT))
FirstS = FirstS.create()
NOFIRST = FirstS.first(True, 0)


def first_op(a, b):
    return z3.If(FirstS.none(a), b, a)


def prag_measures(of_first, of_onx):
    return [M.len_measure(),
            Measure('first', FirstS, NOFIRST, first_op, of_first),
            sum_measure('onx', of_onx)]


def prag_side(p, seg):
    f = seg.m['first']
    p.assume(z3.And(seg.m['onx'] >= 0, z3.Implies(
        FirstS.none(f), f == NOFIRST)))


def prag_parts(ip, v):
    row, ids = ip.iter_explicit(v) if not isinstance(v, tuple) else v
    return ip.intterm(row), ip.e.measure(ip, ids, 'c', IDS) > 0


def prag_first(ip, v):
    row, on = prag_parts(ip, v)
    return z3.If(on, FirstS.first(False, row), NOFIRST)


def prag_onx(ip, v):
    row, on = prag_parts(ip, v)
    return z3.If(z3.And(on, row == XR), 1, 0)


PRAGMAS = Kind('pragmas', prag_measures(prag_first, prag_onx), lambda ip: (
    SInt(ip.p.fresh(INT, 'row')), ids_list(ip, 'requested')), prag_side)


# the words of a pragma
ItemS = z3.DeclareSort('Item')
item_eq = z3.Function('item_has_eq', ItemS, BOOL)
item_key = z3.Function('item_key', ItemS, StrS)
item_cnt = z3.Function('item_codes', ItemS, INT)    # how often C is listed


def item_c(ip, v):
    t = v.kw['t']
    return z3.If(z3.And(item_eq(t), item_key(t) == S('disable'), isid(C)),
                 item_cnt(t), 0)


ITEMS = Kind('items', [M.len_measure(), sum_measure('c', item_c)],
             lambda ip: Opaque('item', 'item', t=ip.p.fresh(ItemS, 'item')),
             lambda p, seg: p.assume(seg.m['c'] >= 0))


class ItemHandler(TagHandler):
    """One word of a pragma."""
    isa = (str,)

    def truth(self, ip, v):
        return True

    def contains(self, ip, v, item):
        if item != '=':
            raise Unsupported('membership in a word')
        return item_eq(v.kw['t'])

    def length(self, ip, v):
        n = ip.p.fresh(INT, 'len')
        ip.p.assume(n >= 1)
        return SInt(n)

    def getattr(self, ip, v, name):
        t = v.kw['t']

        def split(ip, a, k):
            if list(a) != ['=', 1] or k:
                raise Unsupported('split of a word')
            if not ip.p.branch(item_eq(t)):
                return LList([El(v)], ip.p.tick())
            return LList([El(SStr(item_key(t))),
                          El(Opaque('codes', 'codes', t=t))], ip.p.tick())

        def partition(ip, a, k):
            if list(a) != ['=']:
                raise Unsupported('partition of a word')
            if not ip.p.branch(item_eq(t)):
                return (v, '', '')
            return (SStr(item_key(t)), '=', Opaque('codes', 'codes', t=t))
        if name == 'split':
            return Builtin(name, split)
        if name == 'partition':
            return Builtin(name, partition)
        raise Unsupported('%s of a word' % name)


class CodesHandler(TagHandler):
    """What follows the equals sign."""
    isa = (str,)

    def getattr(self, ip, v, name):
        def split(ip, a, k):
            if list(a) != [','] or k:
                raise Unsupported('split of codes')
            r = ids_list(ip, 'split')
            r.stamp = ip.p.tick()
            ip.p.assume(ip.e.measure(ip, r, 'c', IDS) == item_cnt(v.kw['t']))
            return r
        if name == 'split':
            return Builtin(name, split)
        raise Unsupported('%s of codes' % name)


content_c = z3.Function('codes_requested', z3.DeclareSort('Content'), INT)
ContS = content_c.domain(0)


class ContentHandler(TagHandler):
    """The text of a pragma."""
    isa = (str,)

    def truth(self, ip, v):
        return True

    def getattr(self, ip, v, name):
        def split(ip, a, k):
            if a or k:
                raise Unsupported('split of a pragma')
            seg = ITEMS.fresh_seg(ip.p, 'items')
            ip.p.assume(seg.m['c'] == content_c(v.kw['t']))
            return LList([seg], ip.p.tick(), ITEMS)
        if name == 'split':
            return Builtin(name, split)
        raise Unsupported('%s of a pragma' % name)


class QuietCtx(TagHandler):
    """The lint context of the file.  active: whether C is suppressed now;
    netx: the suppressions of C that began less those that ended up to the
    line of R.  suppress and unsuppress by their contracts."""

    def truth(self, ip, v):
        return True

    def eq(self, ip, v, other):
        return v is other

    def getattr(self, ip, v, name):
        m = {'record_lint': self.record_lint, 'suppress': self.suppress,
             'unsuppress': self.unsuppress, 'is_idstr': self.is_idstr}
        if name in m:
            ip.s.used_contracts.add('FileContext.' + name)
            return Builtin(name, lambda ip, a, k: m[name](ip, v, a, k))
        raise Unsupported('%s of the lint context' % name)

    def record_lint(self, ip, v, a, k):
        return None

    def is_idstr(self, ip, v, a, k):
        return SBool(isid(ip.strterm(a[0])))

    def suppress(self, ip, v, a, k):
        line, ids = bind_names(('lineno', 'idlist'), a, k)
        n = ip.e.measure(ip, ip.e.as_list(ip, ids), 'c', IDS)
        ip.note_write(v, 'active')
        ip.note_write(v, 'netx')
        act = v.attrs['active'].t
        new = z3.And(z3.Not(act), n > 0)
        v.attrs['active'] = SBool(z3.Or(act, n > 0))
        v.attrs['netx'] = SInt(v.attrs['netx'].t + z3.If(z3.And(
            new, ip.intterm(line) <= XR), 1, 0))
        r = ids_list(ip, 'new')
        r.stamp = ip.p.tick()
        ip.p.assume(ip.e.measure(ip, r, 'c', IDS) == z3.If(new, 1, 0))
        return r

    def unsuppress(self, ip, v, a, k):
        line, ids = bind_names(('lineno', 'idlist'), a, k)
        n = ip.e.measure(ip, ip.e.as_list(ip, ids), 'c', IDS)
        ip.note_write(v, 'active')
        ip.note_write(v, 'netx')
        v.attrs['active'] = SBool(z3.And(v.attrs['active'].t, n == 0))
        v.attrs['netx'] = SInt(v.attrs['netx'].t - z3.If(
            ip.intterm(line) <= XR, n, 0))


def bind_names(names, a, k):
    out = list(a)
    for n in names[len(out):]:
        out.append(k[n])
    return out


def quiet_ctx(h):
    v = Opaque('quietctx', 'local_ctx')
    v.attrs['active'] = h.bool('active')
    v.attrs['netx'] = h.int('netx')
    h.may_modify(v)
    h.p.ghost['ctx'] = v
    return v


# the tokens and nodes of a comment, a body
SpS = z3.DeclareSort('Spelling')
sp_pragma = z3.Function('is_pragma', SpS, BOOL)
sp_content = z3.Function('pragma_content', SpS, ContS)
PREFIX = '# cmake-lint: '


class SpellHandler(TagHandler):
    """The text of a comment."""
    isa = (str,)

    def truth(self, ip, v):
        return True

    def getattr(self, ip, v, name):
        if name == 'startswith':
            def sw(ip, a, k):
                if list(a) != [PREFIX]:
                    raise Unsupported('another prefix of a comment')
                return SBool(sp_pragma(v.kw['t']))
            return Builtin(name, sw)
        if name == 'count':
            def count(ip, a, k):
                n = ip.p.fresh(INT, 'count')
                ip.p.assume(n >= 0)
                return SInt(n)
            return Builtin(name, count)
        raise Unsupported('%s of a comment' % name)

    def getitem(self, ip, v, key):
        if key == slice(len(PREFIX), None, None):
            return Opaque('content', 'content', t=sp_content(v.kw['t']))
        raise Unsupported('part of a comment')


class TokHandler(TagHandler):
    """A token or a node below a node."""

    def truth(self, ip, v):
        return True

    def eq(self, ip, v, other):
        if other is None:
            return False
        return v is other

    def isinstance(self, ip, v, cls):
        if isinstance(cls, tuple):
            return z3.Or([self.isinstance(ip, v, c) for c in cls])
        tok = memo(v, '$tok', lambda: ip.p.fresh(BOOL, 'is_token'))
        if cls is Token:
            return tok
        if cls is TreeNode:
            return z3.Not(tok)
        raise Unsupported('isinstance of a child')

    def getattr(self, ip, v, name):
        if name == 'type':
            return memo(v, name, lambda: ip.e.fresh_enum(
                ip, TokenType, 'type'))
        if name == 'spelling':
            return memo(v, name, lambda: Opaque(
                'sp', 'spelling', t=ip.p.fresh(SpS, 'sp')))
        if name == 'get_location':
            def loc(ip, a, k):
                return memo(v, '$loc', lambda: Opaque(
                    'tloc', 'loc', line=ip.p.fresh(INT, 'line'),
                    col=ip.p.fresh(INT, 'col')))
            return Builtin(name, loc)
        raise Unsupported('%s of a child' % name)


class TlocHandler(TagHandler):
    def truth(self, ip, v):
        return True

    def getattr(self, ip, v, name):
        if name in ('line', 'col'):
            return SInt(v.kw[name])
        raise Unsupported('%s of a location' % name)

    def getitem(self, ip, v, key):
        if key in (0, 1):
            return SInt(v.kw[('line', 'col')[key]])
        raise Unsupported('part of a location')

    def iterate(self, ip, v):
        return LList([El(SInt(v.kw['line'])), El(SInt(v.kw['col'])),
                      El(SInt(ip.p.fresh(INT, 'offset')))], ip.p.tick())


def tok_req(ip, v):
    """(whether the child is a pragma that requests C, its line)"""
    g = ip.getattr
    h = ip.e.tag('ctok')
    t = g(v, 'type').t
    sp = g(v, 'spelling').kw['t']
    row = ip.getattr(ip.call(g(v, 'get_location'), [], {}), 'line').t
    return z3.And(h.isinstance(ip, v, Token),
                  t == TokenType.COMMENT.value, sp_pragma(sp),
                  content_c(sp_content(sp)) > 0), row


def tok_first(ip, v):
    on, row = tok_req(ip, v)
    return z3.If(on, FirstS.first(False, row), NOFIRST)


def tok_onx(ip, v):
    on, row = tok_req(ip, v)
    return z3.If(z3.And(on, row == XR), 1, 0)


CTOKS = Kind('comment tokens', prag_measures(tok_first, tok_onx),
             lambda ip: Opaque('ctok', 'child'), prag_side)


class PragmaEngine(SuppressEngine):
    def __init__(self):
        SuppressEngine.__init__(self)
        self.tags.update(
            item=ItemHandler(), codes=CodesHandler(),
            content=ContentHandler(), quietctx=QuietCtx(), sp=SpellHandler(),
            ctok=TokHandler(), tloc=TlocHandler())
        self.candidate_fns.append(self.prag_cands)
        self.assume_note(
            'str.split() and str.split(sep): the words of a pragma, its key '
            'and its codes are what they yield')

    def kind_of_value(self, ip, v):
        if isinstance(v, Opaque) and v.tag == 'item':
            return ITEMS
        if isinstance(v, Opaque) and v.tag == 'ctok':
            return CTOKS
        if isinstance(v, (tuple, LList)) and not isinstance(v, LList) and \
                len(v) == 2 and isinstance(v[1], LList):
            return PRAGMAS
        if isinstance(v, Obj) and '__items__' in v.fields and len(
                v.fields['__items__']) == 2:
            return PRAGMAS
        return SuppressEngine.kind_of_value(self, ip, v)

    def loop_pre(self, ip, al):
        pre = SuppressEngine.loop_pre(self, ip, al)
        for nm, o in al.objs.items():
            if isinstance(o, LList) and ip.e.list_kind(ip, o) in (IDS,):
                pre['$ids', nm] = ip.e.measure(ip, o, 'c', IDS)
            if isinstance(o, LList) and not o.items:
                pre['$ids', nm] = z3.IntVal(0)
        return pre

    def prag_cands(self, ip, al, where):
        m = lambda v, x, k: ip.e.measure(ip, v, x, k)
        fv = [(fi, n, v, ip.e.list_kind(ip, v))
              for fi, n, v in P.frame_vars(al, ip) if isinstance(v, LList)]
        dones = [x for x in fv if x[1].startswith('$done')]
        # codes collected so far
        for nm, o in al.objs.items():
            if not isinstance(o, LList) or ('$ids', nm) not in al.pre or \
                    ip.e.list_kind(ip, o) not in (IDS, None) or \
                    str(nm[1]).startswith('$'):
                continue
            now = m(o, 'c', IDS)
            for fi, n, v, k in dones:
                if k in (ITEMS, IDS):
                    d = m(v, 'c', k)
                    yield 'codes so far [%s,%s]' % (nm, n), (
                        now == al.pre['$ids', nm] + d)
                    yield 'known codes so far [%s,%s]' % (nm, n), (
                        now == al.pre['$ids', nm] + z3.If(isid(C), d, 0))
        # pragmas collected so far
        for fi, n, v, k in fv:
            if n.startswith('$') or k not in (PRAGMAS, None):
                continue
            for fj, n2, v2, k2 in dones:
                if k2 in (CTOKS, PRAGMAS, None):
                    for x in ('first', 'onx'):
                        yield 'pragmas so far: %s [%s,%s]' % (x, n, n2), m(
                            v, x, PRAGMAS) == m(v2, x, k2 or CTOKS)


def chk_obj(h, ctx, **kw):
    f = dict(cfg=Opaque('lcfg', 'cfg'), local_ctx=ctx,
             _node_stack=LList([], 0), _indent_token=None)
    f.update(kw)
    return h.obj(BC.LintChecker, **f)


@spec('pragmas', CHK + 'parse_pragmas_from_token', PragmaEngine)
def from_token(h):
    """The codes of the words disable=code,code,... that are codes at all are
    added to the list, and nothing else."""
    ip = h.ip
    ctx = quiet_ctx(h)
    chk = chk_obj(h, ctx)
    t = z3.Const('content', ContS)
    sup = ids_list(ip, 'suppressions')
    h.may_modify(sup)
    n = ip.e.measure(ip, sup, 'c', IDS)
    h.call(chk, Opaque('content', 'content', t=t), h.int('row'),
           h.int('col'), sup)
    h.ensure('C is added as often as it is requested',
             ip.e.measure(ip, sup, 'c', IDS) == n + content_c(t))


class CommentEngine(PragmaEngine):
    def __init__(self):
        PragmaEngine.__init__(self)
        fn = find(CHK + 'parse_pragmas_from_token')

        def app(ip, ba):
            sup, c = ba['suppressions'], ba['content']
            if not (isinstance(sup, LList) and isinstance(c, Opaque)
                    and c.tag == 'content'):
                raise Unsupported('arguments of parse_pragmas_from_token')
            seg = IDS.fresh_seg(ip.p, 'parsed')
            ip.p.assume(seg.m['c'] == content_c(c.kw['t']))
            ip.note_write(sup, 'items')
            sup.items.append(seg)
            sup.kind = IDS
        if fn is not None:
            self.contracts[fn] = ApplyContract(app)


@spec('pragmas', CHK + 'parse_pragmas_from_comment', CommentEngine)
def from_comment(h):
    """Every line comment that starts with the prefix is a pragma at its own
    line, requesting the codes that are listed."""
    ip = h.ip
    chk = chk_obj(h, quiet_ctx(h))
    kids = LList([CTOKS.fresh_seg(h.p, 'children')], 0, CTOKS)
    node = h.obj(PC.TreeNode, children=kids, parent=None)
    r = h.call(chk, node)
    for x in ('first', 'onx'):
        h.ensure('the pragmas that request C: %s' % x, ip.e.measure(
            ip, r, x, PRAGMAS) == ip.e.measure(ip, kids, x, CTOKS))


# ------------------------------------------------ C11: scopes of pragmas
class BnodeHandler(TagHandler):
    """A node of a body: what its pragmas request is in first and onx."""

    def truth(self, ip, v):
        return True

    def eq(self, ip, v, other):
        if other is None:
            return False
        return v is other

    def isinstance(self, ip, v, cls):
        if isinstance(cls, tuple):
            return z3.Or([self.isinstance(ip, v, c) for c in cls])
        if cls is Token:
            return z3.Not(memo(v, '$tree', lambda: ip.p.fresh(BOOL, 'tree')))
        return z3.And(
            memo(v, '$tree', lambda: ip.p.fresh(BOOL, 'tree')),
            True if cls is TreeNode else memo(
                v, '$' + cls.__name__, lambda: ip.p.fresh(BOOL, 'isa')))

    def getattr(self, ip, v, name):
        if name == 'node_type':
            return memo(v, name, lambda: ip.e.fresh_enum(
                ip, NodeType, 'node_type'))
        if name == 'count_newlines':
            return Builtin(name, lambda ip, a, k: SInt(
                ip.p.fresh(INT, 'newlines')))
        if name == 'get_funname':
            return Builtin(name, lambda ip, a, k: memo(
                v, '$fn', lambda: SStr(ip.p.fresh(StrS, 'funname'))))
        if name in ('get_location', 'get_semantic_tokens', 'get_tokens'):
            return Builtin(name, lambda ip, a, k: Opaque('bag', name))
        if name == 'children':
            return memo(v, name, lambda: Opaque('bag', name))
        raise Unsupported('%s of a child' % name)


class BagHandler(M.AnyHandler):
    """Unknown tokens, locations ...: nothing about them matters."""

    def getattr(self, ip, v, name):
        if name.startswith('get_') or name in ('strip', 'join'):
            return Builtin(name, lambda ip, a, k: Opaque('bag', name))
        if name.startswith('count'):
            return Builtin(name, lambda ip, a, k: SInt(
                ip.p.fresh(INT, name)))
        return memo(v, name, lambda: Opaque('bag', name))

    def getitem(self, ip, v, key):
        return Opaque('bag', 'item')


def b_on(ip, v):
    return z3.And(
        ip.e.tag('bnode').isinstance(ip, v, TreeNode),
        ip.getattr(v, 'node_type').t == NodeType.COMMENT.value)


def b_ghost(ip, v, name, sort):
    return memo(v, '$g_' + name, lambda: ip.p.fresh(sort, name))


def fresh_bnode(ip):
    return Opaque('bnode', 'child')


BNODES = Kind('nodes of a body', prag_measures(
    lambda ip, v: z3.If(b_on(ip, v), b_ghost(ip, v, 'first', FirstS),
                        NOFIRST),
    lambda ip, v: z3.If(b_on(ip, v), b_ghost(ip, v, 'onx', INT), 0)),
    fresh_bnode, prag_side)


class ScopeEngine(PragmaEngine):
    def __init__(self):
        PragmaEngine.__init__(self)
        self.tags.update(bnode=BnodeHandler(), bag=BagHandler(),
                         any=BagHandler(), body=BodyHandler(),
                         lastsp=LastSpelling(), lcfg=SomeConfig(ints=(
                             'min_statement_spacing',
                             'max_statement_spacing')),
                         snode=StackNode())
        self.candidate_fns.append(self.scope_cands)
        fn = find(CHK + 'parse_pragmas_from_comment')

        def app(ip, ba):
            node = ba['node']
            seg = PRAGMAS.fresh_seg(ip.p, 'pragmas')
            if not isinstance(node, Opaque) or node.tag != 'bnode':
                raise Unsupported('pragmas of something else')
            ip.p.assume(z3.And(
                seg.m['first'] == b_ghost(ip, node, 'first', FirstS),
                seg.m['onx'] == b_ghost(ip, node, 'onx', INT)))
            return LList([seg], ip.p.tick(), PRAGMAS)
        if fn is not None:
            self.contracts[fn] = ApplyContract(app)
        bag = lambda ip, a, k: Opaque('bag', 'result')
        self.call_models[BC.get_comment_lines] = bag
        for f in (BC.statement_is_fundef, BC.get_prefix_comment):
            self.call_models[f] = bag
        for f in (BC.find_nodes_in_subtree, BC.find_statements_in_subtree):
            self.call_models[f] = lambda ip, a, k: LList(
                [M.ANY.fresh_seg(ip.p, 'found')], ip.p.tick(), M.ANY)

    def kind_of_value(self, ip, v):
        if isinstance(v, Opaque) and v.tag == 'bnode':
            return BNODES
        if isinstance(v, Opaque) and v.tag == 'snode':
            return STACK
        return PragmaEngine.kind_of_value(self, ip, v)

    def loop_pre(self, ip, al):
        pre = PragmaEngine.loop_pre(self, ip, al)
        c = ip.p.ghost.get('ctx')
        if c is not None:
            pre['$act'], pre['$netx'] = c.attrs['active'].t, c.attrs['netx'].t
        return pre

    def scope_cands(self, ip, al, where):
        c = ip.p.ghost.get('ctx')
        if c is None or 'ctx0' not in ip.p.ghost:
            return
        act0, netx0 = ip.p.ghost['ctx0']
        act, netx = c.attrs['active'].t, c.attrs['netx'].t
        yield 'C is active as before', act == act0
        yield 'C is active as at the loop', act == al.pre['$act']
        yield 'suppressions as at the loop', netx == al.pre['$netx']
        m = lambda v, x, k: ip.e.measure(ip, v, x, k)
        fv = [(fi, n, v, ip.e.list_kind(ip, v))
              for fi, n, v in P.frame_vars(al, ip) if isinstance(v, LList)]
        D = [(n, v) for fi, n, v, k in fv if n.startswith('$done') and
             k in (BNODES, None)]
        I = [(n, v) for fi, n, v, k in fv if n.startswith('$done') and
             k in (PRAGMAS, None)]
        st = [(n, v) for fi, n, v, k in fv if n.startswith('$done') and
              k in (STACK, None)]
        for n, v in st:
            yield 'no statement so far [%s]' % n, z3.Not(m(
                v, 'stmt', STACK))
        for n, v in I:
            yield 'as many ranges on the line as pragmas so far [%s]' % n, (
                netx == al.pre['$netx'] + z3.If(z3.Not(act0), m(
                    v, 'onx', PRAGMAS), 0))
        firsts = [(n, m(v, 'first', BNODES)) for n, v in D]
        firsts += [(n + n2, first_op(
            m(before(v), 'first', BNODES), m(v2, 'first', PRAGMAS)))
            for n, v in D for n2, v2 in I]
        for n, f in firsts:
            on = z3.And(z3.Not(act0), z3.Not(FirstS.none(f)))
            yield 'C is active once requested [%s]' % n, act == z3.Or(
                act0, z3.Not(FirstS.none(f)))
            yield 'C counts from the first request on [%s]' % n, (
                netx == netx0 + z3.If(z3.And(on, FirstS.line(f) <= XR),
                                      1, 0))
            for fi, n2, v2, k2 in fv:
                if not n2.startswith('$') and k2 in (IDS, None):
                    yield 'C is in %s once requested [%s]' % (n2, n), m(
                        v2, 'c', IDS) == z3.If(on, 1, 0)


def before(done):
    """What was iterated before the element at hand."""
    its = done.items
    return LList(its[:-1] if its and isinstance(its[-1], El) else its, 0,
                 done.kind)


# the nodes around a node
class StackNode(TagHandler):
    def truth(self, ip, v):
        return True

    def isinstance(self, ip, v, cls):
        if cls is StatementNode:
            return memo(v, '$stmt', lambda: ip.p.fresh(BOOL, 'is_stmt'))
        return memo(v, '$' + cls.__name__, lambda: ip.p.fresh(BOOL, 'isa'))


STACK = Kind('enclosing nodes', [M.len_measure(), Measure(
    'stmt', BOOL, z3.BoolVal(False), lambda a, b: z3.Or(a, b),
    lambda ip, v: ip.e.tag('snode').isinstance(ip, v, StatementNode))],
    lambda ip: Opaque('snode', 'node'))


def ctx_start(h):
    ctx = quiet_ctx(h)
    h.p.ghost['ctx0'] = ctx.attrs['active'].t, ctx.attrs['netx'].t
    return ctx


@spec('pragmas', CHK + 'check_body', ScopeEngine)
def check_body(h):
    """C is suppressed from the first comment of the body that requests it
    to the end of the body, if it was not anyway."""
    ip = h.ip
    ctx = ctx_start(h)
    act0, netx0 = h.p.ghost['ctx0']
    kids = LList([BNODES.fresh_seg(h.p, 'children')], 0, BNODES)
    root = h.p.choose(2, 'whether the body has a parent') == 0
    last = Opaque('ctok', 'last')
    toks = LList([P_TOKS(h), El(last)], 0, M.ANY)
    node = Opaque('body', 'node', children=kids, tokens=toks,
                  parent=None if root else Opaque('snode', 'parent'))
    nl, ends = z3.Const('newlines', INT), z3.Const('ends_with_newline', BOOL)
    sp = Opaque('lastsp', 'spelling', nl=nl, ends=ends)
    h.p.assume(nl >= 0)
    last.attrs['spelling'] = sp
    h.call(chk_obj(h, ctx), node)
    f = ip.e.measure(ip, kids, 'first', BNODES)
    loc = ip.call(ip.getattr(last, 'get_location'), [], {}).kw
    ws = z3.And(ip.getattr(last, 'type').t == TokenType.WHITESPACE.value,
                loc['col'] == 0)
    end = loc['line'] + nl + (1 if root else z3.If(
        z3.Or(ends, ws), 0, 1))
    on = z3.And(z3.Not(act0), z3.Not(FirstS.none(f)))
    one = lambda c: z3.If(z3.And(on, c), 1, 0)
    h.ensure('C is active afterwards exactly if it was before',
             ctx.attrs['active'].t == act0)
    h.ensure('C is suppressed from the first request to the end of the body',
             ctx.attrs['netx'].t == netx0 + one(
                 FirstS.line(f) <= XR) - one(end <= XR))


def P_TOKS(h):
    return M.ANY.fresh_seg(h.p, 'tokens')


class BodyHandler(TagHandler):
    def truth(self, ip, v):
        return True

    def getattr(self, ip, v, name):
        if name in ('children', 'parent'):
            return v.kw[name]
        if name == 'get_tokens':
            def toks(ip, a, k):
                if a or k:
                    raise Unsupported('some tokens of a body')
                return v.kw['tokens']
            return Builtin(name, toks)
        raise Unsupported('%s of a body' % name)


class LastSpelling(TagHandler):
    def getattr(self, ip, v, name):
        def count(ip, a, k):
            if list(a) != ['\n']:
                raise Unsupported('count')
            return SInt(v.kw['nl'])

        def endswith(ip, a, k):
            if list(a) != ['\n']:
                raise Unsupported('endswith')
            return SBool(v.kw['ends'])
        t = dict(count=count, endswith=endswith)
        if name in t:
            return Builtin(name, t[name])
        raise Unsupported('%s of a token' % name)


@spec('pragmas', CHK + 'check_comment', ScopeEngine)
def check_comment(h):
    """Inside a statement a pragma counts for its own line only, and outside
    of statements it is left to the body."""
    ip = h.ip
    ctx = ctx_start(h)
    act0, netx0 = h.p.ghost['ctx0']
    stack = LList([STACK.fresh_seg(h.p, 'stack')], 0, STACK)
    node = Opaque('bnode', 'node')
    h.call(chk_obj(h, ctx, _node_stack=stack), node)
    n = b_ghost(ip, node, 'onx', INT)
    inside = ip.e.measure(ip, stack, 'stmt', STACK)
    h.ensure('C is active afterwards exactly if it was before',
             ctx.attrs['active'].t == act0)
    h.ensure('the line of a pragma in a statement is suppressed for C',
             ctx.attrs['netx'].t == netx0 + z3.If(z3.And(
                 inside, z3.Not(act0)), n, 0))


# ------------------------------------------------------- C20: structure
class WatchHandler(TagHandler):
    """The lint context: how often each code is recorded for the watched
    place (the contract of record_lint)."""

    def truth(self, ip, v):
        return True

    def getattr(self, ip, v, name):
        if name != 'record_lint':
            raise Unsupported('%s of the lint context' % name)

        def record(ip, a, k):
            ip.s.used_contracts.add('FileContext.record_lint')
            code = a[0]
            if not isinstance(code, str):
                raise Unsupported('symbolic lint code')
            if '#' + code not in v.attrs:
                return
            hit = ip.p.ghost['hit'](k.get('location', ()))
            ip.note_write(v, '#' + code)
            v.attrs['#' + code] = SInt(
                v.attrs['#' + code].t + z3.If(hit, 1, 0))
        return Builtin(name, record)


def watch(h, codes, hit):
    v = Opaque('watch', 'local_ctx')
    for c in codes:
        v.attrs['#' + c] = SInt(z3.IntVal(0))
    h.p.ghost['rec'] = v
    h.p.ghost['hit'] = hit
    h.may_modify(v)
    return lambda c: v.attrs['#' + c].t, v


# -- a node and what is around it
NodeS = z3.DeclareSort('Node')
NODE = z3.Const('node', NodeS)
par = z3.Function('parent', NodeS, NodeS)
null = z3.Function('is_none', NodeS, BOOL)
isflow = z3.Function('is_flow', NodeS, BOOL)
isbody = z3.Function('is_body', NodeS, BOOL)
hasblock = z3.Function('has_block', NodeS, NodeS, BOOL)
opener = z3.Function('opener', NodeS, NodeS, StrS)
funname = z3.Function('funname', NodeS, StrS)
inl = z3.Function('in_loop', NodeS, NodeS, BOOL)


def inl_def(a, b):
    """in_loop(a, b): a child a of b is inside a loop."""
    loop = z3.And(isflow(b), hasblock(b, a), z3.Or(
        opener(b, a) == S('foreach'), opener(b, a) == S('while')))
    return inl(a, b) == z3.And(z3.Not(null(b)), z3.Or(loop, inl(b, par(b))))


class PnHandler(TagHandler):
    """A node of the tree, or none."""

    def havoc(self, ip, hint):
        return Opaque('pn', hint, t=ip.p.fresh(NodeS, hint))

    def truth(self, ip, v):
        return z3.Not(null(v.kw['t']))

    def eq(self, ip, v, other):
        if other is None:
            return null(v.kw['t'])
        if isinstance(other, Opaque) and other.tag == 'pn':
            return v.kw['t'] == other.kw['t']
        raise Unsupported('comparison of a node')

    def isinstance(self, ip, v, cls):
        t = v.kw['t']
        if cls is FlowControlNode:
            return z3.And(z3.Not(null(t)), isflow(t))
        if cls is BodyNode:
            return z3.And(z3.Not(null(t)), isbody(t))
        raise Unsupported('isinstance of a node')

    def getattr(self, ip, v, name):
        t = v.kw['t']
        if name == 'parent':
            return Opaque('pn', 'parent', t=par(t))
        if name == 'get_location':
            return Builtin(name, lambda ip, a, k: Opaque('nloc', 'loc', t=t))
        if name == 'get_funname':
            return Builtin(name, lambda ip, a, k: SStr(funname(t)))
        if name == 'get_block_with':
            def block(ip, a, k):
                ip.s.used_contracts.add('FlowControlNode.get_block_with')
                a = a[0].kw['t']
                if not ip.p.branch(hasblock(t, a)):
                    return None
                return Opaque('block', 'block', b=t, a=a)
            return Builtin(name, block)
        raise Unsupported('%s of a node' % name)


class BlockHandler(TagHandler):
    def truth(self, ip, v):
        return True

    def getattr(self, ip, v, name):
        if name == 'open_stmt':
            return self.getitem(ip, v, 0)
        raise Unsupported('%s of a block' % name)

    def getitem(self, ip, v, key):
        if key != 0:
            raise Unsupported('part of a block')
        return Opaque('bopen', 'open', **v.kw)


class OpenHandler(TagHandler):
    def truth(self, ip, v):
        return True

    def getattr(self, ip, v, name):
        if name == 'get_funname':
            return Builtin(name, lambda ip, a, k: SStr(
                opener(v.kw['b'], v.kw['a'])))
        raise Unsupported('%s of an opening statement' % name)


class LoopEngine(LintEngine):
    def __init__(self):
        LintEngine.__init__(self)
        self.tags.update(pn=PnHandler(), block=BlockHandler(),
                         bopen=OpenHandler(), watch=WatchHandler())
        self.candidate_fns.append(self.cands)
        self.assume_note('the tree is finite: climbing from a node to its '
                         'parents ends')

    def cands(self, ip, al, where):
        pn = [(n, v.kw['t']) for fi, n, v in P.frame_vars(al, ip)
              if isinstance(v, Opaque) and v.tag == 'pn']
        for n, a in pn:
            for n2, b in pn:
                if n == n2:
                    continue
                ip.p.assume(inl_def(a, b))
                ip.p.assume(inl_def(b, par(b)))
                yield 'no loop up to %s, %s' % (n, n2), (
                    inl(a, b) == inl(NODE, par(NODE)))
                yield '%s is the parent of %s' % (n2, n), b == par(a)
                yield '%s is in %s' % (n, n2), z3.Implies(
                    b == par(a), inl(a, b) == inl(NODE, par(NODE)))
        rec = ip.p.ghost['rec']
        for k in rec.attrs:
            yield '%s untouched' % k, rec.attrs[k].t == al.pre[k]
        for n, a in pn:
            ip.p.assume(inl_def(a, par(a)))
            yield 'from %s on' % n, inl(a, par(a)) == inl(NODE, par(NODE))
            yield '%s is there' % n, z3.Not(null(a))


@spec('structure', CHK + 'check_is_in_loop', LoopEngine)
def is_in_loop(h):
    """E0103 is recorded for the node, once, exactly if no block of a
    foreach or while contains it."""
    get, ctx = watch(h, ('E0103',), lambda loc: z3.BoolVal(
        isinstance(loc, Opaque) and loc.tag == 'nloc') if not (
            isinstance(loc, Opaque) and loc.tag == 'nloc')
        else loc.kw['t'] == NODE)
    h.p.assume(z3.Not(null(NODE)))
    h.p.assume(inl_def(NODE, par(NODE)))
    h.call(chk_obj(h, ctx), Opaque('pn', 'node', t=NODE))
    h.ensure('reported exactly if no loop contains the node', get(
        'E0103') == z3.If(inl(NODE, par(NODE)), 0, 1))


# -- the blocks of a flow control statement
BN = z3.DeclareSort('Block')
blk_has = z3.Function('block_has', BN, BOOL)        # an arbitrary node N


class RealBlock(TagHandler):
    isa = (tuple,)

    def truth(self, ip, v):
        return True

    def contains(self, ip, v, item):
        if not (isinstance(item, Opaque) and item.tag == 'thenode'):
            raise Unsupported('membership in a block')
        return blk_has(v.kw['t'])


BLOCKS = Kind('blocks', [M.len_measure(), Measure(
    'has', BOOL, z3.BoolVal(False), lambda a, b: z3.Or(a, b),
    lambda ip, v: blk_has(v.kw['t']))],
    lambda ip: Opaque('rblock', 'block', t=ip.p.fresh(BN, 'block')))


class BlocksEngine(LintEngine):
    def __init__(self):
        LintEngine.__init__(self)
        self.tags.update(rblock=RealBlock(), thenode=PnHandler())
        self.candidate_fns += [P.for_candidates, self.cands]

    def kind_of_value(self, ip, v):
        if isinstance(v, Opaque) and v.tag == 'rblock':
            return BLOCKS
        return LintEngine.kind_of_value(self, ip, v)

    def cands(self, ip, al, where):
        for fi, n, v in P.frame_vars(al, ip):
            if isinstance(v, LList) and n.startswith('$done'):
                yield 'none so far [%s]' % n, z3.Not(ip.e.measure(
                    ip, v, 'has', BLOCKS))


@spec('structure', 'cmakelang.parse.body_nodes:FlowControlNode.'
      'get_block_with', BlocksEngine)
def get_block_with(h):
    """A block that contains the node, if there is one."""
    ip = h.ip
    bl = LList([BLOCKS.fresh_seg(h.p, 'blocks')], 0, BLOCKS)
    o = h.obj(FlowControlNode, children=LList([], 0), blocks=bl, parent=None)
    r = h.call(o, Opaque('thenode', 'node'))
    has = ip.e.measure(ip, bl, 'has', BLOCKS)
    if r is None:
        h.ensure('none only if no block contains the node', z3.Not(has))
        return
    ok = isinstance(r, Opaque) and r.tag == 'rblock'
    h.ensure('a block is returned', ok)
    if ok:
        h.ensure('the block contains the node', blk_has(r.kw['t']))
        h.ensure('the block is one of the blocks', has)


# -- names that repeat
I = z3.Const('I', INT)              # an arbitrary position
SPI = z3.Const('spelling_I', StrS)
KEYI = z3.Const('key_I', StrS)      # its lower- or upper-case form
EARLIER = z3.Const('same_before_I', BOOL)
EARLIERK = z3.Const('same_key_before_I', BOOL)
STOPPED = z3.Const('stopped_up_to_I', BOOL)
ONI = z3.Const('counts_at_I', BOOL)


def or_measure(name, of):
    return Measure(name, BOOL, z3.BoolVal(False), lambda a, b: z3.Or(a, b),
                   of)


class NameTok(TagHandler):
    """A semantic token of a parameter list."""

    def truth(self, ip, v):
        return True

    def eq(self, ip, v, other):
        return v is other

    def getattr(self, ip, v, name):
        if name == 'type':
            return memo(v, name, lambda: ip.e.fresh_enum(
                ip, TokenType, 'type'))
        if name == 'spelling':
            return memo(v, name, lambda: SStr(ip.p.fresh(StrS, 'sp')))
        if name == 'get_location':
            return Builtin(name, lambda ip, a, k: Opaque(
                'wloc', 'loc', tok=v))
        raise Unsupported('%s of a token' % name)


def n_word(ip, v):
    return ip.getattr(v, 'type').t == TokenType.WORD.value


def n_sp(ip, v):
    return ip.getattr(v, 'spelling').t


NAMES = Kind('names', [
    M.len_measure(),
    or_measure('same', lambda ip, v: z3.And(
        n_word(ip, v), n_sp(ip, v) == SPI)),
    or_measure('samek', lambda ip, v: z3.And(
        n_word(ip, v), M.lower_f(n_sp(ip, v)) == KEYI)),
    or_measure('stop', lambda ip, v: ip.getattr(v, 'type').t ==
               TokenType.RIGHT_PAREN.value),
], lambda ip: Opaque('ntok', 'token'))


class NameSet(TagHandler):
    """A set of names of which the membership of two strings is known."""

    def truth(self, ip, v):
        raise Unsupported('truth of a set of names')

    def contains(self, ip, v, item):
        t = ip.strterm(item)
        other = ip.p.fresh(BOOL, 'other_in')
        return z3.If(t == SPI, v.attrs['sp'].t, z3.If(
            t == KEYI, v.attrs['key'].t, other))

    def getattr(self, ip, v, name):
        if name == 'add':
            def add(ip, a, k):
                t = ip.strterm(a[0])
                for f, w in (('sp', SPI), ('key', KEYI)):
                    ip.note_write(v, f)
                    v.attrs[f] = SBool(z3.Or(v.attrs[f].t, t == w))
            return Builtin(name, add)
        raise Unsupported('%s of a set of names' % name)


class NamesEngine(LintEngine):
    kind, code_done = NAMES, ('same', 'samek')

    def __init__(self):
        LintEngine.__init__(self)
        self.tags.update(ntok=NameTok(), watch=WatchHandler(),
                         nset=NameSet(), lcfg=SomeConfig(
                             ints=('max_arguments',),
                             strs=('argument_var_pattern',)))
        self.candidate_fns += [P.for_candidates, self.cands]

        def mkset(ip, a, k):
            if a or k:
                raise Unsupported('a set of something')
            s = Opaque('nset', 'set')
            s.stamp = ip.p.tick()
            s.attrs.update(sp=SBool(z3.BoolVal(False)),
                           key=SBool(z3.BoolVal(False)))
            return s
        self.call_models[set] = mkset
        import re
        self.call_models[re.match] = lambda ip, a, k: Opaque('any', 'match')

    def kind_of_value(self, ip, v):
        if isinstance(v, Opaque) and v.tag == 'ntok':
            return NAMES
        return LintEngine.kind_of_value(self, ip, v)

    def on_iter(self, ip, mark, idx, v):
        if mark != 'params':
            return
        i = ip.intterm(idx)
        ms = lambda x: ip.e.measure(ip, before(ip.iter_done), x, NAMES)
        stop = NAMES.measures['stop'].of(ip, v)
        ip.p.assume(z3.Implies(i == I, z3.And(
            n_sp(ip, v) == SPI, M.lower_f(SPI) == KEYI,
            EARLIER == ms('same'), EARLIERK == ms('samek'),
            ONI == n_word(ip, v),
            STOPPED == z3.Or(ms('stop'), stop))))
        ip.p.assume(z3.Implies(z3.And(i <= I, stop), STOPPED))
        v.attrs['$idx'] = i

    def cands(self, ip, al, where):
        m = lambda v, x: ip.e.measure(ip, v, x, NAMES)
        rec = ip.p.ghost['rec']
        sp = names_spec()
        for fi, n, k in idx_vars(ip, al):
            done = al.frames[fi].locals['$done' + n[4:]]
            if ip.e.list_kind(ip, done) not in (NAMES, None):
                continue
            yield 'the index counts [%s]' % n, k == ip.len_term(done)
            yield 'no parenthesis so far [%s]' % n, z3.Not(m(done, 'stop'))
            for c, t in sp.items():
                yield '%s so far [%s]' % (c, n), rec.attrs['#' + c].t == \
                    z3.If(z3.And(0 <= I, I < k, t), 1, 0)
            for nm, o in al.objs.items():
                if isinstance(o, Opaque) and o.tag == 'nset':
                    for f in ('sp', 'key'):
                        for x in ('same', 'samek'):
                            yield '%s: %s is %s so far [%s]' % (
                                nm, f, x, n), o.attrs[f].t == m(done, x)
                    yield '%s: sp is samek if alike [%s]' % (nm, n), z3.Implies(
                        SPI == KEYI, o.attrs['sp'].t == m(done, 'samek'))


def names_spec():
    go = z3.Not(STOPPED)
    return {'E0109': z3.And(go, z3.Not(ONI)),
            'E0108': z3.And(go, ONI, EARLIER),
            'C0202': z3.And(go, ONI, z3.Not(EARLIER), EARLIERK)}


def at_token(loc):
    if not (isinstance(loc, Opaque) and loc.tag == 'wloc'):
        return z3.BoolVal(False)
    return loc.kw['tok'].attrs['$idx'] == I


class DefnHandler(TagHandler):
    def truth(self, ip, v):
        return True

    def getattr(self, ip, v, name):
        if name == 'argtree':
            return v
        if name == 'get_semantic_tokens':
            return Builtin(name, lambda ip, a, k: LList(
                [El(Opaque('ntok', 'name')), v.kw['seg']], ip.p.tick(),
                NAMES))
        if name == 'get_location':
            return Builtin(name, lambda ip, a, k: Opaque('nloc', 'loc'))
        raise Unsupported('%s of a definition' % name)


@spec('structure', CHK + 'check_argument_names', NamesEngine)
def argument_names(h):
    """For the parameter at an arbitrary position before the parenthesis:
    E0109 exactly if it is no plain word, E0108 exactly if an earlier one has
    its spelling, C0202 exactly if an earlier one has it up to case only."""
    h.ip.e.tags['defn'] = DefnHandler()
    get, ctx = watch(h, tuple(names_spec()), at_token)
    seg = NAMES.fresh_seg(h.p, 'params')
    seg.extra = 'params'
    h.p.assume(z3.And(0 <= I, I < seg.m['n']))
    h.call(chk_obj(h, ctx), Opaque('defn', 'definition', seg=seg))
    for c, t in names_spec().items():
        h.ensure('%s exactly at the parameters with the defect' % c,
                 get(c) == z3.If(t, 1, 0))


# -- keyword groups that repeat
MAYREPEAT = ('AND', 'OR', 'COMMAND', 'PATTERN', 'REGEX')


class GroupChild(TagHandler):
    def truth(self, ip, v):
        return True

    def eq(self, ip, v, other):
        return v is other

    def isinstance(self, ip, v, cls):
        tree = memo(v, '$tree', lambda: ip.p.fresh(BOOL, 'tree'))
        if cls is TreeNode:
            return tree
        if cls is Token:
            return z3.Not(tree)
        raise Unsupported('isinstance of a child')

    def getattr(self, ip, v, name):
        if name == 'node_type':
            return memo(v, name, lambda: ip.e.fresh_enum(
                ip, NodeType, 'node_type'))
        if name == 'get_semantic_tokens':
            return Builtin(name, lambda ip, a, k: LList(
                [El(memo(v, '$kw', lambda: Opaque(
                    'ktok', 'keyword', of=v))),
                 M.ANY.fresh_seg(ip.p, 'rest')], ip.p.tick(), M.ANY))
        raise Unsupported('%s of a child' % name)


class KeyTok(TagHandler):
    def truth(self, ip, v):
        return True

    def getattr(self, ip, v, name):
        if name == 'spelling':
            return memo(v, name, lambda: SStr(ip.p.fresh(StrS, 'kw')))
        if name == 'get_location':
            return Builtin(name, lambda ip, a, k: Opaque(
                'wloc', 'loc', tok=v.kw['of']))
        raise Unsupported('%s of a keyword' % name)


def g_on(ip, v):
    return z3.And(ip.e.tag('gchild').isinstance(ip, v, TreeNode),
                  ip.getattr(v, 'node_type').t == NodeType.KWARGGROUP.value)


def g_up(ip, v):
    k = memo(v, '$kw', lambda: Opaque('ktok', 'keyword', of=v))
    return M.upper_f(ip.getattr(k, 'spelling').t)


def may_repeat(t):
    return z3.Or([t == S(x) for x in MAYREPEAT])


GROUPS = Kind('children of a group', [
    M.len_measure(),
    or_measure('samek', lambda ip, v: z3.And(
        g_on(ip, v), g_up(ip, v) == KEYI, z3.Not(may_repeat(KEYI)))),
], lambda ip: Opaque('gchild', 'child'))


class GroupEngine(NamesEngine):
    def __init__(self):
        NamesEngine.__init__(self)
        self.tags.update(gchild=GroupChild(), ktok=KeyTok())

    def kind_of_value(self, ip, v):
        if isinstance(v, Opaque) and v.tag == 'gchild':
            return GROUPS
        return NamesEngine.kind_of_value(self, ip, v)

    def on_iter(self, ip, mark, idx, v):
        if mark != 'children':
            return
        i = ip.intterm(idx)
        ip.p.assume(z3.Implies(i == I, z3.And(
            g_up(ip, v) == KEYI, ONI == g_on(ip, v),
            EARLIERK == ip.e.measure(
                ip, before(ip.iter_done), 'samek', GROUPS))))
        v.attrs['$idx'] = i

    def cands(self, ip, al, where):
        rec = ip.p.ghost['rec']
        for fi, n, k in idx_vars(ip, al):
            done = al.frames[fi].locals['$done' + n[4:]]
            if ip.e.list_kind(ip, done) not in (GROUPS, None):
                continue
            yield 'the index counts [%s]' % n, k == ip.len_term(done)
            yield 'E1122 so far [%s]' % n, rec.attrs['#E1122'].t == z3.If(
                z3.And(0 <= I, I < k, group_spec()), 1, 0)
            for nm, o in al.objs.items():
                if isinstance(o, Opaque) and o.tag == 'nset':
                    d = ip.e.measure(ip, done, 'samek', GROUPS)
                    yield '%s: seen so far [%s]' % (nm, n), z3.Implies(
                        z3.Not(may_repeat(KEYI)), o.attrs['key'].t == d)


def group_spec():
    return z3.And(ONI, z3.Not(may_repeat(KEYI)), EARLIERK)


@spec('structure', CHK + 'check_arggroup', GroupEngine)
def arggroup(h):
    """The keyword group at an arbitrary position is reported exactly if an
    earlier one has the same keyword up to case, unless it may repeat."""
    get, ctx = watch(h, ('E1122',), at_token)
    seg = GROUPS.fresh_seg(h.p, 'children')
    seg.extra = 'children'
    h.p.assume(z3.And(0 <= I, I < seg.m['n'], SPI != KEYI))
    node = h.obj(argument_nodes.ArgGroupNode, parent=None,
                 children=LList([seg], 0, GROUPS))
    h.call(chk_obj(h, ctx), node)
    h.ensure('E1122 exactly at the repetitions',
             get('E1122') == z3.If(group_spec(), 1, 0))


# ------------------------------------------- which checks see which nodes
class Called(object):
    """Contracts that only note the call."""

    def __init__(self, e, quals):
        for q in quals:
            fn = find(CHK + q)
            if fn is not None:
                e.contracts[fn] = ApplyContract(self.note(q))

    @staticmethod
    def note(q):
        def app(ip, ba):
            node = [v for k, v in ba.items() if k != 'self'][0]
            ip.p.ghost.setdefault('calls', []).append((q, node))
            if ip.active:
                raise Unsupported('%s in a loop' % q)
        return app


class WalkChild(TagHandler):
    """A child of a node: a token or a node."""

    def truth(self, ip, v):
        return True

    def eq(self, ip, v, other):
        return v is other

    def isinstance(self, ip, v, cls):
        tree = memo(v, '$tree', lambda: ip.p.fresh(BOOL, 'tree'))
        if cls is TreeNode:
            return tree
        if cls is Token:
            return z3.Not(tree)
        raise Unsupported('isinstance of a child')

    def setattr(self, ip, v, name, val):
        if name != 'parent':
            raise Unsupported('attribute %s of a child' % name)
        v.attrs['$parent'] = val

    def getattr(self, ip, v, name):
        if name == 'build_ancestry':
            def rec(ip, a, k):
                hit = z3.And(v.attrs['$idx'] == I, z3.BoolVal(
                    v.attrs.get('$parent') is ip.p.ghost['self']))
                bump(ip, hit)
            return Builtin(name, rec)
        raise Unsupported('%s of a child' % name)


def bump(ip, hit):
    g = ip.p.ghost['rec']
    ip.note_write(g, '#n')
    g.attrs['#n'] = SInt(g.attrs['#n'].t + z3.If(hit, 1, 0))


TREEI = z3.Const('is_tree_I', BOOL)
WALK = Kind('children', [M.len_measure()],
            lambda ip: Opaque('wchild', 'child'))


class WalkEngine(LintEngine):
    what = BOOL

    def __init__(self):
        LintEngine.__init__(self)
        self.tags.update(wchild=WalkChild(), watch=WatchHandler())
        self.candidate_fns += [P.for_candidates, self.cands]
        fn = find(CHK + 'check_tree')

        def app(ip, ba):
            ch = ba['node']
            if not (isinstance(ch, Opaque) and ch.tag == 'wchild'):
                raise Unsupported('check_tree of something else')
            st = ba['self'].fields['_node_stack']
            ok = st.items == ip.p.ghost['stack'] + st.items[-1:] and \
                len(st.items) == len(ip.p.ghost['stack']) + 1 and \
                isinstance(st.items[-1], El) and \
                st.items[-1].v is ip.p.ghost['node']
            ip.s.obligation(ip.p, 'a child is walked with its node on top '
                            'of the stack', z3.BoolVal(bool(ok)), None)
            bump(ip, ch.attrs['$idx'] == I)
        if fn is not None:
            self.contracts[fn] = ApplyContract(app)
        Called(self, ('check_body', 'check_flow_control', 'check_arggroup',
                      'check_statement', 'check_positional_group',
                      'check_comment', 'check_token'))

    def kind_of_value(self, ip, v):
        if isinstance(v, Opaque) and v.tag == 'wchild':
            return WALK
        return LintEngine.kind_of_value(self, ip, v)

    def on_iter(self, ip, mark, idx, v):
        if mark == 'children':
            v.attrs['$idx'] = ip.intterm(idx)
            ip.p.assume(z3.Implies(v.attrs['$idx'] == I, TREEI == ip.e.tag(
                'wchild').isinstance(ip, v, TreeNode)))

    def cands(self, ip, al, where):
        rec = ip.p.ghost['rec']
        for fi, n, k in idx_vars(ip, al):
            done = al.frames[fi].locals['$done' + n[4:]]
            if ip.e.list_kind(ip, done) not in (WALK, None):
                continue
            yield 'the index counts [%s]' % n, k == ip.len_term(done)
            for x, c in (('child', z3.BoolVal(True)), ('node', TREEI)):
                yield 'each %s so far once [%s]' % (x, n), rec.attrs[
                    '#n'].t == z3.If(z3.And(0 <= I, I < k, c), 1, 0)


def walk_children(h):
    seg = WALK.fresh_seg(h.p, 'children')
    seg.extra = 'children'
    h.p.assume(z3.And(0 <= I, I < seg.m['n']))
    g = Opaque('watch', 'count')
    g.attrs['#n'] = SInt(z3.IntVal(0))
    h.p.ghost['rec'] = g
    h.may_modify(g)
    return LList([seg], 0, WALK), lambda: g.attrs['#n'].t


def node_classes():
    out, todo = [], [TreeNode]
    while todo:
        c = todo.pop()
        out.append(c)
        todo += c.__subclasses__()
    return sorted(set(out), key=lambda c: c.__qualname__)


def known_type(cls):
    """The node type that the constructor gives, if it needs no help."""
    try:
        return cls().node_type
    except TypeError:
        return None


WANT = [(BodyNode, 'check_body'), (FlowControlNode, 'check_flow_control'),
        (ArgGroupNode, 'check_arggroup'), (StatementNode, 'check_statement'),
        (PositionalGroupNode, 'check_positional_group')]


@spec('structure', CHK + 'check_tree', WalkEngine)
def check_tree(h):
    """Every node is seen by the checks for its kind, exactly once, while
    the nodes around it are on the stack; so are all its children."""
    ip = h.ip
    classes = node_classes()
    cls = classes[h.p.choose(len(classes), 'class')]
    kids, n = walk_children(h)
    nt = known_type(cls)
    if nt is None or cls is TreeNode:
        nt = ip.e.fresh_enum(ip, NodeType, 'node_type')
        own = [NodeType.BODY, NodeType.FLOW_CONTROL]
        if cls is not TreeNode:
            own.append(NodeType.COMMENT)
        for t in own:
            # these types have a class of their own
            h.p.assume(nt.t != t.value)
    node = h.obj(cls, children=kids, parent=None, node_type=nt)
    h.p.ghost['node'] = node
    stack = LList([STACK.fresh_seg(h.p, 'stack')], 0, STACK)
    h.p.ghost['stack'] = list(stack.items)
    h.may_modify(stack)
    chk = chk_obj(h, Opaque('sink', 'ctx'), _node_stack=stack)
    h.call(chk, node)
    calls = h.p.ghost.get('calls', [])
    want = [c for k, c in WANT if issubclass(cls, k)]
    if want:
        h.ensure('%s is checked by %s, once' % (cls.__name__, want[0]),
                 [q for q, x in calls if x is node] == want[:1])
    elif isinstance(nt, SEnum) or nt is NodeType.COMMENT:
        com = nt.t == NodeType.COMMENT.value if isinstance(
            nt, SEnum) else z3.BoolVal(True)
        h.ensure('a comment is checked by check_comment, nothing else is',
                 com == z3.BoolVal(calls == [('check_comment', node)]))
    else:
        h.ensure('%s has no check of its own' % cls.__name__, not calls)
    h.ensure('no other node is checked', all(x is node for _, x in calls))
    h.ensure('each child is walked exactly once', n() == 1)
    h.ensure('the stack is as before', stack.items == h.p.ghost['stack'] and
             chk.fields['_node_stack'] is stack)


@spec('structure', 'cmakelang.parse.common:TreeNode.build_ancestry',
      WalkEngine)
def build_ancestry(h):
    """Each child that is a node has this node as its parent, and so on
    downwards."""
    kids, n = walk_children(h)
    node = h.obj(TreeNode, children=kids, parent=None,
                 node_type=h.ip.e.fresh_enum(h.ip, NodeType, 'node_type'))
    h.p.ghost['self'] = node
    h.call(node)
    h.ensure('each child gets its parent, then its children do',
             n() == z3.If(TREEI, 1, 0))


class DispatchEngine(LintEngine):
    def __init__(self):
        LintEngine.__init__(self)
        self.tags.update(pn=PnHandler(), any=BagHandler(),
                         bag=BagHandler())
        Called(self, ('check_is_in_loop', 'check_assignment',
                      'check_argument_names', 'check_foreach',
                      'check_for_custom_parse_logic',
                      'check_name_against_pattern'))


@spec('structure', CHK + 'check_statement', DispatchEngine)
def check_statement(h):
    """break and continue, and only they, are looked at for a loop."""
    node = Opaque('pn', 'node', t=NODE)
    h.call(chk_obj(h, Opaque('sink', 'ctx')), node)
    calls = [q for q, x in h.p.ghost.get('calls', []) if x is node]
    h.ensure('check_is_in_loop exactly for break and continue', z3.Or(
        funname(NODE) == S('break'), funname(NODE) == S('continue')) ==
        z3.BoolVal(calls.count('check_is_in_loop') == 1))
    h.ensure('at most once', calls.count('check_is_in_loop') <= 1)


class FlowEngine(DispatchEngine):
    def __init__(self):
        DispatchEngine.__init__(self)
        self.tags.update(stm=StmHandler(), lcfg=SomeConfig(ints=(
            'max_returns', 'max_branches', 'max_statements')))
        for f in (BC.find_nodes_in_subtree, BC.find_statements_in_subtree):
            self.call_models[f] = lambda ip, a, k: LList(
                [M.ANY.fresh_seg(ip.p, 'found')], ip.p.tick(), M.ANY)


NAME = z3.Const('command', StrS)


class StmHandler(TagHandler):
    """The first statement of a flow control node."""

    def truth(self, ip, v):
        return True

    def getattr(self, ip, v, name):
        def loc(ip, a, k):
            return Opaque('tloc', 'loc')
        if name == 'children':
            return LList([El(v), M.ANY.fresh_seg(ip.p, 'more')], 0, M.ANY)
        if name == 'spelling':
            return SStr(NAME)
        if name == 'get_funname':
            return Builtin(name, lambda ip, a, k: SStr(M.lower_f(NAME)))
        if name == 'get_tokens':
            return Builtin(name, lambda ip, a, k: LList(
                [M.ANY.fresh_seg(ip.p, 'toks'), El(v)], ip.p.tick(), M.ANY))
        if name == 'get_location':
            return Builtin(name, loc_of)
        if name in ('parent', 'argtree', 'funnode', 'token'):
            return Opaque('any', name) if name == 'parent' else v
        raise Unsupported('%s of a statement' % name)


def loc_of(ip, a, k):
    o = Opaque('lcfg', 'loc')
    o.attrs['line'] = SInt(ip.p.fresh(INT, 'line'))
    return o


@spec('structure', CHK + 'check_flow_control', FlowEngine)
def check_flow_control(h):
    """The parameters of every function and macro are checked, once."""
    stm = Opaque('stm', 'statement')
    node = h.obj(FlowControlNode, parent=None, children=LList(
        [El(stm), M.ANY.fresh_seg(h.p, 'more')], 0, M.ANY),
        blocks=LList([], 0))
    h.call(chk_obj(h, Opaque('sink', 'ctx')), node)
    calls = [q for q, x in h.p.ghost.get('calls', [])
             if q == 'check_argument_names']
    low = M.lower_f(NAME)
    h.ensure('check_argument_names exactly for function and macro', z3.Or(
        low == S('function'), low == S('macro')) == z3.BoolVal(
            len(calls) == 1))
    h.ensure('of the statement itself, at most once', len(calls) <= 1 and
             all(x is stm for q, x in h.p.ghost.get('calls', [])))
