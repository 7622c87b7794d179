"""Contracts on the output side of cmakelang.format.formatter.

The output of a layout tree is described by its trace of events: a write of a
text at a place, a raw copy of input text, a child's own write.
"""
import io

import z3

from . import contract
from .contract import spec, ApplyContract, find
from . import models as M
from . import parsing as P
from .models import TagHandler, memo, INT, BOOL
from .values import *  # noqa
from . import formatting as FM
from .formatting import (
    FMT, F, FmtEngine, SSeq, base_node, nt, NodeType, TokenType, types_of,
    lnode_nt, lnode_id, wr_f, norm_f, is_one, LNODES, LINES, CLS, leaf_tokens,
    symcursor, cursor_xy, event, resolve_f, perclass_f, ENDL, line0_f,
    restE_f, rep_f, self_obj)

raw_f = z3.Function('rawcopy', StrS, TokS)
forge_e = z3.Const('forge', TokS)
tabs_f = z3.Function('tabs', StrS, StrS)
dec_f = z3.Function('utf8', StrS, StrS)
S = z3.StringVal


def trace(h):
    w = Opaque('ghost', 'W')
    w.attrs.update({'evs': SSeq(P.EMPTY), 'posok': SBool(z3.BoolVal(True)),
                    'n': SInt(z3.IntVal(0))})
    h.p.ghost['W'] = w
    h.may_modify(w)
    return w


class OutfileHandler(TagHandler):
    """A CursorFile, by its contract: write_at appends the text at the
    cursor, write appends it as it is."""

    def truth(self, ip, v):
        return True

    def getattr(self, ip, v, name):
        def write_at(ip, a, k):
            ip.s.used_contracts.add('CursorFile.write_at')
            w = ip.p.ghost['W']
            x, y = cursor_xy(ip, a[0])
            event(ip, wr_f(ip.strterm(a[1])))
            ip.note_write(w, 'posok')
            ip.note_write(w, 'n')
            x0, y0 = ip.p.ghost['home']
            w.attrs['posok'] = SBool(z3.And(
                w.attrs['posok'].t, x == x0 + w.attrs['n'].t, y == y0))
            w.attrs['n'] = SInt(w.attrs['n'].t + 1)

        def write(ip, a, k):
            ip.s.used_contracts.add('CursorFile.write')
            event(ip, raw_f(ip.strterm(a[0])))

        def forge(ip, a, k):
            event(ip, forge_e)

        def getvalue(ip, a, k):
            fin = a[0] if a else k.get('final_newline', True)
            if ip.truth(fin):
                return SStr(z3.Const('out+endl', StrS))
            return SStr(z3.Const('out', StrS))
        t = {'write_at': write_at, 'write': write, 'forge_cursor': forge,
             'getvalue': getvalue}
        if name in t:
            return Builtin(name, t[name])
        if name == 'endl':
            return SStr(ENDL)
        raise Unsupported('%s of the output' % name)


class WEngine(FmtEngine):
    def __init__(self):
        FmtEngine.__init__(self)
        self.tags['outfile'] = OutfileHandler()
        self.tags['bytes'] = BytesHandler()
        self.tags['infile'] = InfileHandler()
        self.tags['sio'] = StringIOHandler()
        self.candidate_fns.append(write_candidates)
        self.pure('cmakelang.format.formatter:replace_with_tabs',
                  lambda ip, ba: SStr(tabs_f(ip.strterm(ba['content']))))

    def loop_pre(self, ip, al):
        pre = FmtEngine.loop_pre(self, ip, al)
        w = ip.p.ghost.get('W')
        if w is not None:
            pre['evs'] = w.attrs['evs'].t
            pre['wn'] = w.attrs['n'].t
            pre['posok'] = w.attrs['posok'].t
        o = ip.p.ghost.get('sio')
        if o is not None:
            pre['out'] = o.attrs['out'].t
        cf = ip.p.ghost.get('cf')
        if cf is not None:
            pre['cf'] = cursor_xy(ip, cf.fields['_cursor'])
        return pre


def write_candidates(ip, al, where):
    w = ip.p.ghost.get('W')
    for fi, n, v in P.frame_vars(al, ip):
        if not isinstance(v, LList):
            continue
        k = ip.e.list_kind(ip, v)
        if w is not None and n.startswith('$done'):
            m = {LNODES: 'ids', LINES: 'evs'}.get(k)
            if m:
                yield ('the events are those of the elements so far [%s]' % n,
                       w.attrs['evs'].t == P.cat(
                           al.pre['evs'], ip.e.measure(ip, v, m, k)))
            if k is LINES:
                yield ('one write per element [%s]' % n, w.attrs['n'].t
                       == al.pre['wn'] + ip.len_term(v))
        if w is not None and not n.startswith('$') and (
                n, fi) in al.pre and k is LNODES:
            yield ('written ++ %s is unchanged' % n, P.cat(
                w.attrs['evs'].t, ip.e.measure(ip, v, 'ids', k))
                == P.cat(al.pre['evs'], al.pre[n, fi]['ids']))
        o = ip.p.ghost.get('sio')
        if o is not None and k is LINES and not n.startswith('$') and (
                n, fi) in al.pre and 'out' in al.pre:
            yield ('out ++ the lines of %s is unchanged' % n, FM.M_concat(
                o.attrs['out'].t, ip.e.measure(ip, v, 'joinE', k))
                == FM.M_concat(al.pre['out'], al.pre[n, fi]['joinE']))
    cf = ip.p.ghost.get('cf')
    if cf is not None:
        x, y = cursor_xy(ip, cf.fields['_cursor'])
        yield 'the cursor does not move back', FM.same_place(
            x, y, *al.pre['cf'])
        yield 'the column is not negative', y >= 0
    if w is not None:
        yield 'the writes are one below the other', z3.Implies(
            al.pre['posok'], w.attrs['posok'].t)
        for fi, n, v in P.frame_vars(al, ip):
            if n.startswith('$idx'):
                yield 'as many writes as rounds [%s]' % n, \
                    w.attrs['n'].t == al.pre['wn'] + ip.intterm(v)


def wctx(h, active=None):
    """A write context; its switch is off or on."""
    ctx = h.obj(F.WriteContext)
    if active is None:
        active = h.p.choose(2, 'active') == 0
    ctx.fields.update({
        'offswitch_location': None if active else Opaque(
            'loc', 'offswitch'),
        'infile': Opaque('infile', 'infile'),
        'outfile': Opaque('outfile', 'outfile')})
    h.may_modify(ctx, ctx.fields['infile'])
    return ctx, active


def node(h, cls, **kw):
    o = base_node(h, cls, types_of(cls) or list(CLS), **kw)
    h.p.ghost['home'] = cursor_xy(h.ip, o.fields['__position'])
    return o


def evs(h):
    return h.p.ghost['W'].attrs['evs'].t


def posok(h):
    return h.p.ghost['W'].attrs['posok'].t


def seq(*es):
    out = P.EMPTY
    for e in es:
        out = P.cat(out, z3.Unit(e))
    return out


@spec('output', FMT + 'LayoutNode.write', WEngine)
def layout_write(h):
    """Every child is written exactly once, in order; nothing else."""
    trace(h)
    o = node(h, F.LayoutNode)
    ids = h.ip.e.measure(h.ip, o.fields['_children'], 'ids', LNODES)
    h.call(o, Opaque('config', 'config'), Opaque('any', 'ctx'))
    h.ensure('the output is that of the children, in order', evs(h) == ids)


@spec('output', FMT + 'WhitespaceNode.write', WEngine)
def white_write(h):
    trace(h)
    o = node(h, F.WhitespaceNode)
    ctx, _ = wctx(h)
    h.call(o, Opaque('config', 'config'), ctx)
    h.ensure('nothing is written', evs(h) == P.EMPTY)


@spec('output', FMT + 'ParenNode.write', WEngine)
def paren_write(h):
    trace(h)
    o = node(h, F.ParenNode)
    ctx, active = wctx(h)
    h.call(o, Opaque('config', 'config'), ctx)
    left = o.fields['pnode'].attrs['node_type'].t == nt('LPAREN')
    want = seq(wr_f(z3.If(left, S('('), S(')'))))
    h.ensure('the parenthesis is written once, iff the formatter is on',
             evs(h) == (want if active else P.EMPTY))
    h.ensure('at its position', posok(h))


def recased(h, o, tok, cfg):
    """The spelling the configuration asks for."""
    ip = h.ip
    sp = P.tspell(tok.t)
    t = o.fields['pnode'].attrs['node_type'].t
    low, up = M.lower_f(sp), M.upper_f(sp)
    cc = resolve_f(S('format.command_case'), sp)
    decl = o.fields['_parent'].fields['pnode'].attrs['cmdspec']
    dsp = decl.attrs.get('spelling') if decl is not None else None
    canon = z3.If(perclass_f(S('spelling'), sp),
                  resolve_f(S('spelling'), sp), low)
    if dsp is not None:
        canon = dsp.t
    kc = cfg.attrs['format'].attrs['keyword_case'].t
    fun = z3.If(cc == S('lower'), low, z3.If(
        cc == S('upper'), up, z3.If(cc == S('canonical'), canon, norm_f(sp))))
    kw = z3.If(kc == S('lower'), low, z3.If(kc == S('upper'), up, norm_f(sp)))
    return z3.If(t == nt('FUNNAME'), fun, z3.If(
        is_one(t, (nt('KEYWORD'), nt('FLAG'))), kw, norm_f(sp)))


@spec('output', FMT + 'ScalarNode.write', WEngine)
def scalar_write(h):
    """One token: its spelling (recased), then its comment."""
    ip = h.ip
    trace(h)
    o = node(h, F.ScalarNode)
    tok = leaf_tokens(h, o)
    par = h.obj(F.StatementNode)
    spn = Opaque('pnode', 'stmt', of=None)
    has = ip.p.choose(3, 'declared')
    cs = Opaque('spec', 'cmdspec')
    cs.attrs['spelling'] = SStr(h.p.fresh(StrS, 'declared')) \
        if has == 2 else None
    spn.attrs['cmdspec'] = cs if has else None
    par.fields['pnode'] = spn
    o.fields['_parent'] = par
    cfg = Opaque('config', 'config')
    fm = Opaque('config', 'format')
    fm.attrs['keyword_case'] = h.str('keyword_case')
    cfg.attrs['format'] = fm
    ch = o.fields['_children']
    kids = ip.p.choose(2, 'comment')
    if kids:
        c = Opaque('lnode', 'comment')
        h.assume(lnode_nt(ip, c).t == nt('COMMENT'))
        ch.items = [El(c)]
    else:
        ch.items = []
    ctx, active = wctx(h)
    h.call(o, cfg, ctx)
    want = P.EMPTY
    if active:
        want = z3.Unit(wr_f(recased(h, o, tok, cfg)))
        if kids:
            want = P.cat(want, z3.Unit(lnode_id(ip, ch.items[0].v)))
    h.ensure('exactly the token, in the case the configuration asks for, '
             'and its comment; nothing in a disabled region', evs(h) == want)
    h.ensure('at its position', posok(h))


@spec('output', FMT + 'CommentNode.write', WEngine)
def comment_write(h):
    ip = h.ip
    trace(h)
    o = node(h, F.CommentNode)
    lines = LList([LINES.fresh_seg(h.p, 'lines')], 0, LINES)
    o.fields['_lines'] = lines
    want = ip.e.measure(ip, lines, 'evs', LINES)
    tok = leaf_tokens(h, o)
    pch = o.fields['pnode'].attrs['children']
    bracket = z3.And(P.ttype(tok.t) == TokenType.BRACKET_COMMENT.value,
                     ip.len_term(pch) == 1)
    ctx, active = wctx(h)
    h.call(o, Opaque('config', 'config'), ctx)
    if not active:
        h.ensure('nothing in a disabled region', evs(h) == P.EMPTY)
        return
    h.ensure('the bracket comment, or every line of the comment once, in '
             'order', z3.If(bracket, evs(h) == z3.Unit(
                 wr_f(norm_f(P.tspell(tok.t)))), evs(h) == want))
    h.ensure('at its position, one line below the other', posok(h))


@spec('output', FMT + 'OnOffSwitchNode.write', WEngine)
def onoff_write(h):
    """Switching on copies the input between the switches verbatim."""
    ip = h.ip
    trace(h)
    o = node(h, F.OnOffSwitchNode)
    tok = leaf_tokens(h, o)
    on, off = TokenType.FORMAT_ON.value, TokenType.FORMAT_OFF.value
    ty = P.ttype(tok.t)
    h.assume(is_one(ty, (on, off)))
    ctx, active = wctx(h)
    old = ctx.fields['offswitch_location']
    h.call(o, Opaque('config', 'config'), ctx)
    new = ctx.fields['offswitch_location']
    s_on, s_off = wr_f(S('# cmake-format: on')), wr_f(
        S('# cmake-format: off'))
    if active:
        h.ensure('the switch is written', evs(h) == z3.If(
            ty == on, z3.Unit(s_on), z3.Unit(s_off)))
        at = getattr(new, 'kw', {}) if new is not None else {}
        h.ensure('off starts a disabled region after the switch, on leaves '
                 'the formatter on', z3.If(
                     ty == off, z3.BoolVal(at.get('end') is True),
                     z3.BoolVal(new is None)))
        if at.get('tok') is not None:
            h.ensure('the region starts at the end of the switch',
                     at['tok'] == tok.t)
        h.ensure('at its position', posok(h))
    else:
        copied = copy_text(h.ip, old, P.toff(tok.t))
        h.ensure('on copies the region verbatim and is written after it; '
                 'a nested off is part of the region', evs(h) == z3.If(
                     ty == on, seq(raw_f(copied), forge_e, s_on), P.EMPTY))
        h.ensure('the formatter is on after on, off after a nested off',
                 z3.If(ty == on, z3.BoolVal(new is None),
                       z3.BoolVal(new is old)))


def copy_text(ip, loc, end):
    """The input from the switch to `end`, the first line ending converted."""
    c = content_of(ip)
    start = loc_offset(ip, loc)
    b = z3.SubString(c, start, end - start) if end is not None else \
        z3.SubString(c, start, z3.Length(c) - start)
    t = dec_f(b)
    return z3.If(z3.PrefixOf(S('\n'), t), z3.Concat(
        ENDL, z3.SubString(t, 1, z3.Length(t) - 1)), t)


def loc_offset(ip, loc):
    return ip.intterm(ip.e.tag('loc').getattr(ip, loc, 'offset'))


def content_of(ip):
    return ip.p.ghost.setdefault('content', ip.p.fresh(StrS, 'content'))


class BytesHandler(TagHandler):
    def getattr(self, ip, v, name):
        if name == 'decode':
            def decode(ip, a, k):
                if list(a) != ['utf-8']:
                    raise Unsupported('codec')
                return SStr(dec_f(v.kw['t']))
            return Builtin('decode', decode)
        raise Unsupported('bytes.' + name)


class InfileHandler(TagHandler):
    """A BytesIO on the input."""

    def getattr(self, ip, v, name):
        def seek(ip, a, k):
            if len(a) > 1 and a[1] != 0:
                raise Unsupported('seek')
            ip.note_write(v, 'pos')
            v.attrs['pos'] = SInt(ip.intterm(a[0]))

        def read(ip, a, k):
            pos = memo(v, 'pos', lambda: SInt(ip.p.fresh(INT, 'pos'))).t
            c = content_of(ip)
            n = z3.Length(c) - pos if not a or a[0] is None else \
                ip.intterm(a[0])
            ip.note_write(v, 'pos')
            v.attrs['pos'] = SInt(pos + n)
            return Opaque('bytes', 'bytes', t=z3.SubString(c, pos, n))
        if name in ('seek', 'read'):
            return Builtin(name, {'seek': seek, 'read': read}[name])
        raise Unsupported('%s of the input' % name)


class StringIOHandler(TagHandler):
    def getattr(self, ip, v, name):
        def write(ip, a, k):
            ip.note_write(v, 'out')
            v.attrs['out'] = SStr(FM.M_concat(
                v.attrs['out'].t, ip.strterm(a[0])))

        def getvalue(ip, a, k):
            return v.attrs['out']
        if name in ('write', 'getvalue'):
            return Builtin(name, {'write': write, 'getvalue': getvalue}[name])
        raise Unsupported('%s of StringIO' % name)


W2Engine = WEngine



@spec('output', FMT + 'WriteContext.read_disabled', W2Engine)
def read_disabled(h):
    """The input from the switch to the given offset, or to the end."""
    ip = h.ip
    ctx, _ = wctx(h, False)
    off = ctx.fields['offswitch_location']
    ctx.fields['outfile'] = Opaque('outfile', 'out')
    to_end = ip.p.choose(2, 'end') == 0
    end = None if to_end else h.int('end', 0)
    r = h.call(ctx) if to_end else h.call(ctx, end)
    want = copy_text(ip, off, None if to_end else end.t)
    h.ensure('the text between the switches, verbatim but for the first '
             'line ending', ip.strterm(r) == want)


@spec('output', FMT + 'WriteContext.is_active', W2Engine)
def is_active(h):
    ctx, active = wctx(h)
    r = h.call(ctx)
    t = h.ip.truth_term(r) if not isinstance(r, bool) else z3.BoolVal(r)
    h.ensure('active unless switched off', t == z3.BoolVal(active))


def cursorfile(h):
    cf = h.obj(F.CursorFile)
    sio = Opaque('sio', 'fobj')
    sio.attrs['out'] = h.str('out')
    h.p.ghost['sio'] = sio
    h.p.ghost['cf'] = cf
    cur = symcursor(h, 'at')
    cf.fields.update({'_fobj': sio, '_cursor': cur,
                      '_config': Opaque('config', 'config')})
    h.may_modify(cf, sio, cur)
    return cf, sio, cur


@spec('output', FMT + 'CursorFile.write_at', W2Engine)
def write_at(h):
    """Moves forward by line ends and padding only, then writes the text."""
    ip = h.ip
    cf, sio, cur = cursorfile(h)
    x0, y0 = cursor_xy(ip, cur)
    out0 = sio.attrs['out'].t
    to = symcursor(h, 'to')
    x1, y1 = cursor_xy(ip, to)
    text = h.str('text')
    h.on_raise = lambda ex: h.ensure(
        'raises only for text before what is already written',
        z3.Or(x1 < x0, z3.And(x1 == x0, y1 < y0)))
    h.call(cf, to, text)
    h.ensure('text is only ever written after what is already written',
             z3.Or(x1 > x0, z3.And(x1 == x0, y1 >= y0)))
    rows = x1 - x0
    col = z3.If(rows == 0, y0, 0)
    blanks = rep_f(S(' '), y1 - col)
    pad = z3.If(y1 == col, S(''), z3.If(col == 0, tabs_f(blanks), blanks))
    nl = z3.If(rows == 0, S(''), rep_f(ENDL, rows))
    want = z3.Concat(out0, nl, pad, line0_f(text.t), restE_f(text.t))
    h.ensure('the output is extended by line ends, padding (tabs at most at '
             'the start of a line) and the text', sio.attrs['out'].t == want)
    c2 = cf.fields['_cursor']
    cx, cy = cursor_xy(ip, c2)
    h.ensure('the cursor does not move back', z3.Or(
        cx > x1, z3.And(cx == x1, cy >= y1)))


@spec('output', FMT + 'CursorFile.write', W2Engine)
def cf_write(h):
    cf, sio, cur = cursorfile(h)
    out0 = sio.attrs['out'].t
    text = h.str('text')
    h.call(cf, text)
    h.ensure('the text is appended as it is',
             sio.attrs['out'].t == z3.Concat(out0, text.t))


@spec('output', FMT + 'CursorFile.getvalue', W2Engine)
def cf_getvalue(h):
    cf, sio, cur = cursorfile(h)
    out0 = sio.attrs['out'].t
    fin = h.bool('final')
    r = h.call(cf, fin)
    h.ensure('what was written, and a line end if asked for',
             h.ip.strterm(r) == z3.If(fin.t, z3.Concat(out0, ENDL), out0))


class TreeEngine(W2Engine):
    def __init__(self):
        W2Engine.__init__(self)

        def init(ip, ba):
            o = ba['self']
            ip.s.used_contracts.add('WriteContext.__init__')
            for k, v in (('offswitch_location', None),
                         ('infile', Opaque('infile', 'infile')),
                         ('outfile', Opaque('outfile', 'outfile'))):
                ip.note_write(o, k)
                o.fields[k] = v
        self.pure_fn(FMT + 'WriteContext.__init__', init)

    def pure_fn(self, addr, f):
        fn = find(addr)
        if fn is not None:
            self.contracts[fn] = ApplyContract(f)


@spec('output', FMT + 'write_tree', TreeEngine)
def write_tree(h):
    """The output of the root; the rest of the input if the formatter was
    never switched back on."""
    ip = h.ip
    trace(h)
    root = Opaque('lnode', 'root')
    h.assume(lnode_nt(ip, root).t != nt('COMMENT'))
    r = h.call(root, Opaque('config', 'config'), h.str('infile_content'))
    one = z3.Unit(lnode_id(ip, root))
    ev = evs(h)
    t = ip.strterm(r)
    full, bare = z3.Const('out+endl', StrS), z3.Const('out', StrS)
    rest = z3.Const('unused', StrS)
    n = z3.Length(ev)
    h.ensure('the tree is written once, then at most the rest of the input',
             z3.Or(ev == one, z3.And(n == 2, z3.PrefixOf(one, ev))))
    h.ensure('a complete output ends with a line end',
             z3.Implies(ev == one, t == full))
    h.ensure('the result is the output', z3.Or(t == full, t == bare))


# ------------------------------------------------------- the tree of boxes
box_f = z3.Function('box', TokS, TokS)         # parse node -> its box
pid_nt = z3.Function('pnode_type', TokS, INT)
pid_nl = z3.Function('pnode_newlines', TokS, INT)


def pchild_kept(ip, v):
    if isinstance(v, STok):
        return P.EMPTY
    t = v.kw['pid']
    drop = z3.Or(z3.Not(is_one(pid_nt(t), sorted(CLS))), z3.And(
        pid_nt(t) == nt('WHITESPACE'), pid_nl(t) < 2))
    return z3.If(drop, P.EMPTY, z3.Unit(box_f(t)))


def mk_pchild(ip):
    if ip.p.choose(2, 'token or node') == 0:
        return P.mk_tok(ip)
    t = ip.p.fresh(TokS, 'pid')
    ip.p.assume(is_one(pid_nt(t), sorted(NodeType._id_map)))
    return Opaque('ptree', 'pchild', pid=t)


PCHILDREN = Kind('pchildren', [
    M.len_measure(), P.seq_measure('kept', pchild_kept)], mk_pchild)


class PtreeHandler(TagHandler):
    def truth(self, ip, v):
        return True

    def isinstance(self, ip, v, cls):
        if cls in (FM.TreeNode, object):
            return True
        return memo(v, '$isa' + cls.__name__, lambda: ip.p.fresh(BOOL, 'isa'))

    def getattr(self, ip, v, name):
        if name == 'node_type':
            return SEnum(pid_nt(v.kw['pid']), NodeType)
        if name == 'count_newlines':
            return Builtin(name, lambda ip, a, k: SInt(pid_nl(v.kw['pid'])))
        if name == 'children':
            return memo(v, name, lambda: LList(
                [PCHILDREN.fresh_seg(ip.p, 'pch')], 0, PCHILDREN))
        raise Unsupported('parse node attribute ' + name)


def kept_candidates(ip, al, where):
    roots = [v for _, n, v in P.frame_vars(al, ip)
             if isinstance(v, Obj) and v.cls is F.LayoutNode]
    for fi, n, v in P.frame_vars(al, ip):
        if isinstance(v, LList) and ip.e.list_kind(ip, v) is PCHILDREN:
            for r in roots[:1]:
                ids = ip.e.measure(ip, r.fields['_children'], 'ids', LNODES)
                if where == 'pre':
                    continue
                if n.startswith('$done'):
                    yield ('the boxes are those of the nodes so far [%s]' % n,
                           ids == ip.e.measure(ip, v, 'kept', PCHILDREN))
                if not n.startswith('$') and (n, fi) in al.pre:
                    yield ('boxes ++ those of %s is unchanged' % n, P.cat(
                        ids, ip.e.measure(ip, v, 'kept', PCHILDREN))
                        == al.pre[n, fi]['kept'])


class BoxEngine(WEngine):
    def __init__(self):
        WEngine.__init__(self)
        self.tags['ptree'] = PtreeHandler()
        self.candidate_fns.append(kept_candidates)

        def create(ip, ba):
            o = ip.new_obj(F.LayoutNode)
            o.fields.update({'pnode': ba['pnode'],
                             '_children': ip.new_list([], LNODES)})
            return o

        def recurse(ip, ba):
            v = Opaque('lnode', 'box')
            v.attrs['$id'] = box_f(ba['pnode'].kw['pid'])
            return v
        self.pure(FMT + 'LayoutNode.create', create)
        self.pure(FMT + 'create_box_tree', recurse)

    def kind_of_value(self, ip, v):
        if isinstance(v, STok) or isinstance(v, Opaque) and v.tag == 'ptree':
            return PCHILDREN
        return WEngine.kind_of_value(self, ip, v)


@spec('tree', FMT + 'create_box_tree', BoxEngine)
def box_tree(h):
    """The boxes of exactly the nodes that hold text, in order."""
    ip = h.ip
    t = h.p.fresh(TokS, 'pid')
    pn = Opaque('ptree', 'pnode', pid=t)
    ch = LList([PCHILDREN.fresh_seg(h.p, 'pch')], 0, PCHILDREN)
    pn.attrs['children'] = ch
    want = ip.e.measure(ip, ch, 'kept', PCHILDREN)
    r = h.call(pn)
    h.ensure('a box for every child that holds text, in order',
             ip.e.measure(ip, r.fields['_children'], 'ids', LNODES) == want)
    h.ensure('the parse node keeps its children', ip.e.measure(
        ip, ch, 'kept', PCHILDREN) == want)


@spec('tree', FMT + 'LayoutNode.lock', WEngine)
def lock(h):
    ip = h.ip
    o = base_node(h, F.LayoutNode, list(CLS))
    o.fields['_locked'] = False
    o.fields['_children'].frozen = False
    ids = ip.e.measure(ip, o.fields['_children'], 'ids', LNODES)
    h.call(o, Opaque('config', 'config'), h.int('stmt_depth', 0))
    h.ensure('locked', z3.BoolVal(o.fields['_locked'] is True))
    h.ensure('the children and their order are kept', ip.e.measure(
        ip, o.fields['_children'], 'ids', LNODES) == ids)


class LockEngine(WEngine):
    """super().lock by its contract; sort_arguments by its contract."""

    def __init__(self):
        WEngine.__init__(self)

        def base_lock(ip, ba):
            o = ba['self']
            for f, v in (('_locked', True),
                         ('_stmt_depth', SInt(ip.p.fresh(INT, 'd'))),
                         ('_subtree_depth', SInt(ip.p.fresh(INT, 'd')))):
                ip.note_write(o, f)
                o.fields[f] = v
            ip.note_write(o, '_children')
            o.fields['_children'] = LList(
                o.fields['_children'].copy_items(), ip.p.tick(), LNODES, True)

        def sort_args(ip, ba):
            ip.p.ghost['sorted'] = True
            seg = LNODES.fresh_seg(ip.p, 'sorted')
            src = ba['children']
            for m in ('n', 'cnt'):
                ip.p.assume(seg.m[m] == ip.e.measure(ip, src, m, LNODES))
            return LList([seg], ip.p.tick(), LNODES)
        self.pure(FMT + 'LayoutNode.lock', base_lock)
        self.pure(FMT + 'sort_arguments', sort_args)


def lock_contract(h, cls):
    ip = h.ip
    o = base_node(h, cls, types_of(cls))
    o.fields['_children'].frozen = False
    ch = o.fields['_children']
    pn = o.fields['pnode']
    pn.attrs['sortable'] = h.bool('sortable')
    ids = ip.e.measure(ip, ch, 'ids', LNODES)
    cnt = ip.e.measure(ip, ch, 'cnt', LNODES)
    cfg = Opaque('config', 'config')
    fm = Opaque('config', 'format')
    cfg.attrs['format'] = fm
    es, au = h.bool('enable_sort'), h.bool('autosort')
    fm.attrs.update({'enable_sort': es, 'autosort': au})
    h.call(o, cfg, h.int('stmt_depth', 0))
    now = o.fields['_children']
    h.ensure('the children are kept (as a multiset)', z3.And(
        ip.e.measure(ip, now, 'cnt', LNODES) == cnt,
        ip.len_term(now) == ip.len_term(ch) if now is not ch else True))
    sort = z3.And(es.t, au.t, pn.attrs['sortable'].t)
    if cls is not F.PargGroupNode:
        sort = z3.BoolVal(False)
    h.ensure('their order is kept unless the group is sortable and sorting '
             'is enabled', z3.Or(sort, ip.e.measure(
                 ip, now, 'ids', LNODES) == ids))


for _c in ('PargGroupNode', 'ArgGroupNode'):
    spec('tree', FMT + _c + '.lock', LockEngine)(
        lambda h, _c=_c: lock_contract(h, getattr(F, _c)))


# triples (key, position, node) of sort_arguments
def trip_node(ip, v):
    return v[2]


def mk_triple(ip):
    return (SInt(ip.p.fresh(INT, 'key')), SInt(ip.p.fresh(INT, 'pos')),
            Opaque('lnode', 'child'))


def _cnt(ip, v):
    return FM.lnode_count(ip, trip_node(ip, v))


_m = Measure('cnt', INT, z3.IntVal(0), lambda a, b: a + b, _cnt)
_m.commutative = True
TRIPLES = Kind('triples', [M.len_measure(), _m], mk_triple)


class MapHandler(TagHandler):
    def truth(self, ip, v):
        return True

    def contains(self, ip, v, item):
        return ip.p.fresh(BOOL, 'in')

    def getitem(self, ip, v, key):
        if ip.p.choose(2, 'in') == 0:
            return SInt(ip.p.fresh(INT, 'key'))
        raise PyExc(KeyError)

    def getattr(self, ip, v, name):
        if name == 'get':
            def get(ip, a, k):
                if ip.p.choose(2, 'in') == 0:
                    return SInt(ip.p.fresh(INT, 'key'))
                return a[1] if len(a) > 1 else None
            return Builtin('get', get)
        raise Unsupported('map.' + name)


class SortEngine(WEngine):
    def __init__(self):
        WEngine.__init__(self)
        self.tags['keymap'] = MapHandler()
        self.candidate_fns.append(count_candidates)

    def dict_from_pairs(self, ip, r):
        return Opaque('keymap', 'nodemap')

    def kind_of_value(self, ip, v):
        if isinstance(v, tuple) and len(v) == 3 and isinstance(
                v[2], Opaque) and v[2].tag == 'lnode':
            return TRIPLES
        return WEngine.kind_of_value(self, ip, v)


def count_candidates(ip, al, where):
    done = [(n, v, ip.e.list_kind(ip, v)) for fi, n, v in P.frame_vars(al, ip)
            if n.startswith('$done') and isinstance(v, LList)]
    done = [(n, v, k) for n, v, k in done if k in (LNODES, TRIPLES)]
    for fi, n, v in P.frame_vars(al, ip):
        if not isinstance(v, LList) or n.startswith(('$done', '$rest')):
            continue
        k = ip.e.list_kind(ip, v)
        for dn, d, dk in done:
            for m in ('cnt', 'n'):
                a = ip.e.measure(ip, v, m, k) if k in (
                    LNODES, TRIPLES) else z3.IntVal(0) if k is None else None
                if a is None:
                    continue
                yield ('%s holds the elements so far [%s %s]' % (n, dn, m),
                       a == ip.e.measure(ip, d, m, dk))


@spec('sort', FMT + 'sort_arguments', SortEngine)
def sort_arguments(h):
    """A permutation of the children."""
    ip = h.ip
    ch = LList([LNODES.fresh_seg(h.p, 'children')], 0, LNODES)
    r = h.call(ch)
    k = ip.e.list_kind(ip, r) or LNODES
    h.ensure('every child occurs as often as before', ip.e.measure(
        ip, r, 'cnt', k) == ip.e.measure(ip, ch, 'cnt', LNODES))
    h.ensure('as many children', ip.len_term(r) == ip.len_term(ch))


# ------------------------------------------------------------- indentation
def rep_unfold(ip, k):
    """Definition of the repetition of a space, at k, k + 1 and 0 to 2."""
    one = S(' ')
    for n, t in ((0, S('')), (1, one), (2, z3.Concat(one, one))):
        ip.p.assume(rep_f(one, z3.IntVal(n)) == t)
    ip.p.assume(z3.Implies(k >= 0, z3.And(
        z3.Length(rep_f(one, k)) == k,
        rep_f(one, k + 1) == z3.Concat(rep_f(one, k), one))))


def space_candidates(ip, al, where):
    line = ip.p.ghost.get('the line')
    for fi, n, v in P.frame_vars(al, ip):
        if line is not None and not n.startswith('$') and isinstance(
                v, (int, SInt)) and not isinstance(v, bool):
            # a counter
            k = ip.intterm(v)
            rep_unfold(ip, k)
            rep_unfold(ip, k - 1)
            yield '%s counts spaces' % n, z3.And(
                k >= 0, k <= z3.Length(line),
                z3.PrefixOf(rep_f(S(' '), k), line))
        if n.startswith('$done') and isinstance(v, LList) and \
                ip.e.list_kind(ip, v) is M.CHARS:
            k = ip.len_term(v)
            # definition of repetition, unfolded once
            ip.p.assume(rep_f(S(' '), k + 1) == z3.Concat(
                rep_f(S(' '), k), S(' ')))
            ip.p.assume(rep_f(S(' '), z3.IntVal(0)) == S(''))
            ip.p.assume(z3.Implies(k > 0, rep_f(S(' '), k) == z3.Concat(
                rep_f(S(' '), k - 1), S(' '))))
            yield 'the characters so far are spaces', ip.e.measure(
                ip, v, 'str', M.CHARS) == rep_f(S(' '), k)
            for fj, m, x in P.frame_vars(al, ip):
                if m == '$idx' + n[5:]:
                    yield 'the index counts them', ip.intterm(x) == k


class IndentEngine(WEngine):
    def __init__(self):
        WEngine.__init__(self)
        self.contracts.pop(find(FMT + 'replace_with_tabs'), None)
        self.candidate_fns.append(space_candidates)

    def str_method(self, ip, v, name):
        if name == 'lstrip' and isinstance(v, SStr):
            def lstrip(ip, a, k):
                if a != [' '] and a != (' ',):
                    raise Unsupported('lstrip of %r' % (a,))
                out = ip.p.fresh(StrS, 'lstrip')
                n = z3.Length(v.t) - z3.Length(out)
                rep_unfold(ip, n)
                ip.p.assume(z3.And(
                    n >= 0, v.t == z3.Concat(rep_f(S(' '), n), out),
                    z3.Or(out == S(''), z3.SubString(out, 0, 1) != S(' '))))
                return SStr(out)
            return Builtin(name, lstrip)
        return WEngine.str_method(self, ip, v, name)


@spec('indent', FMT + 'count_indentation', IndentEngine)
def count_indentation(h):
    """The number of spaces at the start, no more and no less."""
    s = h.str('line')
    h.p.ghost['the line'] = s.t
    r = h.ip.intterm(h.call(s))
    rep_unfold(h.ip, r)
    n = z3.Length(s.t)
    h.ensure('within the line', z3.And(r >= 0, r <= n))
    h.ensure('that many spaces', z3.PrefixOf(rep_f(S(' '), r), s.t))
    h.ensure('and then no other', z3.Or(
        r == n, z3.SubString(s.t, r, 1) != S(' ')))


class TabsEngine(IndentEngine):
    def __init__(self):
        IndentEngine.__init__(self)

        def ci(ip, ba):
            s = ip.strterm(ba['linestr'])
            r = ind_f(s)
            ip.p.assume(z3.And(r >= 0, r <= z3.Length(s)))
            return SInt(r)
        self.pure(FMT + 'count_indentation', ci)

    def str_method(self, ip, v, name):
        if name == 'split' and isinstance(v, SStr):
            # precondition: the content is one line
            return Builtin('split', lambda ip, a, k: LList(
                [El(v)], ip.p.tick(), LINES))
        if name == 'join' and v in ('\n',):
            def join(ip, a, k):
                lst = ip.e.as_list(ip, a[0])
                return SStr(joined_f(ip.e.measure(ip, lst, 'evs', LINES)))
            return Builtin('join', join)
        return IndentEngine.str_method(self, ip, v, name)


ind_f = z3.Function('indentation', StrS, INT)
joined_f = z3.Function('joined', TokSeq, StrS)


def tabbed(ip, line, ts, policy):
    """The conversion of one line."""
    n = ind_f(line)
    q, r = n / ts, n % ts
    frac = z3.If(r == 0, S(''), z3.If(
        policy == S('use-space'), rep_f(S(' '), r), S('\t')))
    return z3.Concat(rep_f(S('\t'), q), frac, z3.SubString(
        line, n, z3.Length(line) - n))


@spec('indent', FMT + 'replace_with_tabs', TabsEngine)
def replace_with_tabs(h):
    """Of one line: its leading spaces by tabs, the rest as it was."""
    ip = h.ip
    cfg = Opaque('config', 'config')
    fm = Opaque('config', 'format')
    cfg.attrs['format'] = fm
    ts, use = h.int('tab_size', 1), h.bool('use_tabchars')
    pol = h.str('policy')
    fm.attrs.update({'tab_size': ts, 'use_tabchars': use,
                     'fractional_tab_policy': pol})
    s = h.str('content')
    r = ip.strterm(h.call(s, cfg))
    if not ip.p.branch(use.t):
        h.ensure('nothing is converted unless asked for', r == s.t)
        return
    one = joined_f(z3.Unit(wr_f(tabbed(ip, s.t, ts.t, pol.t))))
    h.ensure('whole tabs for the leading spaces, the rest of them as the '
             'policy says, then the line as it was', r == one)
