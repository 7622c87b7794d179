"""Contracts on the reflow of comments.

A line of text is known by its words (a sequence about which nothing is
assumed) and by its exact text up to blanks at its ends; marks (hash signs,
bullets, fences, rulers) are not words.
"""
import ast
import math
import re
import textwrap

import z3

from . import models as M
from . import parsing as P
from . import texts
from .contract import spec, bounded, ApplyContract, find
from .formatting import FMT, CfgHandler
from .models import TagHandler, memo, INT, BOOL
from .parsing import seq_measure, and_measure, EMPTY
from .values import *  # noqa

from cmakelang import common, lex, markup
from cmakelang.lex import TokenType
from cmakelang.parse import simple_nodes

MK = 'cmakelang.markup:'
S = z3.StringVal
CoreS = z3.DeclareSort('ExactText')
CoreSeq = z3.SeqSort(CoreS)
ex_f = z3.Function('prefixed', StrS, CoreS, CoreS)
lit_f = z3.Function('literal_words', StrS, TokSeq)
NOCORE = z3.Empty(CoreSeq)
XP = z3.Const('explicit_trailing_pattern', StrS)


def mk(ip, w, core=None, pref=None, sep=(False, False), hash=False,
       head=None):
    if core is None:
        core = ip.p.fresh(CoreS, 'text')
    o = Opaque('mline', 'line', w=w, core=core, pref=pref, sep=sep,
               hash=hash)
    o.attrs['$head'] = head
    return o


def exact(v, how):
    c, p = v.kw['core'], v.kw['pref']
    if how == 'exact':
        return c if p is None else ex_f(p, c)
    return ex_f(S('#') if how == 'hash' else XP, c)


def core_measure(name):
    return Measure(name, CoreSeq, NOCORE, lambda a, b: z3.Concat(a, b),
                   lambda ip, v: z3.Unit(exact(as_line(ip, v), name)))


def fresh_line(ip):
    return mk(ip, ip.p.fresh(TokSeq, 'words'))


MLINES = Kind('lines', [
    M.len_measure(), seq_measure('w', lambda ip, v: as_line(ip, v).kw['w']),
    core_measure('exact'), core_measure('hash'), core_measure('trail'),
], fresh_line)


def as_line(ip, v):
    """Any text as a line."""
    if isinstance(v, Opaque) and v.tag == 'mline':
        return v
    if isinstance(v, str):
        # a letter or digit makes a word
        w = lit_f(S(v)) if re.search(r'\w', v) else EMPTY
        return mk(ip, w, sep=(bool(re.match(r'\W', v)),
                              bool(re.search(r'\W$', v))))
    if isinstance(v, SStr):
        return mk(ip, EMPTY)        # marks, from the configuration
    raise Unsupported('not a text: %r' % (v,))


def concat(ip, a, b):
    x, y = as_line(ip, a), as_line(ip, b)
    wx, wy = x.kw['w'], y.kw['w']
    nx, ny = wx is EMPTY, wy is EMPTY
    if nx or ny or x.kw['sep'][1] or y.kw['sep'][0]:
        w = wx if ny else wy if nx else P.cat(wx, wy)
    else:
        w = ip.p.fresh(TokSeq, 'joined')
    core = pref = None
    if isinstance(a, str) and not a.strip(' '):
        core, pref = y.kw['core'], y.kw['pref']
    elif isinstance(b, str) and not b.strip(' '):
        core, pref = x.kw['core'], x.kw['pref']
    elif y.kw['pref'] is None and isinstance(a, (str, SStr)):
        core, pref = y.kw['core'], ip.strterm(a)
    return mk(ip, w, core, pref, (x.kw['sep'][0], y.kw['sep'][1]))


class LineTextHandler(TagHandler):
    def truth(self, ip, v):
        b = memo(v, '$truth', lambda: ip.p.fresh(BOOL, 'nonempty'))
        ip.p.assume(z3.Implies(z3.Not(b), v.kw['w'] == EMPTY))
        return b

    def eq(self, ip, v, other):
        if isinstance(other, Opaque) and other is v:
            return True
        return ip.p.fresh(BOOL, 'same_text')

    def length(self, ip, v):
        n = memo(v, '$len', lambda: ip.p.fresh(INT, 'length'))
        ip.p.assume(n >= 0)
        ip.p.assume((n > 0) == self.truth(ip, v))
        return SInt(n)

    def getitem(self, ip, v, key):
        if isinstance(key, slice):
            if key.step is not None:
                raise Unsupported('slice of a line')
            if key.start in (0, None) and key.stop is None:
                return v
            if key.stop is None and (key.start == 1 or isinstance(
                    key.start, SInt)):
                # without its first character(s)
                if v.kw['hash']:
                    return mk(ip, v.kw['w'], v.kw['core'], None)
                h = v.attrs.get('$head')
                w = ip.p.fresh(TokSeq, 'rest')
                if h is not None and key.start == 1:
                    ip.p.assume(z3.Implies(z3.Or(
                        h == S(' '), h == S('\t')), w == v.kw['w']))
                return mk(ip, w)
            if key.start in (0, None):
                w = ip.p.fresh(TokSeq, 'begin')
                o = mk(ip, w)
                if key.stop == 1:
                    t = self.truth(ip, v)
                    n = o.attrs['$len'] = ip.p.fresh(INT, 'length')
                    b = o.attrs['$truth'] = t
                    ip.p.assume(n == z3.If(t, 1, 0))
                return o
            raise Unsupported('slice of a line')
        if key == 0:
            if not ip.p.branch(self.truth(ip, v)):
                raise PyExc(IndexError)
            if v.attrs.get('$head') is None:
                v.attrs['$head'] = ip.p.fresh(StrS, 'first')
            return SStr(v.attrs['$head'])
        raise Unsupported('character of a line')

    def getattr(self, ip, v, name):
        def strip(ip, a, k):
            if not a:
                return mk(ip, v.kw['w'], v.kw['core'], v.kw['pref'],
                          hash=v.kw['hash'])
            if isinstance(a[0], str) and not re.search(r'\w', a[0]):
                return mk(ip, v.kw['w'])
            return mk(ip, ip.p.fresh(TokSeq, 'stripped'))
        if name in ('strip', 'rstrip', 'lstrip'):
            return Builtin(name, strip)
        if name in ('startswith', 'endswith', 'isspace'):
            return Builtin(name, lambda ip, a, k: SBool(
                ip.p.fresh(BOOL, name)))
        if name in ('upper', 'lower', 'replace', 'expandtabs'):
            return Builtin(name, lambda ip, a, k: mk(
                ip, ip.p.fresh(TokSeq, name)))
        raise Unsupported('%s of a line' % name)


def charset(items):
    """The characters a part of a pattern matches, if it is known to be
    one of few; the length is given by the caller."""
    out = []
    for op, av in items:
        n = str(op)
        if n == 'LITERAL':
            out.append({chr(av)})
        elif n == 'IN':
            cs = set()
            for o, a in av:
                if str(o) == 'LITERAL':
                    cs.add(chr(a))
                elif str(o) == 'CATEGORY' and str(a) == 'CATEGORY_SPACE':
                    cs.add(' ')
                elif str(o) == 'CATEGORY' and str(a) == 'CATEGORY_DIGIT':
                    cs.add('9')
                else:
                    return None
            out.append(cs)
        elif n in ('MAX_REPEAT', 'MIN_REPEAT'):
            sub = charset(av[2])
            if sub is None:
                return None
            out.append(set().union(*sub))
        elif n == 'AT':
            pass
        elif n == 'SUBPATTERN':
            sub = charset(av[3])
            if sub is None:
                return None
            out += sub
        else:
            return None
    return out


def anatomy(pattern):
    """(number of groups, does the last one hold all that is not a mark,
    the characters of each group if it is one of few).

    Marks are blanks and punctuation, and a number directly followed by
    one punctuation mark."""
    try:
        t = re._parser.parse(pattern)
    except re.error:
        return 0, False, {}
    groups = {}

    def walk(items):
        for op, av in items:
            if str(op) == 'SUBPATTERN':
                if av[0]:
                    groups[av[0]] = av[3]
                walk(av[3])
            elif str(op) in ('MAX_REPEAT', 'MIN_REPEAT'):
                walk(av[2])
    walk(t)
    n = t.state.groups - 1
    items = [x for x in t if str(x[0]) != 'AT']
    ok = bool(items) and str(items[-1][0]) == 'SUBPATTERN' and \
        items[-1][1][0] == n
    marks = charset(items[:-1]) if ok else None
    if marks is None:
        ok = False
    else:
        for i, cs in enumerate(marks):
            if cs == {'9'}:
                if i + 1 == len(marks) or any(
                        re.match(r'[\w\s]', c) for c in marks[i + 1]):
                    ok = False
            elif any(re.match(r'\w', c) for c in cs):
                ok = False
    few = {}
    for g, sub in groups.items():
        cs = charset(sub)
        if cs == [{' '}]:
            few[g] = 'blank'
        elif cs is not None and len(cs) == 1 and len(sub) == 1 and str(
                sub[0][0]) in ('IN', 'LITERAL') and not re.search(
                    r'[\w\s]', ''.join(cs[0])):
            few[g] = sorted(cs[0])
    return n, ok, few


class MMatchHandler(TagHandler):
    """A match: the last group is the content if the others can only match
    marks."""

    def truth(self, ip, v):
        return True

    def eq(self, ip, v, other):
        return False

    def getattr(self, ip, v, name):
        def group(ip, a, k):
            line = v.kw['line']
            if not a or a[0] == 0:
                return line
            if not isinstance(a[0], int):
                raise Unsupported('named group')
            n = v.kw['groups']
            if a[0] > n:
                raise PyExc(IndexError)
            if not v.kw['ok']:
                return memo(v, 'g%d' % a[0], lambda: mk(
                    ip, ip.p.fresh(TokSeq, 'group')))
            if a[0] == n:
                return mk(ip, line.kw['w'])
            few = v.kw['few'].get(a[0])
            if isinstance(few, list):
                return memo(v, 'g%d' % a[0], lambda: few[
                    ip.p.choose(len(few), 'mark')])
            if few == 'blank':
                return memo(v, 'g%d' % a[0], lambda: BLANK(ip))
            return memo(v, 'g%d' % a[0], lambda: mk(ip, EMPTY))
        if name == 'group':
            return Builtin(name, group)
        raise Unsupported('%s of a match' % name)


def fresh_item(ip):
    o = ip.new_obj(markup.CommentItem)
    o.fields.update(kind=ip.e.fresh_enum(ip, markup.CommentType, 'kind'),
                    indent=SInt(ip.p.fresh(INT, 'indent')),
                    lines=LList([MLINES.fresh_seg(ip.p, 'lines')],
                                ip.p.tick(), MLINES))
    return o


ITEMS = Kind('items', [
    M.len_measure(),
    seq_measure('w', lambda ip, v: ip.e.measure(
        ip, v.fields['lines'], 'w', MLINES)),
], fresh_item)


class WrapperHandler(TagHandler):
    """textwrap.TextWrapper: keeps the words (assumed)."""

    def getattr(self, ip, v, name):
        def wrap(ip, a, k):
            return wrapped(ip, a[0])
        if name == 'wrap':
            return Builtin(name, wrap)
        if name in ('initial_indent', 'subsequent_indent'):
            return v.kw.get(name, '')
        raise Unsupported('%s of a TextWrapper' % name)


def wrapped(ip, text):
    s = MLINES.fresh_seg(ip.p, 'wrapped')
    ip.p.assume(s.m['w'] == as_line(ip, text).kw['w'])
    return LList([s], ip.p.tick(), MLINES)


class MarkupEngine(texts.TextEngineMixin, M.Engine):
    def __init__(self):
        M.Engine.__init__(self)
        self.tags.update(mline=LineTextHandler(), mmatch=MMatchHandler(),
                         wrapper=WrapperHandler(),
                         mcfg=MarkupCfg(), ctok=CTokHandler())
        for i in range(5):
            self.tags['regex%d' % i] = M.RegexHandler()
            self.tags['wild%d' % i] = M.RegexHandler()
        cm = self.call_models
        cm[textwrap.TextWrapper] = self.wrapper
        cm[math.log] = lambda ip, a, k: Opaque('any', 'log')
        cm[math.ceil] = lambda ip, a, k: SInt(ip.p.fresh(INT, 'ceil'))
        self.candidate_fns += [self.cands, P.for_candidates]
        self.assume_note('textwrap.TextWrapper.wrap keeps the words of the '
                         'text and their order')
        self.assume_note('the last group of a configured fence pattern is '
                         'the content, what the other groups match are '
                         'marks (for the other patterns this is decided '
                         'from the pattern itself)')

    @staticmethod
    def wrapper(ip, a, k):
        for opt in ('break_long_words', 'break_on_hyphens'):
            ip.s.obligation(ip.p, 'words are not split (%s)' % opt,
                            z3.BoolVal(k.get(opt) is False))
        ip.s.obligation(ip.p, 'nothing is cut off', z3.BoolVal(
            k.get('max_lines') is None))
        return Opaque('wrapper', 'wrapper', **{
            n: k[n] for n in ('initial_indent', 'subsequent_indent')
            if n in k})

    def kind_of_value(self, ip, v):
        if isinstance(v, (str, SStr)) or isinstance(
                v, Opaque) and v.tag == 'mline':
            return MLINES
        if isinstance(v, Obj) and v.cls is markup.CommentItem:
            return ITEMS
        if isinstance(v, Opaque) and v.tag == 'ctok':
            return CTOKS
        return M.Engine.kind_of_value(self, ip, v)

    def binop(self, ip, op, a, b):
        ml = [x for x in (a, b) if isinstance(x, Opaque)
              and x.tag == 'mline']
        if isinstance(op, ast.Add) and ml:
            return concat(ip, a, b)
        if isinstance(op, ast.Mult) and any(
                isinstance(x, str) and not re.search(r'\w', x)
                for x in (a, b)) and (ip.is_sym(a) or ip.is_sym(b)):
            s = a if isinstance(a, str) else b
            return mk(ip, EMPTY, sep=(False, False))\
                if s.strip(' ') else BLANK(ip)
        return super(MarkupEngine, self).binop(ip, op, a, b)

    def str_method(self, ip, v, name):
        if name == 'join':
            def join(ip, a, k):
                lst = self.as_list(ip, a[0])
                kind = self.list_kind(ip, lst)
                if kind is MLINES and isinstance(v, str) and re.match(
                        r'\W+$', v):
                    return mk(ip, self.measure(ip, lst, 'w', MLINES))
                raise Unsupported('join')
            return Builtin('join', join)
        return super(MarkupEngine, self).str_method(ip, v, name)

    def regex_call(self, ip, pat, name, args):
        line = args[0]
        if name in ('match', 'search', 'fullmatch') and isinstance(
                line, Opaque) and line.tag == 'mline':
            if ip.p.choose(2, 'match') == 1:
                return None
            few = {}
            if isinstance(pat, re.Pattern):
                n, ok, few = anatomy(pat.pattern)
            elif isinstance(pat, Opaque) and re.match(
                    r'(regex|wild)\d$', pat.tag):
                n, ok = int(pat.tag[-1]), pat.tag.startswith('regex')
            else:
                raise Unsupported('unknown pattern')
            return Opaque('mmatch', 'match', line=line, groups=n, ok=ok,
                          few=few)
        return super(MarkupEngine, self).regex_call(ip, pat, name, args)

    def call_model(self, ip, f, args, kwargs):
        if f is re.compile:
            ps = texts.parts(ip, args[0])
            if len(ps) == 1 and isinstance(ps[0], texts.Atom):
                # an option of the configuration; the fence pattern is
                # assumed to have the form of the default one
                opt = args[0].t.decl().name() if z3.is_const(
                    args[0].t) else ''
                n = 2 if opt.startswith('fence') else 0
                ok = n == 2
            else:
                text = ''
                for x in ps:
                    if isinstance(x, texts.Atom):
                        v = x.v
                        if isinstance(v, Opaque) and v.tag == 'mline' and \
                                v.kw['w'] is EMPTY and v.kw['sep'] == (
                                    True, True):
                            x = r'\s*'
                        else:
                            x = r'.*'
                    text += x
                n, ok, few = anatomy(text)
            return (Opaque('%s%d' % ('regex' if ok else 'wild', n),
                           'regex'),)
        self_ = getattr(f, '__self__', None)
        if isinstance(self_, re.Pattern) and args and ip.is_sym(args[0]):
            return (self.regex_call(ip, self_, f.__name__, args),)
        return super(MarkupEngine, self).call_model(ip, f, args, kwargs)

    def loop_pre(self, ip, al):
        pre = {}
        for fi, n, v in P.frame_vars(al, ip):
            if isinstance(v, LList):
                k = self.list_kind(ip, v)
                if k is not None:
                    pre[n, fi] = {m: self.measure(ip, v, m, k)
                                  for m in k.measures}
        return pre

    def cands(self, ip, al, where):
        m = lambda v, x, k: ip.e.measure(ip, v, x, k)
        ls = [(fi, n, v, ip.e.list_kind(ip, v))
              for fi, n, v in P.frame_vars(al, ip) if isinstance(v, LList)]
        for fi, n, v, k in ls:
            if n.startswith('$') and not n.startswith('$acc'):
                continue
            if k not in (MLINES, ITEMS, None):
                continue
            for fj, n2, d, k2 in ls:
                if not n2.startswith('$done') or k2 not in (
                        MLINES, ITEMS, CTOKS, None):
                    continue
                pw = al.pre.get((n, fi), {}).get('w')
                w = m(d, 'w', k2 or MLINES)
                if pw is not None:
                    w = P.cat(pw, w)
                yield 'the words so far [%s,%s]' % (n, n2), m(
                    v, 'w', k or MLINES) == w
                if k is not ITEMS and k2 is not ITEMS:
                    for how in ('exact', 'hash', 'trail'):
                        pe = al.pre.get((n, fi), {}).get('exact')
                        e = m(d, how, k2 or MLINES)
                        if pe is not None:
                            e = z3.Concat(pe, e)
                        yield 'the exact lines so far [%s,%s,%s]' % (
                            n, n2, how), z3.Implies(
                                ip.p.ghost.get(how, z3.BoolVal(True)),
                                m(v, 'exact', k or MLINES) == e)
                if k2 in (MLINES, None) and k is not ITEMS:
                    yield 'as many lines [%s,%s]' % (n, n2), m(
                        v, 'n', MLINES) == m(d, 'n', MLINES)


def BLANK(ip):
    return mk(ip, EMPTY, sep=(True, True))


class MarkupCfg(CfgHandler):
    def getattr(self, ip, v, name):
        if name == 'explicit_trailing_pattern':
            return SStr(XP)
        if name in ('bullet_char', 'enum_char', 'fence_pattern',
                    'ruler_pattern'):
            return memo(v, name, lambda: SStr(ip.p.fresh(StrS, name)))
        if name == 'canonicalize_hashrulers':
            return memo(v, name, lambda: SBool(ip.p.fresh(BOOL, name)))
        if name == 'literal_comment_pattern':
            return memo(v, name, lambda: None if ip.p.choose(
                2, name) == 0 else SStr(ip.p.fresh(StrS, name)))
        if name in ('format', 'markup'):
            return memo(v, name, lambda: Opaque('mcfg', name))
        return CfgHandler.getattr(self, ip, v, name)


def lines_of(h, name='lines'):
    return LList([MLINES.fresh_seg(h.p, name)], 0, MLINES)


@spec('markup', MK + 'parse', MarkupEngine)
def parse(h):
    """The items hold the words of the lines, in order."""
    ip = h.ip
    lines = lines_of(h)
    cfg = None if h.p.choose(2, 'config') == 0 else Opaque('mcfg', 'config')
    r = h.call(lines, cfg)
    h.ensure('the items hold the words of the lines, in order',
             ip.e.measure(ip, r, 'w', ITEMS) ==
             ip.e.measure(ip, lines, 'w', MLINES))


@spec('markup', 'cmakelang.common:stable_wrap', MarkupEngine)
def stable_wrap(h):
    """Wraps until nothing changes: the words stay."""
    ip = h.ip
    t = fresh_line(ip)
    r = h.call(Opaque('wrapper', 'wrapper'), t)
    h.ensure('the words of the text, in order',
             ip.e.measure(ip, r, 'w', MLINES) == t.kw['w'])


class FormatItemEngine(MarkupEngine):
    def __init__(self):
        MarkupEngine.__init__(self)

        def sw(ip, ba):
            ip.s.used_contracts.add('stable_wrap')
            return wrapped(ip, ba['paragraph_text'])
        self.contracts[find('cmakelang.common:stable_wrap')] = \
            ApplyContract(sw)


@spec('markup', MK + 'format_item', FormatItemEngine)
def format_item(h):
    """The lines hold the words of the item."""
    ip = h.ip
    kinds = sorted(markup.CommentType._id_map)
    kind = markup.CommentType._id_map[kinds[h.p.choose(len(kinds), 'kind')]]
    lines = lines_of(h)
    w = ip.e.measure(ip, lines, 'w', MLINES)
    if kind in (markup.CommentType.SEPARATOR, markup.CommentType.FENCE):
        # what the parser puts into such items: nothing, or the fence
        h.p.assume(w == EMPTY)
    o = h.obj(markup.CommentItem, kind=kind, indent=h.int('indent'),
              lines=lines)
    r = h.call(Opaque('mcfg', 'config'), h.int('line_width'), o)
    h.ensure('%s: the words of the item, in order' % kind.name,
             ip.e.measure(ip, ip.e.as_list(ip, r), 'w', MLINES) == w)


class FormatItemsEngine(MarkupEngine):
    def __init__(self):
        MarkupEngine.__init__(self)

        def fi(ip, ba):
            ip.s.used_contracts.add('format_item')
            s = MLINES.fresh_seg(ip.p, 'formatted')
            ip.p.assume(s.m['w'] == ip.e.measure(
                ip, ba['item'].fields['lines'], 'w', MLINES))
            return LList([s], ip.p.tick(), MLINES)
        self.contracts[find(MK + 'format_item')] = ApplyContract(fi)


@spec('markup', MK + 'format_items', FormatItemsEngine)
def format_items(h):
    ip = h.ip
    items = LList([ITEMS.fresh_seg(h.p, 'items')], 0, ITEMS)
    r = h.call(Opaque('mcfg', 'config'), h.int('line_width'), items)
    h.ensure('the words of the items, in order', ip.e.measure(
        ip, r, 'w', MLINES) == ip.e.measure(ip, items, 'w', ITEMS))


# ------------------------------------------- from tokens to lines and back
class CTokHandler(TagHandler):
    """A token of a comment."""

    def truth(self, ip, v):
        return True

    def isinstance(self, ip, v, cls):
        cs = cls if isinstance(cls, tuple) else (cls,)
        return lex.Token in cs

    def eq(self, ip, v, other):
        return v is other

    def getattr(self, ip, v, name):
        if name in v.kw:
            return v.kw[name]
        raise Unsupported('%s of a token' % name)


def fresh_ctok(ip):
    line = mk(ip, ip.p.fresh(TokSeq, 'words'), hash=True)
    return Opaque('ctok', 'token', spelling=line, type=ip.e.fresh_enum(
        ip, TokenType, 'type'))


def if_comment(v, a, b):
    return z3.If(v.kw['type'].t == TokenType.COMMENT.value, a, b)


CTOKS = Kind('tokens', [
    M.len_measure(),
    seq_measure('w', lambda ip, v: if_comment(
        v, v.kw['spelling'].kw['w'], EMPTY)),
] + [Measure(how, CoreSeq, NOCORE, lambda a, b: z3.Concat(a, b),
             lambda ip, v, how=how: if_comment(v, z3.Unit(exact(
                 v.kw['spelling'], how)), NOCORE))
     for how in ('exact', 'hash', 'trail')], fresh_ctok)


def comment_node(h):
    toks = LList([CTOKS.fresh_seg(h.p, 'tokens')], 0, CTOKS)
    if h.p.choose(2, 'node') == 0:
        n = h.obj(simple_nodes.CommentNode, children=toks,
                  is_explicit_trailing=h.bool('explicit_trailing'))
    else:
        n = h.obj(find_tree_node(), children=toks)
    return n, toks


def find_tree_node():
    from cmakelang.parse.common import TreeNode
    return TreeNode


@spec('markup', FMT + 'get_comment_lines', MarkupEngine)
def get_comment_lines(h):
    """One line for each comment token: its text without the hash signs."""
    ip = h.ip
    n, toks = comment_node(h)
    cfg = Opaque('mcfg', 'config')
    on = ip.getattr(ip.getattr(cfg, 'markup'), 'enable_markup').t
    h.p.ghost['exact'] = z3.Not(on)
    r = h.call(cfg, n)
    m = lambda v, x, k: ip.e.measure(ip, v, x, k)
    h.ensure('the words of the comments, in order',
             m(r, 'w', MLINES) == m(toks, 'w', CTOKS))
    h.ensure('the exact texts without markup', z3.Implies(
        z3.Not(on), m(r, 'exact', MLINES) == m(toks, 'exact', CTOKS)))


class CommentLinesEngine(MarkupEngine):
    def __init__(self):
        MarkupEngine.__init__(self)

        def gl(ip, ba):
            ip.s.used_contracts.add('get_comment_lines')
            return ip.p.ghost['inlines']

        def parse(ip, ba):
            ip.s.used_contracts.add('markup.parse')
            s = ITEMS.fresh_seg(ip.p, 'items')
            ip.p.assume(s.m['w'] == ip.e.measure(
                ip, ba['lines'], 'w', MLINES))
            return LList([s], ip.p.tick(), ITEMS)

        def fi(ip, ba):
            ip.s.used_contracts.add('markup.format_items')
            s = MLINES.fresh_seg(ip.p, 'formatted')
            ip.p.assume(s.m['w'] == ip.e.measure(
                ip, ba['items'], 'w', ITEMS))
            return LList([s], ip.p.tick(), MLINES)
        for addr, f in ((FMT + 'get_comment_lines', gl),
                        (MK + 'parse', parse), (MK + 'format_items', fi)):
            self.contracts[find(addr)] = ApplyContract(f)


@spec('markup', FMT + 'format_comment_lines', CommentLinesEngine)
def format_comment_lines(h):
    """The words of the comment; without markup its exact lines."""
    ip = h.ip
    n, toks = comment_node(h)
    h.p.assume(ip.len_term(toks) > 0)
    first = ip.e.list_get(ip, toks, 0)
    cfg = Opaque('mcfg', 'config')
    ctx = Opaque('any', 'stack_context')
    ctx.attrs['config'] = cfg
    ctx.attrs['first_token'] = (first, fresh_ctok(ip))[
        h.p.choose(2, 'first')]
    lines = h.p.ghost['inlines'] = lines_of(h, 'inlines')
    t = n.fields.get('is_explicit_trailing')
    t = z3.BoolVal(False) if t is None else t.t
    h.p.ghost.update(trail=t, hash=z3.Not(t))
    r = h.call(n, ctx, h.int('line_width'))
    m = lambda v, x: ip.e.measure(ip, v, x, MLINES)
    h.ensure('the words of the comment, in order', m(r, 'w')
             == m(lines, 'w'))
    on = ip.getattr(ip.getattr(cfg, 'markup'), 'enable_markup').t
    h.ensure('without markup: the exact lines, behind the mark of a comment',
             z3.Implies(z3.Not(on), m(r, 'exact') == z3.If(
                 t, m(lines, 'trail'), m(lines, 'hash'))))
