"""Contracts on the linter.

What is reported is observed at an arbitrary but fixed place: the recorder
counts, per code, the lint recorded at one line (or one token) about which
nothing is assumed, so a statement about that place holds for all of them.
"""
import re

import z3

from . import contract, models as M
from . import parsing as P
from .contract import spec, bounded, ApplyContract, find
from .models import TagHandler, memo, INT, BOOL
from .values import *  # noqa

from cmakelang import configuration
from cmakelang.lint import basic_checker as BC
from cmakelang.lint import lint_util as LU

LINT = 'cmakelang.lint.'
CHK = LINT + 'basic_checker:LintChecker.'
S = z3.StringVal



class RecorderHandler(TagHandler):
    """The lint context of a file, by the contract of record_lint (without
    suppressions): one record with the given code and location."""

    def truth(self, ip, v):
        return True

    def getattr(self, ip, v, name):
        if name == 'record_lint':
            return Builtin(name, lambda ip, a, k: record(ip, v, a, k))
        raise Unsupported('%s of the lint context' % name)


def record(ip, v, a, k):
    ip.s.used_contracts.add('FileContext.record_lint')
    code = a[0]
    if not isinstance(code, str):
        raise Unsupported('symbolic lint code')
    hit = ip.p.ghost['hit'](k.get('location', ()))
    key = '#' + code
    if key not in v.attrs:
        raise Unsupported('lint code %s is not watched' % code)
    ip.note_write(v, key)
    v.attrs[key] = SInt(v.attrs[key].t + z3.If(hit, 1, 0))


def recorder(h, codes):
    v = Opaque('lintctx', 'local_ctx')
    for c in codes:
        v.attrs['#' + c] = SInt(z3.IntVal(0))
    h.p.ghost['rec'] = v
    h.may_modify(v)
    return v


def count(h, code):
    return h.p.ghost['rec'].attrs['#' + code].t


def loc_line(ip, loc):
    """The line of a location (a tuple or a source location)."""
    if isinstance(loc, tuple):
        return ip.intterm(loc[0]) if loc else z3.IntVal(-1)
    if isinstance(loc, Obj) and loc.fields.get('__items__'):
        return ip.intterm(loc.fields['__items__'][0])
    if isinstance(loc, Opaque) and loc.tag == 'loc':
        return ip.intterm(ip.getattr(loc, 'line'))
    raise Unsupported('location %r' % (loc,))


def idx_vars(ip, al):
    for fi, n, v in P.frame_vars(al, ip):
        if n.startswith('$idx'):
            yield fi, n, ip.intterm(v)


def idx_is_done(ip, al, fi, n, k):
    done = al.frames[fi].locals['$done' + n[4:]]
    return 'the index is the number of elements so far [%s]' % n, (
        k == ip.len_term(done))


class SomeConfig(M.AnyHandler):
    """Options are unknown constants."""

    def __init__(self, ints=(), strs=(), bools=(), fixed=None):
        self.t = {}
        for n in ints:
            self.t[n] = lambda ip, n: SInt(z3.Const('cfg.' + n, INT))
        for n in strs:
            self.t[n] = lambda ip, n: SStr(z3.Const('cfg.' + n, StrS))
        for n in bools:
            self.t[n] = lambda ip, n: SBool(z3.Const('cfg.' + n, BOOL))
        self.fixed = fixed or {}

    def truth(self, ip, v):
        return True

    def getattr(self, ip, v, name):
        if name in self.fixed:
            return self.fixed[name](ip)
        if name in self.t:
            return self.t[name](ip, name)
        return memo(v, name, lambda: Opaque(v.tag, name))


class LintEngine(M.Engine):
    def __init__(self):
        M.Engine.__init__(self)
        self.tags['lintctx'] = RecorderHandler()
        self.tags['lcfg'] = SomeConfig()
        self.tags['match'] = M.MatchHandler()
        self.tags['regex'] = M.RegexHandler()

    def skip_call(self, ip, f):
        return M.Engine.skip_call(self, ip, f)

    def loop_pre(self, ip, al):
        pre = {}
        for fi, n, v in P.frame_vars(al, ip):
            if isinstance(v, LList):
                k = self.list_kind(ip, v)
                if k is not None:
                    pre[n, fi] = {m: self.measure(ip, v, m, k)
                                  for m in k.measures}
        rec = ip.p.ghost.get('rec')
        if rec is not None:
            for k, v in rec.attrs.items():
                pre[k] = v.t
        return pre


# ------------------------------------------------- C12: line level checks
LineS = z3.DeclareSort('Line')
X = z3.Const('X', INT)              # an arbitrary line number
LX = z3.Const('lineX', LineS)       # and what is on it
NL = z3.Const('nlines', INT)
TEXT = z3.Const('text', StrS)
lf = lambda n, *s: z3.Function(n, LineS, *s)
chop_f, rst_f, ind_f, ltab_f = (lf(n, LineS) for n in (
    'without_last_char', 'without_trailing_blanks', 'leading_blanks',
    'without_leading_tabs'))
len_f = lf('line_length', INT)
cr_f = lf('ends_with_cr', BOOL)
has_f = {c: lf('contains_' + n, BOOL) for c, n in (
    ('\t', 'tab'), (' ', 'blank'), (' \t', 'blank_tab'))}
LINES = M.simple_kind('lines', lambda ip: mk_line(ip.p.fresh(LineS, 'line')))
C12CODES = ('C0327', 'C0301', 'C0303', 'C0306', 'C0304')


def mk_line(t):
    return Opaque('line', 'line', t=t)


class LineHandler(TagHandler):
    """A line of the text: a string of which only some predicates matter."""
    isa = (str,)
    pyclass = str

    def length(self, ip, v):
        t = len_f(v.kw['t'])
        ip.p.assume(t >= 0)
        return SInt(t)

    def truth(self, ip, v):
        return ip.intterm(self.length(ip, v)) != 0

    def eq(self, ip, v, other):
        if isinstance(other, Opaque) and other.tag == 'line':
            return v.kw['t'] == other.kw['t']
        raise Unsupported('comparison of a line')

    def contains(self, ip, v, item):
        if isinstance(item, str) and item in has_f:
            return has_f[item](v.kw['t'])
        raise Unsupported('membership in a line')

    def getitem(self, ip, v, key):
        if isinstance(key, slice) and key == slice(None, -1, None):
            return mk_line(chop_f(v.kw['t']))
        raise Unsupported('part of a line')

    def getattr(self, ip, v, name):
        t = v.kw['t']

        def endswith(ip, a, k):
            if a[0] != '\r':
                raise Unsupported('endswith')
            return SBool(cr_f(t))

        def rstrip(ip, a, k):
            if list(a) == ['\r']:
                raise Unsupported('rstrip')
            if a:
                raise Unsupported('rstrip')
            r = rst_f(t)
            ip.p.assume(z3.And(
                len_f(r) <= len_f(t),
                (len_f(r) == len_f(t)) == (r == t)))
            return mk_line(r)

        def lstrip(ip, a, k):
            if list(a) != ['\t'] or not t.decl().eq(ind_f):
                raise Unsupported('lstrip')
            r = ltab_f(t)
            # for runs of blanks and tabs (lemma below)
            ip.p.assume(has_f['\t'](r) == has_f[' \t'](t))
            return mk_line(r)

        def find(ip, a, k):
            return SInt(ip.p.fresh(INT, 'find'))
        table = dict(endswith=endswith, rstrip=rstrip, lstrip=lstrip,
                     find=find, index=find)
        if name in table:
            return Builtin(name, table[name])
        raise Unsupported('%s of a line' % name)


def c12_spec():
    last = X == NL
    le = z3.Const('cfg.line_ending', StrS)
    crlf = cr_f(LX)
    # the line without the carriage return of its ending
    b = z3.If(z3.And(z3.Not(last), crlf), chop_f(LX), LX)
    ind = ind_f(b)
    tabs = z3.Const('cfg.use_tabchars', BOOL)
    up = z3.Const('cfg.fractional_tab_policy', StrS) == S('round-up')
    bad = z3.If(z3.Not(tabs), has_f['\t'](ind), z3.If(
        up, has_f[' '](ind), has_f[' \t'](ind)))
    return {
        'C0327': z3.And(z3.Not(last), z3.Or(
            z3.And(crlf, le == S('unix')),
            z3.And(z3.Not(crlf), le == S('windows')))),
        'C0301': len_f(b) > z3.Const('cfg.line_width', INT),
        'C0303': rst_f(b) != b,
        'C0306': bad,
    }


class BasicsEngine(LintEngine):
    def __init__(self):
        LintEngine.__init__(self)
        self.tags['line'] = LineHandler()
        self.tags['lcfg'] = SomeConfig(
            ints=('line_width',), strs=('line_ending',
                                        'fractional_tab_policy'),
            bools=('use_tabchars',))
        self.candidate_fns += [self.cands, P.for_candidates]
        self.assume_note(
            'str.split(chr(10)) yields the lines of the text, the pattern '
            '([ \\t]*)(.*) matches the leading blanks and tabs of a line; '
            'rstrip removes a suffix')

    def kind_of_value(self, ip, v):
        if isinstance(v, Opaque) and v.tag == 'line':
            return LINES
        return LintEngine.kind_of_value(self, ip, v)

    def cands(self, ip, al, where):
        rec = ip.p.ghost['rec']
        sp = c12_spec()
        for fi, n, k in idx_vars(ip, al):
            yield idx_is_done(ip, al, fi, n, k)
            for c in sp:
                yield '%s on line X is counted so far [%s]' % (c, n), (
                    rec.attrs['#' + c].t == al.pre['#' + c] + z3.If(
                        z3.And(X >= 1, X <= k, sp[c]), 1, 0))
            yield 'C0304 is not touched [%s]' % n, rec.attrs[
                '#C0304'].t == al.pre['#C0304']

    def on_iter(self, ip, mark, idx, v):
        if mark == 'lines':
            i = ip.intterm(idx)
            ip.p.assume(z3.Implies(i + 1 == X, v.kw['t'] == LX))

    def str_method(self, ip, v, name):
        if isinstance(v, SStr) and name == 'split':
            def split(ip, a, k):
                if k or len(a) != 1 or a[0] != '\n' or not v.t.eq(TEXT):
                    raise Unsupported('split of something else')
                seg = LINES.fresh_seg(ip.p, 'lines')
                ip.p.assume(z3.And(seg.m['n'] == NL, NL >= 1))
                out = LList([seg], ip.p.tick(), LINES)
                out.mark = ('lines', seg)
                return out
            return Builtin('split', split)
        return LintEngine.str_method(self, ip, v, name)

    def regex_call(self, ip, pat, name, args):
        x = args[0]
        if isinstance(pat, re.Pattern) and name == 'match' and \
                pat.pattern in (r'([ \t]*)(.*)', r'([ \t]*)') and \
                isinstance(x, Opaque) and x.tag == 'line':
            m = Opaque('match', 'm', pat=pat, arg=x)
            m.attrs['g(1,)'] = m.attrs['g[1]'] = mk_line(ind_f(x.kw['t']))
            return m
        return LintEngine.regex_call(self, ip, pat, name, args)


@spec('lines', CHK + 'check_basics', BasicsEngine)
def check_basics(h):
    """On every line, exactly the line defects of that line."""
    ip = h.ip
    h.p.ghost['hit'] = lambda loc: loc_line(ip, loc) == X
    rec = recorder(h, C12CODES)
    chk = h.obj(BC.LintChecker, cfg=Opaque('lcfg', 'cfg'), local_ctx=rec,
                _node_stack=LList([], 0), _indent_token=None)
    h.call(chk, SStr(TEXT))
    # The lemma used for lstrip: in a run of blanks and tabs of length n
    # that starts with exactly k tabs, a tab is left after them exactly if
    # one follows a blank.  tab(i): the i-th is a tab; j: the least index
    # from k on with a tab, when there is one.
    tab = z3.Function('tab', INT, BOOL)
    n, k, j, i = z3.Ints('len k j i')
    pre = z3.And(0 <= k, k <= n,
                 z3.ForAll(i, z3.Implies(z3.And(0 <= i, i < k), tab(i))),
                 z3.Implies(k < n, z3.Not(tab(k))))
    h.ensure('lemma: a tab that is left follows a blank', z3.Implies(
        z3.And(pre, k <= j, j < n, tab(j), z3.ForAll(i, z3.Implies(
            z3.And(k <= i, i < j), z3.Not(tab(i))))),
        z3.And(j - 1 >= 0, z3.Not(tab(j - 1)), tab(j))))
    h.ensure('lemma: a tab that follows a blank is left', z3.Implies(
        z3.And(pre, 0 <= j, j + 1 < n, z3.Not(tab(j)), tab(j + 1)),
        j + 1 >= k))
    on = z3.And(X >= 1, X <= NL)
    for c, t in c12_spec().items():
        h.ensure('%s exactly on the lines with the defect' % c,
                 count(h, c) == z3.If(z3.And(on, t), 1, 0))
    h.ensure('C0304 exactly if the last line has no ending',
             count(h, 'C0304') == z3.If(z3.And(
                 X == NL, z3.Not(z3.SuffixOf(S('\n'), TEXT))), 1, 0))


# ------------------------------------------------------- one linted file
from . import effects as EF      # noqa
from .effects import Ev, log, endl_of, det_f, same   # noqa
LM = LINT + '__main__:'


class LintProcessEngine(EF.ProcessEngine):
    def __init__(self):
        EF.ProcessEngine.__init__(self)
        self.tags['checker'] = CheckerHandler()
        self.tags['cfg'] = CfgCopyHandler()
        self.tags['product'] = TreeHandler()
        self.assumptions.clear()
        self.assume_note('lint.process_file only hands tokens and tree on')

    def call_model(self, ip, f, args, kwargs):
        if f is BC.LintChecker:
            c = Opaque('checker', 'checker', cfg=args[0], ctx=args[1])
            return (c,)
        return EF.ProcessEngine.call_model(self, ip, f, args, kwargs)


class TreeHandler(EF.ProductHandler):
    def getattr(self, ip, v, name):
        if name == 'build_ancestry':
            return Builtin(name, lambda ip, a, k: log(
                ip, Ev('build_ancestry', v)))
        return EF.ProductHandler.getattr(self, ip, v, name)


class CfgCopyHandler(EF.CfgValueHandler):
    """Assignments to options: straight-line code only."""

    def setattr(self, ip, v, name, val):
        if ip.active:
            raise Unsupported('option assigned in a loop')
        v.attrs[name] = SStr(ip.strterm(val))


class CheckerHandler(TagHandler):
    def truth(self, ip, v):
        return True

    def getattr(self, ip, v, name):
        return Builtin(name, lambda ip, a, k: log(
            ip, Ev(name, v, *(list(a) + list(k.values())))))


@spec('lintfile', LM + 'process_file', LintProcessEngine)
def lint_process_file(h):
    """All the checks are run on the text, its tokens and its tree, with the
    configured line ending or the one that was detected."""
    ip = h.ip
    T = h.p.ghost['T'] = []
    cfg = Opaque('cfg', 'config')
    le = ip.getattr(ip.getattr(cfg, 'format'), 'line_ending').t
    text = h.str('infile_content')
    ctx = Opaque('any', 'local_ctx')
    h.call(cfg, ctx, text)
    ops = [e.op for e in T]
    for op in ('check_basics', 'check_tokens', 'check_parse_tree',
               'tokenize', 'parse'):
        h.ensure('%s happens once' % op, ops.count(op) == 1)
        if ops.count(op) != 1:
            return
    ev = {e.op: e for e in T}
    for op in ('check_basics', 'check_tokens', 'check_parse_tree'):
        c = ev[op].args[0]
        h.ensure('%s reports to the context of the file' % op,
                 c.kw['ctx'] is ctx)
        h.ensure('%s with the line ending configured or detected' % op,
                 ip.getattr(ip.getattr(c.kw['cfg'], 'format'),
                            'line_ending').t == z3.If(
                     le == S('auto'), det_f(text.t), le))
    h.ensure('the tokens are checked before the parser consumes them',
             ops.index('check_tokens') < ops.index('parse'))
    h.ensure('the lines of the text itself', same(
        h, ev['check_basics'].args[1], text))
    h.ensure('the text itself is tokenized', same(
        h, ev['tokenize'].args[0], text))
    h.ensure('the tokens of the text', ev['check_tokens'].args[1]
             is ev['tokenize'].result)
    h.ensure('the tokens of the text are parsed', ev['parse'].args[0]
             is ev['tokenize'].result)
    h.ensure('the tree of the tokens', ev['check_parse_tree'].args[1]
             is ev['parse'].result)
    anc = [e for e in T if e.op == 'build_ancestry']
    h.ensure('the nodes of the tree know their parents by then', any(
        e.args[0] is ev['parse'].result and
        T.index(e) < ops.index('check_parse_tree') for e in anc))
    h.ensure('the caller\'s configuration keeps its line ending',
             ip.getattr(ip.getattr(cfg, 'format'), 'line_ending').t == le)


# ------------------------------------------------ C11: lint suppressions
class AnyArg:
    def __format__(self, how):
        return ''


@bounded('lintfile', LINT + 'lintdb:get_database', 'messages of the findings',
         'places of the source that report a finding by a literal code')
def messages(fn):
    """Wherever a finding is reported with a literal code, that code exists
    and its message takes no more arguments than are given: else the linter
    fails instead of reporting it."""
    import ast
    import os
    import cmakelang
    top = os.path.dirname(cmakelang.__file__)
    db = fn()
    n, bad = 0, None
    for d, ds, fs in sorted(os.walk(top)):
        ds[:] = sorted(x for x in ds if 'test' not in x and 'templ' not in x)
        for f in sorted(fs):
            if not f.endswith('.py'):
                continue
            try:
                with open(os.path.join(d, f), encoding='utf-8') as fd:
                    tree = ast.parse(fd.read())
            except (SyntaxError, ValueError):
                continue
            for c in ast.walk(tree):
                if not (isinstance(c, ast.Call) and c.args
                        and isinstance(c.func, ast.Attribute)
                        and c.func.attr == 'record_lint'
                        and isinstance(c.args[0], ast.Constant)
                        and not any(isinstance(a, ast.Starred)
                                    for a in c.args)
                        and all(k.arg for k in c.keywords)):
                    continue
                n += 1
                code = c.args[0].value
                try:
                    db[code].msgfmt.format(
                        *[AnyArg()] * (len(c.args) - 1),
                        **{k.arg: AnyArg() for k in c.keywords})
                except (LookupError, ValueError, TypeError) as e:
                    bad = bad or '%s:%d reports %s: %s' % (
                        os.path.relpath(os.path.join(d, f), top), c.lineno,
                        code, e or type(e).__name__)
    return n, bad


LCTX = LINT + 'lint_util:FileContext.'
C = z3.Const('C', StrS)             # an arbitrary lint code
RidS = z3.DeclareSort('RecordId')
RID = z3.Const('R', RidS)           # an arbitrary record ...
rid_line = z3.Function('record_line', RidS, INT)
rid_code = z3.Function('record_code', RidS, StrS)
XR = rid_line(RID)                  # ... its line (-1: none) and code

# what is known about the order of a run of numbers
OrdS = z3.Datatype('Ord')
OrdS.declare('ord', ('empty', BOOL), ('ok', BOOL), ('lo', INT), ('hi', INT))
OrdS = OrdS.create()
ORD0 = OrdS.ord(True, True, 0, 0)


def ord_op(a, b):
    E, OK, LO, HI = OrdS.empty, OrdS.ok, OrdS.lo, OrdS.hi
    mn = z3.If(LO(a) <= LO(b), LO(a), LO(b))
    mx = z3.If(HI(a) >= HI(b), HI(a), HI(b))
    return z3.If(E(a), b, z3.If(E(b), a, OrdS.ord(
        False, z3.And(OK(a), OK(b), HI(a) <= LO(b)), mn, mx)))


def ord_measure(of):
    return Measure('ord', OrdS, ORD0, ord_op, lambda ip, v: OrdS.ord(
        False, True, of(ip, v), of(ip, v)))


def sum_measure(name, of):
    m = Measure(name, INT, z3.IntVal(0), lambda a, b: a + b, of)
    m.commutative = True
    return m


def ord_side(p, seg, m='ord'):
    """Facts true of every run: bounds; one element is ordered."""
    o = seg.m[m]
    p.assume(OrdS.empty(o) == (seg.m['n'] == 0))
    p.assume(z3.Implies(z3.Not(OrdS.empty(o)), OrdS.lo(o) <= OrdS.hi(o)))


# lists of codes: how often C is in them
IDS = Kind('ids', [M.len_measure(), sum_measure(
    'c', lambda ip, v: z3.If(ip.strterm(v) == C, 1, 0))],
    lambda ip: SStr(ip.p.fresh(StrS, 'id')),
    lambda p, seg: p.assume(z3.And(seg.m['c'] >= 0,
                                   seg.m['c'] <= seg.m['n'])))


def ids_list(ip, name='ids'):
    return LList([IDS.fresh_seg(ip.p, name)], 0, IDS)


class EventHandler(TagHandler):
    """A SuppressionEvent made by suppress or unsuppress."""

    def truth(self, ip, v):
        return True

    def getattr(self, ip, v, name):
        if name in v.kw:
            return v.kw[name]
        raise Unsupported('%s of a suppression event' % name)

    def getitem(self, ip, v, key):
        return (v.kw['lineno'], v.kw['mode'], v.kw['suppressions'])[key]


def fresh_event(ip):
    mode = SStr(ip.p.fresh(StrS, 'mode'))
    ip.p.assume(z3.Or(mode.t == S('add'), mode.t == S('remove')))
    line = SInt(ip.p.fresh(INT, 'lineno'))
    ip.p.assume(line.t >= 1)
    return Opaque('event', 'event', lineno=line, mode=mode,
                  suppressions=ids_list(ip))


def ev_net(ip, v):
    if isinstance(v, Obj):
        line, mode, ids = v.fields['__items__']
    else:
        line, mode, ids = (v.kw[k] for k in ('lineno', 'mode',
                                             'suppressions'))
    n = ip.e.measure(ip, ids, 'c', IDS)
    return ip.intterm(line), z3.If(
        ip.strterm(mode) == S('add'), n, -n)


def ev_netx(ip, v):
    line, n = ev_net(ip, v)
    return z3.If(line <= XR, n, 0)


def ev_side(p, seg):
    ord_side(p, seg)
    o = seg.m['ord']
    p.assume(z3.Implies(OrdS.hi(o) <= XR, seg.m['netx'] == seg.m['net']))
    p.assume(z3.Implies(OrdS.lo(o) > XR, seg.m['netx'] == 0))
    p.assume(z3.Implies(OrdS.empty(o), seg.m['netx'] == 0))
    p.assume(z3.Or(OrdS.empty(o), OrdS.lo(o) >= 1))


EVENTS = Kind('events', [
    M.len_measure(), sum_measure('net', lambda ip, v: ev_net(ip, v)[1]),
    sum_measure('netx', ev_netx),
    ord_measure(lambda ip, v: ev_net(ip, v)[0])], fresh_event, ev_side)


class RecordHandler(TagHandler):
    """A lint record."""

    def truth(self, ip, v):
        return True

    def getattr(self, ip, v, name):
        if name == 'location':
            return Opaque('rloc', 'location', rid=v.kw['rid'])
        if name == 'spec':
            return Opaque('rspec', 'spec', rid=v.kw['rid'])
        raise Unsupported('%s of a lint record' % name)


class RlocHandler(TagHandler):
    def truth(self, ip, v):
        return rid_line(v.kw['rid']) >= 0

    def getitem(self, ip, v, key):
        if key != 0:
            raise Unsupported('part of a location')
        return SInt(rid_line(v.kw['rid']))


class RspecHandler(TagHandler):
    def getattr(self, ip, v, name):
        if name == 'idstr':
            return SStr(rid_code(v.kw['rid']))
        raise Unsupported('%s of a lint spec' % name)


def fresh_rec(ip):
    r = ip.p.fresh(RidS, 'rec')
    ip.p.assume(z3.Or(rid_line(r) == -1, rid_line(r) >= 1))
    return Opaque('record', 'record', rid=r)


def rec_of(v):
    if isinstance(v, tuple):
        for x in v:
            if isinstance(x, Opaque) and x.tag == 'record':
                return x.kw['rid']
        raise Unsupported('sort key without a record')
    return v.kw['rid']


def rec_kind(name, fresh):
    return Kind(name, [
        M.len_measure(),
        sum_measure('tgt', lambda ip, v: z3.If(rec_of(v) == RID, 1, 0)),
        ord_measure(lambda ip, v: rid_line(rec_of(v)))], fresh, rec_side)


def rec_side(p, seg):
    ord_side(p, seg)
    p.assume(z3.And(seg.m['tgt'] >= 0, seg.m['tgt'] <= seg.m['n']))
    p.assume(z3.Implies(seg.m['tgt'] > 0, z3.And(
        z3.Not(OrdS.empty(seg.m['ord'])), OrdS.lo(seg.m['ord']) <= XR,
        XR <= OrdS.hi(seg.m['ord']))))


RECS = rec_kind('records', fresh_rec)


def fresh_keyed(ip):
    r = fresh_rec(ip)
    g = ip.getattr
    return (g(r, 'location'), g(g(r, 'spec'), 'idstr'),
            SInt(ip.p.fresh(INT, 'idx')), r)


KEYED = rec_kind('keyed records', fresh_keyed)


class CounterHandler(TagHandler):
    """defaultdict(int): the count of C, which starts at 0."""

    def truth(self, ip, v):
        raise Unsupported('truth of a counter')

    def getitem(self, ip, v, key):
        if ip.p.branch(ip.strterm(key) == C):
            return v.attrs['C']
        return SInt(ip.p.fresh(INT, 'count'))

    def setitem(self, ip, v, key, val):
        if ip.p.branch(ip.strterm(key) == C):
            ip.note_write(v, 'C')
            v.attrs['C'] = SInt(ip.intterm(val))

    def getattr(self, ip, v, name):
        if name == 'get':
            def get(ip, a, k):
                return self.getitem(ip, v, a[0])
            return Builtin(name, get)
        raise Unsupported('%s of a counter' % name)


class IdSetHandler(TagHandler):
    """A set of codes of which only the membership of C is known."""

    def truth(self, ip, v):
        raise Unsupported('truth of a set of codes')

    def contains(self, ip, v, item):
        t = ip.strterm(item)
        other = ip.p.fresh(BOOL, 'other_in')
        return z3.If(t == C, v.attrs['C'].t, other)

    def getattr(self, ip, v, name):
        def put(val):
            def m(ip, a, k):
                ip.note_write(v, 'C')
                t = ip.strterm(a[0])
                v.attrs['C'] = SBool(z3.If(t == C, z3.BoolVal(val),
                                           v.attrs['C'].t))
            return Builtin(name, m)

        def many(val):
            def m(ip, a, k):
                ip.note_write(v, 'C')
                n = ip.e.measure(ip, ip.e.as_list(ip, a[0]), 'c', IDS)
                v.attrs['C'] = SBool(z3.If(n > 0, z3.BoolVal(val),
                                           v.attrs['C'].t))
            return Builtin(name, m)
        if name == 'add':
            return put(True)
        if name == 'discard':
            return put(False)
        if name == 'update':
            return many(True)
        if name == 'difference_update':
            return many(False)
        raise Unsupported('%s of a set of codes' % name)


class SuppressEngine(LintEngine):
    def __init__(self):
        LintEngine.__init__(self)
        import collections
        self.tags.update(event=EventHandler(), record=RecordHandler(),
                         rloc=RlocHandler(), rspec=RspecHandler(),
                         counter=CounterHandler(), idset=IdSetHandler())
        self.call_models[collections.defaultdict] = lambda ip, a, k: counter(
            ip.p.tick())
        self.candidate_fns += [self.cands, P.for_candidates]
        self.assume_note('sorted() yields a permutation in the order of the '
                         'keys; locations compare by their line first')
        self.assume_note('lint records have a location that is empty or '
                         'starts with a line from 1 on')

    def skip_call(self, ip, f):
        import logging
        return isinstance(getattr(f, '__self__', None), logging.Logger)

    def kind_of_value(self, ip, v):
        if isinstance(v, (SStr, str)):
            return IDS
        if isinstance(v, Opaque) and v.tag == 'record':
            return RECS
        if isinstance(v, Opaque) and v.tag == 'event' or isinstance(
                v, Obj) and v.cls is LU.SuppressionEvent:
            return EVENTS
        if isinstance(v, tuple) and any(
                isinstance(x, Opaque) and x.tag == 'record' for x in v):
            return KEYED
        return LintEngine.kind_of_value(self, ip, v)

    def sorted_model(self, ip, v, kw):
        kind = self.list_kind(ip, v)
        if kind not in (EVENTS, KEYED, RECS) or 'reverse' in kw:
            raise Unsupported('sort of something else')
        r = M.Engine.sorted_model(self, ip, v, kw)
        seg = r.items[0]
        e = kind.fresh_elem(ip)
        of = OrdS.lo(kind.measures['ord'].of(ip, e))
        key = ip.call(kw['key'], [e], {}) if 'key' in kw else e
        if isinstance(key, tuple):
            key = key[0]
        if isinstance(key, Opaque) and key.tag == 'rloc':
            key = SInt(rid_line(key.kw['rid']))
        if isinstance(key, SInt) and ip.p.prove(key.t == of)[0] == 'yes':
            ip.p.assume(OrdS.ok(seg.m['ord']))
        # the least and the greatest stay the same
        o, o0 = seg.m['ord'], self.measure(ip, v, 'ord', kind)
        ip.p.assume(z3.And(OrdS.lo(o) == OrdS.lo(o0),
                           OrdS.hi(o) == OrdS.hi(o0),
                           OrdS.empty(o) == OrdS.empty(o0)))
        return r

    def loop_pre(self, ip, al):
        pre = LintEngine.loop_pre(self, ip, al)
        for nm, o in state(al):
            pre[nm] = o.attrs['C'].t
        return pre

    def cands(self, ip, al, where):
        m = lambda v, name, k: ip.e.measure(ip, v, name, k)
        lists = [(fi, n, v, ip.e.list_kind(ip, v))
                 for fi, n, v in P.frame_vars(al, ip)
                 if isinstance(v, LList)]
        kinds = {}
        for fi, n, v, k in lists:
            # what a comprehension made so far
            if n.startswith('$acc'):
                for fj, n2, v2, k2 in lists:
                    if fj != fi or not n2.startswith('$done'):
                        continue
                    for x in ('n', 'tgt', 'ord', 'c'):
                        if all(y is None or x in y.measures
                               for y in (k, k2)) and (k or k2):
                            yield 'so far alike: %s' % x, m(
                                v, x, k or k2) == m(v2, x, k2 or k)
        # codes: added or removed so far
        for fi, n, v, k in lists:
            if not n.startswith('$done') or k not in (IDS, None):
                continue
            done = m(v, 'c', IDS)
            for nm, o in state(al):
                cur = o.attrs['C'].t
                if o.tag == 'idset':
                    yield 'C was added to %s [%s]' % (nm[1:], n), (
                        cur == z3.Or(al.pre[nm], done > 0))
                    yield 'C was removed from %s [%s]' % (nm[1:], n), (
                        cur == z3.And(al.pre[nm], done == 0))
                    for fj, n2, v2, k2 in lists:
                        if not n2.startswith('$') and k2 in (IDS, None):
                            yield 'C is new in %s [%s]' % (n2, n), (
                                m(v2, 'c', IDS) == z3.If(z3.And(z3.Not(
                                    al.pre[nm]), done > 0), 1, 0))
                else:
                    yield 'counted up [%s]' % n, cur == al.pre[nm] + done
                    yield 'counted down [%s]' % n, cur == al.pre[nm] - done
        g = ip.p.ghost.get('all')
        if g is None:
            return
        for fi, n, v, k in lists:
            if n.startswith('$') or k is not EVENTS:
                continue
            net, netx, o = (m(v, x, EVENTS) for x in ('net', 'netx', 'ord'))
            yield 'events are in order [%s]' % n, OrdS.ok(o)
            for nm, st in state(al):
                if st.tag == 'counter':
                    yield 'the active count of C [%s,%s]' % (n, nm), (
                        st.attrs['C'].t == g['net'] - net)
            for fj, n2, v2, k2 in lists:
                if n2.startswith('$done') and k2 in (RECS, None):
                    d = m(v2, 'ord', RECS)
                    yield 'events so far start at the records so far ' \
                        '[%s,%s]' % (n, n2), z3.Implies(
                            z3.Or(OrdS.empty(d), OrdS.hi(d) <= XR),
                            g['netx'] - netx == g['net'] - net)
        for fi, n, v, k in lists:
            if n.startswith('$') or k not in (RECS, None):
                continue
            for fj, n2, v2, k2 in lists:
                if not n2.startswith('$done') or k2 not in (RECS, None):
                    continue
                d, o = m(v2, 'ord', RECS), m(v, 'ord', RECS)
                done = m(v2, 'tgt', RECS)
                if n2[5:] not in [x[5:] for _, x, _, _ in lists
                                  if x.startswith('$rest')]:
                    continue
                hid = z3.And(g['netx'] > 0, rid_code(RID) == C)
                cur = z3.If(hid, 0, done)
                yield 'R is kept so far unless it is suppressed [%s,%s]' % (
                    n, n2), m(v, 'tgt', RECS) == cur
                yield 'what is kept is in order [%s,%s]' % (n, n2), z3.And(
                    OrdS.ok(o), z3.Or(OrdS.empty(o), z3.And(
                        z3.Not(OrdS.empty(d)), OrdS.hi(o) <= OrdS.hi(d))))


def state(al):
    for nm, o in al.objs.items():
        if isinstance(o, Opaque) and o.tag in ('counter', 'idset') and \
                'C' in o.attrs:
            yield ('$st',) + tuple(nm), o


def counter(stamp=0):
    c = Opaque("counter", "counter")
    c.stamp = stamp
    c.attrs['C'] = SInt(z3.IntVal(0))
    return c


def file_context(h, **kw):
    sup = Opaque('idset', '_suppressions')
    sup.attrs['C'] = SBool(z3.Const('suppressed', BOOL))
    f = dict(_suppressions=sup, _supressed_count=counter(),
             _suppression_events=LList([EVENTS.fresh_seg(h.p, 'events')], 0,
                                       EVENTS),
             _lint=LList([RECS.fresh_seg(h.p, 'lint')], 0, RECS),
             infile_path=h.str('path'))
    f.update(kw)
    o = h.obj(LU.FileContext, **f)
    return o, f


def last_event(h, ev, mode, line, n):
    """One event was appended to the events that there were."""
    ip = h.ip
    its = ev.items
    ok = len(its) == 2 and isinstance(its[0], Seg) and isinstance(
        its[1], El)
    h.ensure('one event is appended', ok)
    if ok:
        l, m, ids = ip.iter_explicit(its[1].v)
        h.ensure('with its line and kind', z3.And(
            ip.intterm(l) == line, ip.strterm(m) == S(mode)))
        h.ensure('for exactly the codes concerned',
                 ip.e.measure(ip, ids, 'c', IDS) == n)


@spec('suppress', LCTX + 'suppress', SuppressEngine)
def suppress(h):
    ip = h.ip
    o, f = file_context(h)
    h.may_modify(f['_suppressions'], f['_suppression_events'])
    ids = ids_list(ip)
    line = h.int('lineno')
    n = ip.e.measure(ip, ids, 'c', IDS)
    old = f['_suppressions'].attrs['C'].t
    r = h.call(o, line, ids)
    new = z3.If(z3.And(z3.Not(old), n > 0), 1, 0)
    h.ensure('C is active if it was or if it is requested',
             f['_suppressions'].attrs['C'].t == z3.Or(old, n > 0))
    h.ensure('C is new if it is requested and was not active',
             ip.e.measure(ip, r, 'c', IDS) == new)
    last_event(h, o.fields['_suppression_events'], 'add', line.t, new)


@spec('suppress', LCTX + 'unsuppress', SuppressEngine)
def unsuppress(h):
    ip = h.ip
    o, f = file_context(h)
    h.may_modify(f['_suppressions'], f['_suppression_events'])
    ids = ids_list(ip)
    line = h.int('lineno')
    n = ip.e.measure(ip, ids, 'c', IDS)
    old = f['_suppressions'].attrs['C'].t
    h.call(o, line, ids)
    h.ensure('C is active if it was and is not withdrawn',
             f['_suppressions'].attrs['C'].t == z3.And(old, n == 0))
    last_event(h, o.fields['_suppression_events'], 'remove', line.t, n)


@spec('suppress', LCTX + 'get_lint', SuppressEngine)
def get_lint(h):
    """Every record that was made is returned, in the order of the lines,
    unless at its line more suppressions of its code began than ended."""
    ip = h.ip
    o, f = file_context(h)
    m = lambda v, x, k: ip.e.measure(ip, v, x, k)
    ev, lint = f['_suppression_events'], f['_lint']
    h.p.assume(rid_code(RID) == C)
    h.p.assume(z3.Or(XR == -1, XR >= 1))
    h.p.ghost['all'] = g = {'net': m(ev, 'net', EVENTS),
                            'netx': m(ev, 'netx', EVENTS)}
    tgt = m(lint, 'tgt', RECS)
    r = h.call(o)
    h.ensure('R is returned exactly if it is not suppressed at its line',
             m(r, 'tgt', RECS) == z3.If(g['netx'] > 0, 0, tgt))
    h.ensure('in the order of the lines', OrdS.ok(m(r, 'ord', RECS)))
    h.ensure('the recorded lint stays as it is', z3.BoolVal(
        o.fields['_lint'] is lint))
