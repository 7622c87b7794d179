"""Contract of the lexer.

re.Scanner (the standard library) is trusted to cut a text into lexemes and a
remainder that together are the text; that the actions hand each lexeme on
unchanged is an obligation on every action of the real scanner.  What the
code computes from the lexemes - the tokens and where each one starts and
ends - is verified for every sequence of lexemes.
"""
import re

import z3

from . import models as M
from . import parsing as P
from .contract import spec
from .models import TagHandler, INT, BOOL
from .values import *  # noqa

from cmakelang import common
from cmakelang import lex as LX

TT = LX.TokenType
LexS = z3.DeclareSort('Lexeme')
LexSeq = z3.SeqSort(LexS)
lx = lambda n, s: z3.Function(n, LexS, s)
nl_f, chars_f, tail_f, bytes_f = (lx(n, INT) for n in (
    'newlines_of', 'characters_of', 'characters_after_last_newline',
    'utf8_bytes_of'))
ltype_f = lx('type_of_lexeme', INT)

TxtS = z3.DeclareSort('Txt')
TEXT = z3.Const('the_text', TxtS)
rest_f = z3.Function('without_first', TxtS, TxtS)
bom_f = z3.Function('starts_with_bom', TxtS, BOOL)
first_f = z3.Function('first_char', TxtS, LexS)
scan_f = z3.Function('lexemes', TxtS, LexSeq)
left_f = z3.Function('has_remainder', TxtS, BOOL)

# how far a piece of text moves a place
PosS = z3.Datatype('Pos')
PosS.declare('pos', ('nl', INT), ('col', INT), ('bytes', INT))
PosS = PosS.create()
POS0 = PosS.pos(0, 0, 0)


def move(a, b):
    return PosS.pos(
        PosS.nl(a) + PosS.nl(b),
        z3.If(PosS.nl(b) == 0, PosS.col(a) + PosS.col(b), PosS.col(b)),
        PosS.bytes(a) + PosS.bytes(b))


def pos_of(t):
    return PosS.pos(nl_f(t), tail_f(t), bytes_f(t))


# what a run of tokens covers: where it begins and ends (a place is a Pos
# with the line in `nl`), whether every token ends where its spelling says
# and begins where the one before it ends
RunS = z3.Datatype('Run')
RunS.declare('run', ('empty', BOOL), ('ok', BOOL), ('lo', PosS), ('hi', PosS))
RunS = RunS.create()
RUN0 = RunS.run(True, True, POS0, POS0)


def run_op(a, b):
    E, OK, LO, HI = RunS.empty, RunS.ok, RunS.lo, RunS.hi
    return z3.If(E(a), b, z3.If(E(b), a, RunS.run(
        False, z3.And(OK(a), OK(b), HI(a) == LO(b)), LO(a), HI(b))))


def seq_cat(a, b):
    return z3.Concat(a, b)


def mk_lexeme(ip, t):
    ip.p.assume(z3.And(nl_f(t) >= 0, chars_f(t) >= 0, tail_f(t) >= 0,
                       bytes_f(t) >= chars_f(t), tail_f(t) <= chars_f(t),
                       z3.Implies(nl_f(t) == 0, tail_f(t) == chars_f(t))))
    return Opaque('lexeme', 'spelling', t=t)


def fresh_pair(ip):
    t = ip.p.fresh(LexS, 'lexeme')
    # an obligation on the actions
    ip.p.assume(ltype_f(t) != TT.BYTEORDER_MARK.value)
    return SEnum(ltype_f(t), TT), mk_lexeme(ip, t)


SCAN = Kind('scanned', [
    M.len_measure(),
    Measure('lex', LexSeq, z3.Empty(LexSeq), seq_cat,
            lambda ip, v: z3.Unit(lexeme(ip, parts_of(ip, v)[1]))),
    Measure('pos', PosS, POS0, move,
            lambda ip, v: pos_of(lexeme(ip, parts_of(ip, v)[1]))),
], fresh_pair)


def parts_of(ip, v):
    return ip.iter_explicit(v)


def lexeme(ip, v):
    if isinstance(v, Opaque) and v.tag == 'lexeme':
        return v.kw['t']
    raise Unsupported('spelling %r' % (v,))


def place(ip, v):
    xs = ip.iter_explicit(v)
    if len(xs) != 3:
        raise Unsupported('location %r' % (v,))
    a, b, c = (ip.intterm(x) for x in xs)
    return PosS.pos(a, b, c)


def token_run(ip, v):
    b, e = place(ip, v.fields['begin']), place(ip, v.fields['end'])
    ty = v.fields['type']
    t = lexeme(ip, v.fields['spelling'])
    bom = z3.simplify(ip.intterm(ip.getattr(ty, 'value')) if ip.is_sym(ty)
                      else z3.IntVal(ty.value)) == TT.BYTEORDER_MARK.value
    bom = z3.simplify(bom)
    return z3.If(
        bom,
        z3.If(z3.And(b == POS0, e == POS0), RUN0,
              RunS.run(False, False, POS0, POS0)),
        RunS.run(False, e == move(b, pos_of(t)), b, e))


def fresh_token(ip):
    t = ip.p.fresh(LexS, 'lexeme')
    o = Obj(LX.Token, 0, {})
    loc = lambda n: tuple(SInt(ip.p.fresh(INT, n + c)) for c in 'lco')
    o.fields.update(type=SEnum(ltype_f(t), TT), spelling=mk_lexeme(ip, t),
                    index=SInt(ip.p.fresh(INT, 'index')), begin=loc('b'),
                    end=loc('e'))
    return o


OUT = Kind('tokens', [
    M.len_measure(),
    Measure('lex', LexSeq, z3.Empty(LexSeq), seq_cat,
            lambda ip, v: z3.Unit(lexeme(ip, v.fields['spelling']))),
    Measure('run', RunS, RUN0, run_op, token_run),
], fresh_token)


class LexemeHandler(TagHandler):
    """A non-empty string of which the newlines and lengths matter."""
    isa = (str,)
    pyclass = str

    def truth(self, ip, v):
        return True

    def length(self, ip, v):
        return SInt(chars_f(v.kw['t']))

    def eq(self, ip, v, other):
        if isinstance(other, Opaque) and other.tag == 'lexeme':
            return v.kw['t'] == other.kw['t']
        raise Unsupported('comparison of a spelling')

    def contains(self, ip, v, item):
        if item == '\n':
            return nl_f(v.kw['t']) > 0
        raise Unsupported('membership in a spelling')

    def tail(self, ip, t):
        return Opaque('strlen', 'tail', n=SInt(tail_f(t)))

    def getattr(self, ip, v, name):
        t = v.kw['t']

        def count(ip, a, k):
            if list(a) != ['\n'] or k:
                raise Unsupported('count')
            return SInt(nl_f(t))

        def encode(ip, a, k):
            if list(a) not in ([], ['utf-8'], ['utf8']) or k:
                raise Unsupported('encode')
            return Opaque('strlen', 'bytes', n=SInt(bytes_f(t)))

        def head(ip):
            return Opaque('strlen', 'head', n=SInt(ip.p.fresh(INT, 'head')))

        def rsplit(ip, a, k):
            if list(a) + list(k.values()) != ['\n', 1]:
                raise Unsupported('rsplit')
            if ip.p.branch(nl_f(t) > 0):
                return ip.new_list([El(head(ip)), El(self.tail(ip, t))])
            return ip.new_list([El(self.tail(ip, t))])

        def rpartition(ip, a, k):
            if list(a) != ['\n']:
                raise Unsupported('rpartition')
            if ip.p.branch(nl_f(t) > 0):
                return (head(ip), '\n', self.tail(ip, t))
            return ('', '', self.tail(ip, t))

        def rfind(ip, a, k):
            if list(a) != ['\n']:
                raise Unsupported('rfind')
            return SInt(z3.If(nl_f(t) > 0, chars_f(t) - tail_f(t) - 1, -1))
        table = dict(count=count, encode=encode, rsplit=rsplit,
                     rpartition=rpartition, rfind=rfind)
        if name in table:
            return Builtin(name, table[name])
        raise Unsupported('%s of a spelling' % name)


class StrLenHandler(TagHandler):
    isa = (str,)

    def length(self, ip, v):
        return v.kw['n']


class TextHandler(TagHandler):
    """The text that is tokenized."""
    isa = (str,)
    pyclass = str

    def getattr(self, ip, v, name):
        t = v.kw['t']
        if name == 'startswith':
            def startswith(ip, a, k):
                if list(a) != ['\ufeff']:
                    raise Unsupported('startswith')
                return SBool(bom_f(t))
            return Builtin(name, startswith)
        raise Unsupported('%s of the text' % name)

    def getitem(self, ip, v, key):
        t = v.kw['t']
        known = ip.p.prove(bom_f(t))[0] == 'yes'
        if not known:
            raise Unsupported('part of the text')
        if key == 0 or key == slice(None, 1, None):
            return mk_lexeme(ip, first_f(t))
        if key == slice(1, None, None):
            return Opaque('text', 'rest', t=rest_f(t))
        raise Unsupported('part of the text')


class ScannerHandler(TagHandler):
    def truth(self, ip, v):
        return True

    def getattr(self, ip, v, name):
        if name != 'scan':
            raise Unsupported('%s of a scanner' % name)

        def scan(ip, a, k):
            x = a[0]
            if not (isinstance(x, Opaque) and x.tag == 'text'):
                raise Unsupported('scan of something else')
            seg = SCAN.fresh_seg(ip.p, 'scanned')
            ip.p.assume(seg.m['lex'] == scan_f(x.kw['t']))
            return (LList([seg], ip.p.tick(), SCAN),
                    Opaque('remainder', 'remainder', t=x.kw['t']))
        return Builtin(name, scan)


class RemainderHandler(TagHandler):
    isa = (str,)

    def truth(self, ip, v):
        return left_f(v.kw['t'])

    def length(self, ip, v):
        n = ip.p.fresh(INT, 'remaining')
        ip.p.assume(z3.And(n >= 0, (n > 0) == left_f(v.kw['t'])))
        return SInt(n)

    def eq(self, ip, v, other):
        if other == '':
            return z3.Not(left_f(v.kw['t']))
        raise Unsupported('comparison of the remainder')

    def getitem(self, ip, v, key):
        return Opaque('any', 'message')


class LexEngine(M.Engine):
    def __init__(self):
        M.Engine.__init__(self)
        self.tags.update(lexeme=LexemeHandler(), text=TextHandler(),
                         scanner=ScannerHandler(), strlen=StrLenHandler(),
                         remainder=RemainderHandler())
        cm = self.call_models
        cm[re.Scanner] = self.scanner
        cm[bytearray] = cm[bytes] = self.encoded
        self.candidate_fns += [self.cands, P.for_candidates]
        self.assume_note(
            're.Scanner.scan cuts a text into non-empty matches, each handed '
            'to the action of its pattern, and the remainder where no '
            'pattern matches')
        self.assume_note('texts can be encoded as utf-8 (no lone surrogates)')

    def encoded(self, ip, a, k):
        args = list(a) + list(k.values())
        if len(args) == 2 and args[1] in ('utf-8', 'utf8') and isinstance(
                args[0], Opaque) and args[0].tag == 'lexeme':
            return Opaque('strlen', 'bytes',
                          n=SInt(bytes_f(args[0].kw['t'])))
        raise Unsupported('bytes of something else')

    def scanner(self, ip, a, k):
        """Every action yields a pair of a token type and its lexeme."""
        for i, x in enumerate(ip.iter_explicit(a[0])):
            pat, act = ip.iter_explicit(x)
            lab = 'the lexeme of every pattern is handed on'
            if act is None:
                ip.s.obligation(ip.p, lab, z3.BoolVal(False), {
                    'pattern': str(pat)})
                continue
            t = ip.p.fresh(LexS, 'matched')
            r = ip.call(act, [Opaque('any', 'scanner'), mk_lexeme(ip, t)],
                        {})
            try:
                ty, s = ip.iter_explicit(r)
                ok = lexeme(ip, s) == t
            except (Unsupported, ValueError, TypeError):
                ok = z3.BoolVal(False)
            ip.s.obligation(ip.p, lab, ok, {'pattern': str(pat)})
            ip.s.obligation(
                ip.p, 'no pattern yields a byte-order mark',
                z3.BoolVal(isinstance(ty, TT) and
                           ty is not TT.BYTEORDER_MARK))
        ip.p.ghost['scanner'] = True
        return Opaque('scanner', 'scanner')

    def kind_of_value(self, ip, v):
        if isinstance(v, Obj) and v.cls is LX.Token:
            return OUT
        if isinstance(v, (tuple, LList)):
            try:
                xs = ip.iter_explicit(v)
            except Unsupported:
                xs = ()
            if len(xs) == 2 and isinstance(xs[1], Opaque) and \
                    xs[1].tag == 'lexeme':
                return SCAN
        return M.Engine.kind_of_value(self, ip, v)

    def on_iter(self, ip, mark, idx, v):
        pass

    def loop_pre(self, ip, al):
        pre = {}
        for fi, n, v in P.frame_vars(al, ip):
            if isinstance(v, LList):
                k = self.list_kind(ip, v)
                if k is not None:
                    pre[n, fi] = {m: self.measure(ip, v, m, k)
                                  for m in k.measures}
        return pre

    def cands(self, ip, al, where):
        m = self.measure
        fv = list(P.frame_vars(al, ip))
        for fi, n, v in fv:
            if not n.startswith('$done') or not isinstance(v, LList) or \
                    self.list_kind(ip, v) not in (SCAN, None):
                continue
            d = m(ip, v, 'pos', SCAN)
            here = move(PosS.pos(1, 0, 0), d)
            for fj, n2, x in fv:
                if n2.startswith('$'):
                    continue
                if isinstance(x, (int, SInt)) and not isinstance(x, bool):
                    i = ip.intterm(x)
                    lab = '%s:%d' % (n2, fj)
                    yield '%s is the line reached [%s]' % (lab, n), (
                        i == PosS.nl(here))
                    yield '%s counts the newlines [%s]' % (lab, n), (
                        i == PosS.nl(d))
                    yield '%s is the column reached [%s]' % (lab, n), (
                        i == PosS.col(here))
                    yield '%s is the offset reached [%s]' % (lab, n), (
                        i == PosS.bytes(here))
                if isinstance(x, tuple) or isinstance(x, Obj) and \
                        '__items__' in x.fields:
                    xs = ip.iter_explicit(x)
                    if len(xs) == 3 and all(isinstance(
                            y, (int, SInt)) for y in xs):
                        yield '%s:%d is the place reached [%s]' % (
                            n2, fj, n), place(ip, x) == here
                if isinstance(x, LList) and self.list_kind(
                        ip, x) in (OUT, None):
                    lab = '%s:%d' % (n2, fj)
                    pre = al.pre.get((n2, fj), {})
                    r = m(ip, x, 'run', OUT)
                    yield '%s holds the lexemes so far [%s]' % (lab, n), (
                        m(ip, x, 'lex', OUT) == z3.Concat(
                            pre.get('lex', z3.Empty(LexSeq)),
                            m(ip, v, 'lex', SCAN)))
                    yield '%s is located [%s]' % (lab, n), RunS.ok(r)
                    yield '%s begins at the start [%s]' % (lab, n), z3.Or(
                        RunS.empty(r), RunS.lo(r) == PosS.pos(1, 0, 0))
                    yield '%s ends at the place reached [%s]' % (
                        lab, n), z3.If(RunS.empty(r), d == POS0,
                                       RunS.hi(r) == here)


@spec('lexer', 'cmakelang.lex:tokenize', LexEngine)
def tokenize(h):
    """The tokens are the text, each with the place of its first and of the
    character after its last one; otherwise the text is refused."""
    ip = h.ip
    text = Opaque('text', 'contents', t=TEXT)

    def refused(ex):
        h.ensure('a text that is refused is refused with a diagnostic',
                 isinstance(ex.cls, type) and
                 issubclass(ex.cls, common.UserError))
    h.on_raise = refused
    r = h.call(text)
    out = ip.e.as_list(ip, r)
    lex = ip.e.measure(ip, out, 'lex', OUT)
    run = ip.e.measure(ip, out, 'run', OUT)
    R = rest_f(TEXT)
    whole = z3.And(lex == scan_f(TEXT), z3.Not(left_f(TEXT)))
    behind = z3.And(bom_f(TEXT), z3.Not(left_f(R)), lex == z3.Concat(
        z3.Unit(first_f(TEXT)), scan_f(R)))
    h.ensure('the spellings of the tokens are the text',
             z3.Or(whole, behind))
    h.ensure('every token begins where the one before it ends and ends '
             'where its spelling does', RunS.ok(run))
    h.ensure('the first token begins at the start of the text', z3.Or(
        RunS.empty(run), RunS.lo(run) == PosS.pos(1, 0, 0)))
