"""Contracts on dumping and cloning a configuration (C10)."""
import collections
import json
import pprint
import textwrap

from .objconf import *  # noqa
from .configs import Sv, keyterm, descr_name
from . import objconf as O

try:
    import yaml
except ImportError:  # pragma: no cover
    yaml = None


def oneline(ip, hint='line'):
    """A text without a line break."""
    return Opaque('oneline', hint)


class LineHandler(TagHandler):
    def truth(self, ip, v):
        return ip.p.fresh(BOOL, 'truth')

    def havoc(self, ip, hint):
        return oneline(ip, hint)

    def length(self, ip, v):
        n = ip.p.fresh(INT, 'length')
        ip.p.assume(n >= 0)
        return n

    def getattr(self, ip, v, name):
        if name in ('rstrip', 'strip', 'lstrip', 'lower', 'upper', 'title'):
            return Builtin(name, lambda ip, a, k: oneline(ip))
        raise Unsupported('%s of a line' % name)


LINES = Kind('lines', [M.len_measure()], oneline)


def some_lines(ip, name='lines'):
    return LList([LINES.fresh_seg(ip.p, name)], ip.p.tick(), LINES)


class DictValHandler(ValHandler):
    """Help texts may be put next to the values."""

    def setitem(self, ip, v, key, val):
        if not (isinstance(val, Opaque) and val.tag == 'cval'):
            t = ip.p.fresh(ValS, 'help')
            ip.p.assume(t != ABSENT)
            val = cval(t, ip)
        ValHandler.setitem(self, ip, v, key, val)
        k = keyterm(ip, key)
        if z3.is_app(k) and k.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            a = k.arg(0)
            if z3.is_string_value(a) and a.as_string().startswith(US):
                # (registry: no name starts with an underscore)
                ip.p.assume(And([k != w for w in (SEC, OPT)]))


def flag_term(ip, x):
    return ip.truth_term(x)


def dumped(ip, wd, s_o, o):
    """What is dumped for an option whose override is o."""
    return If(Or(wd, o != ABSENT), If(o != ABSENT, o, default_f(OPT)),
              ABSENT)


def as_dict_c(ip, ba):
    s = ba['self']
    wd = flag_term(ip, ba['with_defaults'])
    r = fresh_map(ip, 'dumped')
    r.stamp = ip.p.tick()
    t = vterm(ip, r)
    if s.tag == 'csect':
        ip.p.assume(get_f(t, OPT) == If(is_s(s), dumped(
            ip, wd, None, oval(cell(s))), ABSENT))
        ip.p.assume(get_f(t, SEC) == ABSENT)
    else:
        root_effect(ip, s)
        ip.p.assume(get_f(t, OPT) == ABSENT)
        d = get_f(t, SEC)
        ip.p.assume(Or(d == ABSENT, ismap_f(d)))
        ip.p.assume(get_f(d, OPT) == dumped(ip, wd, None, oval(s)))
    return r


def root_effect(ip, s):
    """Looking at the sections may make them."""
    ip.note_write(s, 'has')
    h = ip.p.fresh(BOOL, 'has')
    ip.p.assume(Implies(s.attrs['has'].t, h))
    s.attrs['has'] = SBool(h)


def has_override_c(ip, ba):
    s = ba['self']
    r = ip.p.fresh(BOOL, 'has_override')
    if s.tag == 'csect':
        ip.p.assume(Implies(And(is_s(s), oval(cell(s)) != ABSENT), r))
    else:
        root_effect(ip, s)
        ip.p.assume(Implies(oval(s) != ABSENT, r))
    return SBool(r)


def type_of(ip, a, k):
    if len(a) == 1 and isinstance(a[0], Opaque):
        return Opaque('any', 'type')
    raise Unsupported('type of %r' % (a,))


class DictEngine(ObjEngine):
    def __init__(self):
        ObjEngine.__init__(self)
        self.tags['cval'] = DictValHandler()
        self.tags['oneline'] = LineHandler()
        self.call_models[textwrap.wrap] = lambda ip, a, k: some_lines(ip)
        self.call_models[collections.OrderedDict] = self.new_map
        self.call_models[type] = type_of
        self.pure(COBJ + '._as_dict', as_dict_c)
        self.pure(COBJ + '.has_override', has_override_c)
        self.pure(CUT + 'serialize_docstring', lambda ip, ba: oneline(ip))

    def new_map(self, ip, a, k):
        if a or k:
            raise Unsupported('a map with contents')
        return self.empty_dict(ip)

    def cands(self, ip, al, where):
        g = ip.p.ghost
        c = g.get('cell')
        if c is None:
            return
        yield 'no option changes', oval(c) == g['o0']
        if 'has' in c.attrs:
            yield 'a section that is there stays', Implies(
                g['h0'], c.attrs['has'].t)
        for n, k, d in self.done(ip, al, (SECTS, FIELDS)):
            if n != '$done%s' % al.info.key[1]:
                continue
            yes = d > 0
            yield 'nothing is overridden so far [%s]' % n, Implies(
                yes, oval(c) == ABSENT)
            if 'wd' not in g:
                continue
            exp = If(yes, dumped(ip, g['wd'], None, oval(c)), ABSENT)
            for fj, m, x in P.frame_vars(al, ip):
                if not (isinstance(x, Opaque) and x.tag == 'cval') or \
                        m.startswith('$'):
                    continue
                t = vterm(ip, x)
                yield 'a map still [%s]' % m, And(ismap_f(t), t != ABSENT)
                if k is FIELDS:
                    yield 'the option is dumped in %s [%s]' % (m, n), \
                        get_f(t, OPT) == exp
                    yield 'no section in %s' % m, get_f(t, SEC) == ABSENT
                else:
                    s = get_f(t, SEC)
                    yield 'the section is dumped in %s [%s]' % (m, n), \
                        get_f(s, OPT) == exp
                    yield 'a section is a map in %s' % m, Or(
                        s == ABSENT, ismap_f(s))
                    yield 'no option in %s' % m, get_f(t, OPT) == ABSENT


def observe(h, c):
    h.p.ghost.update(cell=c, o0=oval(c))
    if 'has' in c.attrs:
        h.p.ghost['h0'] = c.attrs['has'].t
        h.may_modify(c)


def new_map_arg(h):
    return Builtin('dtype', lambda ip, a, k: ip.e.empty_dict(ip))


def dump_flags(h):
    wh, wd = h.bool('with_help'), h.bool('with_defaults')
    h.p.ghost['wd'] = h.ip.truth_term(wd)
    return wh, wd


@spec('dump', COBJ + '._as_dict', DictEngine,
      name='ConfigObject._as_dict (section)')
def as_dict_section(h):
    """An option is in the map, with its value, if it is overridden or
    defaults are asked for."""
    facts(h)
    root, s = section_under_test(h)
    observe(h, root)
    wh, wd = dump_flags(h)
    r = h.call(s, new_map_arg(h), wh, wd)
    t = vterm(h.ip, r)
    g = h.p.ghost
    h.ensure('the option is there as it should', get_f(t, OPT) == If(
        is_s(s), dumped(h.ip, g['wd'], None, g['o0']), ABSENT))
    h.ensure('nothing is named like a section', get_f(t, SEC) == ABSENT)
    h.ensure('a map', ismap_f(t))
    h.ensure('no option changes', oval(root) == g['o0'])


@spec('dump', COBJ + '._as_dict', DictEngine,
      name='ConfigObject._as_dict (root)')
def as_dict_root(h):
    """Every section that holds something dumped is in the map."""
    facts(h)
    root = root_obj(h.ip)
    observe(h, root)
    wh, wd = dump_flags(h)
    r = h.call(root, new_map_arg(h), wh, wd)
    t = vterm(h.ip, r)
    g = h.p.ghost
    d = get_f(t, SEC)
    h.ensure('a section is a map', Or(d == ABSENT, ismap_f(d)))
    h.ensure('the option is in its section as it should',
             get_f(d, OPT) == dumped(h.ip, g['wd'], None, g['o0']))
    h.ensure('no option at the root', get_f(t, OPT) == ABSENT)
    h.ensure('a map', ismap_f(t))
    h.ensure('no option changes', oval(root) == g['o0'])
    again = option_value(t, ABSENT)
    val = lambda o: If(o != ABSENT, o, default_f(OPT))
    h.p.assume(default_f(OPT) != ABSENT)
    h.ensure('lemma: consuming the map again gives the same value',
             val(again) == val(g['o0']))


def which_dict(h, name):
    facts(h)
    root = root_obj(h.ip)
    observe(h, root)
    wh, wd = dump_flags(h)
    r = h.call(root, wh, wd)
    t = vterm(h.ip, r)
    g = h.p.ghost
    h.ensure('the option is in its section as it should', get_f(get_f(
        t, SEC), OPT) == dumped(h.ip, g['wd'], None, g['o0']))
    h.ensure('no option at the root', get_f(t, OPT) == ABSENT)
    h.ensure('no option changes', oval(root) == g['o0'])


@spec('dump', COBJ + '.as_dict', DictEngine)
def as_dict(h):
    which_dict(h, 'as_dict')


@spec('dump', COBJ + '.as_odict', DictEngine)
def as_odict(h):
    which_dict(h, 'as_odict')


@spec('dump', COBJ + '.has_override', DictEngine,
      name='ConfigObject.has_override (section)')
def has_override_section(h):
    facts(h)
    root, s = section_under_test(h)
    observe(h, root)
    r = h.ip.truth_term(h.call(s))
    h.ensure('an override does not go unnoticed', Implies(And(
        is_s(s), h.p.ghost['o0'] != ABSENT), r))
    h.ensure('no option changes', oval(root) == h.p.ghost['o0'])


@spec('dump', COBJ + '.has_override', DictEngine,
      name='ConfigObject.has_override (root)')
def has_override_root(h):
    facts(h)
    root = root_obj(h.ip)
    observe(h, root)
    r = h.ip.truth_term(h.call(root))
    h.ensure('an override does not go unnoticed', Implies(
        h.p.ghost['o0'] != ABSENT, r))
    h.ensure('no option changes', oval(root) == h.p.ghost['o0'])


@spec('dump', COBJ + '.clone', DictEngine)
def clone(h):
    """Another configuration with the same values."""
    facts(h)
    root = root_obj(h.ip)
    observe(h, root)
    h.p.assume(default_f(OPT) != ABSENT)
    h.on_raise = lambda ex: None
    r = h.call(root)
    g = h.p.ghost
    ok = isinstance(r, Opaque) and r.tag == 'croot'
    h.ensure('a configuration', ok)
    if ok:
        h.ensure('another one', r is not root)
        val = lambda o: If(o != ABSENT, o, default_f(OPT))
        h.ensure('every option has the same value',
                 val(oval(r)) == val(g['o0']))
    h.ensure('no option changes', oval(root) == g['o0'])


# --------------------------------------------------- the dump as a program
# Of the lines that are written, those that are statements are looked at.
# The values of the options stay as they are while dumping, so they are
# functions of the name of the option.
LineS = z3.DeclareSort('Line')
LineSeq = z3.SeqSort(LineS)
NOLINES = z3.Empty(LineSeq)
override_f = z3.Function('override_of', StrS, ValS)
assign_f = z3.Function('assignment', StrS, ValS, LineSeq)
header_f = z3.Function('header', StrS, LineS)
some_f = z3.Function('section_has_override', StrS, BOOL)
body_f = z3.Function('body_of', StrS, LineSeq)
WD = z3.Const('with_defaults', BOOL)


class SLines(SV):
    __slots__ = ()


class SLine(SV):
    __slots__ = ()


def or_measure(name, of):
    m = Measure(name, BOOL, z3.BoolVal(False), lambda a, b: Or(a, b), of)
    m.commutative = True
    return m


def out_measure(of):
    return Measure('out', LineSeq, NOLINES, lambda a, b: z3.Concat(a, b), of)


def value_of(x):
    return If(override_f(x) != ABSENT, override_f(x), default_f(x))


def field_out(ip, v):
    x = descr_name(ip, v)
    return If(Or(WD, override_f(x) != ABSENT), assign_f(x, value_of(x)),
              NOLINES)


def section_out(ip, v):
    x = descr_name(ip, v)
    return If(Or(WD, some_f(x)), z3.Concat(z3.Unit(header_f(x)), body_f(x)),
              NOLINES)


def has_side(p, seg):
    p.assume(seg.m['n'] >= 0)
    p.assume(Implies(seg.m['n'] == 0, And(
        Not(seg.m['some']), seg.m['out'] == NOLINES)))


FDUMP = Kind('options', [
    M.len_measure(),
    or_measure('some', lambda ip, v: override_f(
        descr_name(ip, v)) != ABSENT), out_measure(field_out)],
    fresh_descr('fdescr'), has_side)
SDUMP = Kind('sections', [
    M.len_measure(),
    or_measure('some', lambda ip, v: some_f(descr_name(ip, v))),
    out_measure(section_out)], fresh_descr('sdescr'), has_side)
CODE = Kind('lines of a statement', [M.len_measure(), Measure(
    'seq', LineSeq, NOLINES, lambda a, b: z3.Concat(a, b),
    lambda ip, v: z3.Unit(v.attrs['l'].t))],
    lambda ip: code_line(ip, ip.p.fresh(LineS, 'line')))


def code_line(ip, t):
    o = Opaque('codeline', 'line')
    o.stamp = ip.p.tick()
    o.attrs['l'] = SLine(t)
    return o


class CodeHandler(TagHandler):
    def truth(self, ip, v):
        return True

    def havoc(self, ip, hint):
        return code_line(ip, ip.p.fresh(LineS, hint))

    def getattr(self, ip, v, name):
        raise Unsupported('%s of a line of code' % name)


class PiecesHandler(TagHandler):
    """A text put together from constants, names and values."""

    def truth(self, ip, v):
        return True

    def havoc(self, ip, hint):
        raise Unsupported('a text that changes in a loop')

    def getattr(self, ip, v, name):
        ps = v.kw['parts']

        def split(ip, a, k):
            if len(ps) == 3 and ps[0][0] == 'name' and ps[1] == ' = ' and \
                    ps[2][0] == 'repr' and list(a) == ['\n']:
                return lines_of(ip, assign_f(ps[0][1], ps[2][1]))
            raise Unsupported('lines of %r' % (ps,))

        def splitlines(ip, a, k):
            return split(ip, ['\n'], k)
        if name in ('split', 'splitlines'):
            return Builtin(name, locals()[name])
        raise Unsupported('%s of a text' % name)


def lines_of(ip, t):
    seg = CODE.fresh_seg(ip.p, 'code')
    ip.p.assume(And(seg.m['seq'] == t, seg.m['n'] >= 1))
    return LList([seg], ip.p.tick(), CODE)


def pieces(ip, v):
    """The parts of a text that is written."""
    if isinstance(v, str):
        return [v] if v else []
    if isinstance(v, SStr):
        return [('name', v.t)]
    if isinstance(v, Opaque) and v.tag == 'pieces':
        return list(v.kw['parts'])
    if isinstance(v, Opaque) and v.tag == 'oneline':
        return [('line',)]
    if isinstance(v, Opaque) and v.tag == 'codeline':
        return [('code', v.attrs['l'].t)]
    raise Unsupported('text %r' % (v,))


def joined(parts):
    out = []
    for p in parts:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p != '':
            out.append(p)
    return out


def ptext(parts):
    parts = joined(parts)
    if all(isinstance(p, str) for p in parts):
        return ''.join(parts)
    if parts == [('line',)]:
        return oneline(None)
    return Opaque('pieces', 'text', parts=tuple(parts))


class OutHandler(TagHandler):
    """The file the program is written to: its statements so far, and
    whether anything was written at all."""

    def truth(self, ip, v):
        return True

    def havoc(self, ip, hint):
        raise Unsupported('another file')

    def getattr(self, ip, v, name):
        if name == 'write':
            return Builtin(name, lambda ip, a, k: self.write(ip, v, a[0]))
        if name == 'writelines':
            raise Unsupported(name)
        raise Unsupported('%s of the file' % name)

    def write(self, ip, v, text):
        line = joined(ip.p.ghost.get('line', ()))
        for p in pieces(ip, text):
            if not isinstance(p, str):
                line.append(p)
                continue
            segs = p.split('\n')
            for s in segs[:-1]:
                self.line(ip, v, joined(line + [s]))
                line = []
            line = joined(line + [segs[-1]])
        ip.p.ghost['line'] = tuple(line)

    def line(self, ip, v, parts):
        lead = ''
        if parts and isinstance(parts[0], str):
            rest = parts[0].lstrip(' \t')
            lead = parts[0][:len(parts[0]) - len(rest)]
            parts = joined([rest] + parts[1:])
        if not parts:
            return
        first = parts[0]
        if isinstance(first, str) and first.startswith('#'):
            if any(not isinstance(p, str) and p[0] not in (
                    'line', 'name') for p in parts):
                raise Unsupported('comment %r' % (parts,))
            return
        ip.s.obligation(ip.p, 'the statements of a section are indented, '
                        'those of the root are not', z3.BoolVal(
                            bool(lead) == ip.p.ghost['indented']))
        was = ip.s.__dict__.setdefault('indentation', lead)
        ip.s.obligation(ip.p, 'they are indented alike', z3.BoolVal(
            was == lead))
        t = None
        if len(parts) == 1 and first[0] == 'code':
            t = z3.Unit(first[1])
        elif len(parts) == 3 and isinstance(first, str) and re.match(
                r'^with section\((["\'])$', first) and isinstance(
                    parts[2], str) and parts[2].rstrip() == first[-1] + '):':
            t = z3.Unit(header_f(parts[1][1]))
        if t is None:
            raise Unsupported('statement %r' % (parts,))
        self.append(ip, v, t)

    def append(self, ip, v, t):
        ip.note_write(v, 'ls')
        v.attrs['ls'] = SLines(z3.Concat(v.attrs['ls'].t, t))


class PprHandler(TagHandler):
    def truth(self, ip, v):
        return True

    def getattr(self, ip, v, name):
        if name == 'pformat':
            return Builtin(name, lambda ip, a, k: Opaque(
                'pieces', 'value', parts=(('repr', vterm(ip, a[0])),)))
        raise Unsupported(name)


class SectView(TagHandler):
    """A section (sview) or the root (rview) of the configuration that is
    dumped; no option changes meanwhile."""

    def __init__(self, cls, root):
        self.cls, self.root = cls, root

    def truth(self, ip, v):
        return True

    def havoc(self, ip, hint):
        return Opaque('sview', hint, nm=ip.p.fresh(StrS, 'name'))

    def isinstance(self, ip, v, cls):
        cs = cls if isinstance(cls, tuple) else (cls,)
        return any(issubclass(self.cls, c) for c in cs)

    def getattr(self, ip, v, name):
        if name == '_field_registry':
            if self.root:
                return registry_run(ip, SDUMP, ip.p.ghost['some'],
                                    ip.p.ghost['out'])
            x = v.kw['nm']
            return registry_run(ip, FDUMP, some_f(x), body_f(x))
        if name == '__doc__':
            return Opaque('doc', 'doc')
        a, owner = ip.class_attr_owner(self.cls, name)
        if inspect.isfunction(a):
            return ip.bind(a, v, owner)
        raise Unsupported('%s of a section' % name)

    def setattr(self, ip, v, name, val):
        ip.s.obligation(ip.p, 'dumping changes nothing', z3.BoolVal(False))


def registry_run(ip, kind, some, out):
    """All options of a section; there is one at least."""
    seg = kind.fresh_seg(ip.p, kind.name)
    ip.p.assume(And(seg.m['some'] == some, seg.m['out'] == out,
                    seg.m['n'] >= 1))
    return LList([seg], ip.p.tick(), kind)


class DocHandler(TagHandler):
    def truth(self, ip, v):
        return memo(v, 'truth', lambda: ip.p.fresh(BOOL, 'doc'))

    def havoc(self, ip, hint):
        return Opaque('doc', hint)

    def getattr(self, ip, v, name):
        if name in ('split', 'splitlines'):
            return Builtin(name, lambda ip, a, k: some_lines(ip))
        if name in ('strip', 'rstrip', 'lstrip'):
            return Builtin(name, lambda ip, a, k: v)
        raise Unsupported('%s of a docstring' % name)


class DumpDescr(DescrHandler):
    def getattr(self, ip, v, name):
        if name == 'helptext':
            return Opaque('doc', 'help')
        return DescrHandler.getattr(self, ip, v, name)

    def more(self, ip, v, name):
        a, owner = ip.class_attr_owner(self.cls, name)
        if inspect.isfunction(a):
            return ip.bind(a, v, owner)
        return DescrHandler.more(self, ip, v, name)


def dump_c(ip, ba):
    """What dumping a section adds."""
    s, f = ba['self'], ba['outfile']
    x = s.kw['nm']
    wd = ip.truth_term(ba['with_defaults'])
    ip.s.obligation(ip.p, 'defaults are dumped or not, throughout',
                    wd == WD)
    ip.s.obligation(ip.p, 'the body of a section is not empty',
                    Or(WD, some_f(x)))
    ip.s.obligation(ip.p, 'a section is dumped one level down', z3.BoolVal(
        ba['depth'] == 1))
    if ip.p.ghost.get('line'):
        raise Unsupported('a section in the middle of a line')
    OutHandler().append(ip, f, body_f(x))


class DumpEngine(RegEngine):
    def __init__(self):
        RegEngine.__init__(self)
        self.tags.update(
            sview=SectView(CU.ConfigObject, False),
            rview=SectView(configuration.Configuration, True),
            sdescr=DumpDescr(CU.SubtreeDescriptor),
            fdescr=DumpDescr(CU.FieldDescriptor),
            oneline=LineHandler(), codeline=CodeHandler(),
            pieces=PiecesHandler(), pyout=OutHandler(), ppr=PprHandler(),
            doc=DocHandler())
        self.call_models.update({
            type: type_of, textwrap.wrap: lambda ip, a, k: some_lines(ip),
            pprint.PrettyPrinter: self.printer,
            pprint.pformat: lambda ip, a, k: Opaque(
                'pieces', 'value', parts=(('repr', vterm(ip, a[0])),))})
        self.pure(COBJ + '.dump', dump_c)
        self.pure(COBJ + '.has_override', lambda ip, ba: SBool(
            some_f(ba['self'].kw['nm'])))
        self.pure(CUT + 'FieldDescriptor.has_override', lambda ip, ba: SBool(
            override_f(descr_name(ip, ba['self'])) != ABSENT))
        self.pure(CUT + 'FieldDescriptor.__get__', lambda ip, ba: cval(
            value_of(descr_name(ip, ba['self'])), ip))
        for m in ('__get__', 'get'):
            self.pure(CUT + 'SubtreeDescriptor.' + m, lambda ip, ba: Opaque(
                'sview', 'section', nm=descr_name(ip, ba['self'])))

    def kind_of_value(self, ip, v):
        if isinstance(v, Opaque) and v.tag in ('sdescr', 'fdescr'):
            return {'sdescr': SDUMP, 'fdescr': FDUMP}[v.tag]
        if isinstance(v, Opaque) and v.tag == 'codeline':
            return CODE
        if isinstance(v, Opaque) and v.tag == 'oneline':
            return LINES
        return RegEngine.kind_of_value(self, ip, v)

    def str_method(self, ip, v, name):
        if name == 'format' and isinstance(v, str):
            return Builtin(name, lambda ip, a, k: self.formatted(
                ip, v, a, k))
        if name == 'join':
            raise Unsupported('lines that are joined')
        return RegEngine.str_method(self, ip, v, name)

    @staticmethod
    def printer(ip, a, k):
        if a or set(k) - {'indent', 'width', 'depth', 'compact',
                          'sort_dicts', 'underscore_numbers'}:
            raise Unsupported('PrettyPrinter')
        ip.s.obligation(ip.p, 'no part of a value is left out', z3.BoolVal(
            k.get('depth') is None))
        return Opaque('ppr', 'ppr')

    def formatted(self, ip, v, a, k):
        import string
        out, auto = [], 0
        for lit, field, fspec, conv in string.Formatter().parse(v):
            out.append(lit)
            if field is None:
                continue
            if fspec or conv:
                raise Unsupported('format %r' % v)
            if field == '':
                x, auto = a[auto], auto + 1
            elif field.isdigit():
                x = a[int(field)]
            else:
                x = k[field]
            out += pieces(ip, x)
        return ptext(out)

    def loop_pre(self, ip, al):
        if ip.p.ghost.get('line'):
            raise Unsupported('a loop in the middle of a line')
        pre = RegEngine.loop_pre(self, ip, al)
        pre['ls'] = ip.p.ghost['file'].attrs['ls'].t
        return pre

    def cands(self, ip, al, where):
        g = ip.p.ghost
        now = g['file'].attrs['ls'].t
        yield 'no statement', now == al.pre['ls']
        for fi, n, v in P.frame_vars(al, ip):
            if not n == '$done%s' % al.info.key[1] or not isinstance(
                    v, LList):
                continue
            k = self.list_kind(ip, v)
            rest = al.frames[fi].locals.get('$rest' + n[5:])
            if k is None and rest is not None:
                k = self.list_kind(ip, rest)
            if k is None:
                continue
            for m in ('out', 'seq'):
                if m in k.measures:
                    yield 'the statements so far [%s %s]' % (n, m), \
                        now == z3.Concat(al.pre['ls'], self.measure(
                            ip, v, m, k))
            if 'some' in k.measures:
                yield 'nothing is overridden so far [%s]' % n, Not(
                    self.measure(ip, v, 'some', k))


def dump_case(h, root):
    facts(h)
    ip, g = h.ip, h.p.ghost
    f = Opaque('pyout', 'outfile')
    pre = h.p.fresh(LineSeq, 'before')
    f.attrs['ls'] = SLines(pre)
    g.update(file=f, indented=not root, line=())
    h.may_modify(f)
    if root:
        some, out = h.p.fresh(BOOL, 'some'), h.p.fresh(LineSeq, 'out')
        g.update(some=some, out=out)
        s = Opaque('rview', 'root')
    else:
        x = h.p.fresh(StrS, 'name')
        h.p.assume(issec_f(x))
        some, out = some_f(x), body_f(x)
        s = Opaque('sview', 'section', nm=x)
        h.p.assume(Or(WD, some))
    h.call(s, f, 0 if root else 1, h.bool('with_help'), SBool(WD))
    h.ensure('the statements are those of the %s, in order' % (
        'sections' if root else 'options'),
        f.attrs['ls'].t == z3.Concat(pre, out))
    h.ensure('the last line is complete', not g.get('line'))


@spec('dump', COBJ + '.dump', DumpEngine, name='ConfigObject.dump (section)')
def dump_section(h):
    """One assignment for every option that is overridden, or for all."""
    dump_case(h, False)


@spec('dump', COBJ + '.dump', DumpEngine, name='ConfigObject.dump (root)')
def dump_root(h):
    """One block for every section that is not empty."""
    dump_case(h, True)


@spec('dump', COBJ + '.has_override', DumpEngine,
      name='ConfigObject.has_override (section, exact)')
def has_override_exact(h):
    facts(h)
    h.p.ghost.update(file=Opaque('pyout', 'none'))
    h.p.ghost['file'].attrs['ls'] = SLines(NOLINES)
    x = h.p.fresh(StrS, 'name')
    s = Opaque('sview', 'section', nm=x)
    r = h.ip.truth_term(h.call(s))
    h.ensure('whether any option of the section is overridden',
             r == some_f(x))


# ------------------------------------------------------------ --dump-config
class NamespaceHandler(TagHandler):
    """The parsed command line."""

    def truth(self, ip, v):
        return True

    def getattr(self, ip, v, name):
        if name == 'dump_config':
            return v.kw['fmt']
        if name in ('with_help', 'with_defaults'):
            return v.kw[name]
        return Opaque('any', name)


HARMLESS = {
    'yaml': ('indent', 'default_flow_style', 'sort_keys', 'width',
             'allow_unicode', 'explicit_start', 'line_break'),
    'json': ('indent', 'sort_keys', 'ensure_ascii', 'separators'),
}


class ToFile(TagHandler):
    def truth(self, ip, v):
        return True

    def getattr(self, ip, v, name):
        def write(ip, a, k):
            ip.s.obligation(ip.p, 'nothing but blank lines is added',
                            z3.BoolVal(isinstance(a[0], str) and
                                       not a[0].strip()))
        if name == 'write':
            return Builtin(name, write)
        if name in ('flush',):
            return Builtin(name, lambda ip, a, k: None)
        raise Unsupported('%s of the file' % name)


class DumpConfigEngine(DictEngine):
    def __init__(self):
        DictEngine.__init__(self)
        self.tags.update(ns=NamespaceHandler(), tofile=ToFile())
        self.call_models[json.dump] = self.written('json')
        if yaml is not None:
            self.call_models[yaml.dump] = self.written('yaml')
            self.call_models[yaml.safe_dump] = self.written('yaml')
        self.pure(RUN + 'yaml_register_odict', lambda ip, ba: None)
        self.pure(RUN + 'get_argdict', self.argdict)
        self.pure(COBJ + '.dump', self.program)

    def argdict(self, ip, ba):
        if ba['args'] is not ip.p.ghost['args']:
            raise Unsupported('another command line')
        return cval(ip.p.ghost['flags'], ip)

    @staticmethod
    def expected(ip):
        """The override of S.O of the configuration that is dumped."""
        g = ip.p.ghost
        a = get_f(g['flags'], OPT)
        return takes(a, option_value(g['file0'], ABSENT))

    def check(self, ip, fmt, f, got, wd):
        g = ip.p.ghost
        o = self.expected(ip)
        ip.s.obligation(ip.p, 'the dump goes to the output', z3.BoolVal(
            f is g['outfile']))
        ip.s.obligation(ip.p, 'the format is the one asked for', z3.BoolVal(
            fmt == g['fmt'] or (fmt, g['fmt']) == ('json', 'yaml')))
        ip.s.obligation(ip.p, 'every option is dumped with its value',
                        got(o, wd))
        g['dumps'] = g.get('dumps', 0) + 1

    def written(self, fmt):
        def f(ip, a, k):
            bad = set(k) - set(HARMLESS[fmt]) - {'stream', 'fp'}
            if bad or len(a) > 2:
                raise Unsupported('%s.dump with %s' % (fmt, bad))
            to = a[1] if len(a) > 1 else k.get('stream', k.get('fp'))
            t = vterm(ip, a[0])
            wd = ip.truth_term(ip.p.ghost['args'].kw['with_defaults'])
            self.check(ip, fmt, to, lambda o, wd: And(
                get_f(t, OPT) == ABSENT, get_f(get_f(
                    t, SEC), OPT) == dumped(ip, wd, None, o)), wd)
        return f

    def program(self, ip, ba):
        s = ba['self']
        wd = ip.truth_term(ip.p.ghost['args'].kw['with_defaults'])
        if ba['depth'] != 0:
            raise Unsupported('indented program')
        asked = ip.truth_term(ba['with_defaults'])
        self.check(ip, 'python', ba['outfile'], lambda o, wd: And(
            oval(s) == o, asked == wd), wd)


@spec('dump', RUN + 'dump_config', DumpConfigEngine)
def dump_config(h):
    """What is dumped is the configuration of the files and the flags."""
    facts(h)
    ip, g = h.ip, h.p.ghost
    basics(h.p)
    fmt = ('yaml', 'json', 'python')[h.p.choose(3, 'format')]
    args = Opaque('ns', 'args', fmt=fmt, with_help=h.bool('with_help'),
                  with_defaults=h.bool('with_defaults'))
    kw = fresh_map(ip, 'config_dict')
    flags = h.p.fresh(ValS, 'flags')
    h.p.assume(And(ismap_f(flags), get_f(flags, SEC) == ABSENT))
    out = Opaque('tofile', 'outfile')
    g.update(args=args, flags=flags, file0=vterm(ip, kw), outfile=out,
             fmt=fmt)
    h.may_modify(kw)
    h.on_raise = lambda ex: h.ensure(
        'only a section that is no map is refused', issubclass(
            ex.cls, ValueError))
    h.call(args, kw, out)
    h.ensure('dumped once', g.get('dumps') == 1)



# ------------------------------------------------ a configuration in python
class ExecHandler(TagHandler):
    """The globals of a configuration in python: a map and the maps of the
    sections that are open."""
    cls = CU.ExecGlobal

    def truth(self, ip, v):
        return ip.p.fresh(BOOL, 'truth')

    def getattr(self, ip, v, name):
        if name == '_dict_stack':
            return v.attrs['stack']
        if name == 'filepath':
            return Opaque('any', 'path')
        a, owner = ip.class_attr_owner(self.cls, name)
        if inspect.isfunction(a):
            return ip.bind(a, v, owner)
        raise Unsupported('%s of the globals' % name)

    def super_getattr(self, ip, v, cls, name):
        m = v.kw['map']
        h = ip.e.tag(m.tag)
        if name == '__setitem__':
            return Builtin(name, lambda ip, a, k: h.setitem(ip, m, *a))
        if name == '__getitem__':
            return Builtin(name, lambda ip, a, k: h.getitem(ip, m, *a))
        if name in ('__contains__',):
            return Builtin(name, lambda ip, a, k: ip.mkbool(
                h.contains(ip, m, *a)))
        return h.getattr(ip, m, name)

    def method(self, ip, v, name, *a):
        if name in self.cls.__dict__:
            return ip.call(ip.bind(self.cls.__dict__[name], v, self.cls),
                           list(a), {})
        return ip.call(self.super_getattr(ip, v, self.cls, name), list(a),
                       {})

    def contains(self, ip, v, item):
        return ip.truth_term(self.method(ip, v, '__contains__', item))

    def getitem(self, ip, v, key):
        return self.method(ip, v, '__getitem__', key)

    def setitem(self, ip, v, key, val):
        self.method(ip, v, '__setitem__', key, val)


class ExecEngine(ConfEngine):
    def __init__(self):
        ConfEngine.__init__(self)
        self.tags['exec'] = ExecHandler()
        self.call_models[hasattr] = self.has
        self.call_models[reversed] = lambda ip, a, k: LList(
            list(reversed(a[0].copy_items())), ip.p.tick(), a[0].kind)

    @staticmethod
    def has(ip, a, k):
        if isinstance(a[0], Opaque) and a[0].tag == 'exec':
            n = ip.strterm(a[1])
            names = sorted(set(dir(CU.ExecGlobal)) | {
                '_dict_stack', 'filepath'})
            return SBool(Or([n == Sv(x) for x in names]))
        return hasattr_m(ip, a, k)

    def str_method(self, ip, v, name):
        if name == 'replace' and isinstance(v, SStr):
            def replace(ip, a, k):
                if list(a) != ['-', '_']:
                    raise Unsupported('replace')
                # (the names of the options have no dash)
                return v
            return Builtin(name, replace)
        return ConfEngine.str_method(self, ip, v, name)


def run_config(h, label):
    """A program that opens a section, assigns, and closes it."""
    ip, p = h.ip, h.p
    facts(h)
    h.ensure('registry: no name has a dash', not any(
        '-' in x for x in option_names() + [n for n, _ in sections()]))
    p.ghost['keys'] = (SEC, OPT, K)
    p.assume(Or([SEC == Sv(n) for n, _ in sections()]))
    p.assume(Or([OPT == Sv(n) for n in option_names()]))
    p.assume(And(K != SEC, K != OPT))
    m = fresh_map(ip, 'globals')
    v = Opaque('exec', 'globals', map=m)
    v.attrs['stack'] = LList([], p.tick())
    t0 = vterm(ip, m)
    s0 = get_f(t0, SEC)
    p.assume(Or(s0 == ABSENT, ismap_f(s0)))
    h.may_modify(v, m, v.attrs['stack'])
    return v, m, t0, s0


@spec('dump', CUT + 'ExecGlobal.push_section', ExecEngine,
      name='ExecGlobal: an assignment in a section')
def exec_section(h):
    """`with section(S): O = x` puts x at S.O, and nothing anywhere else."""
    v, m, t0, s0 = run_config(h, 'section')
    ip = h.ip
    x = cval(h.p.fresh(ValS, 'x'))
    h.p.assume(x.attrs['v'].t != ABSENT)
    call = ip.e.tag('exec').method
    h.call(v, SStr(SEC))
    call(ip, v, '__setitem__', SStr(OPT), x)
    call(ip, v, 'pop_section')
    t = vterm(ip, m)
    s = get_f(t, SEC)
    h.ensure('the option of the section is assigned', get_f(s, OPT) ==
             x.attrs['v'].t)
    h.ensure('the section is a map', ismap_f(s))
    h.ensure('the other options of the section stay', get_f(s, K) ==
             get_f(s0, K))
    h.ensure('what is outside the section stays', And(
        get_f(t, OPT) == get_f(t0, OPT), get_f(t, K) == get_f(t0, K)))
    y = cval(h.p.fresh(ValS, 'y'))
    call(ip, v, '__setitem__', SStr(OPT), y)
    t2 = vterm(ip, m)
    h.ensure('the section is closed', And(
        get_f(t2, OPT) == y.attrs['v'].t, get_f(t2, SEC) == s))


@spec('dump', CUT + 'ExecGlobal.__setitem__', ExecEngine,
      name='ExecGlobal: an assignment outside of a section')
def exec_assign(h):
    v, m, t0, s0 = run_config(h, 'root')
    ip = h.ip
    x = cval(h.p.fresh(ValS, 'x'))
    h.p.assume(x.attrs['v'].t != ABSENT)
    h.call(v, SStr(OPT), x)
    t = vterm(ip, m)
    h.ensure('the option is assigned', get_f(t, OPT) == x.attrs['v'].t)
    h.ensure('nothing else is', And(get_f(t, SEC) == s0,
                                    get_f(t, K) == get_f(t0, K)))


@bounded('dump', CUT + 'ExecGlobal.section', 'section()',
         'one section, opened once in another and once in none')
def exec_with(fn):
    n, bad = 0, None
    for outer in (None, 'a'):
        g = CU.ExecGlobal('x')
        if outer:
            g.push_section(outer)
        before = list(g._dict_stack)
        with g.section('s'):
            g['x'] = 1
            inner = list(g._dict_stack)
        n += 1
        top = g if outer is None else g._dict_stack[-1]
        if inner[:-1] != before or inner[-1] != {'x': 1} or \
                g._dict_stack != before or dict.get(top, 's') != {'x': 1}:
            bad = 'section() after %r' % (outer,)
    return n, bad
