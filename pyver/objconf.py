"""Contracts on the configuration object: what consuming, unsetting and
reading options does to it (C09, C10).

The root object is looked at through the override of one option O of one
section S, about which nothing is assumed but that they are registered; the
section objects of a root are views of it.
"""
import inspect

from .configs import *  # noqa
from .configs import Sv
from . import configs as C
from .contract import cls_of

COBJ = CUT + 'ConfigObject'
US = '_'


class SVal2(SVal):
    pass


def stem(ip, name):
    """The term x if the attribute is named _x."""
    if isinstance(name, str):
        return Sv(name[1:]) if name.startswith(US) else None
    t = ip.strterm(name)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        a = list(t.children())
        if z3.is_string_value(a[0]) and a[0].as_string() == US:
            return a[1] if len(a) == 2 else z3.Concat(*a[1:])
    raise Unsupported('name of an attribute: %s' % t)


def oval(o):
    return o.attrs['o'].t


def root_obj(ip, name='root'):
    """A configuration: whether S was made yet, and the override of S.O."""
    basics(ip.p)
    o = Opaque('croot', name)
    o.stamp = ip.p.tick()
    has, v = ip.p.fresh(BOOL, 'has'), ip.p.fresh(ValS, 'option')
    o.attrs.update(has=SBool(has), o=SVal(v))
    ip.p.assume(Implies(Not(has), v == ABSENT))
    return o


def bare_root(ip):
    o = Opaque('croot', 'new')
    o.stamp = ip.p.tick()
    o.attrs.update(has=SBool(z3.BoolVal(False)), o=SVal(ABSENT))
    return o


def view(ip, root, nm):
    return Opaque('csect', 'section', root=root, nm=nm)


def sect_obj(ip, nm, v):
    """A section that is in no configuration (yet)."""
    o = Opaque('csect', 'section', root=None, nm=nm)
    o.stamp = ip.p.tick()
    o.attrs['o'] = SVal(v)
    return o


def cell(sect):
    return sect if sect.kw['root'] is None else sect.kw['root']


def is_s(sect):
    return sect.kw['nm'] == SEC


def set_cell(ip, c, cond, v):
    ip.note_write(c, 'o')
    c.attrs['o'] = SVal(If(cond, v, oval(c)))


default_f = z3.Function('default_of', StrS, ValS)


def section_classes():
    return dict(sections())


def option_names():
    return [f.name for _, c in sections() for f in c._field_registry]


class ObjHandler(TagHandler):
    cls = CU.ConfigObject

    def truth(self, ip, v):
        return True

    def isinstance(self, ip, v, cls):
        cs = cls if isinstance(cls, tuple) else (cls,)
        return any(issubclass(self.cls, c) for c in cs)

    def getattr(self, ip, v, name):
        if isinstance(name, str) and not name.startswith(US):
            if name in section_classes() and v.tag == 'croot':
                return view(ip, v, Sv(name))
            if name in option_names():
                r, there = self.read(ip, v, Sv(name))
                return cval(If(there, vterm(ip, r), default_f(Sv(name))), ip)
            a, owner = ip.class_attr_owner(self.cls, name)
            if a is not None:
                return ip.bind(a, v, owner)
            return Opaque('any', name)
        if name == '_field_registry':
            return self.registry(ip, v)
        if name == '__class__':
            return self.klass(ip, v)
        if name == '__doc__':
            return SStr(ip.p.fresh(StrS, 'doc'))
        if isinstance(name, str):
            a, owner = ip.class_attr_owner(self.cls, name)
            if inspect.isfunction(a):
                return ip.bind(a, v, owner)
        r, there = self.read(ip, v, stem(ip, name))
        if not ip.p.branch(there):
            raise PyExc(AttributeError)
        return r

    def has(self, ip, v, name):
        if isinstance(name, str) and not name.startswith(US):
            return hasattr(self.cls, name)
        if name in ('_field_registry', '__class__', '__doc__'):
            return True
        return self.read(ip, v, stem(ip, name))[1]


class SectHandler(ObjHandler):
    def registry(self, ip, v):
        return run_of(ip, FIELDS, If(is_s(v), 1, 0))

    def klass(self, ip, v):
        return Opaque('sectclass', 'class', nm=SStr(v.kw['nm']))

    def read(self, ip, v, x):
        here = And(is_s(v), x == OPT)
        other = ip.p.fresh(ValS, 'other_option')
        t = If(here, oval(cell(v)), other)
        return cval(t, ip), t != ABSENT

    def setattr(self, ip, v, name, val):
        x = Sv(name) if name in option_names() else stem(ip, name)
        if x is None:
            # (something derived from the options)
            return
        set_cell(ip, cell(v), And(is_s(v), x == OPT), vterm(ip, val))

    def delattr(self, ip, v, name):
        self.getattr(ip, v, name)
        set_cell(ip, cell(v), And(is_s(v), stem(ip, name) == OPT), ABSENT)


class RootHandler(ObjHandler):
    cls = configuration.Configuration

    def registry(self, ip, v):
        return run_of(ip, SECTS, z3.IntVal(1))

    def klass(self, ip, v):
        return Opaque('rootclass', 'class')

    def read(self, ip, v, x):
        made = v.kw.setdefault('made', {})
        if x.get_id() not in made:
            made[x.get_id()] = ip.p.fresh(BOOL, 'made'), x
        return view(ip, v, x), If(x == SEC, v.attrs['has'].t,
                                  made[x.get_id()][0])

    def setattr(self, ip, v, name, val):
        x = stem(ip, name)
        if x is None or not (isinstance(val, Opaque) and val.tag == 'csect'
                             and val.kw['root'] is None):
            raise Unsupported('the configuration is given %s' % name)
        ip.s.obligation(ip.p, 'a section is kept under its own name',
                        val.kw['nm'] == x)
        ip.note_write(v, 'has')
        v.attrs['has'] = SBool(Or(v.attrs['has'].t, x == SEC))
        v.kw.setdefault('made', {})[x.get_id()] = z3.BoolVal(True), x
        set_cell(ip, v, x == SEC, oval(val))
        val.kw.update(root=v)
        val.attrs.clear()


class ClassHandler(TagHandler):
    """The class of a section or of the root."""

    def __init__(self, root):
        self.root = root

    def truth(self, ip, v):
        return True

    def getattr(self, ip, v, name):
        if self.root and name == '_field_registry':
            return run_of(ip, SECTS, z3.IntVal(1))
        if name in ('__name__', '__doc__'):
            return SStr(ip.p.fresh(StrS, 'text'))
        if not self.root:
            return SectClassHandler.getattr(self, ip, v, name)
        raise Unsupported('%s of the class' % name)

    def has(self, ip, v, name):
        return name in ('_field_registry', '__name__', '__doc__')

    def call(self, ip, v, args, kwargs):
        if args or set(kwargs) - {'$star'}:
            raise Unsupported('arguments of a configuration')
        src = kwargs.get('$star')
        t = EMPTY if src is None else vterm(ip, src)
        basics(ip.p)
        if self.root:
            o = bare_root(ip)
            init_root(ip, o, t)
        else:
            o = sect_obj(ip, v.kw['nm'].t, ABSENT)
            init_sect(ip, o, t)
        return o


class FieldHandler(DescrHandler):
    def more(self, ip, v, name):
        if name == 'default_value' and self.cls is CU.FieldDescriptor:
            t = default_f(v.attrs['name'].t)
            ip.p.assume(t != ABSENT)
            return cval(t, ip)
        if name == 'helptext':
            return memo(v, 'helptext', lambda: SStr(ip.p.fresh(
                StrS, 'helptext')))
        a, owner = ip.class_attr_owner(self.cls, name)
        if inspect.isfunction(a):
            return ip.bind(a, v, owner)
        return DescrHandler.more(self, ip, v, name)


# ---------------------------------------------------------- what is promised
def take(ip, kw, cond, key):
    """The key leaves the map (if cond)."""
    old = vterm(ip, kw)
    new = ip.p.fresh(ValS, 'map')
    ip.note_write(kw, 'v')
    ip.p.assume(And(ismap_f(new), new != ABSENT))
    for w in watched(ip.p):
        ip.p.assume(get_f(new, w) == If(And(cond, w == key), ABSENT,
                                        get_f(old, w)))
    kw.attrs['v'] = SVal(new)


def takes(a, o):
    """What the option is after the map with entry a was consumed."""
    return If(a != ABSENT, a, o)


def consume_sect(ip, ba):
    s, kw = ba['self'], ba['kwargs']
    a = get_f(vterm(ip, kw), OPT)
    basics(ip.p)
    set_cell(ip, cell(s), is_s(s), takes(a, oval(cell(s))))
    take(ip, kw, is_s(s), OPT)


def consume_root(ip, ba):
    s, kw = ba['self'], ba['kwargs']
    basics(ip.p)
    t = vterm(ip, kw)
    sd = get_f(t, SEC)
    if not ip.p.branch(Or(sd == ABSENT, ismap_f(sd))) or \
            ip.p.choose(2, 'another section is no map') == 1:
        raise PyExc(ValueError)
    ip.note_write(s, 'has')
    s.attrs['has'] = SBool(Or(s.attrs['has'].t, sd != ABSENT))
    set_cell(ip, s, z3.BoolVal(True), takes(get_f(sd, OPT), oval(s)))
    take(ip, kw, z3.BoolVal(True), SEC)


def consume_known_c(ip, ba):
    return (consume_root if ba['self'].tag == 'croot' else
            consume_sect)(ip, ba)


def legacy_c(ip, ba):
    s, kw = ba['self'], ba['kwargs']
    if s.tag == 'csect':
        return consume_sect(ip, ba)
    consume_root(ip, ba)
    a = get_f(vterm(ip, kw), OPT)
    ip.note_write(s, 'has')
    s.attrs['has'] = SBool(z3.BoolVal(True))
    set_cell(ip, s, z3.BoolVal(True), takes(a, oval(s)))
    take(ip, kw, z3.BoolVal(True), OPT)


def init_sect(ip, s, t):
    set_cell(ip, cell(s), is_s(s), takes(get_f(t, OPT), ABSENT))


def init_root(ip, s, t):
    kw = cval(t, ip)
    legacy_c(ip, {'self': s, 'kwargs': kw})


def no_change(ip, ba):
    return None


def hasattr_m(ip, a, k):
    v, n = a
    if isinstance(v, Opaque):
        h = ip.e.tag(v.tag)
        if isinstance(h, (ObjHandler, ClassHandler)):
            r = h.has(ip, v, n)
            return r if isinstance(r, bool) else SBool(r)
        if v.tag == 'cval':
            return False
    if isinstance(n, SStr):
        raise Unsupported('hasattr with an unknown name')
    try:
        ip.getattr(v, n)
        return True
    except PyExc as ex:
        if issubclass(ex.cls, AttributeError):
            return False
        raise


def getattr_m(ip, a, k):
    try:
        return ip.e.tag(a[0].tag).getattr(ip, *a[:2]) if isinstance(
            a[0], Opaque) else ip.getattr(*a[:2])
    except PyExc as ex:
        if issubclass(ex.cls, AttributeError) and len(a) > 2:
            return a[2]
        raise


def setattr_m(ip, a, k):
    ip.setattr(*a)


def delattr_m(ip, a, k):
    ip.e.tag(a[0].tag).delattr(ip, *a)


class ObjEngine(RegEngine):
    """Configuration objects; consuming is replaced by its contract."""

    def __init__(self):
        RegEngine.__init__(self)
        self.tags.update(croot=RootHandler(), csect=SectHandler(),
                         sdescr=FieldHandler(CU.SubtreeDescriptor),
                         fdescr=FieldHandler(CU.FieldDescriptor),
                         sectclass=ClassHandler(False),
                         rootclass=ClassHandler(True))
        self.call_models.update({
            hasattr: hasattr_m, getattr: getattr_m, setattr: setattr_m,
            delattr: delattr_m,
            configuration.Configuration: lambda ip, a, k: ClassHandler(
                True).call(ip, None, a, k)})
        self.pure(COBJ + '.consume_known', consume_known_c)
        self.pure(COBJ + '.legacy_consume', legacy_c)
        self.pure(COBJ + '._update_derived', no_change)
        self.pure(CUT + 'warn_unused', no_change)

    def star_kwargs(self, ip, f, o):
        return {'$star': o}

    def kwargs_map(self, ip, kw):
        if not kw:
            return cval(EMPTY, ip)
        if set(kw) == {'$star'}:
            return cval(vterm(ip, kw['$star']), ip)
        raise Unsupported('keywords of a configuration')

    def cands(self, ip, al, where):
        g = ip.p.ghost
        c, kw = g.get('cell'), g.get('kw')
        if c is None:
            return
        t = vterm(ip, kw)
        o0, t0 = g['o0'], g['t0']
        now = oval(c)
        for n, k, d in self.done(ip, al, (SECTS, FIELDS)):
            if n != '$done%s' % al.info.key[1]:
                continue
            yes = d > 0
            for w, key in (('S', SEC), ('O', OPT)):
                yield 'the map keeps %s [%s]' % (w, n), \
                    get_f(t, key) == get_f(t0, key)
                yield 'the map loses %s [%s]' % (w, n), \
                    get_f(t, key) == If(yes, ABSENT, get_f(t0, key))
                yield 'the map has lost S, loses %s [%s]' % (w, n), \
                    And(get_f(t, SEC) == ABSENT, get_f(t, key) == If(
                        yes, ABSENT, get_f(t0, key)))
            yield 'a map still [%s]' % n, And(ismap_f(t), t != ABSENT)
            if k is SECTS:
                sd = get_f(t0, SEC)
                yield 'the section is consumed [%s]' % n, now == If(
                    yes, takes(get_f(sd, OPT), o0), o0)
                yield 'it is a map [%s]' % n, Implies(And(
                    yes, sd != ABSENT), ismap_f(sd))
                o1 = takes(get_f(sd, OPT), o0)
                yield 'the option at the root is consumed [%s]' % n, \
                    now == If(yes, takes(get_f(t0, OPT), o1), o1)
                h = g['h0']
                yield 'S is there [%s]' % n, c.attrs['has'].t == Or(
                    h, And(yes, sd != ABSENT))
                yield 'S is made [%s]' % n, c.attrs['has'].t == Or(
                    h, sd != ABSENT, yes)
            else:
                yield 'the option is consumed [%s]' % n, now == If(
                    yes, takes(get_f(t0, OPT), o0), o0)


def watch(h, c, kw):
    h.p.ghost.update(cell=c, kw=kw, o0=oval(c), t0=vterm(h.ip, kw))
    if 'has' in c.attrs:
        h.p.ghost['h0'] = c.attrs['has'].t
    h.may_modify(c, kw)


def section_under_test(h):
    """A section of a configuration: S or another one."""
    root = root_obj(h.ip)
    nm = h.p.fresh(StrS, 'name')
    h.p.assume(issec_f(nm))
    s = view(h.ip, root, nm)
    h.p.assume(Implies(nm == SEC, root.attrs['has'].t))
    return root, s


@spec('config', COBJ + '.consume_known', ObjEngine,
      name='ConfigObject.consume_known (section)')
def consume_known_section(h):
    """A section takes the options it has from the map, and no others."""
    facts(h)
    root, s = section_under_test(h)
    kw = fresh_map(h.ip, 'kwargs')
    watch(h, root, kw)
    g = h.p.ghost
    h.call(s, kw)
    a = get_f(g['t0'], OPT)
    t = vterm(h.ip, kw)
    h.ensure('the option is the one given, or what it was', oval(root) == If(
        is_s(s), takes(a, g['o0']), g['o0']))
    h.ensure('it leaves the map of its section, no other', get_f(t, OPT)
             == If(is_s(s), ABSENT, a))
    h.ensure('nothing else leaves the map', get_f(t, SEC) == get_f(
        g['t0'], SEC))


@spec('config', COBJ + '.consume_known', ObjEngine,
      name='ConfigObject.consume_known (root)')
def consume_known_root(h):
    """The root hands every section its map."""
    facts(h)
    root = root_obj(h.ip)
    kw = fresh_map(h.ip, 'kwargs')
    watch(h, root, kw)
    g = h.p.ghost
    sd = get_f(g['t0'], SEC)
    h.on_raise = lambda ex: h.ensure(
        'only a section that is no map is refused', issubclass(
            ex.cls, ValueError))
    h.call(root, kw)
    t = vterm(h.ip, kw)
    h.ensure('the section given is a map', Or(sd == ABSENT, ismap_f(sd)))
    h.ensure('the option is the one given in its section, or what it was',
             oval(root) == takes(get_f(sd, OPT), g['o0']))
    h.ensure('the section leaves the map', get_f(t, SEC) == ABSENT)
    h.ensure('what is at the root stays', get_f(t, OPT) == get_f(
        g['t0'], OPT))
    h.ensure('the section is there if it is given',
             root.attrs['has'].t == Or(g['h0'], sd != ABSENT))


@spec('config', COBJ + '.legacy_consume', ObjEngine,
      name='ConfigObject.legacy_consume (section)')
def legacy_section(h):
    facts(h)
    root, s = section_under_test(h)
    kw = fresh_map(h.ip, 'kwargs')
    watch(h, root, kw)
    g = h.p.ghost
    h.call(s, kw)
    a = get_f(g['t0'], OPT)
    h.ensure('the option is the one given, or what it was', oval(root) == If(
        is_s(s), takes(a, g['o0']), g['o0']))
    h.ensure('it leaves the map of its section, no other', get_f(
        vterm(h.ip, kw), OPT) == If(is_s(s), ABSENT, a))
    h.ensure('nothing else leaves the map', get_f(
        vterm(h.ip, kw), SEC) == get_f(g['t0'], SEC))


def option_value(t, o):
    """The option after a whole map was consumed."""
    return takes(get_f(t, OPT), takes(get_f(get_f(t, SEC), OPT), o))


@spec('config', COBJ + '.legacy_consume', ObjEngine,
      name='ConfigObject.legacy_consume (root)')
def legacy_root(h):
    """What is at the root of the map wins over what is in its section."""
    facts(h)
    root = root_obj(h.ip)
    kw = fresh_map(h.ip, 'kwargs')
    watch(h, root, kw)
    g = h.p.ghost
    h.on_raise = lambda ex: h.ensure(
        'only a section that is no map is refused', issubclass(
            ex.cls, ValueError))
    h.call(root, kw)
    t = vterm(h.ip, kw)
    h.ensure('root, then section, then what it was', oval(root) ==
             option_value(g['t0'], g['o0']))
    h.ensure('the option leaves the map', get_f(t, OPT) == ABSENT)
    h.ensure('the section leaves the map', get_f(t, SEC) == ABSENT)


@spec('config', COBJ + '.__init__', ObjEngine,
      name='ConfigObject.__init__ (root)')
def init_of_root(h):
    facts(h)
    root = bare_root(h.ip)
    kw = fresh_map(h.ip, 'kwargs')
    t0 = vterm(h.ip, kw)
    h.may_modify(root)
    h.on_raise = lambda ex: h.ensure(
        'only a section that is no map is refused', issubclass(
            ex.cls, ValueError))
    h.call(root, **{'$star': kw})
    h.ensure('root, then section, then the default', oval(root) ==
             option_value(t0, ABSENT))


@spec('config', COBJ + '.__init__', ObjEngine,
      name='ConfigObject.__init__ (section)')
def init_of_section(h):
    facts(h)
    nm = h.p.fresh(StrS, 'name')
    h.p.assume(issec_f(nm))
    s = sect_obj(h.ip, nm, ABSENT)
    kw = fresh_map(h.ip, 'kwargs')
    t0 = vterm(h.ip, kw)
    h.may_modify(s)
    h.call(s, **{'$star': kw})
    h.ensure('what is given, or the default', Implies(
        is_s(s), oval(s) == get_f(t0, OPT)))


@spec('config', CUT + 'SubtreeDescriptor.get', ObjEngine)
def subtree_get(h):
    """The section of the configuration, which is made if need be."""
    facts(h)
    ip = h.ip
    root = root_obj(ip)
    d = fresh_descr('sdescr')(ip)
    o0 = oval(root)
    h.may_modify(root)
    r = h.call(d, root)
    ok = isinstance(r, Opaque) and r.tag == 'csect' and \
        r.kw['root'] is root
    h.ensure('a section of this configuration', ok)
    if ok:
        h.ensure('the one asked for', r.kw['nm'] == d.attrs['name'].t)
    h.ensure('no option changes', oval(root) == o0)
    h.ensure('it is there from now on', Implies(
        d.attrs['name'].t == SEC, root.attrs['has'].t))


@spec('config', CUT + 'FieldDescriptor.__get__', ObjEngine)
def field_get(h):
    facts(h)
    root, s = section_under_test(h)
    d = fresh_descr('fdescr')(h.ip)
    r = h.call(d, s, Opaque('any', 'type'))
    h.ensure('the override, or the default', Implies(
        And(is_s(s), d.attrs['name'].t == OPT), vterm(h.ip, r) == If(
            oval(root) != ABSENT, oval(root), default_f(OPT))))


@spec('config', CUT + 'FieldDescriptor.__set__', ObjEngine)
def field_set(h):
    facts(h)
    root, s = section_under_test(h)
    d = fresh_descr('fdescr')(h.ip)
    v = cval(h.p.fresh(ValS, 'value'))
    o0 = oval(root)
    h.may_modify(root)
    h.call(d, s, v)
    h.ensure('the option is set, no other is', oval(root) == If(
        And(is_s(s), d.attrs['name'].t == OPT), vterm(h.ip, v), o0))


@spec('config', CUT + 'FieldDescriptor.unset', ObjEngine)
def field_unset(h):
    facts(h)
    root, s = section_under_test(h)
    d = fresh_descr('fdescr')(h.ip)
    o0 = oval(root)
    h.may_modify(root)
    h.call(d, s)
    h.ensure('the option is unset, no other is', oval(root) == If(
        And(is_s(s), d.attrs['name'].t == OPT), ABSENT, o0))


@spec('config', CUT + 'FieldDescriptor.has_override', ObjEngine)
def field_has(h):
    facts(h)
    root, s = section_under_test(h)
    d = fresh_descr('fdescr')(h.ip)
    r = h.ip.truth_term(h.call(d, s))
    h.ensure('whether the option is set', Implies(
        And(is_s(s), d.attrs['name'].t == OPT), r == (
            oval(root) != ABSENT)))


# ------------------------------------------------- what derives from options
class OptValHandler(M.AnyHandler):
    """The value of an option; it may be looked at only."""

    def getattr(self, ip, v, name):
        if name in ('items', 'keys', 'values', 'get', 'copy', 'lower',
                    'upper'):
            return Builtin(name, lambda ip, a, k: LList(
                [M.ANY.fresh_seg(ip.p, name)], ip.p.tick(), M.ANY)
                if name in ('items', 'keys', 'values') else Opaque(
                    'any', name))
        raise Unsupported('%s of the value of an option' % name)

    def setitem(self, ip, v, key, val):
        ip.s.obligation(ip.p, 'the value of an option stays as it is',
                        z3.BoolVal(False))


class DerivedHandler(M.SinkHandler):
    """A container of derived values."""

    def setitem(self, ip, v, key, val):
        pass

    def getitem(self, ip, v, key):
        return Opaque('derived', 'item')

    def iterate(self, ip, v):
        return M.AnyHandler.iterate(self, ip, v)


class DerivedEngine(M.Engine):
    def __init__(self):
        M.Engine.__init__(self)
        from cmakelang.parse import util as PU
        from cmakelang.parse.funs import standard_funs as SF
        self.tags.update(optval=OptValHandler(), derived=DerivedHandler(),
                         any=OptValHandler())
        new = lambda ip, a, k: Opaque('derived', 'new')
        self.call_models[PU.CommandSpec] = new
        self.call_models[re.compile] = lambda ip, a, k: Opaque('any', 're')
        self.call_models[SF.get_default_config] = new
        self.pure(PU.__name__ + ':apply_overrides', lambda ip, ba: None)
        self.pure(COBJ + '.__init__', self.init)

    def pure(self, addr, f):
        fn = find(addr)
        if fn is not None:
            self.contracts[fn] = ApplyContract(f)

    def star_kwargs(self, ip, f, o):
        return {'$star': o}

    def kwargs_map(self, ip, kw):
        if set(kw) == {'$star'}:
            return kw['$star']
        return M.Engine.kwargs_map(self, ip, kw)

    @staticmethod
    def init(ip, ba):
        g = ip.p.ghost
        ip.s.obligation(ip.p, 'the options given are handed on', z3.BoolVal(
            ba['self'] is g['self'] and ba['kwargs'] is g['kw']))
        g['calls'] = g.get('calls', 0) + 1

    def binop(self, ip, op, a, b):
        if isinstance(b, Opaque) and b.tag == 'optval' and isinstance(
                a, (list, LList)):
            return LList([M.ANY.fresh_seg(ip.p, 'sum')], ip.p.tick(), M.ANY)
        return M.Engine.binop(self, ip, op, a, b)


def derived_object(h, cls):
    names = {f.name for f in cls._field_registry}

    def lazy(ip, v, name):
        if name[:1] == US and name[1:] in names:
            return Opaque('optval', name)
        if name in cls.__dict__.get('__annotations__', {}):
            return UNBOUND
        return Opaque('derived', name)
    o = h.obj(cls)
    o.lazy = lazy
    h.modify_if = lambda x, f: x is o and f not in names and \
        f[1:] not in names
    return o


def derived_specs():
    for name, cls in sections():
        for meth in ('_update_derived', '__init__'):
            if meth not in cls.__dict__:
                continue

            def f(h, cls=cls, meth=meth):
                o = derived_object(h, cls)
                if meth == '__init__':
                    kw = Opaque('any', 'kwargs')
                    h.p.ghost.update(self=o, kw=kw)
                    h.call(o, **{'$star': kw})
                    h.ensure('the options are consumed once',
                             h.p.ghost.get('calls') == 1)
                else:
                    h.on_raise = lambda ex: None
                    h.call(o)
                    h.ensure('no option is written', True)
            f.__name__ = '%s_%s' % (name, meth.strip(US))
            f.__doc__ = 'Derived values only: no option is written.'
            spec('config', '%s:%s.%s' % (cls.__module__, cls.__name__, meth),
                 DerivedEngine)(f)


derived_specs()


class UnusedEngine(ObjEngine):
    def __init__(self):
        ObjEngine.__init__(self)
        self.contracts.pop(find(CUT + 'warn_unused'), None)
        self.call_models[inspect.ismodule] = lambda ip, a, k: SBool(
            ip.p.fresh(BOOL, 'ismodule'))

    def kind_of_value(self, ip, v):
        if isinstance(v, (str, SStr)):
            return KEYS
        return ObjEngine.kind_of_value(self, ip, v)


@spec('config', CUT + 'warn_unused', UnusedEngine)
def warn_unused(h):
    """Says something, but changes nothing."""
    facts(h)
    kw = fresh_map(h.ip, 'kwargs')
    t = vterm(h.ip, kw)
    h.call(kw)
    h.ensure('the map stays as it is', vterm(h.ip, kw) == t)
