"""Contracts on where configuration values come from (C09) and on what
survives dumping and cloning (C10).

A configuration file, a section, the command line and a map under
construction are values of one sort; what a map holds is only looked at
under keys about which nothing is assumed (K: any key; S and O: the names of
any section and of any option in it).
"""
import collections
import io
import os
import re

import z3

from . import models as M
from . import parsing as P
from .contract import spec, bounded, ApplyContract, find
from .models import TagHandler, memo, INT, BOOL
from .values import *  # noqa

from cmakelang import common, config_util as CU, configuration
from cmakelang.format import __main__ as FM

RUN = 'cmakelang.format.__main__:'
CUT = 'cmakelang.config_util:'
Sv = z3.StringVal

ValS = z3.DeclareSort('Val')
ABSENT, EMPTY = z3.Consts('absent empty_map', ValS)
K, SEC, OPT = z3.Consts('K S O', StrS)
ismap_f = z3.Function('is_map', ValS, BOOL)
isnone_f = z3.Function('is_none', ValS, BOOL)
get_f = z3.Function('at', ValS, StrS, ValS)
merge_f = z3.Function('merged', ValS, ValS, ValS)
If, And, Or, Not, Implies = z3.If, z3.And, z3.Or, z3.Not, z3.Implies


class SVal(SV):
    __slots__ = ()


def merged_at(a, b):
    """What merging puts where there was a and comes b."""
    return If(b == ABSENT, a, If(
        a == ABSENT, b, If(ismap_f(a), If(ismap_f(b), merge_f(a, b), a), b)))


def basics(p):
    """Facts of the theory of values."""
    if p.ghost.get('basics'):
        return
    p.ghost['basics'] = True
    p.assume(And(ismap_f(EMPTY), Not(ismap_f(ABSENT)), Not(isnone_f(ABSENT))))
    for k in (K, SEC, OPT):
        p.assume(And(get_f(EMPTY, k) == ABSENT, get_f(ABSENT, k) == ABSENT))


def watched(p):
    return p.ghost.get('keys', (K,))


def cval(t, ip=None, **kw):
    o = Opaque('cval', 'value', **kw)
    if ip is not None:
        o.stamp = ip.p.tick()
    o.attrs['v'] = SVal(t)
    return o


def vterm(ip, v):
    if isinstance(v, Opaque) and v.tag == 'cval':
        return v.attrs['v'].t
    raise Unsupported('not a configuration value: %r' % (v,))


def fresh_map(ip, hint='map'):
    basics(ip.p)
    t = ip.p.fresh(ValS, hint)
    ip.p.assume(And(ismap_f(t), t != ABSENT))
    return cval(t)


def at(ip, t, k):
    """The entry of t under k (a term); a value that is there is there."""
    basics(ip.p)
    r = get_f(t, k)
    if z3.is_app(k) and any(k.eq(x) for x in watched(ip.p)):
        return r
    if not any(k.eq(x) for x in linked(ip.p)):
        linked(ip.p).append(k)
    # the same entry under a watched key
    for x in watched(ip.p):
        ip.p.assume(Implies(k == x, r == get_f(t, x)))
    return r


def store(ip, v, k, x):
    """v[k] = x"""
    ip.note_write(v, 'v')
    old = vterm(ip, v)
    new = ip.p.fresh(ValS, 'map')
    ip.p.assume(And(ismap_f(new), new != ABSENT, get_f(new, k) == x))
    for w in list(watched(ip.p)) + linked(ip.p):
        ip.p.assume(get_f(new, w) == If(k == w, x, get_f(old, w)))
    v.attrs['v'] = SVal(new)
    write_through(ip, v, old)


def linked(p):
    return p.ghost.setdefault('linked', [])


def link(ip, v, up, k):
    """v is the value that up holds under k."""
    v.kw['parent'] = up, k
    at(ip, vterm(ip, up), k)


def write_through(ip, v, old):
    par = v.kw.get('parent')
    if par is not None:
        up, k = par
        if ip.p.prove(get_f(vterm(ip, up), k) == old)[0] != 'yes':
            raise Unsupported('the map above changed meanwhile')
        store(ip, up, k, vterm(ip, v))


def keyterm(ip, k):
    return ip.strterm(k)


def lookup(ip, v, k):
    t = vterm(ip, v)
    kt = keyterm(ip, k)
    r = at(ip, t, kt)
    o = cval(r, ip)
    link(ip, o, v, kt)
    return r, o


def missing(d):
    if d is UNBOUND:
        raise PyExc(KeyError)
    return d


def fresh_pair(ip):
    t = ip.p.fresh(ValS, 'value')
    ip.p.assume(t != ABSENT)
    return SStr(ip.p.fresh(StrS, 'key')), cval(t, ip)


def nkey(k):
    return lambda ip, v: If(ip.strterm(ip.iter_explicit(v)[0]) == k, 1, 0)


def count_measure(name, of):
    m = Measure(name, INT, z3.IntVal(0), lambda a, b: a + b, of)
    m.commutative = True
    return m


def pair_side(p, seg):
    p.assume(And(seg.m['ck'] >= 0, seg.m['ck'] <= seg.m['n']))


PAIRS = Kind('entries', [M.len_measure(), count_measure('ck', nkey(K))],
             fresh_pair, pair_side)
KEYS = Kind('keys', [M.len_measure(), count_measure(
    'ck', lambda ip, v: If(ip.strterm(v) == K, 1, 0))],
    lambda ip: SStr(ip.p.fresh(StrS, 'key')), pair_side)


class ValHandler(TagHandler):
    """A configuration value: a map or something else."""

    def havoc(self, ip, hint):
        return cval(ip.p.fresh(ValS, hint), ip)

    def truth(self, ip, v):
        t = vterm(ip, v)
        r = ip.p.fresh(BOOL, 'truth')
        ip.p.assume(Implies(t == EMPTY, Not(r)))
        ip.p.assume(Implies(isnone_f(t), Not(r)))
        for k in watched(ip.p):
            ip.p.assume(Implies(And(ismap_f(t), get_f(t, k) != ABSENT), r))
        return r

    def isinstance(self, ip, v, cls):
        cs = cls if isinstance(cls, tuple) else (cls,)
        if any(c in (dict, collections.abc.Mapping,
                     collections.abc.MutableMapping) for c in cs):
            return ismap_f(vterm(ip, v))
        raise Unsupported('isinstance of a value and %r' % (cls,))

    def eq(self, ip, v, other):
        if other is None:
            return isnone_f(vterm(ip, v))
        if isinstance(other, Opaque) and other.tag == 'cval':
            return vterm(ip, v) == vterm(ip, other)
        raise Unsupported('comparison of a value')

    def contains(self, ip, v, item):
        return at(ip, vterm(ip, v), keyterm(ip, item)) != ABSENT

    def getitem(self, ip, v, key):
        r, o = lookup(ip, v, key)
        if not ip.p.branch(r != ABSENT):
            raise PyExc(KeyError)
        return o

    def setitem(self, ip, v, key, val):
        basics(ip.p)
        x = vterm(ip, val)
        store(ip, v, keyterm(ip, key), x)
        if val is not v and 'parent' not in val.kw:
            # later changes of the value show in the map
            link(ip, val, v, keyterm(ip, key))

    def delitem(self, ip, v, key):
        self.getitem(ip, v, key)
        store(ip, v, keyterm(ip, key), ABSENT)

    def items(self, ip, v, kind):
        t = vterm(ip, v)
        seg = kind.fresh_seg(ip.p, 'entries')
        ip.p.assume(seg.m['ck'] == If(get_f(t, K) != ABSENT, 1, 0))
        out = LList([seg], ip.p.tick(), kind)
        out.mark = (('entries', t), seg)
        return out

    def iterate(self, ip, v):
        return self.items(ip, v, KEYS)

    def getattr(self, ip, v, name):
        def get(ip, a, k):
            r, o = lookup(ip, v, a[0])
            if ip.p.branch(r != ABSENT):
                return o
            return a[1] if len(a) > 1 else k.get('default')

        def pop(ip, a, k):
            r, o = lookup(ip, v, a[0])
            if ip.p.branch(r != ABSENT):
                store(ip, v, keyterm(ip, a[0]), ABSENT)
                return cval(r, ip)
            return missing(a[1] if len(a) > 1 else k.get(
                'default', UNBOUND))

        def setdefault(ip, a, k):
            r, o = lookup(ip, v, a[0])
            if ip.p.branch(r != ABSENT):
                return o
            self.setitem(ip, v, a[0], a[1])
            return a[1]

        def update(ip, a, k):
            if k or len(a) != 1:
                raise Unsupported('update')
            ip.note_write(v, 'v')
            old, new = vterm(ip, v), ip.p.fresh(ValS, 'map')
            x = vterm(ip, a[0])
            ip.p.assume(And(ismap_f(new), new != ABSENT))
            for w in watched(ip.p):
                ip.p.assume(get_f(new, w) == If(
                    get_f(x, w) != ABSENT, get_f(x, w), get_f(old, w)))
            if v.kw.get('parent'):
                raise Unsupported('update of an inner map')
            v.attrs['v'] = SVal(new)

        def copy(ip, a, k):
            return cval(vterm(ip, v), ip)
        t = dict(get=get, pop=pop, setdefault=setdefault, update=update,
                 copy=copy, items=lambda ip, a, k: self.items(ip, v, PAIRS),
                 keys=lambda ip, a, k: self.items(ip, v, KEYS))
        if name in t:
            return Builtin(name, t[name])
        raise Unsupported('%s of a configuration value' % name)


class ConfEngine(M.Engine):
    def __init__(self):
        M.Engine.__init__(self)
        self.tags['cval'] = ValHandler()
        self.candidate_fns += [self.cands, P.for_candidates]

    def pure(self, addr, f):
        fn = find(addr)
        if fn is not None:
            self.contracts[fn] = ApplyContract(f)

    def empty_dict(self, ip):
        basics(ip.p)
        return cval(EMPTY, ip)

    def dict_copy(self, ip, a, kw):
        if isinstance(a, Opaque) and a.tag == 'cval' and not kw:
            return cval(vterm(ip, a), ip)
        return M.Engine.dict_copy(self, ip, a, kw)

    def kind_of_value(self, ip, v):
        if isinstance(v, tuple) and len(v) == 2 and isinstance(
                v[1], Opaque) and v[1].tag == 'cval':
            return PAIRS
        return M.Engine.kind_of_value(self, ip, v)

    def on_iter(self, ip, mark, idx, v):
        if isinstance(mark, tuple) and mark[0] == 'entries' and \
                isinstance(v, tuple):
            ip.p.assume(Implies(ip.strterm(v[0]) == K,
                                vterm(ip, v[1]) == get_f(mark[1], K)))

    def loop_pre(self, ip, al):
        pre = {}
        for fi, n, v in P.frame_vars(al, ip):
            if isinstance(v, LList):
                k = self.list_kind(ip, v)
                if k is not None:
                    pre[n, fi] = {m: self.measure(ip, v, m, k)
                                  for m in k.measures}
            if isinstance(v, Opaque) and v.tag == 'cval':
                pre[n, fi] = v.attrs['v'].t
        return pre

    def cands(self, ip, al, where):
        return ()


# ------------------------------------------------------------- map_merge
class MergeEngine(ConfEngine):
    def __init__(self):
        ConfEngine.__init__(self)
        self.pure(RUN + 'map_merge', merge_contract)

    def cands(self, ip, al, where):
        m = self.measure
        fv = list(P.frame_vars(al, ip))
        g = ip.p.ghost
        for fi, n, v in fv:
            if not n.startswith('$done') or not isinstance(v, LList):
                continue
            k = self.list_kind(ip, v) or PAIRS
            if 'ck' not in k.measures:
                continue
            ck = m(ip, v, 'ck', k)
            yield 'a key comes once [%s]' % n, And(ck >= 0, ck <= 1)
            out = g['out']
            pre = get_f(g['out0'], K)
            yield 'entries so far are merged [%s]' % n, get_f(
                vterm(ip, out), K) == If(
                    ck > 0, merged_at(pre, get_f(g['inc0'], K)), pre)
            yield 'still a map [%s]' % n, And(
                ismap_f(vterm(ip, out)), vterm(ip, out) != ABSENT)


def merge_contract(ip, ba):
    out, inc = ba['output_map'], ba['increment_map']
    a, b = vterm(ip, out), vterm(ip, inc)
    ip.s.obligation(ip.p, 'only maps are merged', And(
        ismap_f(a), ismap_f(b)))
    new = merge_f(a, b)
    ip.p.assume(And(ismap_f(new), new != ABSENT))
    for w in watched(ip.p):
        ip.p.assume(get_f(new, w) == merged_at(get_f(a, w), get_f(b, w)))
    ip.note_write(out, 'v')
    out.attrs['v'] = SVal(new)
    write_through(ip, out, a)
    return out


@spec('merge', RUN + 'map_merge', MergeEngine)
def map_merge(h):
    """Under every key: what the increment has, merged into what was there
    if both are maps; what it has not stays."""
    ip = h.ip
    out, inc = fresh_map(ip, 'out'), fresh_map(ip, 'inc')
    g = h.p.ghost
    g.update(out=out, out0=vterm(ip, out), inc0=vterm(ip, inc))
    h.may_modify(out)
    h.call(out, inc)
    h.ensure('every key holds the merged value', get_f(vterm(ip, out), K) ==
             merged_at(get_f(g['out0'], K), get_f(g['inc0'], K)))
    # what the definition means for an option S.O of two sectioned files
    basics(h.p)
    a, b = z3.Consts('a b', ValS)
    c = merge_f(a, b)
    sa, sb = get_f(a, SEC), get_f(b, SEC)
    unfold = And(
        get_f(c, SEC) == merged_at(sa, sb),
        get_f(merge_f(sa, sb), OPT) == merged_at(get_f(sa, OPT),
                                                 get_f(sb, OPT)))
    so = get_f(get_f(c, SEC), OPT)
    ok = And(unfold, Or(sa == ABSENT, ismap_f(sa)),
             Or(sb == ABSENT, ismap_f(sb)))
    la, lb = get_f(sa, OPT), get_f(sb, OPT)
    h.ensure('lemma: the later file that sets an option wins', Implies(
        And(ok, lb != ABSENT, Not(ismap_f(la))), so == lb))
    h.ensure('lemma: what only the earlier file sets stays', Implies(
        And(ok, lb == ABSENT), so == la))


# -------------------------------------------------------- get_configdict
StrSeq = z3.SeqSort(StrS)
NOSTRS = z3.Empty(StrSeq)
sf = lambda n, *s: z3.Function(n, *s)
expand_f = sf('expanduser', StrS, StrS)
isabs_f = sf('isabs', StrS, BOOL)
dirname_f = sf('dirname', StrS, StrS)
join_f = sf('join', StrS, StrS, StrS)
inc_f = sf('includes_of', StrS, StrSeq)       # listed path -> its includes
incs_f = sf('includes_of_all', StrSeq, StrSeq)
file_f = sf('contents_of_file', StrS, ValS)


class SStrSeq(SV):
    __slots__ = ()


def seq_measure(name, of):
    return Measure(name, StrSeq, NOSTRS, lambda a, b: z3.Concat(a, b),
                   lambda ip, v: z3.Unit(of(ip, v)))


def resolved(ip, v):
    f, i = ip.p.ghost['file'], ip.strterm(v)
    return If(isabs_f(i), i, join_f(dirname_f(f), i))


PATHS = Kind('paths', [M.len_measure(), seq_measure(
    'seq', lambda ip, v: ip.strterm(v))],
    lambda ip: SStr(ip.p.fresh(StrS, 'path')))
INCS = Kind('includes', [M.len_measure(), seq_measure('res', resolved)],
            lambda ip: SStr(ip.p.fresh(StrS, 'include')))


def path_models(cm):
    def uf(f):
        return lambda ip, a, k: SStr(f(ip.strterm(a[0])))

    def join(ip, a, k):
        x, y = (ip.strterm(v) for v in a)
        ip.p.assume(Implies(isabs_f(y), join_f(x, y) == y))
        return SStr(join_f(x, y))
    cm[os.path.expanduser] = uf(expand_f)
    cm[os.path.dirname] = uf(dirname_f)
    cm[os.path.isabs] = lambda ip, a, k: SBool(isabs_f(ip.strterm(a[0])))
    cm[os.path.join] = join


class FileValHandler(ValHandler):
    """What one configuration file holds."""

    def getattr(self, ip, v, name):
        def includes(ip, a, k):
            if a[0] != 'include':
                raise Unsupported('%s of a file' % name)
            e = v.attrs['src'].t
            if ip.p.branch(ip.p.fresh(BOOL, 'includes')):
                seg = INCS.fresh_seg(ip.p, 'includes')
                ip.p.assume(seg.m['res'] == inc_f(e))
                return LList([seg], ip.p.tick(), INCS)
            ip.p.assume(inc_f(e) == NOSTRS)
            return a[1] if len(a) > 1 else None
        if name in ('pop', 'get'):
            return Builtin(name, includes)
        raise Unsupported('%s of a file' % name)

    def contains(self, ip, v, item):
        raise Unsupported('membership in a file')


class ListEngine(ConfEngine):
    """Which files are merged, in which order."""

    def __init__(self):
        ConfEngine.__init__(self)
        self.tags['fileval'] = FileValHandler()
        path_models(self.call_models)
        self.pure(RUN + 'get_one_config_dict', self.load)
        self.pure(RUN + 'move_legacy_options', self.move)
        self.pure(RUN + 'map_merge', self.merge)
        self.assume_note('reading a configuration file twice gives the same')

    def empty_dict(self, ip):
        o = ConfEngine.empty_dict(self, ip)
        ip.p.assume(incs_f(NOSTRS) == NOSTRS)
        o.attrs['hist'] = SStrSeq(NOSTRS)
        return o

    def load(self, ip, ba):
        t = ip.strterm(ba['configfile_path'])
        if not (z3.is_app(t) and t.decl().eq(expand_f)):
            ip.s.obligation(ip.p, 'the file is looked up below the home '
                            'directory if it says so', z3.BoolVal(False))
            raise Unsupported('path of a configuration file')
        if ip.p.choose(2, 'cannot be read') == 1:
            raise PyExc(common.UserError, None)
        ip.p.ghost['file'] = t
        o = Opaque('fileval', 'file')
        o.stamp = ip.p.tick()
        o.attrs.update(v=SVal(file_f(t)), src=SStr(t.arg(0)),
                       moved=SBool(z3.BoolVal(False)))
        return o

    def move(self, ip, ba):
        o = ba['config_dict']
        if not (isinstance(o, Opaque) and o.tag == 'fileval'):
            raise Unsupported('legacy options of something else')
        ip.note_write(o, 'moved')
        o.attrs['moved'] = SBool(z3.BoolVal(True))

    def merge(self, ip, ba):
        out, inc = ba['output_map'], ba['increment_map']
        if not (isinstance(inc, Opaque) and inc.tag == 'fileval') or \
                'hist' not in out.attrs:
            raise Unsupported('merge of something else')
        ip.s.obligation(ip.p, 'legacy options are in their section by the '
                        'time a file is merged', inc.attrs['moved'].t)
        e = inc.attrs['src'].t
        was = out.attrs['hist'].t
        now = z3.Concat(was, z3.Unit(e))
        ip.p.assume(incs_f(now) == z3.Concat(incs_f(was), inc_f(e)))
        ip.note_write(out, 'hist')
        out.attrs['hist'] = SStrSeq(now)
        return out

    def kind_of_value(self, ip, v):
        if isinstance(v, (str, SStr)):
            return PATHS
        return ConfEngine.kind_of_value(self, ip, v)

    def cands(self, ip, al, where):
        m = self.measure
        fv = list(P.frame_vars(al, ip))
        g = ip.p.ghost
        for fi, n, v in fv:
            if isinstance(v, LList) and not n.startswith('$') and \
                    self.list_kind(ip, v) in (PATHS, None):
                lab = '%s:%d' % (n, fi)
                q = m(ip, v, 'seq', PATHS)
                for fj, n2, c in fv:
                    if isinstance(c, Opaque) and 'hist' in c.attrs:
                        hist = c.attrs['hist'].t
                        yield 'merged and queued are the listed files and ' \
                            'the included ones [%s, %s]' % (lab, n2), \
                            z3.Concat(hist, q) == z3.Concat(
                                g['paths'], incs_f(hist))
                pre = al.pre.get((n, fi), {}).get('seq')
                for fj, n2, d in fv:
                    if n2.startswith('$done') and isinstance(d, LList) and \
                            self.list_kind(ip, d) in (INCS, None) and \
                            pre is not None:
                        yield 'the included files are queued last [%s, %s]' \
                            % (lab, n2), q == z3.Concat(
                                pre, m(ip, d, 'res', INCS)
                                if 'file' in g else NOSTRS)


@spec('merge', RUN + 'get_configdict', ListEngine)
def get_configdict(h):
    """The files that are merged are, in order, the listed ones and then
    those included by the ones before (breadth first)."""
    ip = h.ip
    paths = h.list(PATHS, 'configfile_paths')
    h.p.ghost['paths'] = ip.e.measure(ip, paths, 'seq', PATHS)
    r = h.call(paths)
    if not (isinstance(r, Opaque) and 'hist' in r.attrs):
        h.ensure('the merged files are returned', False)
        return
    hist = r.attrs['hist'].t
    h.ensure('listed files first, then included ones in breadth-first order',
             hist == z3.Concat(h.p.ghost['paths'], incs_f(hist)))


# ------------------------------------------- the registry of the options
# an arbitrary section S with an arbitrary option O; what the classes really
# declare is looked up below (`registry_facts`)
def sections():
    return [(d.name, d.subtree_class) for d in
            configuration.Configuration._field_registry
            if isinstance(d, CU.SubtreeDescriptor)]


def registry_facts():
    """What the contracts below take for granted about the real registry;
    finite, looked at completely.  [(label, holds)]"""
    secs = sections()
    names = [n for n, _ in secs]
    opts = [f.name for _, c in secs for f in c._field_registry]
    return [
        ('the root of the configuration has sections only', all(
            isinstance(d, CU.SubtreeDescriptor)
            for d in configuration.Configuration._field_registry)),
        ('a section has options only', all(
            type(f) is CU.FieldDescriptor for _, c in secs
            for f in c._field_registry)),
        ('every section has a name of its own', len(set(names)) == len(
            names)),
        ('every option has a name of its own', len(set(opts)) == len(opts)),
        ('no option is named like a section', not set(opts) & set(names)),
        ('no name starts with an underscore', not any(
            x.startswith('_') for x in opts + names)),
        ('no option is named like the list of included files',
         'include' not in opts + names),
        ('every descriptor knows its name', all(
            c.__dict__.get(f.name) is f for _, c in secs
            for f in c._field_registry)),
    ]


issec_f = z3.Function('is_section', StrS, BOOL)


def descr_name(ip, v):
    return v.attrs['name'].t


def fresh_descr(tag):
    def f(ip):
        o = Opaque(tag, 'descr')
        o.stamp = ip.p.tick()
        o.attrs['name'] = SStr(ip.p.fresh(StrS, 'name'))
        ip.p.assume(issec_f(o.attrs['name'].t) == (tag == 'sdescr'))
        return o
    return f


def once_side(p, seg):
    p.assume(And(seg.m['c'] >= 0, seg.m['c'] <= seg.m['n'],
                 seg.m['c'] <= 1))


# the sections: how often S occurs; the options of a section: how often O
SECTS = Kind('sections', [M.len_measure(), count_measure(
    'c', lambda ip, v: If(descr_name(ip, v) == SEC, 1, 0))],
    fresh_descr('sdescr'), once_side)
FIELDS = Kind('options', [M.len_measure(), count_measure(
    'c', lambda ip, v: If(descr_name(ip, v) == OPT, 1, 0))],
    fresh_descr('fdescr'), once_side)
NAMES = Kind('names', [M.len_measure(), count_measure(
    'c', lambda ip, v: If(ip.strterm(v) == OPT, 1, 0))],
    lambda ip: option_name(ip, SStr(ip.p.fresh(StrS, 'name'))),
    once_side)


def option_name(ip, v):
    ip.p.assume(Not(issec_f(v.t)))
    return v


def run_of(ip, kind, c):
    seg = kind.fresh_seg(ip.p, kind.name)
    ip.p.assume(seg.m['c'] == c)
    return LList([seg], ip.p.tick(), kind)


class DescrHandler(TagHandler):
    """A descriptor: of a section (sdescr) or of an option (fdescr)."""

    def __init__(self, cls):
        self.cls = cls

    def truth(self, ip, v):
        return True

    def isinstance(self, ip, v, cls):
        cs = cls if isinstance(cls, tuple) else (cls,)
        return any(issubclass(self.cls, c) for c in cs)

    def havoc(self, ip, hint):
        return fresh_descr('sdescr' if self.cls is CU.SubtreeDescriptor
                           else 'fdescr')(ip)

    def getattr(self, ip, v, name):
        if name == 'name':
            return v.attrs['name']
        if name == 'subtree_class' and self.cls is CU.SubtreeDescriptor:
            return Opaque('sectclass', 'class', nm=v.attrs['name'])
        return self.more(ip, v, name)

    def more(self, ip, v, name):
        raise Unsupported('%s of a descriptor' % name)


class SectClassHandler(TagHandler):
    def truth(self, ip, v):
        return True

    def getattr(self, ip, v, name):
        c = If(v.kw['nm'].t == SEC, 1, 0)
        if name == 'get_field_names':
            return Builtin(name, lambda ip, a, k: run_of(ip, NAMES, c))
        if name == '_field_registry':
            return run_of(ip, FIELDS, c)
        raise Unsupported('%s of a section' % name)


class RegEngine(ConfEngine):
    def __init__(self):
        ConfEngine.__init__(self)
        self.tags.update(sdescr=DescrHandler(CU.SubtreeDescriptor),
                         fdescr=DescrHandler(CU.FieldDescriptor),
                         sectclass=SectClassHandler())
        self.attr_overrides.append(self.registry)

    @staticmethod
    def registry(ip, v, name):
        if name == '_field_registry' and v is configuration.Configuration:
            return (run_of(ip, SECTS, z3.IntVal(1)),)
        return None

    def kind_of_value(self, ip, v):
        if isinstance(v, Opaque) and v.tag in ('sdescr', 'fdescr'):
            return {'sdescr': SECTS, 'fdescr': FIELDS}[v.tag]
        if isinstance(v, (str, SStr)):
            return NAMES
        return ConfEngine.kind_of_value(self, ip, v)

    def done(self, ip, al, kinds):
        for fi, n, v in P.frame_vars(al, ip):
            if n.startswith('$done') and isinstance(v, LList):
                k = self.list_kind(ip, v)
                rest = al.frames[fi].locals.get('$rest' + n[5:])
                if k is None and rest is not None:
                    k = self.list_kind(ip, rest)
                if k in kinds:
                    yield n, k, self.measure(ip, v, 'c', k)


def facts(h):
    for label, ok in registry_facts():
        h.ensure('registry: ' + label, bool(ok))
    h.p.assume(And(issec_f(SEC), Not(issec_f(OPT))))
    h.p.assume(And([issec_f(Sv(n)) for n, _ in sections()]))
    h.p.ghost['keys'] = (SEC, OPT)


def moved(a):
    """(root O, S is a map, S.O) after moving the legacy options of a."""
    o, s = get_f(a, OPT), get_f(a, SEC)
    may = And(o != ABSENT, Or(s == ABSENT, ismap_f(s)))
    return (If(may, ABSENT, o), If(may, o, get_f(s, OPT)), may)


class MoveEngine(RegEngine):
    def cands(self, ip, al, where):
        g = ip.p.ghost
        v = vterm(ip, g['d'])
        s = get_f(v, SEC)
        root, so, may = moved(g['d0'])
        root0, so0 = get_f(g['d0'], OPT), get_f(get_f(g['d0'], SEC), OPT)
        yield 'still a map', And(ismap_f(v), v != ABSENT)
        outer = None
        for n, k, c in self.done(ip, al, (SECTS,)):
            outer = c, n
        inner = None
        for n, k, c in self.done(ip, al, (NAMES, FIELDS)):
            # (what an earlier run of the inner loop left does not count)
            if n == '$done%s' % al.info.key[1]:
                inner = c, n
        cur = None
        if inner is not None:
            for fi, n, x in P.frame_vars(al, ip):
                if isinstance(x, Opaque) and x.tag == 'sdescr':
                    cur = x.attrs['name'].t == SEC, n
        if outer is None:
            return
        moved_yet = outer[0] > 0
        lab = outer[1]
        if inner is not None:
            if cur is None:
                return
            # the section at hand counts as done in the outer loop
            moved_yet = Or(And(moved_yet, Not(cur[0])), inner[0] > 0)
            lab += ', ' + inner[1]
        yield 'the root so far [%s]' % lab, get_f(v, OPT) == If(
            moved_yet, root, root0)
        yield 'the section so far [%s]' % lab, get_f(s, OPT) == If(
            moved_yet, so, so0)
        s0 = get_f(g['d0'], SEC)
        yield 'a section is one [%s]' % lab, Implies(
            Or(ismap_f(s0), And(moved_yet, may)), ismap_f(s))
        yield 'what is no section stays [%s]' % lab, Or(
            s == s0, And(ismap_f(s), Or(s0 == ABSENT, ismap_f(s0))))
        if inner is None:
            yield 'nothing is there yet [%s]' % lab, Implies(
                Not(moved_yet), s == s0)
        else:
            yield 'nothing is there yet [%s]' % lab, Implies(
                Not(Or(moved_yet, cur[0])), s == s0)
        if cur is not None:
            yield 'the current section can be moved to [%s %s]' % (
                lab, cur[1]), Implies(cur[0], Or(
                    get_f(g['d0'], SEC) == ABSENT,
                    ismap_f(get_f(g['d0'], SEC))))


@spec('merge', RUN + 'move_legacy_options', MoveEngine)
def move_legacy_options(h):
    """An option at the root goes to its section, which it overrides."""
    ip = h.ip
    facts(h)
    d = fresh_map(ip, 'config_dict')
    g = h.p.ghost
    g.update(d=d, d0=vterm(ip, d))
    h.p.assume(Not(ismap_f(ABSENT)))
    h.may_modify(d)
    h.call(d)
    root, so, may = moved(g['d0'])
    v = vterm(ip, d)
    h.ensure('the option leaves the root', get_f(v, OPT) == root)
    h.ensure('the option of the section', get_f(get_f(v, SEC), OPT) == so)
    h.ensure('the section is a map if it was or the option is moved',
             Implies(Or(ismap_f(get_f(g['d0'], SEC)), may),
                     ismap_f(get_f(v, SEC))))
    h.ensure('what is no section stays what it is', Or(
        ismap_f(get_f(v, SEC)), get_f(v, SEC) == get_f(g['d0'], SEC)))
