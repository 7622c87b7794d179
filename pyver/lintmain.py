"""Contracts on the linter's reports, its summary and its exit status.

Statements about "every file" and "every category" are made about one
arbitrary path P0 and one arbitrary category K.
"""
import argparse
import collections
import io
import logging
import os
import re
import sys

import z3

from . import effects as EF
from . import models as M
from . import parsing as P
from . import texts
from .contract import spec, bounded, ApplyContract, find
from .effects import Ev, log, may_fail, evs_of
from .linting import LintEngine, LINT, sum_measure
from .models import TagHandler, memo, INT, BOOL
from .texts import Atom
from .values import *  # noqa

from cmakelang import common, configuration
from cmakelang.lint import __main__ as LM
from cmakelang.lint import lint_util as LU
from cmakelang.lint import lintdb

S = z3.StringVal
FCTX = LINT + 'lint_util:FileContext.'
GCTX = LINT + 'lint_util:GlobalContext.'
MAIN = LINT + '__main__:'

K = z3.Const('K', StrS)              # an arbitrary category letter
P0 = z3.Const('P0', StrS)            # an arbitrary path
RepS = z3.DeclareSort('Report')
RepSeq = z3.SeqSort(RepS)
cat_f = z3.Function('category', RepS, StrS)


class RepHandler(TagHandler):
    """A lint record."""

    def truth(self, ip, v):
        return True

    def getattr(self, ip, v, name):
        if name == 'spec':
            return Opaque('repspec', 'spec', r=v.kw['r'])
        raise Unsupported('%s of a record' % name)


class RepSpecHandler(TagHandler):
    def getattr(self, ip, v, name):
        if name == 'idstr':
            return Opaque('repcode', 'idstr', r=v.kw['r'])
        raise Unsupported('%s of a lint spec' % name)


class RepCodeHandler(TagHandler):
    """A code, of which only the first letter matters."""

    def getitem(self, ip, v, key):
        if key == 0 or isinstance(key, slice) and (
                key.start in (None, 0) and key.stop == 1
                and key.step in (None, 1)):
            return SStr(cat_f(v.kw['r']))
        raise Unsupported('part of a code')

    def getattr(self, ip, v, name):
        if name == 'startswith':
            raise Unsupported('startswith of a code')
        raise Unsupported('%s of a code' % name)


def fresh_rep(ip):
    return Opaque('rep', 'record', r=ip.p.fresh(RepS, 'rec'))


def rep_side(p, seg):
    p.assume(z3.And(seg.m['k'] >= 0, seg.m['k'] <= seg.m['n'],
                    z3.Length(seg.m['seq']) == seg.m['n']))


REPS = Kind('reports', [
    M.len_measure(),
    sum_measure('k', lambda ip, v: z3.If(cat_f(v.kw['r']) == K, 1, 0)),
    Measure('seq', RepSeq, z3.Empty(RepSeq), lambda a, b: z3.Concat(a, b),
            lambda ip, v: z3.Unit(v.kw['r'])),
], fresh_rep, rep_side)


# per file, constants of one run: what its get_lint returns
nk_f = z3.Function('findings_of_K', StrS, INT)


def fresh_entry(ip):
    p = SStr(ip.p.fresh(StrS, 'path'))
    return (p, Opaque('fctx', 'file_ctx', path=p.t))


def path_of(v):
    if isinstance(v, tuple):
        v = v[0]
    if isinstance(v, Opaque):
        return v.kw['path']
    return v.t if isinstance(v, SStr) else S(v)


ENTRIES = Kind('entries', [
    M.len_measure(),
    sum_measure('k', lambda ip, v: nk_f(path_of(v))),
], fresh_entry)


class CtxMapHandler(TagHandler):
    """file_ctxs: path -> context.  Membership is known for P0; for other
    paths it is unknown."""

    def truth(self, ip, v):
        return SBool(self.entries(ip, v).items[0].m['n'] > 0).t

    def entries(self, ip, v):
        return memo(v, '$entries', lambda: LList(
            [ENTRIES.fresh_seg(ip.p, 'files')], 0, ENTRIES))

    def length(self, ip, v):
        return SInt(self.entries(ip, v).items[0].m['n'])

    def contains(self, ip, v, item):
        t = ip.strterm(item)
        return z3.If(t == P0, v.attrs['has'].t, ip.p.fresh(BOOL, 'known'))

    def getattr(self, ip, v, name):
        def items(ip, a, k):
            return self.entries(ip, v)

        def values(ip, a, k):
            e = self.entries(ip, v)
            s = CTXS.fresh_seg(ip.p, 'ctxs')
            for m in ('n', 'k'):
                ip.p.assume(s.m[m] == e.items[0].m[m])
            return LList([s], 0, CTXS)

        def get(ip, a, k):
            if ip.p.branch(self.contains(ip, v, a[0])):
                return self.getitem(ip, v, a[0])
            return a[1] if len(a) > 1 else None

        def setdefault(ip, a, k):
            if not ip.p.branch(self.contains(ip, v, a[0])):
                self.setitem(ip, v, a[0], a[1])
                return a[1]
            return self.getitem(ip, v, a[0])
        t = {'items': items, 'values': values, 'get': get,
             'setdefault': setdefault}
        if name in t:
            return Builtin(name, t[name])
        raise Unsupported('%s of file_ctxs' % name)

    def getitem(self, ip, v, key):
        t = ip.strterm(key)
        for k, o in v.kw.get('stored', []):
            if ip.p.prove(k == t)[0] == 'yes':
                return o
        if ip.p.prove(t == P0)[0] == 'yes':
            if not ip.p.branch(v.attrs['has'].t):
                raise PyExc(KeyError)
        return memo(v, ('item', t.get_id()),
                    lambda: Opaque('fctx', 'file_ctx', path=t, old=True))

    def setitem(self, ip, v, key, val):
        t = ip.strterm(key)
        if ip.active:
            raise Unsupported('file_ctxs changed in a loop')
        ip.note_write(v, 'has')
        v.kw.setdefault('stored', []).append((t, val))
        v.attrs['has'] = SBool(z3.Or(v.attrs['has'].t, t == P0))


CTXS = Kind('contexts', [
    M.len_measure(),
    sum_measure('k', lambda ip, v: nk_f(path_of(v))),
], lambda ip: fresh_entry(ip)[1])


class FctxHandler(TagHandler):
    """The context of one file, by the contracts of its methods."""

    def truth(self, ip, v):
        return True

    def eq(self, ip, v, other):
        return v is other

    def getattr(self, ip, v, name):
        def get_lint(ip, a, k):
            ip.s.used_contracts.add('FileContext.get_lint')
            s = REPS.fresh_seg(ip.p, 'lint')
            ip.p.assume(s.m['k'] == nk_f(v.kw['path']))
            return LList([s], ip.p.tick(), REPS)
        if name == 'get_lint':
            return Builtin(name, get_lint)
        if name == 'config' and 'config' in v.attrs:
            return v.attrs['config']
        raise Unsupported('%s of a file context' % name)

    def setattr(self, ip, v, name, val):
        if ip.active:
            raise Unsupported('context changed in a loop')
        v.attrs[name] = val


class CountMapHandler(TagHandler):
    """A dict of counts: whether K has one, and which."""

    def truth(self, ip, v):
        raise Unsupported('truth of the counts')

    def contains(self, ip, v, item):
        return z3.If(ip.strterm(item) == K, v.attrs['has'].t,
                     ip.p.fresh(BOOL, 'other'))

    def getitem(self, ip, v, key):
        if ip.p.branch(ip.strterm(key) == K):
            if not ip.p.branch(v.attrs['has'].t):
                if not v.kw.get('default'):
                    raise PyExc(KeyError)
                return 0
            return v.attrs['n']
        return SInt(ip.p.fresh(INT, 'count'))

    def setitem(self, ip, v, key, val):
        if ip.p.branch(ip.strterm(key) == K):
            ip.note_write(v, 'n')
            ip.note_write(v, 'has')
            v.attrs['n'] = SInt(ip.intterm(val))
            v.attrs['has'] = SBool(z3.BoolVal(True))

    def getattr(self, ip, v, name):
        def get(ip, a, k):
            if ip.p.branch(ip.strterm(a[0]) == K):
                if ip.p.branch(v.attrs['has'].t):
                    return v.attrs['n']
                return a[1] if len(a) > 1 else None
            return SInt(ip.p.fresh(INT, 'count'))

        def setdefault(ip, a, k):
            if ip.p.branch(ip.strterm(a[0]) == K):
                if not ip.p.branch(v.attrs['has'].t):
                    self.setitem(ip, v, a[0], a[1])
                return v.attrs['n']
            return SInt(ip.p.fresh(INT, 'count'))
        t = {'get': get, 'setdefault': setdefault}
        if name in t:
            return Builtin(name, t[name])
        raise Unsupported('%s of the counts' % name)


def count_map(ip, **kw):
    c = Opaque('countmap', 'counts', **kw)
    c.attrs.update(has=SBool(z3.BoolVal(False)), n=SInt(z3.IntVal(0)))
    c.stamp = ip.p.tick()
    return c


class ReportEngine(texts.TextEngineMixin, LintEngine):
    def __init__(self):
        LintEngine.__init__(self)
        self.tags.update(rep=RepHandler(), repspec=RepSpecHandler(),
                         repcode=RepCodeHandler(), fctx=FctxHandler(),
                         ctxmap=CtxMapHandler(), countmap=CountMapHandler(),
                         report=ReportHandler())
        self.call_models[collections.defaultdict] = \
            lambda ip, a, k: count_map(ip, default=True)
        self.call_models[collections.Counter] = \
            lambda ip, a, k: count_map(ip, default=True)
        self.candidate_fns += [self.cands, P.for_candidates]

    def empty_dict(self, ip):
        return count_map(ip)

    def kind_of_value(self, ip, v):
        if isinstance(v, Opaque) and v.tag == 'rep':
            return REPS
        if isinstance(v, Opaque) and v.tag == 'fctx':
            return CTXS
        if isinstance(v, tuple) and len(v) == 2 and isinstance(
                v[1], Opaque) and v[1].tag == 'fctx':
            return ENTRIES
        return LintEngine.kind_of_value(self, ip, v)

    def loop_pre(self, ip, al):
        pre = LintEngine.loop_pre(self, ip, al)
        for nm, o in al.objs.items():
            if isinstance(o, Opaque) and o.tag in ('countmap', 'report'):
                pre['$', nm] = dict(o.attrs)
        return pre

    def cands(self, ip, al, where):
        done = [(n, v, ip.e.list_kind(ip, v))
                for fi, n, v in P.frame_vars(al, ip)
                if n.startswith('$done') and isinstance(v, LList)]
        for nm, o in al.objs.items():
            if not isinstance(o, Opaque):
                continue
            pre = al.pre.get(('$', nm))
            if pre is None:
                continue
            for n, v, k in done:
                if o.tag == 'countmap' and k in (REPS, ENTRIES, CTXS, None):
                    d = ip.e.measure(ip, v, 'k', k or REPS)
                    cur = z3.If(o.attrs['has'].t, o.attrs['n'].t, 0)
                    was = z3.If(pre['has'].t, pre['n'].t, 0)
                    yield 'findings of K counted so far [%s]' % n, \
                        cur == was + d
                    yield 'only findings of K are counted [%s]' % n, z3.And(
                        z3.Implies(o.attrs['has'].t, o.attrs['n'].t > 0))
                if o.tag == 'report' and k in (REPS, None):
                    yield 'written so far [%s]' % n, o.attrs['seq'].t == \
                        z3.Concat(pre['seq'].t,
                                  ip.e.measure(ip, v, 'seq', REPS))


class SRep(SV):
    pass


class ReportHandler(TagHandler):
    """The output: records are written as lines "path:record"."""

    def getattr(self, ip, v, name):
        def write(ip, a, k):
            ps = texts.parts(ip, a[0])
            ok = len(ps) == 4 and ps[1] == ':' and ps[3] == '\n' and all(
                isinstance(ps[i], Atom) for i in (0, 2)) and isinstance(
                    ps[2].v, Opaque) and ps[2].v.tag == 'rep' and isinstance(
                        ps[0].v, SStr)
            ip.s.obligation(ip.p, 'what is written is a line with the path '
                            'and the record', z3.And(
                                z3.BoolVal(ok), ps[0].v.t == v.kw['path']
                                if ok else z3.BoolVal(False)),
                            {'text': texts.show(ps)})
            if not ok:
                raise PathEnd()
            ip.note_write(v, 'seq')
            v.attrs['seq'] = SRep(z3.Concat(
                v.attrs['seq'].t, z3.Unit(ps[2].v.kw['r'])))
        if name == 'write':
            return Builtin(name, write)
        raise Unsupported('%s of the output' % name)


def reports(h):
    """A context of a file whose get_lint returns the unknown list."""
    o = h.obj(LU.FileContext, infile_path=h.str('infile_path'))
    lint = LList([REPS.fresh_seg(h.p, 'lint')], 0, REPS)
    fn = find(FCTX + 'get_lint')

    def get_lint(ip, ba):
        ip.s.used_contracts.add('FileContext.get_lint')
        return lint
    h.ip.e.contracts[fn] = ApplyContract(get_lint)
    return o, lint


@spec('lintmain', FCTX + 'writeout', ReportEngine)
def writeout(h):
    """Every record of get_lint is written once, in order."""
    o, lint = reports(h)
    w = Opaque('report', 'outfile', path=o.fields['infile_path'].t)
    w.attrs['seq'] = SRep(z3.Empty(RepSeq))
    h.may_modify(w)
    h.call(o, w)
    h.ensure('every finding is written once, in order',
             w.attrs['seq'].t == h.ip.e.measure(h.ip, lint, 'seq', REPS))


@spec('lintmain', FCTX + 'has_lint', ReportEngine)
def has_lint(h):
    """True exactly if get_lint returns a record."""
    o, lint = reports(h)
    r = h.call(o)
    h.ensure('true exactly if a finding is reported',
             h.ip.truth_term(r) == (h.ip.e.measure(
                 h.ip, lint, 'n', REPS) > 0))


@spec('lintmain', GCTX + 'get_category_counts', ReportEngine)
def get_category_counts(h):
    """For the arbitrary category K: the number of findings of K that
    get_lint returns, over all the files."""
    ip = h.ip
    m = Opaque('ctxmap', 'file_ctxs')
    m.attrs['has'] = SBool(z3.Const('known0', BOOL))
    o = h.obj(LU.GlobalContext, file_ctxs=m)
    total = ip.e.measure(ip, ip.e.tag('ctxmap').entries(ip, m), 'k', ENTRIES)
    r = h.call(o)
    ok = isinstance(r, Opaque) and r.tag == 'countmap'
    h.ensure('counts by category', ok)
    if ok:
        h.ensure('the count of K is the number of its findings', z3.If(
            r.attrs['has'].t, r.attrs['n'].t, 0) == total)
        h.ensure('K is listed only if there is a finding', z3.Implies(
            r.attrs['has'].t, total > 0))


@bounded('lintmain', LINT + 'lintdb:get_database', None,
         'codes of the lint database (a literal)')
def known_categories(fn):
    """Every code belongs to a category with a name."""
    n = 0
    for k in fn():
        n += 1
        if k[:1] not in LU.GlobalContext.category_names:
            return n, k
    return n, None


class TextFileHandler(TagHandler):
    """An output of which the whole text is kept (no loops over unknown
    lists)."""

    def getattr(self, ip, v, name):
        def write(ip, a, k):
            if ip.active:
                raise Unsupported('output in a loop over an unknown list')
            v.kw['parts'] += texts.parts(ip, a[0])
        if name == 'write':
            return Builtin(name, write)
        raise Unsupported('%s of the output' % name)


class SummaryEngine(texts.TextEngineMixin, LintEngine):
    def __init__(self):
        LintEngine.__init__(self)
        self.tags.update(ctxmap=CtxMapHandler(), fctx=FctxHandler(),
                         textfile=TextFileHandler())

        def counts(ip, ba):
            ip.s.used_contracts.add('GlobalContext.get_category_counts')
            return ip.p.ghost['counts']
        self.contracts[find(GCTX + 'get_category_counts')] = ApplyContract(
            counts)

    def sorted_model(self, ip, v, kw):
        if v.explicit() and not kw:
            xs = [i.v for i in v.items]
            if all(isinstance(x, tuple) and isinstance(x[0], str)
                   for x in xs) and len({x[0] for x in xs}) == len(xs):
                return LList([El(x) for x in sorted(
                    xs, key=lambda x: x[0])], ip.p.tick(), v.kind)
        return LintEngine.sorted_model(self, ip, v, kw)


@spec('lintmain', GCTX + 'write_summary', SummaryEngine)
def write_summary(h):
    """Shows the number of files and, for each category that has findings,
    its name and the number of findings."""
    ip = h.ip
    names = LU.GlobalContext.category_names
    m = Opaque('ctxmap', 'file_ctxs')
    m.attrs['has'] = SBool(z3.Const('known0', BOOL))
    o = h.obj(LU.GlobalContext, file_ctxs=m)
    nfiles = ip.e.tag('ctxmap').length(ip, m).t
    counts = {}
    for c in sorted(names):
        if h.p.choose(2, c):
            counts[c] = h.int('n' + c, 1)
    h.p.ghost['counts'] = DDict(dict(counts), h.p.tick())
    w = Opaque('textfile', 'outfile', parts=[])
    h.call(o, w)
    out, vals = '', {}
    for p in texts.merge(w.kw['parts']):
        if isinstance(p, str):
            out += p
        else:
            k = 'VALUE%d' % len(vals)
            vals[k] = p.v
            out += k
    rows = {}
    for l in out.split('\n'):
        x = re.match(r'^\s*([A-Za-z ]+?)\s*: *(VALUE\d+|\d+)\s*$', l)
        if x:
            rows.setdefault(x.group(1), []).append(
                vals.get(x.group(2)) if x.group(2) in vals
                else int(x.group(2)))
    h.ensure('the number of files is shown', z3.BoolVal(False) if len(
        rows.get('files scanned', [])) != 1 else ip.intterm(
            rows['files scanned'][0]) == nfiles)
    for c, name in sorted(names.items()):
        r = rows.get(name, [])
        if c in counts:
            h.ensure('%s: shown once, with its count' % name,
                     ip.intterm(r[0]) == counts[c].t if len(r) == 1
                     else z3.BoolVal(False), {'text': out})
        else:
            h.ensure('%s: not shown without findings' % name, not r)


class GetCtxEngine(LintEngine):
    def __init__(self):
        LintEngine.__init__(self)
        self.tags.update(ctxmap=CtxMapHandler(), fctx=FctxHandler())
        self.call_models[collections.defaultdict] = \
            lambda ip, a, k: count_map(ip, default=True)


@spec('lintmain', GCTX + 'get_file_ctx', GetCtxEngine)
def get_file_ctx(h):
    """The context of that path: the one there is, or a new one."""
    ip = h.ip
    m = Opaque('ctxmap', 'file_ctxs')
    had = z3.Const('known0', BOOL)
    m.attrs['has'] = SBool(had)
    o = h.obj(LU.GlobalContext, file_ctxs=m)
    h.may_modify(m)
    path = SStr(P0)
    cfg = Opaque('any', 'config')
    r = h.call(o, path, cfg)
    h.ensure('the path is known from then on', m.attrs['has'].t)
    if isinstance(r, Opaque):
        h.ensure('a known context is that of the path', z3.And(
            had, r.kw['path'] == P0) if r.tag == 'fctx'
            else z3.BoolVal(False))
        h.ensure('it has the configuration', r.attrs.get('config') is cfg)
        h.ensure('it stays the one that is stored',
                 all(x is r for _, x in m.kw.get('stored', [])))
    else:
        ok = isinstance(r, Obj) and r.cls is LU.FileContext
        h.ensure('a new context is made', ok)
        if ok:
            h.ensure('only for a path that was not known', z3.Not(had))
            h.ensure('for that path', ip.eq_term(
                r.fields['infile_path'], path))
            h.ensure('it is stored', [x for _, x in m.kw.get(
                'stored', [])] == [r])
            h.ensure('it has the configuration', r.fields['config'] is cfg)
            h.ensure('it has no findings yet', isinstance(
                r.fields['_lint'], LList) and not r.fields['_lint'].items)
            h.ensure('it belongs to the run', r.fields['global_ctx'] is o)


@bounded('lintmain', LINT + 'lint_util:LintRecord.__repr__', None,
         'locations of 0 to 3 numbers below 1200, or none')
def record_repr(fn):
    n = 0
    spec_ = collections.namedtuple('Spec', 'idstr')('C0301')
    locs = [None, ()]
    xs = list(range(13)) + [99, 100, 1199]
    locs += [(a,) for a in xs] + [(a, b) for a in xs for b in xs] + [
        (a, b, c) for a in xs for b in xs for c in (0, 7)]
    for loc in locs:
        n += 1
        r = LU.LintRecord(spec_, loc, 'the {} message')
        s = fn(r)
        want = '' if not loc else ','.join('%02d' % x for x in loc[:2])
        x = re.match(r'^([\d,]*):? \[C0301\] the \{\} message$', s)
        if not x or x.group(1) != want:
            return n, repr((loc, s))
    return n, None


# ------------------------------------------------------------- inner_main
canopen_f = z3.Function('can_be_opened', StrS, BOOL)
candec_f = z3.Function('can_be_decoded', StrS, BOOL)
haslint_f = z3.Function('has_findings', StrS, BOOL)


def readable(t):
    return z3.And(canopen_f(t), candec_f(t))


def bad(t):
    return z3.Or(z3.Not(readable(t)), haslint_f(t))


LPATHS = Kind('listed paths', [
    M.len_measure(),
    P.or_measure('p0', lambda ip, v: ip.strterm(v) == P0),
    P.or_measure('bad', lambda ip, v: bad(ip.strterm(v))),
], lambda ip: SStr(ip.p.fresh(StrS, 'path')), lambda p, seg: p.assume(
    z3.Implies(z3.And(seg.m['p0'], bad(P0)), seg.m['bad'])))


class LintArgsHandler(EF.ArgsHandler):
    bools = ('suppress_decorations',)

    def getattr(self, ip, v, name):
        if name == 'infilepaths':
            return memo(v, name, lambda: LList(
                [LPATHS.fresh_seg(ip.p, 'paths')], 0, LPATHS))
        if name == 'log_level':
            return memo(v, name, lambda: 'info')
        return EF.ArgsHandler.getattr(self, ip, v, name)


class CfgDictHandler(TagHandler):
    """The merged configuration of one file."""

    def getattr(self, ip, v, name):
        def update(ip, a, k):
            ip.note_write(v, 'with')
            v.attrs['with'] = a[0] if v.attrs['with'] is None else 'more'
        if name == 'update':
            return Builtin(name, update)
        raise Unsupported('%s of the configuration' % name)


class LintFileHandler(EF.FileHandler):
    """An input file: opening and decoding it fail or not, always alike."""

    def getattr(self, ip, v, name):
        if name == 'read' and not EF.writable(Ev('open', v)):
            def read(ip, a, k):
                if a or k:
                    raise Unsupported('partial read')
                if v.attrs.get('$read'):
                    return ''
                if not ip.p.branch(candec_f(v.kw['of'])):
                    raise PyExc(UnicodeDecodeError, None, 'read')
                v.attrs['$read'] = True
                t = SStr(ip.p.fresh(StrS, 'intext'))
                ip.p.ghost.setdefault('texts', {})[t.t.get_id()] = (t, v)
                return t
            return Builtin(name, read)
        return EF.FileHandler.getattr(self, ip, v, name)


class GctxHandler(TagHandler):
    """The global context, by the contracts of its methods."""

    def truth(self, ip, v):
        return True

    def getattr(self, ip, v, name):
        def get_file_ctx(ip, a, k):
            ip.s.used_contracts.add('GlobalContext.get_file_ctx')
            t = ip.strterm(a[0])
            m = v.attrs['file_ctxs']
            ip.note_write(m, 'has')
            m.attrs['has'] = SBool(z3.Or(m.attrs['has'].t, t == P0))
            c = Opaque('runctx', 'ctx', path=t, cfg=a[1], w=v.kw['w'])
            return c

        def write_summary(ip, a, k):
            ip.s.used_contracts.add('GlobalContext.write_summary')
            w = v.kw['w']
            ip.s.obligation(ip.p, 'the summary comes after the files',
                            z3.BoolVal(not ip.active))
            ip.s.obligation(ip.p, 'the summary goes to the output',
                            z3.BoolVal(a[0] is w.kw['outfile']))
            w.kw['summaries'] += 1
        if name == 'file_ctxs':
            return v.attrs['file_ctxs']
        t = {'get_file_ctx': get_file_ctx, 'write_summary': write_summary}
        if name in t:
            return Builtin(name, t[name])
        raise Unsupported('%s of the lint context' % name)


def bump(ip, w, name, t):
    ip.note_write(w, name)
    w.attrs[name] = SInt(w.attrs[name].t + z3.If(t == P0, 1, 0))


class RunCtxHandler(TagHandler):
    """The context of one file in a run."""

    def truth(self, ip, v):
        return True

    def getattr(self, ip, v, name):
        w, t = v.kw['w'], v.kw['path']

        def writeout(ip, a, k):
            ip.s.used_contracts.add('FileContext.writeout')
            ip.s.obligation(ip.p, 'findings are reported after the file was '
                            'checked', z3.Implies(
                                t == P0, w.attrs['checked'].t > 0))
            ip.s.obligation(ip.p, 'findings go to the output', z3.BoolVal(
                a[0] is w.kw['outfile']))
            bump(ip, w, 'written', t)

        def has_lint(ip, a, k):
            ip.s.used_contracts.add('FileContext.has_lint')
            ip.s.obligation(ip.p, 'a file counts after it was checked',
                            z3.Implies(t == P0, w.attrs['checked'].t > 0))
            return SBool(haslint_f(t))
        tt = {'writeout': writeout, 'has_lint': has_lint}
        if name in tt:
            return Builtin(name, tt[name])
        raise Unsupported('%s of a file context' % name)


class OutHandler(EF.FileHandler):
    def getattr(self, ip, v, name):
        if name == 'write':
            def write(ip, a, k):
                w = ip.p.ghost['run']
                ip.s.obligation(ip.p, 'only decorations that were not '
                                'suppressed are written besides', z3.Not(
                                    w.kw['suppress']))
            return Builtin(name, write)
        return EF.FileHandler.getattr(self, ip, v, name)


class LintMainEngine(EF.RunEngine):
    def __init__(self):
        EF.RunEngine.__init__(self)
        self.tags.update(args=LintArgsHandler(), argparser=EF.ParserHandler(),
                         cfgdict=CfgDictHandler(), file=LintFileHandler(),
                         outfile=OutHandler(), gctx=GctxHandler(),
                         ctxmap=CtxMapHandler(), runctx=RunCtxHandler(),
                         run=TagHandler())
        cm = self.call_models
        cm[argparse.ArgumentParser] = lambda ip, a, k: Opaque(
            'argparser', 'parser')
        cm[logging.basicConfig] = lambda ip, a, k: None
        cm[os.dup] = self.dup
        cm[LU.GlobalContext] = self.global_ctx
        self.pure(MAIN + 'setup_argparse', lambda ip, ba: None)
        self.pure(EF.RUN + 'get_argdict', lambda ip, ba: ip.p.ghost[
            'argdict'])
        self.pure(EF.RUN + 'get_config', self.get_config)
        self.pure(EF.RUN + 'dump_config', lambda ip, ba: None)
        self.pure(MAIN + 'process_file', self.process)
        self.candidate_fns += [self.cands, P.for_candidates]
        self.assume_note('a file is readable or not for the whole run '
                         '(the file system does not change during it)')

    def kind_of_value(self, ip, v):
        if isinstance(v, (SStr, str)):
            return LPATHS
        return EF.RunEngine.kind_of_value(self, ip, v)

    def list_contains(self, ip, item, coll):
        if ip.e.list_kind(ip, coll) is LPATHS:
            return ip.p.fresh(BOOL, 'listed')

    @staticmethod
    def dup(ip, a, k):
        return a[0]

    @staticmethod
    def get_config(ip, ba):
        if ip.p.choose(2, 'get_config') == 1:
            raise PyExc(common.UserError)
        d = Opaque('cfgdict', 'config_dict', path=ba['infile_path'],
                   files=ba['configfile_paths'])
        d.attrs['with'] = None
        d.stamp = ip.p.tick()
        return d

    def call_model(self, ip, f, args, kwargs):
        if f is configuration.Configuration:
            d = kwargs.get('$star')
            return (Opaque('cfg', 'cfg', src=d, upd=d.attrs['with']),)
        return EF.RunEngine.call_model(self, ip, f, args, kwargs)

    @staticmethod
    def open(ip, a, k):
        b = EF.bind(io.open, a, k)
        f = Opaque('file', 'file', mode=b['mode'], encoding=b['encoding'],
                   newline=b['newline'])
        w = ip.p.ghost['run']
        if EF.writable(Ev('open', f)):
            if ip.active:
                raise Unsupported('output opened in a loop')
            f.tag = 'outfile'
            f.kw['path'] = b['file']
            if ip.p.choose(2, 'open') == 1:
                raise PyExc(OSError)
            return f
        src = b['file']
        if isinstance(src, Opaque):
            if src.kw.get('stream') != 'stdin':
                raise Unsupported('reads something else')
            t = S('-')
        else:
            t = ip.strterm(src)
            ip.s.obligation(ip.p, '- is read from standard input', t
                            != S('-'))
        f.kw['of'] = t
        ip.s.obligation(ip.p, 'input is opened without newline translation',
                        z3.BoolVal(b['newline'] == ''))
        if not ip.p.branch(canopen_f(t)):
            raise PyExc(OSError)
        return f

    @staticmethod
    def global_ctx(ip, a, k):
        w = ip.p.ghost['run']
        if 'outfile' in w.kw:
            raise Unsupported('two lint contexts')
        w.kw['outfile'] = a[0]
        m = Opaque('ctxmap', 'file_ctxs')
        m.attrs['has'] = SBool(z3.BoolVal(False))
        m.stamp = ip.p.tick()
        g = Opaque('gctx', 'global_ctx', w=w)
        g.attrs['file_ctxs'] = m
        w.kw['map'] = m
        return g

    @staticmethod
    def process(ip, ba):
        ip.s.used_contracts.add('lint process_file')
        w = ip.p.ghost['run']
        c, cfg, text = ba['local_ctx'], ba['config'], ba['infile_content']
        ob = lambda l, c: ip.s.obligation(ip.p, l, c)
        ob('with the configuration files that were named', z3.BoolVal(
            cfg.kw['src'].kw['files'] is ip.getattr(
                ip.p.ghost['args'], 'config_files')))
        rec = ip.p.ghost.get('texts', {}).get(
            text.t.get_id() if isinstance(text, SStr) else None)
        ob('the text of that file is checked', z3.BoolVal(False) if rec is
           None else rec[1].kw['of'] == c.kw['path'])
        ob('with the configuration of the context', z3.BoolVal(
            c.kw['cfg'] is cfg))
        d = cfg.kw['src']
        ob('which is that of the path, or of the working directory for -',
           ip.strterm(d.kw['path']) == z3.If(
               c.kw['path'] == S('-'), z3.Const('cwd', StrS), c.kw['path']))
        ob('with the options of the command line on top', z3.BoolVal(
            cfg.kw['upd'] is ip.p.ghost['argdict']))
        if rec is not None:
            ob('the text was decoded as configured', z3.BoolVal(
                rec[1].kw['encoding'] is ip.getattr(ip.getattr(
                    cfg, 'encode'), 'input_encoding')))
        if ip.p.choose(2, 'lint fails') == 1:
            raise PyExc(Exception)
        bump(ip, w, 'checked', c.kw['path'])

    def loop_pre(self, ip, al):
        pre = {}
        for fi, n, v in P.frame_vars(al, ip):
            if isinstance(v, LList):
                k = self.list_kind(ip, v)
                if k is not None:
                    pre[n, fi] = {m: self.measure(ip, v, m, k)
                                  for m in k.measures}
        return pre

    def cands(self, ip, al, where):
        w = ip.p.ghost.get('run')
        if w is None or 'map' not in w.kw:
            return
        for fi, n, v in P.frame_vars(al, ip):
            if not n.startswith('$done') or not isinstance(v, LList) or \
                    ip.e.list_kind(ip, v) not in (LPATHS, None):
                continue
            d = lambda m: ip.e.measure(ip, v, m, LPATHS)
            here = z3.And(d('p0'), readable(P0))
            yield 'P0 is known if it was listed and could be read [%s]' % n, \
                w.kw['map'].attrs['has'].t == here
            for x in ('checked', 'written'):
                yield 'P0 was %s once, if it was listed [%s]' % (x, n), \
                    w.attrs[x].t == z3.If(here, 1, 0)
            for fj, m, x in P.frame_vars(al, ip):
                if m.startswith('$') or not isinstance(
                        x, (SInt, int)) or isinstance(x, bool):
                    continue
                t = ip.intterm(x)
                yield '%s is nonzero if P0 was listed and not clean [%s]' % (
                    m, n), z3.Implies(z3.And(d('p0'), bad(P0)), t != 0)
                yield '%s is nonzero only if something was not clean [%s]' \
                    % (m, n), z3.Implies(t != 0, d('bad'))


@spec('lintmain', MAIN + 'inner_main', LintMainEngine)
def inner_main(h):
    """Every listed file that can be read is checked and reported once; the
    result is nonzero exactly if one has findings or cannot be read."""
    ip = h.ip
    h.p.ghost['T'] = []
    h.p.ghost['argdict'] = Opaque('any', 'argdict')
    args = h.p.ghost['args'] = Opaque('args', 'args')
    paths = ip.getattr(args, 'infilepaths')
    sup = ip.getattr(args, 'suppress_decorations').t
    w = Opaque('run', 'run', summaries=0, suppress=sup)
    w.attrs.update(checked=SInt(z3.IntVal(0)), written=SInt(z3.IntVal(0)))
    h.p.ghost['run'] = w
    h.may_modify(args, w)
    m = lambda x: ip.e.measure(ip, paths, x, LPATHS)
    r = h.call()
    rc = ip.intterm(r)
    once = z3.If(z3.And(m('p0'), readable(P0)), 1, 0)
    h.ensure('a listed file that can be read is checked once',
             w.attrs['checked'].t == once)
    h.ensure('its findings are reported once', w.attrs['written'].t == once)
    h.ensure('nonzero if a listed file has findings or cannot be read',
             z3.Implies(z3.And(m('p0'), bad(P0)), rc != 0))
    h.ensure('nonzero only if there is such a file', z3.Implies(
        rc != 0, m('bad')))
    h.ensure('the summary is written once, unless suppressed',
             z3.If(sup, z3.IntVal(0), z3.IntVal(1)) == w.kw['summaries'])
    f = w.kw['outfile']
    out = ip.getattr(args, 'outfile_path')
    if isinstance(f.kw['path'], Opaque):
        h.ensure('standard output only if no file was asked for', z3.And(
            z3.BoolVal(f.kw['path'].kw.get('stream') == 'stdout'),
            ip.strterm(out) == S('-')))
    else:
        h.ensure('the file asked for', ip.strterm(f.kw['path'])
                 == ip.strterm(out))
    h.ensure('the output is closed', any(
        e.op == 'close' and e.args[0] is f for e in h.p.ghost['T']))


class LintTopEngine(EF.RunEngine):
    def __init__(self):
        EF.RunEngine.__init__(self)
        self.call_models[logging.basicConfig] = lambda ip, a, k: None

        def inner(ip, ba):
            k = ip.p.choose(6, 'inner_main')
            ip.p.ghost['k'] = k
            if k == 0:
                return SInt(z3.Const('code', INT))
            ex = (common.UserError, common.InternalError, AssertionError,
                  Exception, SystemExit)[k - 1]
            o = ip.new_obj(ex)
            o.fields.update(msg=Opaque('any', 'msg'), args=())
            raise PyExc(ex, o)
        self.pure(MAIN + 'inner_main', inner)


@spec('lintmain', MAIN + 'main', LintTopEngine)
def main(h):
    """An error makes the exit status nonzero."""
    h.p.ghost['T'] = []
    r = h.call()
    ok = h.p.ghost['k'] == 0
    h.ensure('the result of inner_main is returned, an error gives nonzero',
             h.ip.intterm(r) == z3.Const('code', INT) if ok
             else h.ip.intterm(r) != 0)
