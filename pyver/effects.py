"""Contracts on the functions that talk to the outside world.

Every call that leaves the program (opening, writing, renaming a file, ...)
is recorded, in order, in the trace of the path, and may fail with an
exception at every single point.  The postconditions are statements about
the trace of every path, normal or exceptional.
"""
import inspect
import io
import logging
import os
import shutil
import sys

import z3

from . import contract, models as M
from . import parsing as P
from .contract import spec, bounded, ApplyContract, find
from .models import TagHandler, memo, INT, BOOL
from .values import *  # noqa
from .formatting import FMT, SSeq, event, wr_f

from cmakelang import common, configuration
from cmakelang.format import __main__ as FM
from cmakelang.format import formatter as F

RUN = 'cmakelang.format.__main__:'
S = z3.StringVal


class Ev(object):
    def __init__(self, op, *args, **kw):
        self.op, self.args, self.kw = op, args, kw
        self.ok = kw.pop('ok', True)

    def __repr__(self):
        return '%s%r%s' % (self.op, self.args, '' if self.ok else '!')


def bind(f, args, kwargs):
    b = inspect.signature(f).bind(*args, **kwargs)
    b.apply_defaults()
    return b.arguments


def may_fail(ip, ev, exc=OSError):
    """Record the event; it succeeds or raises."""
    ip.p.ghost['T'].append(ev)
    if ip.p.choose(2, ev.op) == 1:
        ev.ok = False
        raise PyExc(exc, None, ev.op)


def log(ip, ev):
    ip.p.ghost['T'].append(ev)


class FileHandler(TagHandler):
    """An open file."""

    def truth(self, ip, v):
        return True

    def getattr(self, ip, v, name):
        def read(ip, a, k):
            if a or k:
                raise Unsupported('partial read')
            may_fail(ip, Ev('read', v), UnicodeDecodeError)
            if v.attrs.get('$read'):
                return ''
            v.attrs['$read'] = True
            return memo(v, '$text', lambda: SStr(ip.p.fresh(StrS, 'intext')))

        def write(ip, a, k):
            may_fail(ip, Ev('write', v, a[0]))

        def enter(ip, a, k):
            return v

        def close(ip, a, k):
            log(ip, Ev('close', v))

        def fileno(ip, a, k):
            return SInt(ip.p.fresh(INT, 'fd'))
        t = {'read': read, 'write': write, '__enter__': enter,
             '__exit__': close, 'close': close, 'fileno': fileno,
             'flush': lambda ip, a, k: log(ip, Ev('flush', v))}
        if name in t:
            return Builtin(name, t[name])
        raise Unsupported('%s of a file' % name)


class StreamHandler(TagHandler):
    def truth(self, ip, v):
        return True

    def getattr(self, ip, v, name):
        if name == 'fileno':
            return Builtin(name, lambda ip, a, k: Opaque(
                'fd', v.name, stream=v.name))
        raise Unsupported('%s of %s' % (name, v.name))


class FdHandler(TagHandler):
    def truth(self, ip, v):
        return True

    def eq(self, ip, v, other):
        return v is other


class CfgValueHandler(M.AnyHandler):
    """A configuration object; its options are unknown constants."""
    strs = ('line_ending', 'endl', 'input_encoding', 'output_encoding')
    bools = ('disable', 'require_valid_layout', 'emit_byteorder_mark')

    def getattr(self, ip, v, name):
        def mk():
            if name in self.strs:
                return SStr(ip.p.fresh(StrS, name))
            if name in self.bools:
                return SBool(ip.p.fresh(BOOL, name))
            return Opaque('cfg', name, root=v)

        if name in ('legacy_consume', 'consume_known'):
            return Builtin(name, lambda ip, a, k: log(
                ip, Ev('consume', v, a[0])))
        if name == 'clone':
            def clone(ip, a, k):
                o = Opaque('cfg', 'clone', of=v)
                o.attrs.update(copy_attrs(v))
                log(ip, Ev('clone', v, o))
                return o
            return Builtin(name, clone)
        if name == 'set_line_ending':
            def set_le(ip, a, k):
                log(ip, Ev('set_line_ending', v, a[0]))
                v.attrs['endl'] = SStr(endl_of(ip.strterm(a[0])))
            return Builtin(name, set_le)
        return memo(v, name, mk)


def copy_attrs(v):
    """Attributes already looked at keep their value in the copy."""
    out = {}
    for k, x in v.attrs.items():
        if isinstance(x, Opaque):
            y = Opaque(x.tag, x.name, **x.kw)
            y.attrs.update(copy_attrs(x))
            out[k] = y
        else:
            out[k] = x
    return out


def endl_of(t):
    return z3.If(t == S('windows'), S('\r\n'), S('\n'))


class ArgsHandler(M.AnyHandler):
    """The parsed command line."""
    strs = ('outfile_path', 'dump', 'dump_config')
    bools = ('check', 'in_place')

    def getattr(self, ip, v, name):
        def mk():
            if name in self.strs:
                if ip.p.choose(2, name) == 0:
                    return None
                return SStr(ip.p.fresh(StrS, name))
            if name in self.bools:
                return SBool(ip.p.fresh(BOOL, name))
            return Opaque('any', name)
        return memo(v, name, mk)


    def setattr(self, ip, v, name, val):
        ip.note_write(v, name)
        v.attrs[name] = val


class RunEngine(M.Engine):
    def __init__(self):
        M.Engine.__init__(self)
        self.tags.update({'file': FileHandler(), 'stream': StreamHandler(),
                          'fd': FdHandler(), 'cfg': CfgValueHandler(),
                          'args': ArgsHandler()})
        for mod in ('cmakelang.format.__main__', 'cmakelang.lint.__main__'):
            self.overrides[mod, 'sys'] = lambda ip: Opaque('sysmod', 'sys')
        self.tags['sysmod'] = SysHandler()
        cm = self.call_models
        cm[os.getcwd] = lambda ip, a, k: SStr(z3.Const('cwd', StrS))
        cm[logging.getLogger] = lambda ip, a, k: Opaque('sink', 'logger')
        cm[os.dup] = lambda ip, a, k: a[0]
        for f in (io.open,):
            cm[f] = self.open
        for f, op in ((shutil.copymode, 'copymode'), (shutil.move, 'move'),
                      (os.rename, 'move'), (os.replace, 'move'),
                      (os.remove, 'remove'), (os.unlink, 'remove')):
            cm[f] = self.fsop(f, op)
        cm[sys.exit] = self.exit

    def skip_call(self, ip, f):
        if f is logging.getLogger:
            return False
        return M.Engine.skip_call(self, ip, f)

    @staticmethod
    def exit(ip, a, k):
        o = ip.new_obj(SystemExit)
        o.fields['code'] = a[0] if a else None
        o.fields['args'] = tuple(a)
        raise PyExc(SystemExit, o)

    @staticmethod
    def open(ip, a, k):
        b = bind(io.open, a, k)
        f = Opaque('file', 'file', path=b['file'], mode=b['mode'],
                   encoding=b['encoding'], newline=b['newline'])
        may_fail(ip, Ev('open', f, b['file']))
        return f

    @staticmethod
    def fsop(f, op):
        def m(ip, a, k):
            b = list(bind_fs(op, a, k))
            may_fail(ip, Ev(op, *b))
        return m

    def pure(self, addr, f):
        fn = find(addr)
        if fn is not None:
            self.contracts[fn] = ApplyContract(f)

    def star_kwargs(self, ip, f, o):
        return {'$star': o}

    def str_method(self, ip, v, name):
        if name == 'encode':
            def encode(ip, a, k):
                enc = a[0] if a else k.get('encoding', 'utf-8')
                may_fail(ip, Ev('encode', v, enc), UnicodeEncodeError)
                return Opaque('any', 'bytes')
            return Builtin('encode', encode)
        if name == 'count':
            return Builtin('count', lambda ip, a, k: SInt(
                count_f(ip.strterm(v), ip.strterm(a[0]))))
        return M.Engine.str_method(self, ip, v, name)

    def call_model(self, ip, f, args, kwargs):
        if f is configuration.Configuration:
            c = Opaque('cfg', 'cfg', src=kwargs.get('$star'))
            log(ip, Ev('configuration', c, kwargs.get('$star')))
            return (c,)
        return M.Engine.call_model(self, ip, f, args, kwargs)


count_f = z3.Function('count', StrS, StrS, INT)


def bind_fs(op, a, k):
    if op in ('copymode', 'move'):
        names = ('src', 'dst')
    else:
        names = ('path',)
    vals = list(a)
    for n in names[len(vals):]:
        vals.append(k[n])
    return vals


class SysHandler(TagHandler):
    def truth(self, ip, v):
        return True

    def getattr(self, ip, v, name):
        if name in ('stdin', 'stdout', 'stderr'):
            return memo(v, name, lambda: Opaque('stream', name))
        if name == 'exit':
            return sys.exit
        return getattr(sys, name)


# --------------------------------------------------------------- one file
class OneEngine(RunEngine):
    def __init__(self):
        RunEngine.__init__(self)

        def get_config(ip, ba):
            may_fail(ip, Ev('get_config', ba['infile_path'],
                            ba['configfile_paths']), common.UserError)
            d = Opaque('any', 'config_dict')
            ip.p.ghost['config_dict'] = d
            return d
        self.pure(RUN + 'get_config', get_config)

        def process(ip, ba):
            may_fail(ip, Ev('process', ba['config'], ba['infile_content'],
                            ba['dump']), common.FormatError)
            r = (SStr(z3.Const('outtext', StrS)),
                 SBool(z3.Const('reflow_valid', BOOL)))
            return r
        self.pure(RUN + 'process_file', process)


def onefile(h):
    """Arguments, precondition and the run; returns a description."""
    ip = h.ip
    T = h.p.ghost['T'] = []
    w = {'T': T, 'path': h.str('infile_path'),
         'args': Opaque('args', 'args'), 'raised': None}
    w['argd'] = DDict({}, 0)
    w['argd'].unk = 'any'
    a = w['args']
    w['check'] = ip.getattr(a, 'check')
    w['in_place'] = ip.getattr(a, 'in_place')
    a.attrs['outfile_path'] = h.str('outfile_path')

    def run(then):
        def on_raise(ex):
            w['raised'] = ex
            then(w)
        h.on_raise = on_raise
        h.call(w['path'], a, w['argd'])
        then(w)
    w['run'] = run
    return w


def evs_of(w, *ops):
    return [e for e in w['T'] if e.op in ops]


def same(h, a, b):
    if a is b:
        return z3.BoolVal(True)
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        return h.ip.strterm(a) == h.ip.strterm(b)
    return z3.BoolVal(False)


def writable(e):
    return e.op == 'open' and (not isinstance(e.args[0].kw['mode'], str)
                               or any(c in e.args[0].kw['mode']
                                      for c in 'wax+'))


def targets(e):
    """What the event may change."""
    if writable(e):
        return [e.args[1]]
    if e.op in ('move', 'copymode'):
        return [e.args[1]] + ([e.args[0]] if e.op == 'move' else [])
    if e.op == 'remove':
        return [e.args[0]]
    return []


def is_path(x):
    return isinstance(x, (str, SStr))


OUT = z3.Const('outtext', StrS)
VALID = z3.Const('reflow_valid', BOOL)


def intext(h, w):
    for e in evs_of(w, 'process'):
        return h.ip.strterm(e.args[1])


def cfg_of(w):
    for e in evs_of(w, 'configuration'):
        return e.args[0]


def outputs(w):
    return [e for e in w['T'] if writable(e)]


@spec('reflow-main', RUN + 'onefile_main', OneEngine, 'onefile_main: a valid '
      'layout if one is required')
def onefile_valid(h):
    w = onefile(h)

    def then(w):
        pr = [e for e in evs_of(w, 'process') if e.ok]
        if not pr:
            h.ensure('nothing is written without a result',
                     not outputs(w) and not evs_of(w, 'move'))
            return
        req = h.ip.getattr(h.ip.getattr(cfg_of(w), 'format'),
                           'require_valid_layout')
        bad = z3.And(req.t, z3.Not(VALID))
        h.ensure('no output when a valid layout is required but none was '
                 'found', z3.Implies(bad, z3.BoolVal(
                     not outputs(w) and not evs_of(w, 'move', 'write'))))
        h.ensure('failure when a valid layout is required but none was '
                 'found', z3.Implies(bad, z3.BoolVal(
                     w['raised'] is not None)))
    w['run'](then)


@spec('onefile', RUN + 'onefile_main', OneEngine, 'onefile_main: what is '
      'written')
def onefile_effects(h):
    w = onefile(h)
    ip = h.ip

    def then(w):
        T = w['T']
        path = w['path'].t
        check, inplace = w['check'].t, w['in_place'].t
        # -- reading
        for e in evs_of(w, 'open'):
            if not writable(e):
                f = e.args[0]
                h.ensure('the input is opened without newline translation',
                         f.kw['newline'] == '')
                h.ensure('in the configured encoding', same(
                    h, f.kw['encoding'], ip.getattr(ip.getattr(
                        cfg_of(w), 'encode'), 'input_encoding')))
                if is_path(e.args[1]):
                    h.ensure('the listed file is read',
                             same(h, e.args[1], w['path']))
                else:
                    h.ensure('stdin is read for -', path == S('-'))
        for e in evs_of(w, 'process'):
            h.ensure('the whole text of the file is processed',
                     any(r.ok and r.args[0].attrs.get('$text') is e.args[1]
                         for r in evs_of(w, 'read')))
            h.ensure('with its configuration', e.args[0] is cfg_of(w))
        done = [e for e in evs_of(w, 'process') if e.ok]
        # -- check mode
        if done:
            t = intext(h, w)
            h.ensure('check: nothing is written', z3.Implies(
                check, z3.BoolVal(not any(targets(e) or e.op == 'write'
                                          for e in T))))
            h.ensure('check: fails if the text differs', z3.Implies(
                z3.And(check, OUT != t),
                z3.BoolVal(w['raised'] is not None)))
            fmt = ip.getattr(cfg_of(w), 'format')
            req = z3.And(ip.getattr(fmt, 'require_valid_layout').t,
                         z3.Not(VALID))
            h.ensure('check: passes if the text is the same', z3.Implies(
                z3.And(check, OUT == t, z3.Not(req)),
                z3.BoolVal(w['raised'] is None)))
            h.ensure('in place: no change if the text is the same',
                     z3.Implies(z3.And(inplace, OUT == t), z3.BoolVal(
                         not any(targets(e) or e.op == 'write' for e in T))))
        else:
            h.ensure('nothing is written without a result',
                     not any(targets(e) or e.op == 'write' for e in T))
            dis = cfg_of(w) is not None and ip.getattr(ip.getattr(
                cfg_of(w), 'format'), 'disable').t
            h.ensure('returns without a result only if disabled',
                     z3.BoolVal(True) if w['raised'] is not None else dis)
        # -- in place
        moves = evs_of(w, 'move')
        for e in T:
            for x in targets(e):
                if not is_path(x):
                    continue
                if e.op == 'move' and x is e.args[1]:
                    continue
                h.ensure('in place: the file itself is never opened for '
                         'writing, renamed or removed (%s)' % e.op,
                         z3.Implies(inplace, ip.strterm(x) != path))
        h.ensure('in place: at most one replacement', len(moves) <= 1)
        for e in moves:
            i = T.index(e)
            src, dst = e.args
            h.ensure('only the processed file is replaced, only in place',
                     z3.And(inplace, same(h, dst, w['path'])))
            tmp = [f for f in T[:i] if writable(f) and f.ok and is_path(
                f.args[1]) and h.p.prove(same(h, f.args[1], src))[0]]
            h.ensure('it is replaced by a file that was written before',
                     len(tmp) == 1)
            if len(tmp) != 1:
                continue
            f = tmp[0].args[0]
            h.ensure('created new', f.kw['mode'] in ('w', 'wt', 'x', 'xt'))
            h.ensure('without newline translation', f.kw['newline'] == '')
            h.ensure('in the configured encoding', same(
                h, f.kw['encoding'], ip.getattr(ip.getattr(
                    cfg_of(w), 'encode'), 'output_encoding')))
            ws = [x for x in T if x.op == 'write' and x.args[0] is f]
            h.ensure('every write succeeded', all(x.ok for x in ws))
            txt = S('')
            for x in ws:
                txt = z3.Concat(txt, ip.strterm(x.args[1]))
            h.ensure('it holds the complete formatted text', txt == OUT)
            h.ensure('it is closed before', any(
                x.op == 'close' and x.args[0] is f for x in T[:i])
                and not any(x.op == 'write' for x in T[i:]))
            cps = [x for x in T[:i] if x.op == 'copymode' and x.ok]
            h.ensure('it has the permissions of the file', z3.Or([
                z3.And(same(h, x.args[0], w['path']),
                       same(h, x.args[1], src)) for x in cps]
                or [z3.BoolVal(False)]))
        if done and w['raised'] is None:
            h.ensure('in place: a text that differs is replaced', z3.Implies(
                z3.And(inplace, z3.Not(check), OUT != intext(h, w)),
                z3.BoolVal(bool(moves) and moves[-1].ok)))
        # -- to a file or standard output
        outs = outputs(w)
        plain = z3.And(z3.Not(check), z3.Not(inplace))
        for e in outs:
            h.ensure('the text can be encoded before an output file is '
                     'truncated', z3.Or([z3.And(
                         same(h, x.args[0], SStr(OUT)),
                         same(h, x.args[1], e.args[0].kw['encoding']))
                         for x in T[:T.index(e)] if x.op == 'encode' and x.ok]
                         or [z3.BoolVal(False)]))
            f = e.args[0]
            if is_path(e.args[1]):
                h.ensure('the output goes to the file asked for', z3.Implies(
                    plain, same(h, e.args[1], w['args'].attrs[
                        'outfile_path'])))
            else:
                h.ensure('or to standard output', z3.And(
                    plain, z3.BoolVal(getattr(e.args[1], 'kw', {}).get(
                        'stream') == 'stdout'),
                    h.ip.strterm(w['args'].attrs['outfile_path']) == S('-')))
            h.ensure('the output is written without newline translation',
                     f.kw['newline'] == '')
            h.ensure('the output has the configured encoding', same(
                h, f.kw['encoding'], ip.getattr(ip.getattr(
                    cfg_of(w), 'encode'), 'output_encoding')))
        if done and w['raised'] is None:
            h.ensure('one output unless in place or checking', z3.Implies(
                plain, z3.BoolVal(len(outs) == 1)))
            for e in outs:
                ws = [x for x in T if x.op == 'write'
                      and x.args[0] is e.args[0]]
                txt = S('')
                for x in ws:
                    txt = z3.Concat(txt, ip.strterm(x.args[1]))
                h.ensure('the output is the formatted text', txt == OUT)
                h.ensure('the output is closed', any(
                    x.op == 'close' and x.args[0] is e.args[0] for x in T))
    w['run'](then)


# ------------------------------------------------------------- all files
fails_f = z3.Function('fails', StrS, BOOL)
pathid_f = z3.Function('onefile', StrS, TokS)
PATHS = Kind('paths', [
    M.len_measure(),
    P.or_measure('fail', lambda ip, v: fails_f(ip.strterm(v))),
    P.seq_measure('ids', lambda ip, v: z3.Unit(pathid_f(ip.strterm(v)))),
], lambda ip: SStr(ip.p.fresh(StrS, 'path')))


class ArgsHandler2(ArgsHandler):
    def getattr(self, ip, v, name):
        if name == 'infilepaths':
            return memo(v, name, lambda: LList(
                [PATHS.fresh_seg(ip.p, 'paths')], 0, PATHS))
        if name == 'log_level':
            return memo(v, name, lambda: 'info')
        return ArgsHandler.getattr(self, ip, v, name)


class ParserHandler(TagHandler):
    def truth(self, ip, v):
        return True

    def getattr(self, ip, v, name):
        def parse_args(ip, a, k):
            if ip.p.choose(2, 'usage') == 1:
                raise PyExc(SystemExit, None)
            return ip.p.ghost['args']
        if name == 'parse_args':
            return Builtin(name, parse_args)
        raise Unsupported('%s of the argument parser' % name)


def main_candidates(ip, al, where):
    w = ip.p.ghost.get('W')
    if w is None:
        return
    for fi, n, v in P.frame_vars(al, ip):
        if n.startswith('$done') and isinstance(v, LList) and \
                ip.e.list_kind(ip, v) in (PATHS, None):
            k = PATHS
            yield 'the files so far were processed, once each, in order', \
                w.attrs['evs'].t == P.cat(al.pre['evs'],
                                          ip.e.measure(ip, v, 'ids', k))
            for fj, m, x in P.frame_vars(al, ip):
                if m.startswith('$') or not (isinstance(
                        x, SInt) or type(x) is int):
                    continue
                yield '%s tells whether one of them failed' % m, (
                    ip.intterm(x) != 0) == ip.e.measure(ip, v, 'fail', k)


class MainEngine(RunEngine):
    def __init__(self):
        RunEngine.__init__(self)
        import argparse
        self.tags['args'] = ArgsHandler2()
        self.tags['argparser'] = ParserHandler()
        from .formatting import GhostHandler
        self.tags['ghost'] = GhostHandler()
        self.call_models[argparse.ArgumentParser] = lambda ip, a, k: Opaque(
            'argparser', 'parser')
        self.pure(RUN + 'setup_argparser', lambda ip, ba: None)
        def get_argdict(ip, ba):
            ip.s.obligation(ip.p, 'options come from the command line',
                            z3.BoolVal(ba['args'] is ip.p.ghost['args']))
            return ip.p.ghost.setdefault('argdict', Opaque(
                'any', 'argdict'))
        self.pure(RUN + 'get_argdict', get_argdict)

        def get_config(ip, ba):
            return Opaque('any', 'config_dict')
        self.pure(RUN + 'get_config', get_config)

        def dump_config(ip, ba):
            log(ip, Ev('dump_config', ba['args'], ba['config_dict']))
        self.pure(RUN + 'dump_config', dump_config)

        def one(ip, ba):
            ip.s.used_contracts.add('onefile_main')
            p = ip.strterm(ba['infile_path'])
            for what, name in (('args', 'args'),
                               ('argdict', 'argparse_dict')):
                ip.s.obligation(
                    ip.p, 'every file is processed with the options of the '
                    'command line', z3.BoolVal(
                        ba[name] is ip.p.ghost.get(what)))
            event(ip, pathid_f(p))
            if ip.p.branch(fails_f(p)):
                o = ip.new_obj(common.FormatError)
                o.fields.update(msg=Opaque('any', 'msg'), args=())
                raise PyExc(common.FormatError, o)
            if ip.p.choose(2, 'other exception') == 1:
                ip.p.ghost['other'] = True
                raise PyExc(Exception, None)
        self.pure(RUN + 'onefile_main', one)
        self.candidate_fns += [main_candidates, P.for_candidates]

    def kind_of_value(self, ip, v):
        if isinstance(v, (SStr, str)):
            return PATHS
        return RunEngine.kind_of_value(self, ip, v)

    def loop_pre(self, ip, al):
        pre = {}
        w = ip.p.ghost.get('W')
        if w is not None:
            pre['evs'] = w.attrs['evs'].t
        for fi, n, v in P.frame_vars(al, ip):
            if isinstance(v, LList):
                k = self.list_kind(ip, v)
                if k is not None:
                    pre[n, fi] = {m: self.measure(ip, v, m, k)
                                  for m in k.measures}
        return pre


@spec('main', RUN + 'inner_main', MainEngine)
def inner_main(h):
    """Every listed file is processed once, in order; the result is nonzero
    exactly when one failed."""
    ip = h.ip
    h.p.ghost['T'] = T = []
    args = h.p.ghost['args'] = Opaque('args', 'args')
    paths = ip.getattr(args, 'infilepaths')
    ids = ip.e.measure(ip, paths, 'ids', PATHS)
    fail = ip.e.measure(ip, paths, 'fail', PATHS)
    from .writing import trace
    w = trace(h)
    h.may_modify(args)
    r = h.call()
    h.ensure('every listed file is processed once, in order',
             w.attrs['evs'].t == ids)
    h.ensure('nonzero exactly when a file failed',
             (ip.intterm(r) != 0) == fail)


class TopEngine(RunEngine):
    def __init__(self):
        RunEngine.__init__(self)
        import logging
        self.call_models[logging.basicConfig] = lambda ip, a, k: None

        def inner(ip, ba):
            k = ip.p.choose(6, 'inner_main')
            ip.p.ghost['k'] = k
            if k == 0:
                return SInt(z3.Const('code', INT))
            ex = (common.UserError, common.InternalError, AssertionError,
                  Exception, SystemExit)[k - 1]
            o = ip.new_obj(ex)
            o.fields.update(msg=Opaque('any', 'msg'), args=())
            raise PyExc(ex, o)
        self.pure(RUN + 'inner_main', inner)


@spec('main', RUN + 'main', TopEngine)
def main(h):
    """An error makes the exit status nonzero (an exception that is not
    caught does: Python exits with 1)."""
    h.p.ghost['T'] = []
    r = h.call()
    ok = h.p.ghost['k'] == 0
    h.ensure('the result of inner_main is returned, an error gives nonzero',
             h.ip.intterm(r) == z3.Const('code', INT) if ok
             else h.ip.intterm(r) != 0)


# ------------------------------------------------------------ line endings
@spec('endings', RUN + 'detect_line_endings', RunEngine)
def detect(h):
    """The ending that occurs more often; unix if neither does."""
    t = h.str('text')
    h.p.ghost['T'] = []
    r = h.call(t)
    crlf, lf = count_f(t.t, S('\r\n')), count_f(t.t, S('\n'))
    h.ensure('the dominant line ending', h.ip.strterm(r) == z3.If(
        crlf > lf - crlf, S('windows'), S('unix')))


CFG = 'cmakelang.configuration:'


@spec('endings', CFG + 'FormattingConfig.set_line_ending', RunEngine)
def set_line_ending(h):
    o = h.obj(configuration.FormattingConfig)
    h.may_modify(o)
    kind = ('windows', 'unix')[h.p.choose(2, 'kind')]
    h.call(o, kind)
    h.ensure('the line ending of that name', h.ip.strterm(o.fields['endl'])
             == S({'windows': '\r\n', 'unix': '\n'}[kind]))


@spec('endings', CFG + 'FormattingConfig._update_derived', RunEngine)
def update_derived(h):
    o = h.obj(configuration.FormattingConfig)
    h.may_modify(o)
    kind = ('windows', 'unix', 'auto')[h.p.choose(3, 'kind')]
    o.fields['_line_ending'] = kind
    h.call(o)
    if kind != 'auto':
        h.ensure('the configured line ending', h.ip.strterm(o.fields['endl'])
                 == S({'windows': '\r\n', 'unix': '\n'}[kind]))


class ProductHandler(M.AnyHandler):
    """Something the parts of the program hand to each other."""

    def call(self, ip, v, args, kwargs):
        return Opaque('product', 'result')

    def getattr(self, ip, v, name):
        return memo(v, name, lambda: Opaque('product', name))


class ProcessEngine(RunEngine):
    def __init__(self):
        RunEngine.__init__(self)
        from cmakelang import lex, parse
        cm = self.call_models
        for f, op in ((lex.tokenize, 'tokenize'), (parse.parse, 'parse'),
                      (lex.get_first_non_whitespace_token, 'first'),
                      (parse.ParseContext, 'context'),
                      (parse.funs.get_parse_db, 'db'),
                      (parse.funs.get_funtree, 'funtree')):
            cm[f] = self.logged(op)
        self.tags['product'] = ProductHandler()
        cm[F.layout_tree] = self.logged('layout')
        self.pure(RUN + 'detect_line_endings', lambda ip, ba: SStr(
            det_f(ip.strterm(ba['infile_content']))))
        cm[F.write_tree] = self.write_tree
        self.assume_note(
            'process_file only hands tokens, tree and boxes on: what the '
            'lexer, parser and layout do is stated by their own contracts')

    @staticmethod
    def logged(op):
        def m(ip, a, k):
            e = Ev(op, *a, **k)
            log(ip, e)
            e.result = Opaque('product', op)
            return e.result
        return m

    @staticmethod
    def write_tree(ip, a, k):
        e = Ev('write_tree', *a, **k)
        log(ip, e)
        return SStr(z3.Const('written', StrS))

    def native_ok(self, f):
        return RunEngine.native_ok(self, f) or f is io.StringIO


det_f = z3.Function('detected', StrS, StrS)


@spec('endings', RUN + 'process_file', ProcessEngine)
def process_file(h):
    """The tree of the text is written with one configuration, whose line
    ending is the configured one, or in auto mode the detected one."""
    ip = h.ip
    T = h.p.ghost['T'] = []
    cfg = Opaque('cfg', 'config')
    fm = ip.getattr(cfg, 'format')
    le = ip.getattr(fm, 'line_ending').t
    endl = ip.getattr(fm, 'endl').t
    bom = ip.getattr(ip.getattr(cfg, 'encode'), 'emit_byteorder_mark').t
    text = h.str('infile_content')
    r = h.call(cfg, text)
    res = ip.iter_explicit(r)
    wr = [e for e in T if e.op == 'write_tree']
    la = [e for e in T if e.op == 'layout']
    h.ensure('the tree is written once', len(wr) == 1 and len(la) == 1)
    if len(wr) != 1 or len(la) != 1:
        return
    h.ensure('the boxes of the tree are written', wr[0].args[0]
             is la[0].result)
    for e, i in ((wr[0], 1), (la[0], 1)):
        c = e.args[i] if len(e.args) > i else e.kw.get('config')
        h.ensure('%s: with the line ending that is configured or detected'
                 % e.op, ip.getattr(ip.getattr(c, 'format'), 'endl').t
                 == z3.If(le == S('auto'), endl_of(det_f(text.t)), endl))
    h.ensure('copies of the input come from the text itself', same(
        h, wr[0].args[2] if len(wr[0].args) > 2 else
        wr[0].kw['infile_content'], text))
    tk = [e for e in T if e.op == 'tokenize']
    h.ensure('the text itself is tokenized', len(tk) == 1 and same(
        h, tk[0].args[0], text))
    w = z3.Const('written', StrS)
    h.ensure('a byte-order mark is put in front iff configured',
             ip.strterm(res[0]) == z3.If(bom, z3.Concat(S('\ufeff'), w), w))
    h.ensure('the caller\'s configuration keeps its line ending',
             ip.getattr(ip.getattr(cfg, 'format'), 'endl').t == endl)


@bounded('endings', FMT + 'normalize_line_endings', None,
         'strings of up to 6 characters of " \\t\\f\\v\\r\\na"')
def normalize(fn):
    """Line by line: the blanks in front of an ending go, the ending becomes
    a line feed, everything else stays."""
    import itertools
    n = 0
    for k in range(7):
        for cs in itertools.product(' \t\f\v\r\na', repeat=k):
            s = ''.join(cs)
            n += 1
            ls = s.replace('\r\n', '\n').replace('\r', '\n').split('\n')
            want = '\n'.join([x.rstrip(' \t\f\v') for x in ls[:-1]]
                             + ls[-1:])
            if fn(s) != want:
                return n, repr(s)
    return n, None


# ------------------------------------------------ options of one command
has_cmd = z3.Function('has_command', StrS, BOOL)
has_opt = z3.Function('has_option', StrS, StrS, BOOL)
opt_val = z3.Function('option', StrS, StrS, StrS)


class PerCommandHandler(TagHandler):
    """misc.per_command_: lower-case command name -> options"""

    def truth(self, ip, v):
        return True

    def getattr(self, ip, v, name):
        if name == 'get':
            def get(ip, a, k):
                t = ip.strterm(a[0])
                if ip.p.branch(has_cmd(t)):
                    return Opaque('cmdopts', 'opts', cmd=t)
                return a[1] if len(a) > 1 else None
            return Builtin('get', get)
        raise Unsupported('per_command_.%s' % name)

    def contains(self, ip, v, item):
        return has_cmd(ip.strterm(item))

    def getitem(self, ip, v, key):
        t = ip.strterm(key)
        if not ip.p.branch(has_cmd(t)):
            raise PyExc(KeyError)
        return Opaque('cmdopts', 'opts', cmd=t)


class CmdOptsHandler(TagHandler):
    def truth(self, ip, v):
        return SBool(ip.p.fresh(BOOL, 'nonempty')).t

    def contains(self, ip, v, item):
        return has_opt(v.kw['cmd'], ip.strterm(item))

    def getitem(self, ip, v, key):
        t = ip.strterm(key)
        if not ip.p.branch(has_opt(v.kw['cmd'], t)):
            raise PyExc(KeyError)
        return SStr(opt_val(v.kw['cmd'], t))

    def getattr(self, ip, v, name):
        if name == 'get':
            def get(ip, a, k):
                t = ip.strterm(a[0])
                if ip.p.branch(has_opt(v.kw['cmd'], t)):
                    return SStr(opt_val(v.kw['cmd'], t))
                return a[1] if len(a) > 1 else None
            return Builtin('get', get)
        raise Unsupported('options.%s' % name)


class SectionHandler(TagHandler):
    """A section: exactly the options the real class declares."""

    def truth(self, ip, v):
        return True

    def getattr(self, ip, v, name):
        if name not in v.attrs and not hasattr(v.kw['cls'], name):
            raise PyExc(AttributeError)
        return memo(v, name, lambda: SStr(ip.p.fresh(StrS, name)))


class CasingEngine(RunEngine):
    def __init__(self):
        RunEngine.__init__(self)
        self.tags.update({'percmd': PerCommandHandler(),
                          'cmdopts': CmdOptsHandler(),
                          'section': SectionHandler()})


KEYS = ['spelling', 'pargs', 'always_wrap', 'no such option']
for _s in configuration.Configuration._field_registry:
    for _f in _s.subtree_class._field_registry:
        KEYS.append('%s.%s' % (_s.name, _f.name))


@spec('casing', CFG + 'Configuration.resolve_for_command', CasingEngine)
def resolve_for_command(h):
    """The command's own value, else the global one, else the default."""
    ip = h.ip
    h.p.ghost['T'] = []
    o = h.obj(configuration.Configuration)
    for s in configuration.Configuration._field_registry:
        o.fields['_' + s.name] = Opaque('section', s.name,
                                        cls=s.subtree_class)
    o.fields['_misc'].attrs['per_command_'] = Opaque('percmd', 'per_command')
    key = KEYS[h.p.choose(len(KEYS), 'option')]
    name = h.str('command_name')
    known = '.' in key
    if known:
        sec, field = key.split('.')
        dflt = ip.getattr(o.fields['_' + sec], field)
        if not isinstance(dflt, SStr):
            return
        r = h.call(o, name, key)
    else:
        field = key
        dflt = h.str('default')
        r = h.call(o, name, key, dflt)
    low = M.lower_f(name.t)
    want = dflt.t
    want = z3.If(has_opt(low, S(field)), opt_val(low, S(field)), want)
    want = z3.If(has_opt(low, S(key)), opt_val(low, S(key)), want)
    want = z3.If(has_cmd(low), want, dflt.t)
    h.ensure('per-command value, else global value, else the default',
             ip.strterm(r) == want)
