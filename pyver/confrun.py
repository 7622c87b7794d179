"""Contracts on how the programs put the configuration of a file together
(C09)."""
import os

from .objconf import *  # noqa
from .configs import Sv
from . import effects as EF
from . import objconf as O

from cmakelang import annotate

ANN = 'cmakelang.annotate:'


# ------------------------------------------------------------- command line
class ArgdictEngine(ConfEngine):
    """K is any option that has a flag."""

    def __init__(self):
        ConfEngine.__init__(self)
        self.call_models[vars] = lambda ip, a, k: ip.p.ghost['args']
        self.call_models[hasattr] = self.has

    def kind_of_value(self, ip, v):
        if isinstance(v, (str, SStr)):
            return KEYS
        return ConfEngine.kind_of_value(self, ip, v)

    @staticmethod
    def has(ip, a, k):
        if isinstance(a[0], type) and isinstance(a[1], SStr):
            return SBool(Or([a[1].t == Sv(x) for x in sorted(set(
                dir(a[0])) | set(option_names())) if hasattr(a[0], x)]))
        return hasattr_m(ip, a, k)

    def str_method(self, ip, v, name):
        if name == 'startswith':
            return Builtin(name, lambda ip, a, k: SBool(z3.PrefixOf(
                ip.strterm(a[0]), ip.strterm(v))))
        return ConfEngine.str_method(self, ip, v, name)

    def cands(self, ip, al, where):
        g = ip.p.ghost
        val = get_f(g['args0'], K)
        for fi, n, v in P.frame_vars(al, ip):
            if not n.startswith('$done') or not isinstance(v, LList):
                continue
            k = self.list_kind(ip, v) or PAIRS
            if 'ck' not in k.measures:
                continue
            ck = self.measure(ip, v, 'ck', k)
            yield 'a key comes once [%s]' % n, And(ck >= 0, ck <= 1)
            for fj, m, x in P.frame_vars(al, ip):
                if isinstance(x, Opaque) and x.tag == 'cval' and \
                        not m.startswith('$'):
                    t = vterm(ip, x)
                    yield 'a map still [%s]' % m, And(
                        ismap_f(t), t != ABSENT)
                    yield 'what was given is in %s [%s]' % (m, n), \
                        get_f(t, K) == If(And(ck > 0, Not(isnone_f(val))),
                                          val, ABSENT)


@spec('sources', RUN + 'get_argdict', ArgdictEngine)
def get_argdict(h):
    """Every option given on the command line is handed on, no other is."""
    ip = h.ip
    basics(h.p)
    for label, ok in flag_facts():
        h.ensure('command line: ' + label, ok)
    h.p.assume(Or([K == Sv(x) for x in option_names()]))
    args = fresh_map(ip, 'args')
    h.p.ghost.update(args=args, args0=vterm(ip, args))
    r = h.call(Opaque('any', 'namespace'))
    val = get_f(h.p.ghost['args0'], K)
    h.ensure('an option is handed on exactly if it was given', get_f(
        vterm(ip, r), K) == If(Or(val == ABSENT, isnone_f(val)), ABSENT,
                               val))


def flag_facts():
    """What the real argument parsers do with the flags of the options; the
    registry is finite, all of it is looked at."""
    import argparse
    from cmakelang.lint import __main__ as LM
    out = []
    for prog, setup in (('cmake-format', FM.setup_argparser),
                        ('cmake-lint', LM.setup_argparse)):
        ap = argparse.ArgumentParser()
        setup(ap)
        acts = {a.dest: a for a in ap._actions}
        other = [n for n in option_names() if n not in acts]
        mine = [acts[n] for n in option_names() if n in acts]
        out += [
            ('every option of %s that is no table has a flag' % prog, all(
                isinstance(getattr(c, n, None), dict)
                for _, c in sections() for n in c.get_field_names()
                if n in other)),
            ('an option that is not given is None (%s)' % prog, all(
                a.default is None for a in mine)),
            ('an option has a flag of its own (%s)' % prog, len(
                {a.dest for a in ap._actions}) == len(ap._actions) and all(
                    '--' + a.dest.replace('_', '-') in a.option_strings
                    for a in mine)),
            ('a bare flag of a switch flips it (%s)' % prog, all(
                acts[n].const == (not getattr(c, n)) and acts[n].nargs == '?'
                for _, c in sections() for n in c.get_field_names()
                if n in acts and isinstance(getattr(c, n), bool))),
        ]
    return out


# ------------------------------------------------------ the nearest file
NAMES_ = ['.cmake-format', '.cmake-format.py', '.cmake-format.json',
          '.cmake-format.yaml', 'cmake-format.py', 'cmake-format.json',
          'cmake-format.yaml']
PathS = z3.DeclareSort('Path')
NOPATH = z3.Const('no_path', PathS)
EMPTYP = z3.Const('empty_path', PathS)
realpath_f = sf('realpath', PathS, PathS)
isdir_f = sf('is_dir', PathS, BOOL)
parent_f = sf('parent', PathS, PathS)
in_f = sf('in_dir', PathS, StrS, PathS)
exists_f = sf('exists', PathS, BOOL)
near_f = sf('nearest', PathS, PathS)


def pv(t):
    o = Opaque('path', 'path')
    o.attrs['p'] = SPath(t)
    return o


class SPath(SV):
    __slots__ = ()


def pterm(v):
    if isinstance(v, Opaque) and v.tag == 'path':
        return v.attrs['p'].t
    raise Unsupported('not a path: %r' % (v,))


def nearest(ip, t):
    """Unfolds the definition of the nearest configuration file at t."""
    r = If(parent_f(t) == t, NOPATH, near_f(parent_f(t)))
    for n in reversed(NAMES_):
        c = in_f(t, Sv(n))
        r = If(exists_f(c), c, r)
    ip.p.assume(near_f(t) == If(t == EMPTYP, NOPATH, r))


class PathHandler(TagHandler):
    def truth(self, ip, v):
        return pterm(v) != EMPTYP

    def eq(self, ip, v, other):
        if other is None:
            return False
        if isinstance(other, str) and other == '':
            return pterm(v) == EMPTYP
        return pterm(v) == pterm(other)

    def havoc(self, ip, hint):
        t = ip.p.fresh(PathS, 'path')
        ip.p.assume(t != NOPATH)
        return pv(t)


class FindEngine(ConfEngine):
    def __init__(self):
        ConfEngine.__init__(self)
        self.tags['path'] = PathHandler()
        cm = self.call_models

        def split(ip, a, k):
            t = pterm(a[0])
            nearest(ip, t)
            # (a parent may be empty, for a relative path)
            return (pv(parent_f(t)), Opaque('any', 'tail'))

        def join(ip, a, k):
            if len(a) != 2:
                raise Unsupported('join')
            t = pterm(a[0])
            nearest(ip, t)
            return pv(in_f(t, ip.strterm(a[1])))
        cm[os.path.realpath] = lambda ip, a, k: pv(realpath_f(pterm(a[0])))
        cm[os.path.isdir] = lambda ip, a, k: SBool(isdir_f(pterm(a[0])))
        cm[os.path.exists] = lambda ip, a, k: SBool(exists_f(pterm(a[0])))
        cm[os.path.isfile] = cm[os.path.exists]
        cm[os.path.split] = split
        cm[os.path.dirname] = lambda ip, a, k: split(ip, a, k)[0]
        cm[os.path.join] = join

    def cands(self, ip, al, where):
        start = ip.p.ghost['start']
        nearest(ip, start)
        for fi, n, v in P.frame_vars(al, ip):
            if isinstance(v, Opaque) and v.tag == 'path' and \
                    not n.startswith('$'):
                t = pterm(v)
                nearest(ip, t)
                yield 'what is nearest to %s is still to be found' % n, \
                    near_f(t) == near_f(start)


@spec('sources', RUN + 'find_config_file', FindEngine)
def find_config_file(h):
    """The first of the known names in the directory of the file, or else in
    the nearest directory above it that has one."""
    ip = h.ip
    p = PathHandler().havoc(ip, 'infile_path')
    t = pterm(p)
    start = If(isdir_f(t), t, parent_f(realpath_f(t)))
    h.p.ghost['start'] = start
    x = h.p.fresh(PathS, 'x')
    for n in NAMES_:
        h.p.assume(in_f(start, Sv(n)) != NOPATH)
    r = h.call(p)
    nearest(ip, start)
    got = NOPATH if r is None else pterm(r)
    h.ensure('the nearest configuration file', got == near_f(start))


@bounded('sources', RUN + 'find_config_file',
         'find_config_file (names)', 'documented names')
def names_are_documented(fn):
    """The names looked for are those of the contract above (ran for real,
    in a directory that has just one of them)."""
    import tempfile
    import shutil
    n = 0
    bad = None
    for name in NAMES_:
        d = tempfile.mkdtemp()
        try:
            sub = os.path.join(d, 'a', 'b')
            os.makedirs(sub)
            path = os.path.join(d, 'a', name)
            open(path, 'w').close()
            n += 1
            got = fn(os.path.join(sub, 'CMakeLists.txt'))
            if got is None or os.path.realpath(got) != os.path.realpath(
                    path):
                bad = name
        finally:
            shutil.rmtree(d)
    return n, bad


# -------------------------------------------------------------- get_config
found_f = sf('file_found_for', StrS, StrS)
has_found_f = sf('some_file_found_for', StrS, BOOL)
dict_f = sf('dict_of_files', StrSeq, ValS)


class GetEngine(ListEngine):
    def __init__(self):
        ListEngine.__init__(self)

        def find_c(ip, ba):
            t = ip.strterm(ba['infile_path'])
            if ip.p.branch(has_found_f(t)):
                return SStr(found_f(t))
            return None

        def dict_c(ip, ba):
            t = dict_f(ip.e.measure(ip, ip.e.as_list(
                ip, ba['configfile_paths']), 'seq', PATHS))
            ip.p.assume(And(ismap_f(t), t != ABSENT))
            if ip.p.choose(2, 'cannot be read') == 1:
                raise PyExc(common.UserError, None)
            return cval(t, ip)
        self.pure(RUN + 'find_config_file', find_c)
        self.pure(RUN + 'get_configdict', dict_c)


@spec('sources', RUN + 'get_config', GetEngine)
def get_config(h):
    """The named files, or else the nearest one, or else nothing."""
    ip = h.ip
    basics(h.p)
    path = h.str('infile_path')
    if h.p.choose(2, 'named files') == 1:
        files = h.list(PATHS, 'configfile_paths')
        want = dict_f(ip.e.measure(ip, files, 'seq', PATHS))
    else:
        files = None
        want = If(has_found_f(path.t), dict_f(z3.Unit(found_f(path.t))),
                  EMPTY)
    r = h.call(path, files)
    h.ensure('the named files, else the nearest one, else nothing', vterm(
        ip, r) == want)


# ------------------------------------------------- the format of one file
json_f = sf('json_of', StrS, ValS)
yaml_f = sf('yaml_of', StrS, ValS)
py_f = sf('python_of', StrS, ValS)
any_f = sf('guessed_of', StrS, ValS)
there_f = sf('file_exists', StrS, BOOL)
empty_f = sf('file_is_empty', StrS, BOOL)


class OneDictEngine(ConfEngine):
    def __init__(self):
        ConfEngine.__init__(self)
        import json
        cm = self.call_models
        cm[os.path.exists] = lambda ip, a, k: SBool(there_f(ip.strterm(
            a[0])))
        cm[os.stat] = self.stat
        cm[os.path.getsize] = lambda ip, a, k: self.stat(
            ip, a, k).attrs['st_size']
        cm[io.open] = self.open
        cm[json.load] = self.loader(json_f)
        self.pure(RUN + 'load_yaml', lambda ip, ba: self.loader(yaml_f)(
            ip, [ba['config_file']], {}))
        self.pure(RUN + 'exec_pyconfig', lambda ip, ba: self.path_loader(
            ip, py_f, ip.strterm(ba['configfile_path']), Exception))
        self.pure(RUN + 'try_get_configdict', lambda ip, ba: self.path_loader(
            ip, any_f, ip.strterm(ba['configfile_path']), RuntimeError))
        self.tags['cfgfile'] = CfgFileHandler()

    @staticmethod
    def stat(ip, a, k):
        o = Opaque('any', 'stat')
        n = ip.p.fresh(INT, 'size')
        ip.p.assume(And(n >= 0, (n == 0) == empty_f(ip.strterm(a[0]))))
        o.attrs['st_size'] = SInt(n)
        return o

    @staticmethod
    def open(ip, a, k):
        b = EF.bind(io.open, a, k)
        ip.s.obligation(ip.p, 'it is opened for reading as UTF-8',
                        z3.BoolVal(b['mode'] in ('r', 'rt') and
                                   b['encoding'] in ('utf-8', 'utf8')))
        return Opaque('cfgfile', 'file', path=ip.strterm(b['file']))

    @staticmethod
    def path_loader(ip, f, t, ex):
        if ip.p.choose(2, 'load') == 1:
            raise PyExc(ex, None)
        r = f(t)
        ip.p.assume(r != ABSENT)
        return cval(r, ip)

    def loader(self, f):
        return lambda ip, a, k: self.path_loader(
            ip, f, a[0].kw['path'], ValueError)

    def str_method(self, ip, v, name):
        if name == 'endswith':
            return Builtin(name, lambda ip, a, k: SBool(z3.SuffixOf(
                ip.strterm(a[0]), ip.strterm(v))))
        return ConfEngine.str_method(self, ip, v, name)


class CfgFileHandler(TagHandler):
    def truth(self, ip, v):
        return True

    def getattr(self, ip, v, name):
        if name == '__enter__':
            return Builtin(name, lambda ip, a, k: v)
        if name == '__exit__':
            return Builtin(name, lambda ip, a, k: None)
        if name == 'close':
            return Builtin(name, lambda ip, a, k: None)
        raise Unsupported('%s of a configuration file' % name)


@spec('sources', RUN + 'get_one_config_dict', OneDictEngine)
def get_one_config_dict(h):
    """A file is read in the format its name says; a file that is missing or
    malformed is an error of the user."""
    ip = h.ip
    basics(h.p)
    p = h.str('configfile_path')
    ends = lambda x: z3.SuffixOf(Sv(x), p.t)
    h.on_raise = lambda ex: h.ensure(
        'a file that cannot be used is reported', issubclass(
            ex.cls, (common.UserError, RuntimeError)))
    r = h.call(p)
    want = If(ends('.json'), If(empty_f(p.t), EMPTY, json_f(p.t)), If(
        ends('.yaml'), yaml_f(p.t), If(ends('.py'), py_f(p.t), any_f(p.t))))
    h.ensure('a missing file is never taken for an empty one', there_f(p.t))
    h.ensure('the contents, as its name says', vterm(ip, r) == want)


# ------------------------------------------------------- putting it together
cfgof_f = sf('config_dict_of', StrS, ValS)
CWD = z3.Const('cwd', StrS)


def expected(path, arg):
    """The option for this file: command line, files, default."""
    d = cfgof_f(If(path == Sv('-'), CWD, path))
    return takes(arg, option_value(d, ABSENT))


class PutEngine(ObjEngine):
    """Where the configuration of a file comes from."""

    def __init__(self, base=EF.OneEngine):
        ObjEngine.__init__(self)
        e = base()
        self.tags = dict(e.tags, **self.tags)
        self.call_models = {**e.call_models, **self.call_models}
        self.contracts = {**e.contracts, **self.contracts}
        self.overrides.update(e.overrides)
        self.pure(RUN + 'get_config', self.get_config)
        self.pure(RUN + 'process_file', self.process)

    def skip_call(self, ip, f):
        if f is EF.logging.getLogger:
            return False
        return ObjEngine.skip_call(self, ip, f)

    @staticmethod
    def get_config(ip, ba):
        g = ip.p.ghost
        ip.s.obligation(ip.p, 'the files named on the command line are used',
                        z3.BoolVal(ba['configfile_paths'] is g['files']))
        if ip.p.choose(2, 'get_config') == 1:
            raise PyExc(common.UserError)
        basics(ip.p)
        t = cfgof_f(ip.strterm(ba['infile_path']))
        ip.p.assume(And(ismap_f(t), t != ABSENT))
        return cval(t, ip)

    @staticmethod
    def judge(ip, cfg):
        g = ip.p.ghost
        ok = isinstance(cfg, Opaque) and cfg.tag == 'croot'
        ip.s.obligation(ip.p, 'a file is processed with a configuration',
                        z3.BoolVal(ok))
        if ok:
            ip.s.obligation(
                ip.p, 'command line, else configuration files, else default',
                oval(cfg) == expected(g['path'], g['arg']))

    @staticmethod
    def process(ip, ba):
        PutEngine.judge(ip, ba['config'])
        ip.p.ghost['seen'] = True
        raise PyExc(common.FormatError, ip.new_obj(common.FormatError))


@spec('sources', RUN + 'onefile_main', PutEngine)
def onefile_config(h):
    """Each file is formatted with its own configuration: the value given on
    the command line, else that of its configuration files, else the
    default; the options of the command line stay as they are for the next
    file."""
    ip = h.ip
    facts(h)
    g = h.p.ghost
    h.p.ghost['T'] = []
    path = h.str('infile_path')
    args = Opaque('args', 'args')
    argd = fresh_map(ip, 'argparse_dict')
    g.update(path=path.t, files=ip.getattr(args, 'config_files'),
             arg=get_f(vterm(ip, argd), OPT))
    # only options without sections come from the command line
    h.p.assume(get_f(vterm(ip, argd), SEC) == ABSENT)
    h.on_raise = lambda ex: None
    h.call(path, args, argd)
    h.ensure('not formatted only if told so', True)


class AnnEngine(PutEngine):
    def __init__(self):
        PutEngine.__init__(self)
        import argparse
        import logging
        self.tags['argparser'] = EF.ParserHandler()
        self.tags['args'] = AnnArgs()
        self.call_models[argparse.ArgumentParser] = lambda ip, a, k: Opaque(
            'argparser', 'parser')
        self.call_models[logging.basicConfig] = lambda ip, a, k: None
        self.overrides['cmakelang.annotate', 'sys'] = lambda ip: Opaque(
            'sysmod', 'sys')
        self.pure(ANN + 'setup_argparser', lambda ip, ba: None)
        self.pure(RUN + 'get_argdict', lambda ip, ba: ip.p.ghost['argd'])
        self.pure(ANN + 'annotate_file', self.annotate)

    @staticmethod
    def get_config(ip, ba):
        g = ip.p.ghost
        f = ba['configfile_paths']
        one = g['args'].attrs.get('config_file')
        ok = (one is None) == (f is None)
        if ok and f is not None:
            xs = ip.e.as_list(ip, f)
            ok = xs.explicit() and len(xs.items) == 1 and \
                xs.items[0].v is one
        ip.s.obligation(ip.p, 'the files named on the command line are used',
                        z3.BoolVal(bool(ok)))
        g['path'] = ip.strterm(ba['infile_path'])
        g['now'] = None
        basics(ip.p)
        t = cfgof_f(g['path'])
        ip.p.assume(And(ismap_f(t), t != ABSENT))
        return cval(t, ip)

    @staticmethod
    def annotate(ip, ba):
        PutEngine.judge(ip, ba['config'])

    def kind_of_value(self, ip, v):
        if isinstance(v, (SStr, str)):
            return EF.PATHS
        return PutEngine.kind_of_value(self, ip, v)

    def cands(self, ip, al, where):
        return ()


class AnnArgs(EF.ArgsHandler2):
    strs = EF.ArgsHandler2.strs + ('config_file',)


@spec('sources', ANN + 'main', AnnEngine)
def annotate_main(h):
    """Each file is annotated with its own configuration."""
    ip = h.ip
    facts(h)
    g = h.p.ghost
    g['T'] = []
    argd = fresh_map(ip, 'argdict')
    args = Opaque('args', 'args')
    g.update(args=args, argd=argd, arg=get_f(vterm(ip, argd), OPT))
    h.p.assume(get_f(vterm(ip, argd), SEC) == ABSENT)
    h.may_modify(args, argd)
    h.on_raise = lambda ex: None
    h.call()
    h.ensure('done', True)
