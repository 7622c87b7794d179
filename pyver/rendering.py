"""Contracts on the annotator: what the generated HTML shows (C16).

A document under construction is described by the text it shows so far (the
tokens whose spelling, entities resolved, it shows), the elements that are
open, and the state of an HTML tokenizer.  Everything written is cut into
literal pieces, which the tokenizer reads, and values: a token's spelling
shows only if it went through an escaping function.
"""
import html as html_mod
import inspect
import io
import os
import re
from xml.sax import saxutils

import z3

from . import models as M
from . import parsing as P
from . import texts
from .contract import spec, ApplyContract, find
from .effects import Ev, RunEngine, ParserHandler, ArgsHandler2, PATHS
from .effects import ProcessEngine, bind
from .formatting import SSeq
from .models import TagHandler
from .values import *  # noqa

REN = 'cmakelang.render:'
ANN = 'cmakelang.annotate:'
RUN = 'cmakelang.format.__main__:'
from fals import env  # noqa: E402

jinja2 = env.load_jinja()

from cmakelang import lex, parse  # noqa: E402  pylint: disable=wrong-import-position


# ---------------------------------------------------------------- documents
TEXT, TAG, RAW = 'text', 'tag', 'raw'
VOID = ('meta', 'link', 'br', 'hr', 'img', 'input')


class Doc(object):
    """An HTML tokenizer over pieces.  `raw` elements (style, script) hold no
    markup."""

    def __init__(self, mode=TEXT, stack=(), shown=(), bad=None):
        self.mode, self.stack, self.bad = mode, stack, bad
        self.shown = list(shown)     # ('lit', text, stack) | ('val', v, stack)
        self.tag = ''

    def error(self, why):
        if self.bad is None:
            self.bad = why

    def literal(self, s):
        i = 0
        while i < len(s):
            if self.mode == TEXT:
                j = s.find('<', i)
                t = s[i:] if j < 0 else s[i:j]
                if t:
                    self.shown.append(('lit', html_mod.unescape(t),
                                       self.stack))
                if j < 0:
                    return
                self.mode, self.tag, i = TAG, '', j + 1
            elif self.mode == RAW:
                end = '</' + self.stack[-1]
                j = s.find(end, i)
                if j < 0:
                    return
                self.mode, self.tag, i = TAG, '', j + 1
            else:
                j = s.find('>', i)
                if j < 0:
                    self.tag += s[i:]
                    return
                self.tag += s[i:j]
                self.close_tag()
                i = j + 1

    def close_tag(self):
        t = self.tag
        self.mode = TEXT
        m = re.fullmatch(r'(/?)([A-Za-z][A-Za-z0-9]*)((?:\s+[a-z-]+'
                         r'(?:="[^"<>]*")?)*)\s*(/?)', t)
        if not m:
            return self.error('malformed tag <%s>' % t)
        name = m.group(2).lower()
        if m.group(1):
            if not self.stack or self.stack[-1] != name:
                return self.error('</%s> does not close %r' % (
                    name, self.stack[-1:]))
            self.stack = self.stack[:-1]
        elif not m.group(4) and name not in VOID:
            self.stack += (name,)
            if name in ('style', 'script'):
                self.mode = RAW

    def value(self, v, safe, shows=None):
        """A value in the text: `safe` inside a tag (letters, digits, - and
        _ only), `shows` what it shows as text."""
        if self.mode == TAG:
            if not safe:
                return self.error('%r inside a tag' % (v,))
            self.tag += 'X'
        elif self.mode == RAW:
            self.error('%r inside <%s>' % (v, self.stack[-1]))
        elif shows is None:
            self.error('%r is not escaped' % (v,))
        else:
            self.shown.append(('val', shows, self.stack))


name_f = {}


def name_of(ip, v):
    """The name of an enumeration's member: an identifier (checked)."""
    cls = v.cls
    f = name_f.get(cls)
    if f is None:
        f = name_f[cls] = z3.Function('name_' + cls.__name__, v.t.sort(),
                                      StrS)
    return SStr(f(v.t))


def safe_names(cls):
    return all(isinstance(m.name, str) and re.fullmatch(
        r'[A-Za-z0-9_]+', m.name) for m in cls._id_map.values())


def feed(ip, doc, s):
    """Write the text s: returns the tokens it shows, in order."""
    for p in texts.parts(ip, s):
        if isinstance(p, str):
            doc.literal(p)
            continue
        v = p.v
        if isinstance(v, SStr):
            t = v.t
            safe = z3.is_app(t) and any(
                t.decl().eq(f) and safe_names(c)
                for c, f in name_f.items())
            doc.value(v, safe, None)
        elif isinstance(v, Opaque) and v.tag == 'escaped':
            doc.value(v, False, v.kw['text'])
        elif isinstance(v, Opaque) and v.tag == 'html':
            # a whole document inserted
            if doc.mode != TEXT:
                doc.error('a document inside a tag')
            doc.shown.append(('val', v, doc.stack))
        else:
            doc.value(v, False, None)


def shows(ip, doc):
    """(flat term, None) of what a document shows or (None, why not)."""
    t = P.EMPTY
    for kind, v, _ in doc.shown:
        if kind == 'lit':
            return None, 'text of its own: %r' % v
        if isinstance(v, Opaque):
            t = P.cat(t, v.kw['flat'])
        elif z3.is_app(v) and v.decl().eq(P.tspell):
            t = P.cat(t, P.tokflat(v.arg(0)))
        else:
            return None, 'shows %s' % v
    return t, None


class HtmlFile(TagHandler):
    """A file that receives HTML."""

    def truth(self, ip, v):
        return True

    def getattr(self, ip, v, name):
        def write(ip, a, k):
            if not isinstance(a[0], (str, SStr)):
                raise PyExc(TypeError)
            doc = Doc(v.attrs['mode'], v.attrs['stack'])
            doc.tag = v.attrs['tag']
            feed(ip, doc, a[0])
            for f in ('flat', 'ok', 'mode', 'stack', 'tag'):
                ip.note_write(v, f)
            t, why = shows(ip, doc)
            if doc.bad or why:
                ip.s.obligation(
                    ip.p, 'what is written is HTML that shows nothing but '
                    'the tokens', z3.BoolVal(False), doc.bad or why)
                v.attrs['ok'] = SBool(z3.BoolVal(False))
                t = P.EMPTY
            v.attrs['flat'] = SSeq(P.cat(v.attrs['flat'].t, t))
            v.attrs['mode'], v.attrs['stack'] = doc.mode, doc.stack
            v.attrs['tag'] = doc.tag if doc.mode == TAG else ''

        def getvalue(ip, a, k):
            h = Opaque('html', 'html', flat=v.attrs['flat'].t)
            h.kw['closed'] = not v.attrs['stack'] and \
                v.attrs['mode'] == TEXT
            h.kw['ok'] = v.attrs['ok'].t
            h.stamp = ip.p.tick()
            return texts.make(ip, [texts.Atom(h, 's')])
        t = {'write': write, 'getvalue': getvalue}
        if name in t:
            return Builtin(name, t[name])
        raise Unsupported('%s of a file' % name)


def new_file(ip, flat=None):
    o = Opaque('htmlfile', 'outfile')
    o.stamp = ip.p.tick()
    o.attrs.update(flat=SSeq(P.EMPTY if flat is None else flat),
                   ok=SBool(z3.BoolVal(True)), mode=TEXT, stack=(), tag='')
    return o


def dump_apply(ip, ba):
    """dump_html adds the text of the node, and closes what it opens."""
    node, out = ba['node'], ba['outfile']
    if not isinstance(out, Opaque) or out.tag != 'htmlfile':
        raise Unsupported('dump_html into %r' % (out,))
    if not (isinstance(node, (STok, Opaque, Obj))):
        raise Unsupported('dump_html of %r' % (node,))
    ip.s.obligation(ip.p, 'elements are written where text may stand',
                    z3.BoolVal(out.attrs['mode'] == TEXT))
    ip.note_write(out, 'flat')
    out.attrs['flat'] = SSeq(P.cat(out.attrs['flat'].t,
                                   P.node_flat(ip, node)))


def plain(v):
    """A value given to the template engine: nothing unknown in it."""
    if isinstance(v, LList):
        if not v.explicit():
            raise Unsupported('%r for the template engine' % (v,))
        return [plain(x.v) for x in v.items]
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return type(v)(plain(x) for x in v)
    if isinstance(v, (SV, Opaque, Obj)):
        raise Unsupported('%r for the template engine' % (v,))
    return v


class SheetHandler(TagHandler):
    """A file that comes with the program; it is read for real."""

    def truth(self, ip, v):
        return True

    def getattr(self, ip, v, name):
        def read(ip, a, k):
            b = inspect.signature(io.open).bind(*v.kw['real'][0],
                                                **v.kw['real'][1])
            if 'w' in b.arguments.get('mode', 'r'):
                raise Unsupported('writes into %r' % (b,))
            with io.open(*b.args, **b.kwargs) as f:
                return f.read(*a)
        t = {'read': read, '__enter__': lambda ip, a, k: v,
             '__exit__': lambda ip, a, k: None,
             'close': lambda ip, a, k: None}
        if name in t:
            return Builtin(name, t[name])
        raise Unsupported('%s of a file' % name)


class EnvHandler(TagHandler):
    """The template engine.  Templates are read for real; a template may
    only insert values, whatever they are."""

    def truth(self, ip, v):
        return True

    def getattr(self, ip, v, name):
        if name not in ('get_template', 'from_string'):
            raise Unsupported('%s of a template environment' % name)

        def get(ip, a, k):
            env = v.kw['real']
            src = env.loader.get_source(env, a[0])[0] \
                if name == 'get_template' else a[0]
            N = jinja2.nodes
            for n in env.parse(src).find_all(N.Node):
                if not isinstance(n, (N.Output, N.TemplateData, N.Name)) \
                        and not (isinstance(n, N.Filter) and n.name in (
                            'safe', 'e', 'escape', 'forceescape')):
                    raise Unsupported('%r in a template' % n)
            return Opaque('template', 'template',
                          real=getattr(env, name)(a[0]))
        return Builtin(name, get)


class TemplateHandler(TagHandler):
    def truth(self, ip, v):
        return True

    def getattr(self, ip, v, name):
        if name != 'render':
            raise Unsupported('%s of a template' % name)

        def render_(ip, a, k):
            if a:
                raise Unsupported('render of a dictionary')
            vals, kw = [], {}
            for n, x in k.items():
                if isinstance(x, SStr):
                    kw[n] = '\x02<&%d>\x03' % len(vals)
                    vals.append(x)
                elif isinstance(x, str):
                    kw[n] = x
                else:
                    raise Unsupported('render of %r' % (x,))
            ps = []
            for s in re.split('(\x02.*?\x03)', v.kw['real'].render(**kw)):
                if not s.startswith('\x02'):
                    ps.append(s)
                    continue
                m = re.fullmatch('\x02<&(\\d+)>\x03', s)
                if m:
                    ps += texts.parts(ip, vals[int(m.group(1))])
                else:
                    ps.append(texts.Atom(Opaque('any', 'mangled'), 's'))
            return texts.make(ip, ps)
        return Builtin(name, render_)


class RenderEngine(texts.TextEngineMixin, P.ParseEngine):
    def __init__(self):
        P.ParseEngine.__init__(self)
        self.tags['htmlfile'] = HtmlFile()
        self.candidate_fns = [P.for_candidates, self.cands]
        cm = self.call_models
        cm[io.StringIO] = lambda ip, a, k: new_file(ip)
        for f in (saxutils.escape, html_mod.escape):
            cm[f] = self.escape
        fn = find(REN + 'dump_html')
        if fn:
            self.contracts[fn] = ApplyContract(dump_apply)
        if jinja2 is not None:
            for f in (jinja2.FileSystemLoader, jinja2.select_autoescape):
                cm[f] = lambda ip, a, k, f=f: f(
                    *plain(a), **plain(k))
            cm[jinja2.Environment] = lambda ip, a, k: Opaque(
                'jenv', 'environment', real=jinja2.Environment(
                    *plain(a), **plain(k)))
        self.tags.update(jenv=EnvHandler(), template=TemplateHandler(),
                         sheet=SheetHandler())
        for f in (os.path.realpath, os.path.dirname, os.path.join):
            cm[f] = self.real(f)
        cm[io.open] = self.sheet

    @staticmethod
    def real(f):
        def m(ip, a, k):
            if any(ip.is_sym(x) for x in a):
                return SStr(ip.p.fresh(StrS, f.__name__))
            return f(*a)
        return m

    @staticmethod
    def sheet(ip, a, k):
        """The style sheet that comes with the program."""
        if not isinstance(a[0], str):
            raise Unsupported('open(%r)' % (a[0],))
        return Opaque('sheet', 'file', real=(a, k))

    @staticmethod
    def escape(ip, a, k):
        if len(a) > 1 or any(n != 'quote' for n in k):
            raise Unsupported('escape(%r, %r)' % (a, k))
        if isinstance(a[0], str):
            return html_mod.escape(a[0], False)
        ps = []
        for p in texts.parts(ip, a[0]):
            if isinstance(p, str):
                ps.append(html_mod.escape(p, False))
            elif isinstance(p.v, SStr):
                e = Opaque('escaped', 'escaped', text=p.v.t)
                e.stamp = ip.p.tick()
                ps.append(texts.Atom(e, 's'))
            else:
                raise Unsupported('escape of %r' % (p.v,))
        return texts.make(ip, ps)

    def enum_attr(self, ip, v, name):
        if name == 'name':
            return name_of(ip, v)
        return P.ParseEngine.enum_attr(self, ip, v, name)

    def kind_of_value(self, ip, v):
        if isinstance(v, (str, SStr)):
            return M.STRS
        return P.ParseEngine.kind_of_value(self, ip, v)

    def loop_pre(self, ip, al):
        pre = P.ParseEngine.loop_pre(self, ip, al)
        for fi, n, v in P.frame_vars(al, ip):
            if not n.startswith('$') and isinstance(v, LList) and \
                    self.list_kind(ip, v) == P.NODES:
                pre[n, fi] = {'flat': self.measure(ip, v, 'flat', P.NODES)}
        for o in files(al):
            pre['flat', id(o)] = o.attrs['flat'].t
        return pre

    def cands(self, ip, al, where):
        for n, o in enumerate(files(al)):
            f0 = al.pre.get(('flat', id(o)))
            done = [f.locals[m] for f in al.frames for m in sorted(f.locals)
                    if m.startswith('$done') and isinstance(
                        f.locals[m], LList)]
            if f0 is None:
                continue
            for fi, m, v in P.frame_vars(al, ip):
                if not m.startswith('$') and isinstance(v, LList) and \
                        self.list_kind(ip, v) in (P.NODES, None) and \
                        (m, fi) in al.pre:
                    yield ('what is shown and the text of what is left make '
                           'the text of the children [%s %d]' % (m, n),
                           P.cat(o.attrs['flat'].t, self.measure(
                               ip, v, 'flat', P.NODES)) == P.cat(
                                   f0, al.pre[m, fi].get('flat', P.EMPTY)))
            if not done:
                continue
            k = self.list_kind(ip, done[-1])
            yield ('what is shown is the text of the children so far [%d]'
                   % n, o.attrs['flat'].t == P.cat(f0, self.measure(
                       ip, done[-1], 'flat', P.NODES)
                       if k in (None, P.NODES) else z3.Const('?', TokSeqS)))


TokSeqS = P.EMPTY.sort()


def files(al):
    out = []
    for o in al.keep:
        if isinstance(o, Opaque) and o.tag == 'htmlfile':
            out.append(o)
    return out


@spec('html', REN + 'dump_html', RenderEngine)
def dump_html(h):
    """Whatever the node, what is added to the document shows the text of
    the node and nothing else, and every element opened is closed."""
    ip = h.ip
    f0 = h.p.fresh(TokSeqS, 'before')
    out = new_file(ip, f0)
    out.stamp = 0
    node = P.node_or_tok(ip)
    h.may_modify(out)
    h.call(node, out)
    h.ensure('the document shows the text of the node in addition',
             out.attrs['flat'].t == P.cat(f0, P.node_flat(ip, node)))
    h.ensure('every element opened is closed, in order',
             out.attrs['mode'] == TEXT and out.attrs['stack'] == ())
    h.ensure('only HTML is written', out.attrs['ok'])


# ---------------------------------------------------------------- documents
def judge(h, ip, r, flat, page, around=False):
    """The text r is a well-nested document that shows what `flat` shows:
    nothing else; on a page, only blanks stand around the annotation, which
    is the content of an element of the page."""
    doc = Doc()
    feed(ip, doc, r)
    h.ensure('the elements are well nested: %s' % (doc.bad or 'all closed'),
             doc.bad is None and doc.mode == TEXT and doc.stack == ())
    vals = [(v, st) for kind, v, st in doc.shown if kind == 'val']
    lits = [(v, st) for kind, v, st in doc.shown if kind == 'lit']
    ok = len(vals) == 1 and isinstance(vals[0][0], Opaque)
    h.ensure('the annotation stands in the document once, unescaped', ok)
    if ok:
        v, st = vals[0]
        h.ensure('it shows the text of the listfile',
                 v.kw['flat'] == flat if v.kw['flat'] is not flat else True)
        h.ensure('it is complete', v.kw['closed'])
        h.ensure('it is HTML', v.kw['ok'])
        h.ensure('it stands in the body of the page', 'body' in st or not (
            page and not around))
    h.ensure('nothing else is shown', not lits or (page and all(
        not v.strip() for v, _ in lits)))


@spec('html', REN + 'get_html', RenderEngine)
def get_html(h):
    """The annotation of a tree, alone or on a page."""
    ip = h.ip
    h.ensure('the page can be rendered here', jinja2 is not None)
    node = P.node_or_tok(ip)
    page = h.p.choose(2, 'fullpage') == 1
    r = h.call(node, page)
    judge(h, ip, r, P.node_flat(ip, node), page)


class AnnotateEngine(texts.TextEngineMixin, ProcessEngine):
    def __init__(self):
        ProcessEngine.__init__(self)
        fn = find(REN + 'get_html')
        if fn:
            self.contracts[fn] = ApplyContract(self.html)
        self.tags['docfile'] = DocFile()

    @staticmethod
    def html(ip, ba):
        g = ip.p.ghost
        ps = [e for e in g['T'] if e.op == 'parse']
        tk = [e for e in g['T'] if e.op == 'tokenize']
        ok = len(ps) == 1 and len(tk) == 1 and \
            ba['node'] is ps[0].result and \
            bind(parse.parse, ps[0].args, ps[0].kw)['tokens'] \
            is tk[0].result
        ip.s.obligation(ip.p, 'the tree of the tokens is annotated',
                        z3.BoolVal(ok))
        if ok:
            b = bind(lex.tokenize, tk[0].args, tk[0].kw)
            ip.s.obligation(
                ip.p, 'the text of the file itself is tokenized',
                ip.strterm(b['contents']) == ip.strterm(
                    g['infile'].attrs.get('$text', '')))
        ip.s.obligation(ip.p, 'whether a page is asked for is known',
                        z3.BoolVal(isinstance(ba['fullpage'], bool)))
        o = Opaque('html', 'html', flat=g['flat'], closed=True,
                   ok=z3.BoolVal(True), page=ba['fullpage'])
        o.stamp = ip.p.tick()
        return texts.make(ip, [texts.Atom(o, 's')])


class DocFile(TagHandler):
    """A file whose text is remembered."""

    def truth(self, ip, v):
        return True

    def getattr(self, ip, v, name):
        def write(ip, a, k):
            if not isinstance(a[0], (str, SStr)):
                raise PyExc(TypeError)
            ip.note_write(v, 'pieces')
            v.attrs['pieces'] = v.attrs['pieces'] + tuple(
                texts.parts(ip, a[0]))
        if name == 'write':
            return Builtin(name, write)
        raise Unsupported('%s of the output' % name)


@spec('html', ANN + 'annotate_file', AnnotateEngine)
def annotate_file(h):
    """What is written is one document that shows the text of the file."""
    ip = h.ip
    g = h.p.ghost
    g['T'] = []
    g['flat'] = h.p.fresh(TokSeqS, 'file')
    cfg = Opaque('cfg', 'config')
    infile = g['infile'] = Opaque('file', 'infile')
    out = Opaque('docfile', 'outfile')
    out.attrs['pieces'] = ()
    fmt = ('stub', 'page', 'iframe')[h.p.choose(3, 'format')]
    h.may_modify(infile, out)
    h.on_raise = lambda ex: h.ensure('only an input that cannot be read',
                                     issubclass(ex.cls, UnicodeError))
    h.call(cfg, infile, out, fmt)
    vals = [p.v for p in out.attrs['pieces'] if not isinstance(p, str)]
    h.ensure('a page is a page, a stub the annotation alone', [
        v.kw.get('page') for v in vals if isinstance(v, Opaque)] == [
            fmt != 'stub'])
    r = texts.make(ip, list(out.attrs['pieces']))
    judge(h, ip, r, g['flat'], fmt == 'iframe', True)


# ------------------------------------------------------------- cmake-annotate
class AnnMainEngine(RunEngine):
    """cmake-annotate: the files it opens."""

    def __init__(self):
        RunEngine.__init__(self)
        import argparse
        import logging
        self.tags['argparser'] = ParserHandler()
        self.tags['args'] = AnnArgs2()
        cm = self.call_models
        cm[argparse.ArgumentParser] = lambda ip, a, k: Opaque(
            'argparser', 'parser')
        cm[logging.basicConfig] = lambda ip, a, k: None
        self.overrides['cmakelang.annotate', 'sys'] = lambda ip: Opaque(
            'sysmod', 'sys')
        self.tags['dict'] = DictOfAny()
        self.pure(ANN + 'setup_argparser', lambda ip, ba: None)
        self.pure(RUN + 'get_argdict', lambda ip, ba: Opaque(
            'dict', 'argdict'))
        self.pure(RUN + 'get_config', lambda ip, ba: Opaque(
            'dict', 'config', path=ip.strterm(ba['infile_path'])))
        self.pure(ANN + 'annotate_file', self.annotate)

    @staticmethod
    def annotate(ip, ba):
        inf, out, cfg = ba['infile'], ba['outfile'], ba['config']
        ok = all(isinstance(x, Opaque) and x.tag == 'file'
                 for x in (inf, out)) and isinstance(cfg, Opaque)
        ip.s.obligation(ip.p, 'a file is read, another written',
                        z3.BoolVal(ok and inf is not out))
        if not ok:
            return
        enc = ip.getattr(cfg, 'encode')
        for f, n, m in ((inf, 'input_encoding', 'r'),
                        (out, 'output_encoding', 'w')):
            ip.s.obligation(ip.p, 'the %s is opened without translation of '
                            'line endings' % n.split('_')[0], z3.BoolVal(
                                f.kw['newline'] == '' and f.kw['mode'] in (
                                    m, m + 't')))
            ip.s.obligation(
                ip.p, 'with the configured %s' % n.replace('_', ' '),
                z3.BoolVal(f.kw['encoding'] is ip.getattr(enc, n)))
        path = inf.kw['path']
        if isinstance(path, Opaque) and path.tag == 'fd':
            ip.s.obligation(ip.p, 'the input is read', z3.BoolVal(
                path.kw['stream'] == 'stdin'))
        ip.p.ghost['T'].append(Ev('annotate', inf, out))

    def kind_of_value(self, ip, v):
        if isinstance(v, (SStr, str)):
            return PATHS
        return RunEngine.kind_of_value(self, ip, v)

    def on_iter(self, ip, *a):
        return None


class AnnArgs2(ArgsHandler2):
    strs = ArgsHandler2.strs + ('config_file',)


class DictOfAny(M.AnyHandler):
    def getattr(self, ip, v, name):
        if name in ('pop', 'get'):
            return Builtin(name, lambda ip, a, k: Opaque('any', 'option'))
        if name == 'update':
            return Builtin(name, lambda ip, a, k: None)
        return M.AnyHandler.getattr(self, ip, v, name)


@spec('html', ANN + 'main', AnnMainEngine)
def annotate_main(h):
    """Every file is read and written as it is: no translation of line
    endings, in the configured encodings."""
    ip = h.ip
    g = h.p.ghost
    g['T'] = []
    args = g['args'] = Opaque('args', 'args')
    h.may_modify(args)
    h.on_raise = lambda ex: None
    h.call()
    h.ensure('done', True)
