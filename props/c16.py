"""C16: the annotation shows exactly the listfile."""
import html.parser
import json
import random

from fals import clirun, env, fmtprops, gen
from . import base

AM = 'cmakelang.annotate'
VOID = ('area', 'base', 'br', 'col', 'embed', 'hr', 'img', 'input', 'link',
        'meta', 'source', 'track', 'wbr')
SPICE = ('&amp;', '&lt;', '&', '<', '>', '<b>', '</span>', '"', "'", '&#65;',
         '<!--', '-->', '&copy', '<?', ']]>', '</style>', '\u00e9', '\u6f22',
         '{{content}}', '{% if %}', '$<TARGET:a>', '\U0001f600', '%s', '{0}')


class Reader(html.parser.HTMLParser):
    """What an HTML document shows, per element."""

    def __init__(self):
        html.parser.HTMLParser.__init__(self, convert_charrefs=True)
        self.stack, self.bad, self.shown = [], None, []

    def handle_starttag(self, tag, attrs):
        if tag in VOID:
            return
        self.stack.append((tag, dict(attrs)))

    def handle_startendtag(self, tag, attrs):
        pass

    def handle_endtag(self, tag):
        if not self.stack or self.stack[-1][0] != tag:
            self.bad = self.bad or '</%s> does not close %r at %s' % (
                tag, [t for t, _ in self.stack[-3:]], self.getpos())
            return
        self.stack.pop()

    def handle_data(self, data):
        self.shown.append((data, [t for t, _ in self.stack],
                           [a.get('class', '') for _, a in self.stack]))

    def odd(self, what):
        self.bad = self.bad or '%s at %s' % (what, self.getpos())

    def handle_comment(self, data):
        self.odd('a comment, %s,' % fmtprops.short(data))

    def handle_pi(self, data):
        self.odd('an instruction')

    def unknown_decl(self, data):
        self.odd('a declaration')


def read(doc):
    r = Reader()
    r.feed(doc)
    r.close()
    if r.bad is None and r.stack:
        r.bad = '<%s> is not closed' % r.stack[-1][0]
    return r


class Check(base.Check):
    prop = 'C16'
    technique = base.TECHNIQUE % (
        'what is written is a well-nested document that shows the text of '
        'the tokens of the file, each once, in order, and nothing else')
    level_note = (
        'dump_html, get_html and annotate_file are under contract for every '
        'tree and every text: the literal pieces and the values written are '
        'read by an HTML tokenizer; a value may stand in the text only if '
        'it was escaped, in a tag only if it is the name of a kind of node '
        'or token (all are looked at). The page is what the real template '
        'gives for placeholders; the template may only insert values. '
        'cmake-annotate main opens both files without translation, in the '
        'configured encodings. That the tokens spell the text is the '
        'contract of the lexer (also decided here), that the leaves of the '
        'tree are the tokens the contract of the parsers (C06).')
    modules = ('rendering', 'lexing')
    groups = ('html', 'lexer')
    quick_cases = 16000
    thorough_cases = 200000
    rule = ('a seeded random listfile, with text that means something in '
            'HTML or to the template engine in it, annotated by the real '
            'cmake-annotate as a stub, a page or a frame, into a file or '
            'standard output, in several encodings, in a scratch directory; '
            'what it shows is read by the html.parser of Python; '
            'non-trivial: accepted, more than 12 characters; distinct: by '
            'text and options')
    assumptions = base.COMMON_ASSUMPTIONS + (
        'the annotation on a page or in a frame may have blanks around it '
        '(they are part of the template)',
        'a byte-order mark is a mark of the encoding, not text')
    trusted = base.COMMON_TRUSTED + (
        're.Scanner', 'jinja2 (templates that insert values only)',
        'xml.sax.saxutils.escape')

    def setup_cases(self):
        self.vocab = gen.vocabulary(env.mod)
        self.jinja = env.load_jinja() is not None

    def make(self, seed):
        r = random.Random('c16-%d' % seed)
        g = gen.Gen(seed, vocab=self.vocab, multi=.2, bcomments=.1,
                    newline=r.choice(('\n', '\r\n', 'mixed')), comments=.3,
                    argonoff=.03, onoff=.05, tags=.05)
        text = g.file()
        for _ in range(r.choice((0, 1, 1, 2, 3))):
            i = r.randrange(len(text) + 1)
            s = r.choice(SPICE)
            if r.random() < .7:
                s = r.choice(('# %s\n', '"%s"', '[[%s]]', '#[[%s]]')) % s
            text = text[:i] + s + text[i:]
        if r.random() < .05:
            text = '\ufeff' + text
        enc = {}
        if r.random() < .3:
            enc['input_encoding'] = r.choice(('utf-8', 'utf-16', 'latin-1'))
        if r.random() < .3:
            enc['output_encoding'] = r.choice(('utf-8', 'utf-16', 'utf-8-sig'))
        cfg = g.fmtconfig()
        if enc:
            cfg['encode'] = enc
        else:
            cfg.pop('encode', None)
        return {'text': text, 'cfg': cfg,
                'format': r.choice(('stub', 'stub', 'page', 'iframe', None)),
                'out': r.choice((None, 'o.html')),
                'stdin': r.random() < .1, 'twice': r.random() < .1}

    def accepted(self, pl):
        lex = env.mod('cmakelang.lex')
        parse = env.mod('cmakelang.parse')
        cfg = env.config(pl['cfg'])

        def go():
            toks = lex.tokenize(pl['text'])
            db = parse.funs.get_parse_db()
            db.update(parse.funs.get_funtree(cfg.parse.fn_spec))
            parse.parse(toks, parse.ParseContext(db, config=cfg))
        try:
            env.limited(go)
            return True
        except Exception:
            return False

    def judge(self, pl):
        """(tag, description or None)"""
        enc = pl['cfg'].get('encode', {})
        try:
            data = pl['text'].encode(enc.get('input_encoding', 'utf-8'))
            want = data.decode(enc.get('input_encoding', 'utf-8'))
        except UnicodeError:
            return 'no such text', None
        fmt = pl['format']
        if fmt in ('page', 'iframe') and not self.jinja:
            return 'no template engine', None
        if not self.accepted(dict(pl, text=want)):
            return 'rejected', None
        times = 2 if pl['twice'] and not pl['out'] and not pl['stdin'] \
            and fmt in (None, 'stub') else 1
        out = None if pl['stdin'] else pl['out']
        with clirun.Scratch() as s:
            s.put('c.json', json.dumps(pl['cfg']).encode())
            s.put('w/f.cmake', data)
            argv = ['-c', s.d + '/c.json']
            if fmt:
                argv += ['-f', fmt]
            if out:
                argv += ['-o', out]
            argv += ['--'] + (['-'] if pl['stdin'] else ['f.cmake'] * times)
            res = clirun.run(AM, argv, s.d + '/w', None,
                             data if pl['stdin'] else b'')
            got = res.out
            if out:
                st = s.stat('w/' + out)
                got = st[0] if st else None
        if res.status or got is None:
            return 'violated', 'an accepted listfile is not annotated: ' \
                'exit status %d, %r' % (res.status, res.exc)
        try:
            doc = got.decode(enc.get('output_encoding', 'utf-8'))
        except UnicodeError as ex:
            if times > 1:
                return 'ok', None
            return 'violated', 'the output is not in the configured ' \
                'encoding: %s' % ex
        if times > 1 and enc.get('output_encoding', 'utf-8') != 'utf-8':
            return 'ok', None
        return self.shows(doc, want * times, fmt)

    @staticmethod
    def shows(doc, want, fmt):
        r = read(doc)
        if r.bad:
            return 'violated', 'not well nested: %s' % r.bad
        shown = [x for x in r.shown if not (
            x[1] and x[1][-1] in ('style', 'script'))]
        text = ''.join(x[0] for x in shown)
        if fmt in ('page', 'iframe'):
            # blanks of the template around it
            body = ''.join(x[0] for x in shown if 'content' in x[2])
            if body.strip() != text.strip():
                return 'violated', 'the page shows more than its content: ' \
                    '%s' % fmtprops.short(text)
            w = want[1:] if want.startswith('\ufeff') else want
            text = body
            if text.replace('\ufeff', '').strip() == w.replace(
                    '\ufeff', '').strip() and w in text:
                return 'ok', None
        else:
            if '\ufeff' in want or '\ufeff' in text:
                want = want.replace('\ufeff', '')
                text = text.replace('\ufeff', '')
            if text == want:
                return 'ok', None
        n = next((i for i, (a, b) in enumerate(zip(text, want)) if a != b),
                 min(len(text), len(want)))
        return 'violated', 'it shows %s, the listfile is %s (%s)' % (
            fmtprops.short(text[max(0, n - 20):n + 40]), fmtprops.short(
                want[max(0, n - 20):n + 40]), fmt or 'stub')

    def one(self, seed):
        pl = self.make(seed)
        try:
            tag, d = self.judge(pl)
        except env.TooSlow:
            return base.Outcome('too slow', nontrivial=False)
        v = None
        if d:
            pl, d = self.shrink(pl, d)
            v = base.Violation('%s\nrun: %s' % (d, json.dumps(pl)[:900]), pl)
        return base.Outcome(
            tag, base.digest(pl), tag in ('ok', 'violated') and
            len(pl['text']) > 12, v, {'text': pl['text'][:200],
                                      'format': pl['format']}
            if tag == 'ok' else None)

    def shrink(self, pl, d):
        def attempt(**kw):
            q = dict(pl, **kw)
            try:
                return q, self.judge(q)[1]
            except env.TooSlow:
                return q, None
        for kw in ({'cfg': {}}, {'format': 'stub'}, {'out': None},
                   {'stdin': False}, {'twice': False}):
            q, e = attempt(**kw)
            if e:
                pl, d = q, e
        step = max(1, len(pl['text']) // 2)
        tries = 200
        while step and tries:
            i = 0
            while i < len(pl['text']) and tries:
                t = pl['text']
                tries -= 1
                q, e = attempt(text=t[:i] + t[i + step:])
                if e:
                    pl, d = q, e
                else:
                    i += step
            step //= 2
        return pl, d

    def replay(self, data):
        d = self.judge(data)[1]
        return base.Violation(d, data) if d else None
