"""Oracles for the lint properties, on the real linter."""
import copy
import random
import re

from . import cmk, env, gen

LOOPW = ('foreach', 'while')
OPEN = {'if': 'endif', 'foreach': 'endforeach', 'while': 'endwhile',
        'function': 'endfunction', 'macro': 'endmacro'}
MID = ('elseif', 'else')
CODES = ['C0301', 'C0303', 'C0304', 'C0305', 'C0306', 'C0307', 'C0321',
         'C0327', 'C0103', 'C0111', 'C0202', 'E0103', 'E0108', 'E0109',
         'E1120', 'E1122', 'W0101', 'W0104', 'W0105', 'W0106', 'R0913']


def generate(seed, vocab, pragmas=0.0, dirt=0.25, **opts):
    """(text, configuration): a listfile with lint in it."""
    r = random.Random('lint%d' % seed)
    o = dict(flow=.45, depth=3, comments=.08, atword=0.0, multi=.04)
    o.update(opts)
    g = LintGen(seed, vocab=vocab, **o)
    g.pragmas = pragmas
    text = g.file(r.choice((1, 2, 3, 4)))
    lines = text.split('\n')
    out = []
    for i, ln in enumerate(lines):
        if r.random() < dirt:
            k = r.randrange(7)
            if k == 0:
                ln += r.choice((' ', '  ', '\t', ' \t', '\f', '\u00a0',
                                '\u3000', '\v'))
            elif k == 1:
                ln = r.choice(('\t', ' ', '  \t', '\t ', '\t  ', ' \t ')) + ln
            elif k == 2:
                ln = ln.replace('  ', '\t', 1)
            elif k == 3:
                ln += '\r'
            elif k == 4 and ln.startswith('#'):
                ln += ' x' * r.randrange(20)
            elif k == 5:
                ln = ln.lstrip(' ')
            elif k == 6:
                ln += ' \r'
        out.append(ln)
    text = '\n'.join(out)
    x = r.random()
    if x < .08:
        text = text.rstrip('\n')
    elif x < .11:
        text += r.choice(('\n\n', '  ', ' \t\n', '\r\n', '\r', '# x\r'))
    elif x < .13:
        text = ''
    f = {}
    if r.random() < .7:
        f['line_width'] = r.choice((10, 20, 30, 40, 80))
    if r.random() < .5:
        f['use_tabchars'] = r.random() < .7
        f['fractional_tab_policy'] = r.choice(('use-space', 'round-up'))
    f['line_ending'] = r.choice(('unix', 'unix', 'windows', 'auto'))
    if r.random() < .3:
        f['tab_size'] = r.choice((1, 2, 4, 8))
    cfg = {'format': f, 'lint': {},
           'parse': {'additional_commands': gen.USERSPEC}}
    if r.random() < .3:
        cfg['lint']['disabled_codes'] = r.sample(CODES, r.choice((1, 2, 5)))
    if r.random() < .3:
        cfg['lint']['min_statement_spacing'] = r.choice((1, 2))
        cfg['lint']['max_statement_spacing'] = r.choice((1, 2, 3))
    if r.random() < .2:
        cfg['lint']['max_arguments'] = r.choice((0, 1, 2))
    return text, cfg


class LintGen(gen.Gen):
    pragmas = 0.0

    def comment(self):
        r = self.r
        if r.random() < self.pragmas:
            ids = [r.choice(CODES) for _ in range(r.choice((1, 1, 2, 3)))]
            if r.random() < .08:
                ids.append(r.choice(('X9999', '', 'c0301')))
            return r.choice((
                '# cmake-lint: disable=', '# cmake-lint: disable=',
                '# cmake-lint: disable=', '# cmake-lint: disable=',
                '#cmake-lint: disable=', '# cmake-lint: enable=')
            ) + ','.join(ids) + r.choice(('', '', '', ' disable=C0301',
                                          '  ', ' foo'))
        return gen.Gen.comment(self)

    def element(self, depth=0):
        r = self.r
        x = r.random()
        if x < .12:
            return ' ' * 2 * depth + r.choice(
                ('break()', 'continue()', 'return()', 'BREAK()',
                 'Continue()', 'break ()')) + self.tail()
        if x < .2 and depth < self.o['depth']:
            k = r.choice(('function', 'macro', 'FUNCTION', 'Macro'))
            n = r.choice((0, 1, 2, 3, 4))
            ps = [r.choice(('a', 'A', 'b', 'arg', 'ARG', 'Arg', '"q"', '_x',
                            'a', '${V}', 'x.y', '1', '[[b]]', '$x', 'a-b',
                            'ünï')) for _ in range(n)]
            sep = ' '
            s = k + '(' + r.choice(('fn', 'my_fn', 'a', 'FN'))
            for p in ps:
                s += r.choice((' ', ' ', '\n  ', ' # c\n  ')) + p
            return s + ')' + self.tail() + self.block(depth + 1) + \
                'end' + k.lower() + '()' + self.tail()
        if self.r.random() < self.pragmas * .3:
            return ' ' * r.choice((0, 2 * depth)) + self.comment() + '\n'
        return gen.Gen.element(self, depth)


class Lint(object):
    """One run of the real linter on a text."""

    def __init__(self, text, cfgd, neutral=False):
        lm = env.mod('cmakelang.lint.__main__')
        lu = env.mod('cmakelang.lint.lint_util')
        cfgd = copy.deepcopy(cfgd)
        if neutral:
            cfgd.setdefault('lint', {})['disabled_codes'] = []
        self.cfg = env.config(cfgd)
        self.gctx = lu.GlobalContext(None)
        if neutral:
            class Ctx(lu.FileContext):
                def suppress(self, lineno, idlist):
                    return []

                def unsuppress(self, lineno, idlist):
                    pass
            self.gctx.file_ctxs['f'] = Ctx(self.gctx, 'f')
        self.ctx = self.gctx.get_file_ctx('f', self.cfg)
        env.limited(lm.process_file, self.cfg, self.ctx, text)
        self.records = [(tuple(x.location or ()), x.spec.idstr, x.msg)
                        for x in self.ctx.get_lint()]


def lint(text, cfgd, neutral=False):
    try:
        return Lint(text, cfgd, neutral)
    except env.TooSlow:
        raise env.Rejected('slow')
    except Exception as ex:
        err = env.Rejected('%s: %s' % (type(ex).__name__, str(ex)[:200]))
        err.cause = ex
        raise err


# ------------------------------------------------------------ C12
def c12(text, cfgd, run):
    f = env.config(cfgd).format
    le = f.line_ending
    if le == 'auto':
        w = text.count('\r\n')
        le = 'windows' if w > text.count('\n') - w else 'unix'
    want = []
    lines = text.split('\n')
    for i, ln in enumerate(lines):
        last = i == len(lines) - 1
        if not last:
            crlf = ln.endswith('\r')
            if crlf:
                ln = ln[:-1]
            if crlf != (le == 'windows'):
                want.append((i + 1, 'C0327'))
        if len(ln) > f.line_width:
            want.append((i + 1, 'C0301'))
        if ln != ln.rstrip():
            want.append((i + 1, 'C0303'))
        ind = ''
        for c in ln:
            if c not in ' \t':
                break
            ind += c
        if not f.use_tabchars:
            bad = '\t' in ind
        elif f.fractional_tab_policy == 'round-up':
            bad = ' ' in ind
        else:
            bad = ' \t' in ind
        if bad:
            want.append((i + 1, 'C0306'))
        if last and ln != '':
            want.append((i + 1, 'C0304'))
    if text == '':
        want.append((1, 'C0304'))
    got = sorted((loc[0] if loc else 0, c) for loc, c, _ in run.records
                 if c in ('C0327', 'C0301', 'C0303', 'C0306', 'C0304'))
    dis = set(run.cfg.lint.disabled_codes)
    want = sorted(x for x in want if x[1] not in dis)
    return compare('line checks', want, got)


def compare(what, want, got):
    for x in sorted(set(want) | set(got)):
        if want.count(x) != got.count(x):
            return '%s: %s on line %s is reported %d times, not %d' % (
                what, x[1], x[0], got.count(x), want.count(x))
    return None


# ------------------------------------------------------------ C20
def statements(text):
    """[(name, items between the parentheses, start)]"""
    items = cmk.scan(text)
    out = []
    i = 0
    while i < len(items):
        it = items[i]
        if it.kind == 'name':
            j = i + 2
            d = 1
            args = []
            while True:
                x = items[j]
                if x.kind == '(':
                    d += 1
                elif x.kind == ')':
                    d -= 1
                    if d == 0:
                        break
                args.append(x)
                j += 1
            out.append((it.text, args, it.start))
            i = j
        i += 1
    return out


def line_of(text, pos):
    return text.count('\n', 0, pos) + 1


_WORD = re.compile(r'[A-Za-z_][A-Za-z0-9_]*\Z')


def c20(text, cfgd, run):
    stack = []
    want = []
    for name, args, pos in statements(text):
        low = name.lower()
        if low in ('break', 'continue'):
            if not any(k in LOOPW for k in stack):
                want.append((line_of(text, pos), 'E0103'))
        if low in ('function', 'macro'):
            sem = [a for a in args if not cmk.is_comment(a)][1:]
            seen, fold = set(), set()
            for a in sem:
                if a.kind == ')' or a.kind == '(':
                    return None
                if a.glued:
                    return None
                ln = line_of(text, a.start)
                if not (a.kind == 'unquoted' and _WORD.match(a.text)):
                    want.append((ln, 'E0109'))
                    continue
                if a.text in seen:
                    want.append((ln, 'E0108'))
                elif a.text.lower() in fold:
                    want.append((ln, 'C0202'))
                seen.add(a.text)
                fold.add(a.text.lower())
        if low in OPEN:
            stack.append(low)
        elif stack and low == OPEN[stack[-1]]:
            stack.pop()
    want += keywords(text, run)
    dis = set(run.cfg.lint.disabled_codes)
    got = sorted((loc[0] if loc else 0, c) for loc, c, _ in run.records
                 if c in ('E0103', 'E0108', 'C0202', 'E0109', 'E1122'))
    return compare('structure', [w for w in want if w[1] not in dis], got)


def keywords(text, run):
    """Repeated keyword arguments of every argument group of the tree."""
    lex = env.mod('cmakelang.lex')
    parse = env.mod('cmakelang.parse')
    pc = env.mod('cmakelang.parse.common')
    db = parse.funs.get_parse_db()
    db.update(parse.funs.get_funtree(run.cfg.parse.fn_spec))
    toks = lex.tokenize(text)
    tree = parse.parse(toks, parse.ParseContext(db, config=run.cfg))
    AG = env.mod('cmakelang.parse.argument_nodes').ArgGroupNode
    out = []

    def first(n):
        for c in n.children:
            if isinstance(c, lex.Token):
                if c.type not in (lex.TokenType.WHITESPACE,
                                  lex.TokenType.NEWLINE,
                                  lex.TokenType.COMMENT,
                                  lex.TokenType.BRACKET_COMMENT):
                    return c
            else:
                t = first(c)
                if t is not None:
                    return t

    def walk(n):
        if isinstance(n, lex.Token):
            return
        if isinstance(n, AG):
            seen = []
            for c in n.children:
                if not isinstance(c, lex.Token) and \
                        c.node_type is pc.NodeType.KWARGGROUP:
                    t = first(c)
                    k = t.spelling.upper()
                    if k in ('AND', 'OR', 'COMMAND', 'PATTERN', 'REGEX'):
                        continue
                    if k in seen:
                        out.append((t.get_location().line, 'E1122'))
                    seen.append(k)
        for c in n.children:
            walk(c)
    walk(tree)
    return out


# ------------------------------------------------------------ C11
_PRAGMA = '# cmake-lint: '


def statement_comments(text, cfg):
    """Offsets of the comments the parser made part of a statement."""
    lex = env.mod('cmakelang.lex')
    parse = env.mod('cmakelang.parse')
    SN = env.mod('cmakelang.parse.statement_node').StatementNode
    db = parse.funs.get_parse_db()
    db.update(parse.funs.get_funtree(cfg.parse.fn_spec))
    toks = lex.tokenize(text)
    keep = list(toks)
    at, pos = {}, 0
    for t in toks:
        at[id(t)] = pos
        pos += len(t.spelling)
    tree = parse.parse(toks, parse.ParseContext(db, config=cfg))
    out = set()

    def walk(n, inside):
        if isinstance(n, lex.Token):
            if inside:
                out.add(at[id(n)])
            return
        inside = inside or isinstance(n, SN)
        for c in n.children:
            walk(c, inside)
    walk(tree, False)
    del keep
    return out


def scopes(text, known, cfg):
    """[(first line, last line, codes)] of every pragma; the blocks are read
    from the text, which comments are part of a statement from the tree."""
    inside = statement_comments(text, cfg)
    items = cmk.scan(text)
    nlines = text.count('\n') + 2
    out = []
    stack = [[]]       # per open block: scopes to close
    depth = 0
    i = 0
    lines = text.split('\n')
    for it in items:
        if it.kind == 'lcomment' and it.text.startswith(_PRAGMA):
            codes = []
            for w in it.text[len(_PRAGMA):].split():
                if w.startswith('disable='):
                    codes += [c for c in w[8:].split(',') if c in known]
            ln = line_of(text, it.start)
            if it.start in inside:
                out.append([ln, ln, codes])
            else:
                sc = [ln, nlines, codes]
                out.append(sc)
                stack[-1].append(sc)
        elif it.kind == 'name':
            low = it.text.lower()
            if low in MID or low in OPEN.values():
                if len(stack) > 1:
                    ln = line_of(text, it.start)
                    col = it.start - (text.rfind('\n', 0, it.start) + 1)
                    before = lines[ln - 1][:col]
                    end = ln if before.strip(' \t') else ln - 1
                    for sc in stack.pop():
                        sc[1] = end
                if low in MID:
                    stack.append([])
            elif low in OPEN:
                stack.append([])
    return out


def c11(text, cfgd, run):
    """Reported exactly: the lint of the run without any suppression, minus
    what the configuration or a pragma hides."""
    raw = lint(text, cfgd, neutral=True)
    dis = set(run.cfg.lint.disabled_codes)
    sc = scopes(text, set(run.gctx.lintdb), run.cfg)
    want = []
    for rec in raw.records:
        loc, code, msg = rec
        if code in dis:
            continue
        if loc and any(a <= loc[0] <= b and code in cs for a, b, cs in sc):
            continue
        if not loc:
            continue
        want.append(rec)
    got = [r for r in run.records if r[0]]
    for x in want:
        if got.count(x) < want.count(x):
            return 'not reported: %s at %s (%s)' % (x[1], x[0], x[2])
    for x in got:
        if got.count(x) > want.count(x):
            return 'reported although suppressed: %s at %s (%s)' % (
                x[1], x[0], x[2])
    return None
