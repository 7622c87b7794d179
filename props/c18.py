"""C18: argument groups respect the command specification."""
import random

from fals import env, fmtprops, gen
from . import base, fmtbase

ARITIES = [0, 1, 2, 3, 5, '0', '1', '2', '4', '*', '+', '?', '1+', '2+']
KEYS = ['ALPHA', 'BETA', 'GAMMA', 'DELTA', 'OUTPUT', 'COMPONENT']
FLAGS = ['F1', 'F2', 'QUIET', 'REQUIRED']
WORDS = ['a', 'b', 'foo', 'bar/baz.cc', '"quoted arg"', '${VAR}', '-DX=1',
         'x;y', '"alpha"', '"GAMMA"', '[[bracket]]', '"F1"', 'alphabet',
         'F1x', '$<1:a>']


# ------------------------------------------------------ the specification
def bound(n):
    """The most arguments a group of this arity takes; None: no bound."""
    if isinstance(n, str):
        if n == '?':
            return 1
        return int(n) if n.isdigit() else None
    return n


def exact(n):
    return isinstance(n, int) or n.isdigit()


class Spec(object):
    """A specification, read from the user's declaration."""

    def __init__(self, decl):
        if not isinstance(decl, dict):
            decl = {'pargs': decl}
        self.kwargs = {k: Spec(v) for k, v in (
            decl.get('kwargs') or {}).items()}
        pargs = decl.get('pargs')
        if pargs is None:
            pargs = '*'
        if isinstance(pargs, (int, str)):
            if exact(pargs):
                self.pargs, self.rest = [pargs], '*'
            else:
                self.pargs, self.rest = [], pargs
            return
        if isinstance(pargs, dict):
            pargs = [pargs]
        self.pargs = [self.one(p) for p in pargs]
        self.rest = '*'

    @staticmethod
    def one(p):
        if isinstance(p, dict):
            return p.get('nargs', '*')
        if isinstance(p, (list, tuple)):
            return p[0]
        return p

    def nargs(self, k):
        return self.pargs[k] if k < len(self.pargs) else self.rest


def make_spec(r, depth=0):
    def nargs():
        return r.choice(ARITIES if r.random() < .1 else [
            a for a in ARITIES if a not in (0, '0')])
    x = r.random()
    if depth and x < .4:
        return nargs()
    d = {}
    x = r.random()
    if x < .25:
        d['pargs'] = nargs()
        if r.random() < .5:
            d['flags'] = r.sample(FLAGS, r.choice((0, 1, 2)))
    elif x < .4:
        d['pargs'] = {'nargs': nargs()}
        if r.random() < .5:
            d['pargs']['flags'] = r.sample(FLAGS, 1)
        if r.random() < .1:
            del d['pargs']['nargs']
    elif x < .9:
        d['pargs'] = []
        for _ in range(r.choice((1, 2, 2, 3))):
            x = r.random()
            n = nargs()
            if x < .4:
                d['pargs'].append(n)
            elif x < .8:
                d['pargs'].append({'nargs': n})
                if r.random() < .4:
                    d['pargs'][-1]['flags'] = r.sample(FLAGS, 1)
            else:
                d['pargs'].append([n, {'flags': r.sample(FLAGS, 1)}])
    if depth < 2 and r.random() < .8:
        ks = r.sample(KEYS, r.choice((1, 2, 3)))
        d['kwargs'] = {k: make_spec(r, depth + 1) for k in ks}
    return d


# ---------------------------------------------------------------- the tree
class Walk(object):
    def __init__(self, tree, toks, specs):
        self.N = env.mod('cmakelang.parse.common').NodeType
        self.T = env.mod('cmakelang.lex').TokenType
        self.Token = env.mod('cmakelang.lex').Token
        self.argn = env.mod('cmakelang.parse.argument_nodes')
        self.addn = env.mod('cmakelang.parse.additional_nodes')
        self.stmt = env.mod('cmakelang.parse.statement_node')
        self.specs = specs
        self.groups = 0
        self.at = {id(t): i for i, t in enumerate(toks)}
        self.toks = toks
        self.bad = None
        self.visit(tree)

    def fail(self, what, node):
        if self.bad is None:
            ls = self.leaves(node)
            self.bad = '%s: %s' % (what, fmtprops.short(
                ''.join(t.spelling for t in ls), 200))

    def leaves(self, n):
        if isinstance(n, self.Token):
            return [n]
        return [t for c in n.children for t in self.leaves(c)]

    def visit(self, n):
        if isinstance(n, self.Token):
            return
        if isinstance(n, self.stmt.StatementNode):
            self.statement(n)
        if isinstance(n, self.argn.KeywordGroupNode):
            self.keyword_group(n)
        if isinstance(n, self.argn.PositionalGroupNode):
            self.positional(n, n.spec.nargs if n.spec else '*')
        for c in n.children:
            self.visit(c)

    # the closing parenthesis
    def statement(self, n):
        ls = self.leaves(n)
        depth, close = 0, None
        first = True
        for i in range(self.at[id(ls[0])], len(self.toks)):
            t = self.toks[i].type
            if t == self.T.LEFT_PAREN:
                depth += 1
                first = False
            elif t == self.T.RIGHT_PAREN and not first:
                depth -= 1
                if depth == 0:
                    close = self.toks[i]
                    break
        if close is None:
            return
        if not any(self.leaves(c) == [close] for c in n.children):
            self.fail('the closing parenthesis is not that of the statement',
                      n)
        if any(t is close for t in self.leaves(n.argtree)):
            self.fail('the argument list extends past its parenthesis', n)
        after = False
        for t in ls:
            if after and t.type not in (
                    self.T.WHITESPACE, self.T.NEWLINE, self.T.COMMENT,
                    self.T.BRACKET_COMMENT, self.T.FORMAT_OFF,
                    self.T.FORMAT_ON):
                self.fail('the statement goes on after its parenthesis', n)
            after = after or t is close
        name = ls[0].spelling.lower()
        if name in self.specs:
            self.arguments(n.argtree, self.specs[name])

    # groups against the declaration
    def arguments(self, tree, spec):
        if isinstance(tree, self.addn.ShellCommandNode) or not isinstance(
                tree, self.argn.StandardArgTree):
            return
        k = 0
        for c in tree.children:
            if isinstance(c, self.argn.PositionalGroupNode):
                self.positional(c, spec.nargs(k))
                k += 1
            elif isinstance(c, self.argn.KeywordGroupNode):
                ls = [t for t in self.leaves(c)]
                kw = ls[0].spelling.upper()
                if ls[0].type != self.T.WORD or kw not in spec.kwargs:
                    self.fail('a keyword group does not start with one of '
                              'the keywords %r' % sorted(spec.kwargs), c)
                    continue
                for g in c.children:
                    if not isinstance(g, self.Token):
                        self.arguments(g, spec.kwargs[kw])

    def keyword_group(self, n):
        ls = self.leaves(n)
        kw = n.keyword
        if not ls or not isinstance(kw, self.argn.KeywordNode) or \
                self.leaves(kw) != [ls[0]]:
            self.fail('a keyword group does not start with its keyword', n)
        self.groups += 1
        self.parens(n)

    def positional(self, n, nargs):
        self.groups += 1
        b = bound(nargs)
        got = sum(1 for c in n.children if not isinstance(c, self.Token)
                  and c.node_type in (self.N.ARGUMENT, self.N.FLAG))
        if b is not None and got > b:
            self.fail('a positional group of nargs=%r holds %d arguments'
                      % (nargs, got), n)
        self.parens(n)

    def parens(self, n):
        d = 0
        for t in self.leaves(n):
            d += (t.type == self.T.LEFT_PAREN) - (
                t.type == self.T.RIGHT_PAREN)
            if d < 0:
                self.fail('a group holds the parenthesis that closes the '
                          'list it is in', n)
                return


class Check(fmtbase.FmtCheck):
    prop = 'C18'
    groups = ('pspec',)
    modules = ('pspecs',)
    quick_cases = 6000
    thorough_cases = 120000
    budget = {'quick': 400, 'thorough': 600}
    technique = base.TECHNIQUE % (
        'what a list of children holds - closing parentheses, arguments, '
        'groups that fit, keywords - is measured per list')
    level_note = (
        'Every function that builds the parse tree and every callable in the '
        'command database is under contract: for every token stream, break '
        'stack and specification (any list of specifications, any arity, any '
        'map of keywords) each positional group below the result holds at '
        'most as many arguments as the specification it was parsed for '
        'allows, each keyword group starts with the token that was matched '
        'as its keyword and is parsed by the parser of that keyword, and no '
        'list of arguments holds a closing parenthesis that is not its own. '
        'Bounded: how a declaration is read (PositionalSpec, parse_pspec, '
        'all forms up to two declarations). Falsified only: that the k-th '
        'group gets the k-th specification.')
    rule = ('a seeded random statement of a command with a random '
            'specification (all forms of declarations, up to three levels of '
            'keywords) or of a built-in command, parsed by the real parser; '
            'the groups of the tree are compared with the declaration as '
            'written and the parentheses with the token stream; non-trivial: '
            'at least three groups; distinct: by text and specification')
    assumptions = base.COMMON_ASSUMPTIONS

    def deduce(self):
        from pyver import parsing as P, report, shapes as S
        rs = base.Check.deduce(self)
        e = S.ShapeEngine()
        return rs + report.verify_work(e, S.verify, self.budget[self.tier])

    def args(self, r, spec, depth=0):
        out = []
        keys = sorted(spec.get('kwargs') or {}) if isinstance(
            spec, dict) else []

        def some(n):
            for _ in range(n):
                x = r.random()
                if x < .12:
                    out.append(r.choice(FLAGS))
                elif x < .2:
                    k = r.choice(KEYS)
                    out.append(r.choice((k, k.lower(), '"%s"' % k)))
                elif x < .25:
                    out.append('(%s)' % ' '.join(r.choice(
                        WORDS + KEYS) for _ in range(r.choice((0, 1, 2, 3)))))
                elif x < .3:
                    out.append(r.choice(('# note\n', '#[[ b ]]', '\n',
                                         '# one\n# two\n', '#! x\n')))
                else:
                    out.append(r.choice(WORDS))
        some(r.choice((0, 0, 1, 1, 2, 3, 6)))
        if keys and depth < 3:
            for _ in range(r.choice((0, 1, 1, 2, 3))):
                k = r.choice(keys)
                out.append(r.choice((k, k, k.lower(), k.title())))
                out.extend(self.args(r, spec['kwargs'][k], depth + 1))
        return out

    def make(self, seed):
        r = random.Random('c18-%d' % seed)
        if r.random() < .2:
            g = gen.Gen(seed, vocab=self.vocab, flow=.1)
            return g.file(), {}
        spec = make_spec(r)
        text = ''
        for _ in range(r.choice((1, 2, 3))):
            ws = self.args(r, spec)
            text += '%s(%s%s)%s\n' % (
                r.choice(('my_cmd', 'MY_CMD')), r.choice(('', '', ' ', '\n')),
                ' '.join(ws), r.choice(('', ' # after', ' #[[x]]')))
            if text.count('#') and r.random() < .3:
                text = text.replace(' )', '\n)')
        return text, {'parse': {'additional_commands': {'my_cmd': spec}}}

    def judge(self, text, cfgd):
        lex = env.mod('cmakelang.lex')
        parse = env.mod('cmakelang.parse')

        def go():
            cfg = env.config(cfgd)
            toks = lex.tokenize(text)
            db = parse.funs.get_parse_db()
            db.update(parse.funs.get_funtree(cfg.parse.fn_spec))
            ctx = parse.ParseContext(db, config=cfg)
            return list(toks), parse.parse(toks, ctx)
        try:
            toks, tree = env.limited(go)
        except env.TooSlow:
            return 'too slow', None
        except Exception as ex:
            return 'rejected %s' % type(ex).__name__, None
        w = Walk(tree, toks, {k: Spec(v) for k, v in cfgd.get(
            'parse', {}).get('additional_commands', {}).items()})
        if w.bad:
            return 'violated', w.bad
        return 'ok' if w.groups > 2 else 'few groups', None

    def outcome(self, text, cfgd):
        o = fmtbase.FmtCheck.outcome(self, text, cfgd)
        o.key = base.digest(text, cfgd)
        o.nontrivial = o.tag in ('ok', 'violated')
        if o.violation is not None:
            o.violation.what += '\nspecification: %r' % (
                cfgd.get('parse', {}),)
        return o
