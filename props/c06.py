"""C06: the parse tree holds every token exactly once, in source order."""
from fals import env, fmtprops
from . import base, fmtbase


class Check(fmtbase.FmtCheck):
    prop = 'C06'
    quick_cases = 12000
    thorough_cases = 200000
    nosort = False
    technique = ('contracts on every parser function, verified function by '
                 'function by symbolic execution of the real source with '
                 'inferred and proved loop invariants (z3, cvc5); token '
                 'sequences as SMT sequences')
    level_note = (
        'Every function that builds the parse tree, every callable in the '
        'command database and TreeNode.get_tokens are under contract: '
        'leaves(result) ++ remaining tokens == tokens on entry, for every '
        'token stream, break stack and command specification, all loop '
        'iterations, no bound. Partial correctness (termination assumed); '
        'built-in operations of CPython are modelled in pyver/models.py and '
        'trusted. A function the verifier cannot handle after a change is '
        'reported undecided and covered only by the bounded falsifier.')
    mixes = [(4, {}, {}), (2, {'argonoff': .1, 'onoff': .1}, {}),
             (2, {'tags': .1, 'markup': .1}, {}),
             (1, {'newline': 'mixed'}, {}), (1, {'rare': .3}, {})]
    rule = ('a seeded random listfile tokenised and parsed by the real '
            'lexer and parser; the leaves of the tree are compared with the '
            'token stream; non-trivial: accepted by the parser, more than 12 '
            'characters; distinct: by input text')
    assumptions = (
        'termination is not proved (partial correctness): a parser that '
        'loops for ever is not reported by the obligations',
        'str/list/dict/int operations of CPython behave as in the models of '
        'pyver.models',
    )
    trusted = ('pyver: symbolic executor of Python bytecode-free ASTs with '
               'contracts (this repository)', 'z3', 'cvc5', 'CPython 3.12')

    def deduce(self):
        from pyver import parsing as P, report
        e = P.ParseEngine()
        return report.verify_work(e, P.verify, self.budget[self.tier])

    def judge(self, text, cfgd):
        lex = env.mod('cmakelang.lex')
        parse = env.mod('cmakelang.parse')
        cfg = env.config(cfgd)

        def go():
            toks = lex.tokenize(text)
            db = parse.funs.get_parse_db()
            db.update(parse.funs.get_funtree(cfg.parse.fn_spec))
            ctx = parse.ParseContext(db, config=cfg)
            return list(toks), parse.parse(toks, ctx)
        try:
            toks, tree = env.limited(go)
        except env.TooSlow:
            return 'too slow', None
        except Exception as ex:
            return 'rejected', None
        want = [t for t in toks]
        got = []

        def walk(n):
            if isinstance(n, env.mod('cmakelang.lex').Token):
                got.append(n)
            else:
                for c in n.children:
                    walk(c)
        walk(tree)
        if want and want[0].type == lex.TokenType.BYTEORDER_MARK and \
                (not got or got[0] is not want[0]):
            want = want[1:]
        for i in range(max(len(want), len(got))):
            x = want[i] if i < len(want) else None
            y = got[i] if i < len(got) else None
            if x is not y:
                return 'violated', (
                    'leaf %d of the tree is %s, token %d of the stream is %s'
                    % (i, y and fmtprops.short(y.spelling) + ' at %s' % (
                        y.get_location(),), i,
                       x and fmtprops.short(x.spelling) + ' at %s' % (
                           x.get_location(),)))
        return 'ok', None
