"""C13: command and keyword case follows the configuration."""
from fals import env, fmtprops, gen
from . import base, fmtbase


class Check(fmtbase.FmtCheck):
    prop = 'C13'
    technique = base.TECHNIQUE % (
        'ScalarNode.write recases only command names and keywords, by '
        'the resolved option')
    level_note = (
        'The spelling written for every node type, every case option '
        'and every per-command override is a postcondition. Which '
        "arguments are keywords is decided by the parser's use of the "
        'command specification (C18).')
    modules = ('formatting', 'writing', 'effects')
    groups = ('output', 'casing')
    quick_cases = 9000
    thorough_cases = 60000
    case = {'command_case': lambda r: r.choice(
        ('lower', 'upper', 'canonical', 'unchanged')),
        'keyword_case': lambda r: r.choice(('lower', 'upper', 'unchanged'))}
    mixes = [(4, {'comments': .02}, {'format': case}),
             (1, {'flow': .5}, {'format': case}),
             (1, {'onoff': .1, 'argonoff': .05}, {'format': case}),
             (1, {'multi': .1, 'rare': .1}, {'format': case})]

    def make(self, seed):
        import random
        text, cfgd = fmtbase.FmtCheck.make(self, seed)
        r = random.Random(seed)
        if r.random() < .3:
            pc = {}
            for n in ('my_user_cmd', 'set', 'myfun', 'add_library', 'if',
                      'foo_bar', 'message'):
                if r.random() < .4:
                    pc[n] = {'command_case': r.choice(
                        ('lower', 'upper', 'canonical', 'unchanged'))}
            cfgd.setdefault('misc', {})['per_command'] = pc
        return text, cfgd

    def oracle(self, o, c):
        return fmtprops.c13(c, keyword_kinds(c))

    oracles = ('c13',)

    def setup_cases(self):
        fmtbase.FmtCheck.setup_cases(self)
        # declared spellings: of the specification, else per command
        for k, v in env.config({}).misc.per_command_.items():
            if 'spelling' in v:
                fmtprops.BUILTIN_SPELLING[k] = v['spelling']
        db = env.mod('cmakelang.parse').funs.get_parse_db()
        for k, v in db.items():
            spec = getattr(v, 'cmdspec', None)
            if spec is not None and spec.spelling is not None:
                fmtprops.BUILTIN_SPELLING[k] = spec.spelling


def keyword_kinds(c):
    """Start of an argument -> the real parser calls it keyword or flag."""
    lex = env.mod('cmakelang.lex')
    parse = env.mod('cmakelang.parse')
    NT = env.mod('cmakelang.parse.common').NodeType
    toks = lex.tokenize(c.text)
    pos, at = (1 if c.text.startswith('\ufeff') else 0), {}
    for t in toks:
        if t.type is lex.TokenType.BYTEORDER_MARK:
            continue
        at[id(t)] = pos
        pos += len(t.spelling)
    keep = list(toks)
    db = parse.funs.get_parse_db()
    db.update(parse.funs.get_funtree(c.cfg.parse.fn_spec))
    tree = parse.parse(toks, parse.ParseContext(db, config=c.cfg))
    out = {}

    def walk(n):
        for x in n.children:
            if isinstance(x, lex.Token):
                if n.node_type in (NT.KEYWORD, NT.FLAG):
                    out[at.get(id(x))] = True
            else:
                walk(x)
    walk(tree)
    del keep
    return out
