"""C05: tokenising loses nothing and locates every token."""
import random

from fals import env, fmtprops, gen
from . import base

ALPHA = (list(' \t\n\r"\'\\()#[]=@${}:;-_aZ9/%\v\f') + [
    '\r\n', '\n\n', '\\\n', '\\"', '${A}', '@A@', '$(MAKE)', '[[', ']]',
    '[=[', ']=]', '#[[', '# cmake-format: off', '# cmf: on', 'set', 'é',
    'ß', '漢', '\U0001f600', '\x85', '\u2028', '\xa0', '\ufeff', '\x00'])


class Check(base.Check):
    prop = 'C05'
    technique = base.TECHNIQUE % (
        'the tokens cover the text and every place is the place its prefix '
        'ends at')
    level_note = (
        'lex.tokenize is under contract for every text and every sequence '
        'of lexemes: each action of the real scanner hands its lexeme on, '
        'each token starts where the one before it ends (line, column, '
        'utf-8 offset), the spellings are the text, and anything else is a '
        'UserError. What re.Scanner does with the patterns (cut the text '
        'into adjacent matches) is trusted.')
    modules = ('lexing',)
    groups = ('lexer',)
    quick_cases = 20000
    thorough_cases = 400000
    rule = ('a seeded random listfile, or a random string of delimiters, '
            'line endings, multi-byte characters and byte-order marks, '
            'tokenised by the real lexer; spellings and places compared '
            'with the text; non-trivial: tokenised, at least 3 tokens; '
            'distinct: by text')
    assumptions = base.COMMON_ASSUMPTIONS
    trusted = base.COMMON_TRUSTED + ('re.Scanner',)

    def setup_cases(self):
        self.vocab = gen.vocabulary(env.mod)

    def make(self, seed):
        r = random.Random('lex%d' % seed)
        if seed % 3:
            text = ''.join(r.choice(ALPHA)
                           for _ in range(r.randrange(0, 40)))
        else:
            g = gen.Gen(seed, vocab=self.vocab, multi=.2, bcomments=.1,
                        newline=r.choice(('\n', '\r\n', 'mixed')),
                        comments=.3)
            text = g.file()
            for _ in range(r.randrange(4)):
                i = r.randrange(len(text) + 1)
                text = text[:i] + r.choice(ALPHA) + text[i:]
        if seed % 6 == 0:
            text = '\ufeff' + text
        return text

    def judge(self, text):
        lex = env.mod('cmakelang.lex')
        common = env.mod('cmakelang.common')
        try:
            toks = env.limited(lambda: lex.tokenize(text))
        except env.TooSlow:
            return 'too slow', None, 0
        except common.UserError:
            return 'refused', None, 0
        except Exception as ex:
            return 'violated', 'fails without a diagnostic: %s: %s' % (
                type(ex).__name__, ex), 0
        got = ''.join(t.spelling for t in toks)
        if got != text:
            return 'violated', 'the tokens spell %s' % fmtprops.short(
                got), 0
        pos = 0
        body = text
        if text.startswith('\ufeff') and toks[0].type == \
                lex.TokenType.BYTEORDER_MARK:
            body, toks = text[1:], toks[1:]

        def at(i):
            pre = body[:i]
            return (1 + pre.count('\n'), len(pre) - (pre.rfind('\n') + 1),
                    len(pre.encode('utf-8')))
        for t in toks:
            for what, x, i in (('starts', t.begin, pos),
                               ('ends', t.end, pos + len(t.spelling))):
                if tuple(x) != at(i):
                    return 'violated', (
                        '%s (line, column, byte offset) %s at %r, its '
                        'location says %r' % (
                            fmtprops.short(t.spelling), what, at(i),
                            tuple(x))), 0
            pos += len(t.spelling)
        return 'ok', None, len(toks)

    def one(self, seed):
        text = self.make(seed)
        tag, d, n = self.judge(text)
        v = None
        if d:
            i = 0
            while i < len(text):            # shorten
                c = text[:i] + text[i + 1:]
                d2 = self.judge(c)[1]
                if d2:
                    text, d = c, d2
                else:
                    i += 1
            v = base.Violation('%s\ninput: %s' % (
                d, fmtprops.short(text, 600)), {'text': text})
        return base.Outcome(tag, base.digest(text), tag == 'violated' or
                            n >= 3, v, {'text': text[:200]}
                            if tag == 'ok' else None)

    def replay(self, data):
        d = self.judge(data['text'])[1]
        return base.Violation(d, data) if d else None
