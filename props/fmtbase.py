"""Falsifier for the properties about one run of the formatter."""
import random

from fals import cmk, env, extremes, fmtprops, gen
from . import base


class FmtCheck(base.Check):
    oracles = ()
    #: list of (weight, generator options, configuration overrides)
    mixes = [(1, {}, {})]
    nosort = True
    rule = ('a seeded random listfile (comments of every kind, multi-line '
            'and bracket arguments, control flow, keywords of all built-in '
            'and user-declared commands, pragmas, unusual characters) formatted with a seeded '
            'random configuration by the real process_file; non-trivial: '
            'accepted by the formatter and at least two commands, comments '
            'or arguments; distinct: by input text and configuration')

    def setup_cases(self):
        self.vocab = gen.vocabulary(env.mod)
        ws = [m[0] for m in self.mixes]
        self.pick = (list(range(len(ws))), ws)
        self.extremes = extremes.texts(self.vocab)

    def fixed_cases(self):
        """The extremes, with the default and with a random configuration."""
        return [-1 - i for i in range(2 * len(self.extremes))]

    def make(self, seed):
        r = random.Random('mix%d' % seed)
        _, opts, over = self.mixes[r.choices(*self.pick)[0]]
        if r.random() < .12:
            # characters out of the ordinary
            opts = dict({'exotic': .3}, **opts)
        g = gen.Gen(seed, vocab=self.vocab, **opts)
        cfgd = g.fmtconfig()
        if seed < 0:
            text, plain = self.extreme(seed)
            if plain:
                cfgd = {}
        else:
            text = g.file()
        if self.nosort:
            over = dict(over)
            over['format'] = dict({'autosort': False, 'enable_sort': False},
                                  **over.get('format', {}))
        for k, v in over.items():
            if callable(v):
                v = v(r)
            cfgd.setdefault(k, {}).update(
                {a: (b(r) if callable(b) else b) for a, b in v.items()})
        return text, cfgd

    def judge(self, text, cfgd):
        """(tag, description or None)"""
        try:
            cmk.scan(text)
        except cmk.ScanError:
            return 'not CMake', None
        cfg = env.config(cfgd)
        try:
            out, valid = env.try_fmt(text, cfg)
        except env.Rejected as ex:
            if ex.cause is None or isinstance(ex.cause, RecursionError) or \
                    not env.accepted(text, cfg):
                return 'rejected', None
            return 'violated', ('the listfile is parsed, but there is no '
                                'formatted text: %s' % ex)
        c = fmtprops.Case(text, cfgd, cfg, out, valid)
        for o in self.oracles:
            d = self.oracle(o, c)
            if d:
                return 'violated', d
        return 'ok', None

    def oracle(self, o, c):
        return getattr(fmtprops, o)(c)

    def extreme(self, seed):
        """The text of a fixed case, and whether nothing is configured."""
        i, j = divmod(-1 - seed, len(self.extremes))
        return self.extremes[j], i == 0

    def one(self, seed):
        text, cfgd = self.make(seed)
        return self.outcome(text, cfgd)

    def outcome(self, text, cfgd):
        tag, d = self.judge(text, cfgd)
        if d:
            text, d = self.shrink(text, cfgd, d)
        v = None
        small = {k: x for k, x in cfgd.items() if k != 'parse'}
        if d:
            v = base.Violation(
                '%s\ninput: %s\nconfiguration: %r' % (
                    d, fmtprops.short(text, 600), small),
                {'text': text, 'config': cfgd})
        return base.Outcome(
            tag, base.digest(text, small),
            tag in ('ok', 'violated') and len(text) > 12, v,
            {'text': text[:300], 'config': small} if tag == 'ok' else None)

    def shrink(self, text, cfgd, d, tries=60):
        """Greedy removal of lines and characters that keeps a violation."""
        lines = text.split('\n')
        n = len(lines)
        step = max(1, n // 2)
        while step and tries > 0:
            i = 0
            while i < len(lines) and tries > 0:
                cand = lines[:i] + lines[i + step:]
                tries -= 1
                d2 = self.judge('\n'.join(cand), cfgd)[1]
                if d2:
                    lines, d = cand, d2
                else:
                    i += step
            step //= 2
        return '\n'.join(lines), d

    def replay(self, data):
        d = self.judge(data['text'], data['config'])[1]
        return base.Violation(d, data) if d else None
