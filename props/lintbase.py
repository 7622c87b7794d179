"""Falsifier for the properties about one run of the linter."""
from fals import cmk, env, extremes, gen, lintprops
from . import base, fmtbase


class LintCheck(fmtbase.FmtCheck):
    oracle_fn = None
    gen_opts = [{}]
    quick_cases = 9000
    thorough_cases = 100000
    rule = ('a seeded random listfile with lint in it (every line defect, '
            'repeated parameters and keywords, break and continue in and '
            'out of loops, pragmas at every level) linted with a seeded '
            'random configuration by the real linter; non-trivial: accepted '
            'by the parser, more than 12 characters; distinct: by input '
            'text and configuration')

    def setup_cases(self):
        self.vocab = gen.vocabulary(env.mod)
        self.extremes = extremes.texts(self.vocab)

    def make(self, seed):
        o = self.gen_opts[seed % len(self.gen_opts)]
        text, cfgd = lintprops.generate(seed, self.vocab, **o)
        if seed < 0:
            text, plain = self.extreme(seed)
            if plain:
                cfgd = {}
        return text, cfgd

    def judge(self, text, cfgd):
        try:
            cmk.scan(text)
        except cmk.ScanError:
            return 'not CMake', None
        try:
            run = lintprops.lint(text, cfgd)
            d = getattr(lintprops, self.oracle_fn)(text, cfgd, run)
        except env.Rejected as ex:
            if ex.cause is None or isinstance(ex.cause, RecursionError) or \
                    not env.accepted(text, env.config(cfgd)):
                return 'rejected', None
            return 'violated', ('the listfile is parsed, but it is not '
                                'linted: %s' % ex)
        except env.TooSlow:
            return 'slow', None
        return ('violated', d) if d else ('ok', None)
