"""C10: what is dumped or cloned can be read back without loss."""
import argparse
import io
import os
import random

from fals import clirun, confgen, env
from . import base

CMDS = [
    {}, {'foo': {}},
    {'foo': {'flags': ['BAR', 'BAZ'], 'kwargs': {'HEADERS': '*', 'X': 1}}},
    {'my_cmd': {'pargs': {'nargs': '1+', 'flags': ['A']},
                'kwargs': {'B': {'pargs': 2, 'kwargs': {'C': '?'}}}}},
    {'a_b': {'pargs': '*', 'spelling': 'A_b'}, 'c': {'pargs': [
        {'nargs': 1, 'tags': ['cmdline']}, {'nargs': '*'}]}},
]
SPECIAL = {
    'additional_commands': CMDS,
    'override_spec': [{}, {'foo.spelling': 'fOO'}],
    'vartags': [[], [('.*_CMD', ['cmdline'])],
                [('a', ['x', 'y']), ('[b]', [])]],
    'proptags': [[], [('LINK.*', ['cmdline'])]],
    'layout_passes': [{}, {'PargGroupNode': [(0, True), (1, False)]}],
    'input_encoding': ['utf-8', 'latin-1'],
    'per_command': confgen.TABLES['per_command'] + [
        {}, {'set': {}}, {'SET': {'line_width': 7}, 'x': 5},
        {'install': {'command_case': 'upper', 'é': ['a', None]}}],
}
TEXTS = ('', ' ', '\n', 'two\nlines', 'tab\t', '#', '# x', 'a: b', '- a',
         'null', 'None', 'true', '1', '1.5', "'", '"', '\\', '\\n', 'é', '☃',
         '\U0001F600', '{', '[a]', '%d', '{}', '!x', '&a', '*a', '|', '>',
         'x' * 90, 'many short words ' * 8, '\u2028', '\x85', '_', '~',
         'with section("format"):', '"""', "'''", '\\u0041', '=', '<<',
         '2020-01-01', '0x1F', '1e3', 'y', 'on', '\x7f', ' lead', 'trail ',
         'a\r\nb', '\r', '@', '`', '%')


def value(r, sec, name, default, choices):
    if name in SPECIAL:
        return r.choice(SPECIAL[name])
    if choices:
        return r.choice(list(choices))
    if isinstance(default, bool):
        return r.random() < .5
    if isinstance(default, int):
        return r.choice((0, 1, -1, r.randrange(300), 10 ** 12))
    if name == 'output_encoding':
        return r.choice(['utf-8', 'latin-1', 'utf-16'])
    if isinstance(default, (list, tuple)):
        return [r.choice(TEXTS + ('foo', 'C0301'))
                for _ in range(r.choice((0, 1, 2, 5, 30)))]
    if default is None and r.random() < .2:
        return None
    return r.choice(TEXTS)


class Check(base.Check):
    prop = 'C10'
    technique = base.TECHNIQUE % (
        'option values as an abstract map theory: what is dumped holds an '
        'arbitrary option of an arbitrary section with its value, consuming '
        'it again gives the same value, and the program that is written '
        'consists of exactly the assignments of the options, in the blocks '
        'of their sections')
    level_note = (
        'ConfigObject._as_dict, as_dict, as_odict, has_override, clone, dump '
        '(for sections and for the root), dump_config, the descriptors, '
        'ConfigObject.__init__/consume_known/legacy_consume, ExecGlobal '
        '(push_section, pop_section, item assignment) are under contract; '
        'section() is looked at completely for two shapes of the stack '
        '(bounded). Trusted: that json, PyYAML and pprint/exec write and '
        'read back the values they are given.')
    modules = ('confdump', 'confrun')
    groups = ('dump', 'config', 'merge')
    quick_cases = 6000
    thorough_cases = 60000
    rule = ('seeded random values for one to all options (tables, lists, '
            'switches, numbers, texts that are special to YAML, JSON or '
            'Python, values equal to the default); the real configuration '
            'is cloned, or dumped with the real dump_config as yaml, json or '
            'python, with and without help and defaults, and read back with '
            'the real get_configdict (by extension or guessed); all options '
            'compared; non-trivial: some option is not its default; '
            'distinct: by configuration and format')
    assumptions = base.COMMON_ASSUMPTIONS
    trusted = base.COMMON_TRUSTED + ('json', 'PyYAML', 'pprint', 'exec',
                                     'textwrap')

    def setup_cases(self):
        self.opts = confgen.options()
        self.conf = env.mod('cmakelang.configuration')
        self.fm = env.mod('cmakelang.format.__main__')
        self.defaults = {(s, n): confgen.norm(d)
                         for s, n, d, _ in self.opts}

    def plan(self, seed):
        r = random.Random('dump%d' % seed)
        d = {}
        n = r.choice((0, 1, 1, 2, 3, 6, len(self.opts)))
        for sec, name, default, choices in r.sample(self.opts, n):
            if r.random() < .15:
                # the default, but said
                v = default
            else:
                v = value(r, sec, name, default, choices)
            d.setdefault(sec, {})[name] = v
        how = r.choice(('clone', 'yaml', 'json', 'python', 'python'))
        return (d, how, r.random() < .5, r.random() < .5,
                r.random() < .3)

    def judge(self, seed):
        d, how, helps, defaults, plain = self.plan(seed)
        desc = '%s%s%s%s of %r' % (
            how, ' with help' if helps else '',
            '' if defaults else ' without defaults',
            ' (no file extension)' if plain else '', d)
        copy = lambda x: {k: copy(v) for k, v in x.items()} \
            if isinstance(x, dict) else list(x) if isinstance(
                x, list) else x
        try:
            cfg = self.conf.Configuration(**copy(d))
        except Exception as ex:  # pylint: disable=broad-except
            return 'rejected', None, desc + repr(ex), False
        want = confgen.effective(cfg)
        for s in d:
            for n in d[s]:
                if want[s, n] != confgen.norm(d[s][n]):
                    return 'violated', '%s.%s is %r' % (
                        s, n, want[s, n]), desc, True
        try:
            got, text = self.again(cfg, copy(d), how, helps, defaults, plain)
        except Exception as ex:  # pylint: disable=broad-except
            return 'violated', 'fails: %s: %s' % (
                type(ex).__name__, ex), desc, True
        for k in want:
            if got[k] != want[k]:
                return 'violated', 'option %s.%s was %r and is %r\n%s' % (
                    k + (want[k], got[k], text)), desc, True
        if confgen.effective(cfg) != want:
            return 'violated', 'the original changed', desc, True
        return 'ok', None, desc, want != self.defaults

    def again(self, cfg, d, how, helps, defaults, plain):
        if how == 'clone':
            c = cfg.clone()
            if c is cfg:
                raise Exception('the clone is the configuration itself')
            return confgen.effective(c), ''
        with clirun.Scratch() as s:
            p = os.path.join(s.d, 'c' + ('' if plain else {
                'yaml': '.yaml', 'json': '.json', 'python': '.py'}[how]))
            args = self.parser().parse_args(
                ['--dump-config', how] +
                ([] if helps else ['--no-help']) +
                ([] if defaults else ['--no-default']))
            out = io.StringIO()
            self.fm.dump_config(args, d, out)
            with io.open(p, 'w', encoding='utf-8', newline='') as f:
                f.write(out.getvalue())
            c = self.conf.Configuration(**self.fm.get_configdict([p]))
            return confgen.effective(c), out.getvalue()

    def parser(self):
        if not hasattr(self, '_parser'):
            self._parser = argparse.ArgumentParser()
            self.fm.setup_argparser(self._parser)
        return self._parser

    def one(self, seed):
        tag, d, desc, nontrivial = self.judge(seed)
        v = None
        if d:
            v = base.Violation('%s\n%s' % (d, desc), {'seed': seed})
        return base.Outcome(tag, base.digest(desc), nontrivial, v,
                            {'case': desc[:400]} if tag == 'ok' else None)

    def replay(self, data):
        tag, d, desc, _ = self.judge(data['seed'])
        return base.Violation('%s\n%s' % (d, desc), data) if d else None
