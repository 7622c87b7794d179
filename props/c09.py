"""C09: where the values of the configuration come from."""
import io
import os
import random

from fals import clirun, confgen, env
from . import base


class Check(base.Check):
    prop = 'C09'
    technique = base.TECHNIQUE % (
        'option values as an abstract map theory: the files are merged in '
        'breadth-first order, later ones win, the command line wins over '
        'them, and every program hands each file its own configuration')
    level_note = (
        'map_merge, move_legacy_options, get_configdict, get_config, '
        'find_config_file, get_one_config_dict, get_argdict, the descriptors '
        'and ConfigObject.__init__/consume_known/legacy_consume, the derived '
        'values of every section, onefile_main, the main functions of '
        'cmake-format, cmake-lint and cmake-annotate are under contract for '
        'an arbitrary option of an arbitrary section. Trusted: the parsers '
        'of JSON, YAML and Python, argparse, the file system; the registry '
        'of options and the flags argparse gets are finite and looked at '
        'completely. An include cycle does not terminate (not claimed).')
    modules = ('confrun', 'effects', 'lintmain')
    groups = ('merge', 'config', 'sources', 'main', 'lintmain')
    quick_cases = 6000
    thorough_cases = 40000
    rule = ('a seeded random tree of directories with configuration files '
            '(json, yaml, python, by extension or guessed; sections and '
            'options at the root; includes), options on the command line '
            'and one to three input files, run through the real '
            'cmake-format, cmake-lint or cmake-annotate; the Configuration '
            'each file is processed with compared with an independent model;'
            ' non-trivial: at least one option is not its default; distinct:'
            ' by effective options')
    assumptions = base.COMMON_ASSUMPTIONS + (
        'reading a configuration file twice gives the same',)
    trusted = base.COMMON_TRUSTED + ('json', 'PyYAML', 'exec', 'argparse',
                                     'os.path')

    def setup_cases(self):
        self.opts = confgen.options()
        self.defaults = {(s, n): confgen.norm(d)
                         for s, n, d, _ in self.opts}
        for m in ('cmakelang.format.__main__', 'cmakelang.lint.__main__',
                  'cmakelang.annotate'):
            env.mod(m)

    def plan(self, seed, root):
        """Everything of the case; files are named relative to root."""
        r = random.Random('conf%d' % seed)
        opts = self.opts
        dirs = ['', 'a', 'a/b', 'a/b/c', 'd']
        files = {}

        def add(path, depth=0):
            full = os.path.join(root, path)
            sections, rt = confgen.contents(r, opts)
            inc = None
            if depth < 3 and r.random() < (.5 if depth == 0 else .35):
                inc = []
                for _ in range(r.randrange(0, 3)):
                    name = 'inc%d%s' % (len(files), r.choice(
                        ('.py', '.json', '.yaml', '.cfg')))
                    sub = r.choice(('', 'x/', '../'))
                    p = os.path.normpath(os.path.join(
                        os.path.dirname(path), sub + name))
                    if p.startswith('..') or os.path.join(
                            root, p) in files:
                        continue
                    files[os.path.join(root, p)] = None
                    add(p, depth + 1)
                    inc.append(os.path.join(root, p) if r.random() < .3
                               else sub + name)
                    if not os.path.isabs(inc[-1]):
                        os.makedirs(os.path.join(root, os.path.dirname(
                            path), sub), exist_ok=True)
            files[full] = confgen.File(
                full, confgen.format_for(r, path), sections, rt, inc)
        for d in dirs:
            if r.random() < .4:
                for n in r.sample(confgen.NAMES, r.choice((1, 1, 2))):
                    add(os.path.join(d, n))
        named = None
        if r.random() < .4:
            named = []
            for i in range(r.choice((1, 2, 3))):
                p = os.path.join(r.choice(dirs), 'named%d%s' % (i, r.choice(
                    ('.py', '.json', '.yaml', ''))))
                add(p)
                named.append(p)
        inputs = ['%s/in%d.cmake' % (r.choice(dirs), i)
                  for i in range(r.choice((1, 1, 2, 3)))]
        inputs = [i.lstrip('/') for i in inputs]
        prog = r.choice(('format', 'format', 'lint', 'annotate'))
        if r.random() < .1:
            inputs = ['-']
        if prog == 'annotate' and named:
            named = named[:1]
        argv, want = ([], {}) if prog == 'annotate' else confgen.flags(
            r, opts)
        return r, files, named, inputs, prog, argv, want

    def nearest(self, files, path):
        d = path if os.path.isdir(path) else os.path.dirname(path)
        while True:
            for n in confgen.NAMES:
                p = os.path.join(d, n)
                if p in files:
                    return p
            if os.path.dirname(d) == d:
                return None
            d = os.path.dirname(d)

    def judge(self, seed):
        with clirun.Scratch() as s:
            root = os.path.realpath(s.d)
            r, files, named, inputs, prog, argv, want = self.plan(
                seed, root)
            shown = []
            for p in sorted(files):
                text = files[p].text(r)
                s.put(os.path.relpath(p, root), text.encode('utf-8'))
                shown.append('--- %s\n%s' % (os.path.relpath(p, root), text))
            for i in inputs:
                if i != '-':
                    s.put(i, b'set(a b)\n')
            if self.nearest({}, root):
                raise Exception('unexpected')
            for above in self.above(root):
                return 'surroundings', None, None, False
            # what each input should get
            expect = []
            for i in inputs:
                if named is not None:
                    paths = [os.path.join(root, n) for n in named]
                else:
                    at = root if i == '-' else os.path.join(root, i)
                    n = self.nearest(files, at)
                    paths = [n] if n else []
                e = dict(self.defaults)
                for sec, d in confgen.resolve(files, paths).items():
                    e.update({(sec, k): confgen.norm(v)
                              for k, v in d.items()})
                e.update(want)
                if not e['format', 'disable']:
                    expect.append(e)
            got = self.run_prog(prog, inputs, named, argv, root)
            desc = 'cmake-%s %s\n%s' % (prog, ' '.join(
                inputs + (['-c'] + named if named else []) + argv),
                '\n'.join(shown))
            if isinstance(got, str):
                return 'violated', got, desc, True
            if len(got) != len(expect):
                return 'violated', '%d configurations for %d files' % (
                    len(got), len(expect)), desc, True
            for i, (g, e) in enumerate(zip(got, expect)):
                for k in e:
                    if g[k] != e[k]:
                        return 'violated', (
                            'option %s.%s for %s is %r, expected %r' % (
                                k + (inputs[i], g[k], e[k]))), desc, True
            return 'ok', None, desc, any(
                e != self.defaults for e in expect)

    def above(self, root):
        d = os.path.dirname(root)
        while True:
            if any(os.path.exists(os.path.join(d, n))
                   for n in confgen.NAMES):
                yield d
            if os.path.dirname(d) == d:
                return
            d = os.path.dirname(d)

    def run_prog(self, prog, inputs, named, argv, root):
        conf = env.mod('cmakelang.configuration')
        modname = {'format': 'cmakelang.format.__main__',
                   'lint': 'cmakelang.lint.__main__',
                   'annotate': 'cmakelang.annotate'}[prog]
        mod = env.mod(modname)
        fname = 'annotate_file' if prog == 'annotate' else 'process_file'
        real = getattr(mod, fname)
        seen = []

        def wrapped(*a, **k):
            for x in list(a) + list(k.values()):
                if isinstance(x, conf.Configuration):
                    seen.append(confgen.effective(x))
                    break
            return ('', True) if prog == 'format' else None
        setattr(mod, fname, wrapped)
        try:
            res = clirun.run(modname, inputs + argv + (
                [('-c' if prog != 'annotate' else '-c')] + list(named)
                if named else []), root, stdin=b'set(a b)\n')
        finally:
            setattr(mod, fname, real)
        if res.exc is not None and not seen:
            return 'fails: %s: %s' % (type(res.exc).__name__, res.exc)
        return seen

    def one(self, seed):
        tag, d, desc, nontrivial = self.judge(seed)
        v = None
        if d:
            v = base.Violation('%s\n%s' % (d, desc), {'seed': seed})
        return base.Outcome(tag, base.digest(desc), nontrivial, v,
                            {'case': desc[:400]} if tag == 'ok' else None)

    def replay(self, data):
        tag, d, desc, _ = self.judge(data['seed'])
        return base.Violation('%s\n%s' % (d, desc), data) if d else None
