"""Random configurations: values for the real options, files in the formats
that are supported, and what they amount to according to the documentation."""
import json
import os
import pprint
import re

from . import env

SKIP = ('disable', 'input_encoding', 'additional_commands', 'vartags',
        'proptags', 'layout_passes', 'override_spec')
STRS = ('a', 'b+', 'x y', 'é', '[a-z]+', "it's", 'a"b', '%s', '0', 'no')
TABLES = {
    'per_command': [{'set': {'command_case': 'upper'}},
                    {'add_library': {'line_width': 40}},
                    {'set': {'autosort': True}, 'foo': {'x': [1, 2]}}],
}


def options():
    """[(section, name, default, choices)]"""
    c = env.mod('cmakelang.configuration').Configuration
    return [(d.name, f.name, f.default_value, f.choices)
            for d in c._field_registry
            for f in d.subtree_class._field_registry]


def value(r, sec, name, default, choices):
    if name in TABLES:
        return r.choice(TABLES[name])
    if name == 'output_encoding':
        return r.choice(['utf-8', 'latin-1', 'utf-16'])
    if choices:
        return r.choice(list(choices))
    if isinstance(default, bool):
        return r.random() < .5
    if isinstance(default, int):
        return r.randrange(0, 200)
    if isinstance(default, (list, tuple)):
        return [r.choice(('a', 'foo', 'C0301', 'x y'))
                for _ in range(r.randrange(0, 4))]
    return r.choice(STRS)


def merge(a, b):
    """The later map b on top of a."""
    for k, v in b.items():
        if isinstance(v, dict) and isinstance(a.get(k), dict):
            merge(a[k], v)
        else:
            a[k] = json.loads(json.dumps(v))


class File(object):
    """One configuration file: {section: {option: value}}, options at its
    root (legacy), the files it includes."""

    def __init__(self, path, fmt, sections, root, includes):
        self.path, self.fmt = path, fmt
        self.sections, self.root, self.includes = sections, root, includes

    def flat(self, where):
        out = json.loads(json.dumps(self.sections))
        for k, v in self.root.items():
            out.setdefault(where[k], {})[k] = json.loads(json.dumps(v))
        return out

    def text(self, r):
        d = {}
        parts = [('sec', k, v) for k, v in self.sections.items()] + [
            ('opt', k, v) for k, v in self.root.items()]
        if self.includes is not None:
            parts.append(('opt', 'include', self.includes))
        r.shuffle(parts)
        if self.fmt == 'python':
            out = []
            for kind, k, v in parts:
                if kind == 'opt':
                    out.append('%s = %s\n' % (k, pprint.pformat(v)))
                else:
                    out.append('with section("%s"):\n' % k)
                    out += ['  %s = %r\n' % kv for kv in v.items()]
                    if not v:
                        out.append('  pass\n')
            return ''.join(out)
        for _, k, v in parts:
            d[k] = v
        if self.fmt == 'yaml':
            import yaml
            return yaml.safe_dump(d, allow_unicode=r.random() < .5) \
                if d else ''
        return json.dumps(d, ensure_ascii=r.random() < .5) \
            if d or r.random() < .5 else '' if self.path.endswith(
                '.json') else '{}'


EXT = {'json': ['.json'], 'yaml': ['.yaml'], 'python': ['.py']}


def contents(r, opts, n=None):
    """(sections, options at the root) with random options."""
    sections, root = {}, {}
    for sec, name, default, choices in r.sample(opts, n or r.choice(
            (0, 1, 2, 4, 8))):
        if name in SKIP:
            continue
        v = value(r, sec, name, default, choices)
        where = r.random()
        if where < .7:
            sections.setdefault(sec, {})[name] = v
        if where > .6:
            root[name] = value(r, sec, name, default, choices)
    if r.random() < .1:
        sections.setdefault(r.choice(opts)[0], {})
    return sections, root


NAMES = ['.cmake-format', '.cmake-format.py', '.cmake-format.json',
         '.cmake-format.yaml', 'cmake-format.py', 'cmake-format.json',
         'cmake-format.yaml']


def format_for(r, name):
    ext = os.path.splitext(name)[1]
    return {'.py': 'python', '.json': 'json', '.yaml': 'yaml'}.get(
        ext) or r.choice(('json', 'yaml', 'python'))


def resolve(files, paths):
    """The effective options of the listed files: {(section): {option}}."""
    where = {n: s for s, n, _, _ in options()}
    queue = list(paths)
    out = {}
    while queue:
        p = queue.pop(0)
        f = files[os.path.normpath(p)]
        for i in f.includes or ():
            queue.append(i if os.path.isabs(i) else os.path.join(
                os.path.dirname(p), i))
        merge(out, f.flat(where))
    return out


def effective(cfg):
    """{(section, option): value} of a real Configuration."""
    return {(s, n): norm(getattr(getattr(cfg, s), n))
            for s, n, _, _ in options()}


def norm(v):
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, dict):
        return {k: norm(x) for k, x in v.items()}
    return v


def flags(r, opts):
    """(command line, {(section, option): value})"""
    argv, want = [], {}
    for sec, name, default, choices in r.sample(opts, r.choice(
            (0, 0, 1, 2, 5))):
        if name in SKIP or isinstance(default, dict):
            continue
        flag = '--' + name.replace('_', '-')
        v = value(r, sec, name, default, choices)
        if isinstance(default, bool):
            if r.random() < .4:
                argv.append(flag)
                v = not default
            else:
                argv += [flag, r.choice(('yes', 'true', 'Y', '1') if v else
                                        ('no', 'False', 'n', '0'))]
        elif isinstance(default, (list, tuple)):
            argv += [flag] + v
        else:
            argv += [flag, str(v)]
        want[sec, name] = norm(v)
    return argv, want
