"""Listfiles out of the ordinary: long lists, deep nesting, long words, many
lines, nothing at all. They do not depend on a seed."""


def texts(vocab):
    r = range
    out = [
        # comments
        '\n'.join('# %d. item number %d of the list' % (i + 1, i)
                  for i in r(120)) + '\nfoo()\n',
        '\n'.join('# * item %d %s' % (i, 'word ' * 20) for i in r(30)),
        '\n'.join('#%s* item %d' % (' ' * (1 + 2 * (i % 6)), i)
                  for i in r(24)) + '\n',
        '\n'.join('# %d: %s' % (i, 'w%d ' % i * 12) for i in r(8, 13)),
        '# ' + 'x' * 400 + '\nfoo(a)\n',
        '# ' + 'some words ' * 90 + '\nfoo(a)\n',
        '\n'.join('# line %d of a long comment' % i for i in r(80)) + '\n',
        '#' * 200 + '\n# title\n' + '#' * 200 + '\nfoo()\n',
        '# ' + '-' * 200 + '\n# title\n# ' + '=' * 7 + '\nfoo()\n',
        '# ~~~\n' + '\n'.join('#   verbatim %d  x' % i for i in r(30)) +
        '\n# ~~~\n# text\n# ```\n# more\n',
        '# a\n#\n#\n#\n# b\n\n\n# c\nfoo() # d\n # e\n\n# f\n',
        'foo( # a\n # b\n x # c\n   # d\n y #[[e]] z #[=[f\n g]=]\n # h\n)\n',
        '\n'.join('foo(a%d) # trailing %d %s' % (i, i, 'w ' * i)
                  for i in r(0, 60, 3)) + '\n',
        'foo(%s)\n' % '\n'.join('a%d # %s' % (i, 'c ' * i)
                                for i in r(0, 50, 4)),
        '#[[ ' + 'x\n' * 40 + ']]\nfoo(#[==[ a ]] b\n c ]==] d)\n',
        '# NOTE(me): %s\n# TODO(you): x\n' % ('text ' * 40),
        # arguments
        'foo(%s)\n' % ' '.join('arg%d' % i for i in r(300)),
        'set(X %s)\n' % ' '.join('file%d.cc' % (i * 37 % 150)
                                 for i in r(150)),
        'set(X\n  # cmake-format: sort\n  %s)\n' % '\n  '.join(
            '%sfile%d.cc # comment %d' % ('aB'[i % 2], i * 37 % 50, i)
            for i in r(50)),
        'add_library(x STATIC %s)\n' % ' '.join(
            's%d.c' % (i * 7 % 40) for i in r(40)),
        'foo(%s)\n' % ('x' * 500),
        'foo(a "%s" b)\n' % ('y' * 300),
        'foo(a "%s" b c)\n' % '\n'.join('  line %d  ' % i for i in r(40)),
        'foo(a [==========[\n%s]==========] b)\n' % ('\tz  \n' * 30),
        'foo(%s)\n' % ' '.join('"%s"' % ('s' * i) for i in r(60)),
        'foo(%s)\n' % ' '.join('${%s}' % ('V' * i) for i in r(1, 60)),
        'f(%s)\n' % '\n'.join('"a\nb%d"' % i for i in r(20)),
        'foo(A\\;B a\\ b \\"q\\" $ENV{X} $<A:B> -DX="y z" @AT@ a"b"c)\n',
        'a_very_long_command_name_that_takes_a_lot_of_room_%s(x %s)\n' % (
            'x' * 60, ' '.join('arg%d' % i for i in r(20))),
        # structure
        'if(%s x %s)\nendif()\n' % ('(' * 14, ')' * 14),
        'if(%s)\nendif()\n' % ' AND '.join(
            '(A%d OR NOT (B%d STREQUAL "c d"))' % (i, i) for i in r(20)),
        ''.join('%sif(a%d)\n' % ('  ' * i, i) for i in r(15)) + 'foo()\n' +
        ''.join('endif()\n' for i in r(15)),
        'if(a)\n' + ''.join('elseif(b%d)\n  foo(x%d)\n' % (i, i)
                            for i in r(30)) + 'else()\nbar()\nendif()\n',
        ''.join('foreach(x%d a b)\nwhile(y)\nfunction(f%d p q)\n'
                'macro(m%d)\n' % (i, i, i) for i in r(5)) + 'break()\n' +
        'endmacro()\nendfunction()\nendwhile()\nendforeach()\n' * 5,
        ''.join('cmd%d(a b c)\n' % i for i in r(150)),
        ''.join('cmd%d()%s' % (i, '\n' * (i % 7 + 1)) for i in r(30)),
        'foo(\n\n\n\na\n\n\n\nb\n\n\n)\n\n\n\n\n\n\n\n\nbar()\n\n\n\n\n',
        'FOO(a)Bar(b)   bAz(c)#x\n',
        'if(a)#1\n#2\nelse()#3\n#4\nendif()#5\n#6\n',
        # regions
        ''.join('foo(a   b)\n# cmake-format: off\nbar(c   d)  \n'
                '# cmake-format: on\n' for i in r(12)),
        'foo( a )\n#cmake-format: off\n' + ' bar( x )  \n\n\t\n' * 40,
        'foo(a  b\n  # cmake-format: off\n  c   d\n  # cmake-format: on\n'
        '  e   f)\n',
        '# cmake-format: off\nx( y )\n# cmf: off\nz(  )\n#cmf: on\nw( )\n',
        # files of nothing
        '', '\n', '\n\n\n\n', '   ', '\r\n', ' \t\n \n', '#', '#\n', '# \n',
        '#[[]]', '\ufeff', '\ufeff\n', '\ufefffoo( )', 'foo()', 'foo( )\n\n',
        '@X@\n', '@X@ # c\nfoo(@Y@)\n',
        'foo(\x0b\x0ca\x0c)\n', '# \u00e9\u4e2d \U0001f600\nfoo(\u00e9\u4e2d "'
        '\U0001f600\U0001f600" a\u0301)\n# cmake-format: off\nx( \u00e9 )\n'
        '# cmake-format: on\ny( )\n',
    ]
    out += [t.replace('\n', '\r\n') for t in out[10:44:4]]
    out += [t.replace('\n', '\r\n', 3) for t in out[12:44:5]]
    for name in sorted(vocab):
        # every command with 1 to 9 arguments, and with all its keywords
        out.append(''.join(
            '%s(%s)\n' % (name, ' '.join('a%d' % i for i in r(n)))
            for n in (9, 5, 3, 2, 1)))
        ks = sorted(vocab[name])
        for n in (1, 2):
            out.append('%s(a %s)\n' % (name, ' '.join(
                '%s%s' % (k, ' b%d' % i * n) for i, k in enumerate(ks))))
    return out
