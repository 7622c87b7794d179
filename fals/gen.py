"""Random listfiles and configurations (seeded; the same for every run)."""
import random
import re

WORDS = ('foo bar baz qux alpha beta gamma delta libfoo src/a.cc b.cpp '
         'c_header.h HELLO World x y z target1 --flag -j8 42 -1 3.14 a;b;c '
         'foo::bar some_very_long_argument_name_number_one $<BUILD:x> '
         '$<$<CONFIG:Debug>:-g> "${CMAKE_X}" ${VAR} ${A}/b/${C} @AT@ /usr/lib '
         'naïve über 日本 ON OFF a=b -DX=1 {braced} *.txt 100% ~tilde').split()
RAREWORDS = [r'esc\ aped', r'a\;b', r'\${x}', r'\"q', r'a\#b', 'a[0]', '[x]',
             '-Da="b c"', 'x"y z"w', '$(MAKE)', r'back\\slash', "it's",
             '[=x', 'a]]b', '"', None]
STRINGS = ['""', '"a"', '"hello world"', r'"esc \" quote"', '"semi;colon"',
           '"hash # inside"', '"paren ) inside ("', '"naïve ünï"',
           '"${VAR} ref"', r'"back\\"', '"tab\there"',
           '"a very long quoted string that takes much of the line width"']
MULTI = ['"line one\nline two"', '"trail  \n  lead"', '"\n"', '"a\n\n\nb"',
         '"tab\n\tin\n    spaces"', '"last \n"']
BRACKETS = ['[[x]]', '[=[a ]] b]=]', '[[ "q" # ) ( ]]', '[==[]==]']
MBRACKETS = ['[[\nline\n  two ]]', '[=[\n\n  a ]] \n]=]', '[[a\n    b]]']
COMMENTS = ['# hello', '#hello', '# hello world this is a comment',
            '#', '# naïve ünï', '#  two  spaces', '## double', '# trailing  ',
            '# "quote', '# paren )', '# (', '# a: b; c',
            '# a much longer comment which will not fit in a narrow column '
            'and has to be wrapped', '# [not bracket', '#: colon',
            '# TODO(x): foo', '# see http://x.y/z', '#~~', '#!shebang']
MARKUPS = ['# * item one', '# - item', '#   * nested', '# 1. first',
           '# 2. second', '# 10. ten', '# ~~~', '# ```', '# -----------',
           '##########', '# ====', '# + plus', '#    indented code']
CWORDS = ('the quick brown fox a of to *emph* `code` (paren) x=1 "quoted" '
          'http://x.y/z 3.14 end. e.g. # ## - 1. naïve -- a_very_long_word_'
          'that_takes_most_of_the_line_width: foo() 200 20x 7 *x -O2').split()
BCOMMENTS = ['#[[x]]', '#[[ two words ]]', '#[=[ ]] ]=]', '#[[]]']
MBCOMMENTS = ['#[[multi\nline ]]', '#[==[\n  a\n\n b ]==]']
TAGS = ['# cmake-format: sort', '# cmf: sortable', '# cmake-format: unsort',
        '# cmake-format: tag=foo']
COMMANDS = None
# characters which str.split, str.strip or str.splitlines treat specially,
# which take no or several columns, or which casing changes in number
EXOTIC = ['\x0b', '\x0c', '\x1c', '\x1d', '\x1e', '\x85', '\xa0', '\u2028',
          '\u2029', '\u3000', '\u200b', '\ufeff', '\U0001f600', 'e\u0301',
          '\xdf', '\u0130', '\u01c5', '\x7f', '\x01', '\t']


def vocabulary(mod):
    """Command name -> keyword/flag words, from the real parse database."""
    db = mod('cmakelang.parse.funs').get_parse_db()
    out = {}
    for name in sorted(db):
        p = db[name]
        words = set()
        spec = getattr(p, 'cmdspec', None)

        def walk(s, depth=0):
            if s is None or depth > 3:
                return
            for k, v in (getattr(s, 'kwargs', None) or {}).items():
                words.add(str(k))
                walk(v, depth + 1)
                walk(getattr(v, 'cmdspec', None), depth + 1)
            for pa in getattr(s, 'pargs', None) or ():
                words.update(str(x) for x in getattr(pa, 'flags', None) or ())
        words.update(str(k) for k in getattr(p, 'funtree', None) or ())
        walk(spec)
        out[name] = words
    return out


SPECIAL = {
    'set': 'PARENT_SCOPE CACHE FORCE STRING BOOL'.split(),
    'add_library': 'STATIC SHARED MODULE OBJECT ALIAS IMPORTED INTERFACE '
    'EXCLUDE_FROM_ALL GLOBAL UNKNOWN $<TARGET_OBJECTS:x>'.split(),
    'add_executable': 'WIN32 MACOSX_BUNDLE EXCLUDE_FROM_ALL ALIAS IMPORTED '
    'GLOBAL'.split(),
    'add_custom_command': 'OUTPUT COMMAND DEPENDS COMMENT VERBATIM TARGET '
    'PRE_BUILD POST_BUILD WORKING_DIRECTORY MAIN_DEPENDENCY BYPRODUCTS '
    'APPEND ARGS'.split(),
    'add_custom_target': 'ALL COMMAND DEPENDS COMMENT VERBATIM SOURCES '
    'WORKING_DIRECTORY'.split(),
    'add_test': 'NAME COMMAND CONFIGURATIONS WORKING_DIRECTORY'.split(),
    'install': 'TARGETS FILES DIRECTORY DESTINATION RUNTIME LIBRARY ARCHIVE '
    'COMPONENT EXPORT PATTERN REGEX EXCLUDE PERMISSIONS OWNER_READ RENAME '
    'OPTIONAL CODE SCRIPT PROGRAMS INCLUDES NAMESPACE FILE'.split(),
    'file': 'READ WRITE APPEND STRINGS GLOB GLOB_RECURSE RENAME REMOVE COPY '
    'DESTINATION DOWNLOAD LIST_DIRECTORIES RELATIVE LIMIT OFFSET HEX '
    'CONFIGURE_DEPENDS GENERATE OUTPUT CONTENT LOCK MAKE_DIRECTORY '
    'PERMISSIONS PATTERN'.split(),
    'list': 'APPEND LENGTH GET JOIN SORT REVERSE FILTER INCLUDE EXCLUDE REGEX '
    'TRANSFORM TOUPPER COMPARE CASE ORDER'.split(),
    'string': 'REPLACE REGEX MATCH MATCHALL APPEND TOUPPER CONCAT '
    'TIMESTAMP UUID NAMESPACE NAME TYPE COMPARE EQUAL JOIN FIND'.split(),
    'target_link_libraries': 'PUBLIC PRIVATE INTERFACE debug optimized '
    'general LINK_PUBLIC'.split(),
    'target_compile_definitions': 'PUBLIC PRIVATE INTERFACE'.split(),
    'target_include_directories': 'PUBLIC PRIVATE INTERFACE SYSTEM BEFORE'
    .split(),
    'target_sources': 'PUBLIC PRIVATE INTERFACE'.split(),
    'set_target_properties': 'PROPERTIES FOLDER OUTPUT_NAME'.split(),
    'set_property': 'TARGET PROPERTY APPEND GLOBAL DIRECTORY'.split(),
    'find_package': 'REQUIRED COMPONENTS QUIET EXACT CONFIG NO_MODULE '
    'OPTIONAL_COMPONENTS NAMES'.split(),
    'find_library': 'NAMES PATHS HINTS DOC NO_DEFAULT_PATH ENV'.split(),
    'message': 'STATUS FATAL_ERROR WARNING'.split(),
    'execute_process': 'COMMAND WORKING_DIRECTORY OUTPUT_VARIABLE '
    'OUTPUT_QUIET RESULT_VARIABLE'.split(),
    'externalproject_add': 'PREFIX URL GIT_REPOSITORY CMAKE_ARGS '
    'BUILD_COMMAND INSTALL_COMMAND DEPENDS'.split(),
    'project': 'VERSION LANGUAGES DESCRIPTION CXX C'.split(),
    'cmake_minimum_required': 'VERSION FATAL_ERROR'.split(),
    'configure_file': 'COPYONLY @ONLY ESCAPE_QUOTES'.split(),
    'export': 'TARGETS FILE NAMESPACE APPEND EXPORT PACKAGE'.split(),
    'try_compile': 'SOURCES CMAKE_FLAGS COMPILE_DEFINITIONS OUTPUT_VARIABLE'
    .split(),
    'configure_package_config_file': 'INSTALL_DESTINATION PATH_VARS'.split(),
    'source_group': 'TREE PREFIX FILES REGULAR_EXPRESSION'.split(),
    'get_filename_component': 'DIRECTORY NAME EXT CACHE'.split(),
    'unknown_command': [], 'myfun': [], 'my_macro': [], 'Foo_Bar': [],
}
USERSPEC = {
    'my_user_cmd': {
        'pargs': {'nargs': '1+', 'flags': ['FLAGA', 'FlagB']},
        'kwargs': {'HEADERS': '*', 'SOURCES': {'kwargs': {'SUB': 1}},
                   'ONE': 1, 'MAYBE': '?', 'TWO': 2, 'PLUS': '+'},
        'spelling': 'My_User_Cmd'},
    'nospec': {'kwargs': {'A': '*', 'B': '+'}},
    'sorted_cmd': {'pargs': {'nargs': '*', 'sortable': True,
                             'flags': ['QUIET']},
                   'kwargs': {'SRCS': '*', 'SORTED': {
                       'pargs': {'nargs': '+', 'sortable': True}}}},
}
USERWORDS = {'my_user_cmd': ['FLAGA', 'FlagB', 'HEADERS', 'SOURCES', 'SUB',
                             'ONE', 'MAYBE', 'TWO', 'PLUS'],
             'nospec': ['A', 'B'],
             'sorted_cmd': ['QUIET', 'SRCS', 'SORTED']}
FILES = ('b.cc a.cc A.cc B.h a.h a_b.cc aB.cc ab.cc z.cc main.cpp Zed.txt '
         'dir/x.c dir/X.c lib/é.cc É.cc 10.c 9.c "q w.c" "Q a.c" ${V} '
         '${SRC_DIR}/x.c $<TARGET_OBJECTS:o> [[k.c]] -lfoo x.cc').split()
FILES += ['"q w.c"', '"Q a.c"']
FILES = [f for f in FILES if f not in ('"q', '"Q', 'w.c"', 'a.c"')]
SORTTAGS = ['# cmake-format: sort', '# cmf: sortable', '# cmake-format: unsort',
            '# cmf: unsortable', '#[[cmf: sort]]', '#[=[cmake-format:unsort]=]',
            '# cmake-format: SORT', '#cmf: sort']


class Gen(object):
    def __init__(self, seed, **opt):
        self.r = random.Random(seed)
        self.o = dict(comments=0.12, bcomments=0.03, multi=0.05, rare=0.03,
                      onoff=0.0, tags=0.0, markup=0.0, newline='\n',
                      trailing=0.05, flow=0.25, paren=0.02, depth=2,
                      unterminated=0.0, argonoff=0.0, vocab=None,
                      blanklines=0.3, badflow=0.0, atword=0.02,
                      blocks=0.0, sortcmd=0.0, exotic=0.0)
        self.o.update(opt)
        self.indent = 0

    def p(self, name):
        return self.r.random() < self.o[name]

    def case(self, w):
        x = self.r.random()
        if x < 0.7:
            return w
        if x < 0.8:
            return w.lower()
        if x < 0.9:
            return w.upper()
        return ''.join(c.upper() if self.r.random() < .5 else c.lower()
                       for c in w)

    def ws(self):
        x = self.r.random()
        if x < 0.6:
            return ' '
        if x < 0.7:
            return '  '
        if x < 0.75:
            return '\t'
        if x < 0.78:
            return ' \t '
        return (' ' if self.r.random() < .2 else '') + '\n' + \
            ' ' * self.r.choice((0, 2, 4, 8))

    def odd(self, chars=EXOTIC):
        """A word with characters out of the ordinary."""
        r = self.r
        return ''.join(r.choice(chars) if r.random() < .4 else
                       r.choice(('a', 'B', 'xyz', '1', '/')) for _ in range(
                           r.randint(1, 6)))

    def oddarg(self):
        r = self.r
        x = r.random()
        if x < .35:
            return '"' + ' '.join(self.odd() for _ in range(
                r.randint(1, 3))) + r.choice(('"', '\n"', '"', ' \n y"'))
        if x < .55:
            return '[[' + self.odd() + r.choice((']]', '\n]]'))
        blank = ' \t\x0b\x0c\x01'
        return 'w' + self.odd([c for c in EXOTIC if c not in blank])

    def word(self, kws):
        r = self.r
        if self.o['exotic'] and self.p('exotic'):
            return self.oddarg()
        if kws and r.random() < 0.35:
            return self.case(r.choice(kws))
        if self.p('multi'):
            return r.choice(MULTI + MBRACKETS)
        if self.p('rare'):
            w = None
            while w is None or w == '"':
                w = r.choice(RAREWORDS)
            return w
        x = r.random()
        if x < 0.12:
            return r.choice(STRINGS)
        if x < 0.15:
            return r.choice(BRACKETS)
        return r.choice(WORDS)

    def comment(self):
        r = self.r
        if self.p('tags'):
            return r.choice(TAGS)
        if self.p('markup'):
            return r.choice(MARKUPS)
        if self.o['exotic'] and self.p('exotic'):
            return '#' + r.choice(('', ' ', ' ', '#', ':')) + ' '.join(
                self.odd() for _ in range(r.randint(1, 4)))
        return r.choice(COMMENTS)

    def cblock(self, pre):
        """Consecutive comment lines using the markup syntax."""
        r = self.r

        def text(n=5):
            return ' '.join(r.choice(CWORDS) for _ in range(r.randint(0, n)))
        out = []
        lead = r.choice(('', ' ', ' ', ' ', '  '))
        for _ in range(r.randint(2, 7)):
            x = r.random()
            ind = r.choice(('', '', '', '  ', '    '))
            if x < .3:
                s = text(12)
            elif x < .42:
                s = r.choice('*+-') + r.choice((' ', '  ', '')) + text()
            elif x < .52:
                s = r.choice(('1', '2', '10')) + r.choice(').:') + ' ' + text()
            elif x < .67:
                s = r.choice(('~~~', '```', '~~~~', '`````')) + r.choice(
                    ('', '', ' ') if r.random() < .6 else (' ' + text(3),
                                                           text(1)))
            elif x < .75:
                s = r.choice('#-=+:') * r.choice((3, 8, 11, 30)) + r.choice(
                    ('', '', ' ' + text(2)))
            elif x < .83:
                s = r.choice(('NOTE', 'TODO', 'FIXME')) + r.choice(
                    (':', '(x):', '(x) ', '')) + ' ' + text()
            elif x < .9:
                s = ''
            else:
                s = '\\' + r.choice(('brief', 'param x')) + ' ' + text()
            s = ind + s
            s = lead + s if r.random() < .9 else s
            if s.startswith('[') or re.match(r'\s*cm', s):
                s = ' ' + s
            out.append('#' + s)
        pre = pre if pre.strip() or '\n' not in pre else pre
        ind = pre.rsplit('\n', 1)[-1]
        return pre + ('\n' + ind).join(out) + '\n'

    def bcomment(self):
        return self.r.choice(BCOMMENTS if self.r.random() < .7
                             else MBCOMMENTS)

    def args(self, kws, n, paren=True):
        """Text between the parentheses."""
        r = self.r
        out = []
        need = False      # a separator is needed before the next argument
        if r.random() < .2:
            out.append(self.ws())
        for _ in range(n):
            if self.p('comments'):
                if need or r.random() < .5:
                    out.append(self.ws())
                out.append(self.comment())
                out.append('\n')
                need = False
                if r.random() < .5:
                    out.append(' ' * r.choice((2, 4)))
                if r.random() < .2:
                    out.append(self.comment() + '\n')
            elif self.p('bcomments'):
                if need:
                    out.append(self.ws())
                out.append(self.bcomment())
                need = True
            if self.p('argonoff'):
                if need:
                    out.append(self.ws())
                off = '# cmake-format: off' if r.random() < .7 else '# cmf: off'
                out.append(off + '\n' + self.args(kws, r.randint(0, 3), False)
                           + '\n' + '# cmake-format: on\n')
                need = False
            if need:
                out.append(self.ws())
            if paren and self.p('paren'):
                out.append('(' + self.args([], r.randint(1, 3),
                                           r.random() < .2) + ')')
                need = True
                continue
            out.append(self.word(kws))
            need = True
        if self.p('comments'):
            if need:
                out.append(self.ws())
            out.append(self.comment() + '\n')
        elif r.random() < .15:
            out.append(self.ws())
        return ''.join(out)

    def cond(self, n, nest=0):
        r = self.r
        out = []
        for i in range(n):
            if i:
                out.append(r.choice(['AND', 'OR', 'and', 'EQUAL', 'STREQUAL',
                                     'MATCHES', 'LESS']))
            if r.random() < .15:
                out.append('NOT')
            if r.random() < .2 and nest < 2:
                out.append('(' + self.cond(r.randint(1, 3), nest + 1) + ')')
            else:
                out.append(r.choice(['TRUE', '${X}', 'DEFINED', 'x', '"a b"',
                                     'UNIX', '42', 'TARGET', 'foo',
                                     'CMAKE_BUILD_TYPE']))
            if self.p('comments'):
                out.append(self.comment() + '\n')
        return ''.join(x + ('' if x.endswith('\n') else self.ws())
                       for x in out[:-1]) + out[-1]

    def tail(self):
        """What may follow a statement on its line."""
        r = self.r
        s = ''
        if self.p('trailing'):
            s += r.choice(' \t') * r.randint(1, 3)
        if self.p('comments') and r.random() < .5:
            s += ' ' + self.comment()
        elif self.p('bcomments'):
            s += ' ' + self.bcomment()
        return s + '\n'

    def sortstmt(self):
        """A statement with a list of files, perhaps annotated."""
        r = self.r
        name = r.choice(('add_library', 'add_library', 'add_executable',
                         'set', 'sorted_cmd', 'target_sources', 'my_macro'))
        lead = ['foo']
        if name == 'add_library':
            lead += r.choice(([], [], ['STATIC'], ['SHARED'], ['OBJECT'],
                              ['${TYPE}'], ['STATIC', 'EXCLUDE_FROM_ALL'],
                              ['EXCLUDE_FROM_ALL'], ['MODULE'],
                              ['INTERFACE'], ['"STATIC"']))
        elif name == 'add_executable':
            lead += r.choice(([], [], ['WIN32'], ['MACOSX_BUNDLE', 'WIN32'],
                              ['EXCLUDE_FROM_ALL'], ['${TYPE}']))
        elif name == 'sorted_cmd':
            lead = r.choice(([], ['SRCS'], ['SORTED'], ['a', 'SORTED']))
        elif name == 'target_sources':
            lead += [r.choice(('PUBLIC', 'PRIVATE'))]
        files = [r.choice(FILES) for _ in range(
            r.choice((0, 1, 2, 3, 4, 5, 8)))]
        if name == 'sorted_cmd' and r.random() < .4:
            files[r.randint(0, len(files)):] = ['QUIET'] + [
                'SORTED'] + files[:3]
        k = r.choice((0, len(lead), len(lead), r.randint(0, len(lead))))
        tagged = r.random() < .5
        out = []
        items = lead + files
        for i, it in enumerate(items):
            if tagged and i == k:
                t = r.choice(SORTTAGS)
                out.append(t + ('' if t.endswith(']') else '\n'))
            out.append(it)
            if self.p('comments'):
                out.append(self.comment() + '\n')
                if r.random() < .2:
                    out.append('  ' + self.comment() + '\n')
            if self.p('bcomments'):
                out.append(self.bcomment())
            if self.p('argonoff'):
                out.append('# cmake-format: off\n x  b a\n'
                           '# cmake-format: on\n')
        s = ''
        for x in out:
            s += x + ('' if x.endswith('\n') else self.ws())
        return self.case(name) + '(' + s + ')'

    def stmt(self):
        r = self.r
        if self.p('sortcmd'):
            return self.sortstmt()
        x = r.random()
        vocab = self.o['vocab']
        if self.p('atword'):
            return '@PACKAGE_INIT@'
        if x < 0.1:
            name = r.choice(sorted(USERWORDS))
            kws = USERWORDS[name]
        elif x < 0.75 or not vocab:
            name = r.choice(sorted(SPECIAL))
            kws = SPECIAL[name]
        else:
            name = r.choice(sorted(vocab))
            if name in ('if', 'elseif', 'else', 'endif', 'while', 'endwhile',
                        'foreach', 'endforeach', 'function', 'endfunction',
                        'macro', 'endmacro'):
                name = 'message'
            kws = sorted(vocab[name])
        n = r.choice((0, 1, 1, 2, 2, 3, 3, 3, 4, 4, 5, 6, 8, 12))
        s = self.case(name) + ('' if r.random() < .8 else ' ') + '('
        return s + self.args(kws, n) + ')'

    def block(self, depth):
        r = self.r
        out = []
        for _ in range(r.choice((0, 1, 1, 2, 3))):
            out.append(self.element(depth))
        return ''.join(out)

    def flow(self, depth):
        r = self.r
        k = r.choice(('if', 'foreach', 'while', 'function', 'macro'))
        c = self.case
        if k == 'if':
            s = c('if') + '(' + self.cond(r.randint(1, 4)) + ')' + \
                self.tail() + self.block(depth + 1)
            for _ in range(r.choice((0, 0, 1, 2))):
                s += c('elseif') + '(' + self.cond(r.randint(1, 3)) + ')' + \
                    self.tail() + self.block(depth + 1)
            if r.random() < .4:
                s += c('else') + '()' + self.tail() + self.block(depth + 1)
            e = r.choice(('', '', self.cond(1)))
            return s + c('endif') + '(' + e + ')'
        if k == 'while':
            h = self.cond(r.randint(1, 3))
        elif k == 'foreach':
            h = r.choice(('x', 'item RANGE 1 10', 'x IN LISTS a b',
                          'x IN ITEMS a;b "c d"', 'x a b c',
                          'x IN LISTS A ITEMS b'))
        else:
            h = r.choice(('foo', 'foo a b', 'foo_bar ARG1 arg2', 'f a a'))
        e = h.split()[0]
        e = r.choice(('', e if e.isalnum() else ''))
        return (c(k) + '(' + h + ')' + self.tail() + self.block(depth + 1)
                + c('end' + k) + '(' + e + ')')

    def element(self, depth=0):
        r = self.r
        pre = ' ' * r.choice((0, 0, 2, 4, 2 * depth))
        if self.p('blanklines'):
            pre = '\n' * r.choice((1, 1, 2, 3)) + pre
        if self.p('trailing'):
            pre = '  \n' + pre
        if self.p('onoff') and depth == 0:
            off = r.choice(('# cmake-format: off', '#cmake-format: off',
                            '# cmf: off', '# cmake-format: off  extra'))
            on = r.choice(('# cmake-format: on', '# cmf: on',
                           '# cmake-format: on now'))
            body = ''.join(self.element(1) for _ in range(r.randint(0, 3)))
            if r.random() < .3:
                body = '   ' + body.replace('(', '   (')
            if self.p('unterminated'):
                return pre + off + '\n' + body
            return pre + off + '\n' + body + pre.strip('\n') + on + '\n'
        if self.p('blocks'):
            return self.cblock(pre)
        if self.p('comments'):
            n = r.choice((1, 1, 2, 3))
            return ''.join(pre + self.comment() + '\n' for _ in range(n))
        if self.p('bcomments'):
            return pre + self.bcomment() + '\n'
        if depth < self.o['depth'] and self.p('flow'):
            return pre + self.flow(depth) + self.tail()
        return pre + self.stmt() + self.tail()

    def file(self, n=None):
        r = self.r
        n = n or r.choice((1, 1, 1, 2, 3, 5))
        s = ''.join(self.element() for _ in range(n))
        if r.random() < .1:
            s = s.rstrip('\n')
        nl = self.o['newline']
        if nl == 'mixed':
            s = ''.join((r.choice(('\n', '\r\n')) if c == '\n' else c)
                        for c in s)
        elif nl != '\n':
            s = s.replace('\n', nl)
        return s

    # -- configurations
    def fmtconfig(self, **over):
        r = self.r
        d = {}

        def opt(name, prob, *vals):
            if r.random() < prob:
                d[name] = r.choice(vals)
        opt('line_width', .6, 20, 30, 40, 50, 60, 80, 100, 120, 200)
        opt('tab_size', .4, 1, 2, 3, 4, 8)
        opt('max_subgroups_hwrap', .3, 0, 1, 2, 3, 6)
        opt('max_pargs_hwrap', .3, 0, 1, 2, 3, 6, 10)
        opt('max_rows_cmdline', .2, 0, 1, 2, 5)
        opt('separate_ctrl_name_with_space', .2, True, False)
        opt('separate_fn_name_with_space', .2, True, False)
        opt('dangle_parens', .4, True, False)
        opt('dangle_align', .4, 'prefix', 'prefix-indent', 'child')
        opt('min_prefix_chars', .2, 0, 2, 4, 10)
        opt('max_prefix_chars', .2, 2, 5, 10, 40)
        opt('max_lines_hwrap', .3, 0, 1, 2, 3, 10)
        opt('command_case', .3, 'lower', 'upper', 'canonical', 'unchanged')
        opt('keyword_case', .3, 'lower', 'upper', 'unchanged')
        opt('always_wrap', .1, ['set', 'add_library/PARGGROUP'], ['install'])
        opt('layout_passes', .1, {'PargGroupNode': [[0, True]]},
            {'StatementNode': [[0, False], [5, True]]})
        m = {}
        if r.random() < .4:
            m['enable_markup'] = False
        if r.random() < .15:
            m['first_comment_is_literal'] = True
        if r.random() < .1:
            m['canonicalize_hashrulers'] = False
        opt('require_valid_layout', .1, False, True)
        opt('line_ending', .1, 'unix', 'auto', 'windows')
        for name, vals in (
                ('bullet_char', ('-', '+', '*')),
                ('enum_char', (')', ':', '.')),
                ('hashruler_min_length', (5, 10, 20)),
                ('explicit_trailing_pattern', ('#<', '#!<')),
                ('literal_comment_pattern', ('^ ?Copy', '^ *[a-m]', '.*w')),
                ('fence_pattern', (r'^\s*(:{3,})(.*)$',)),
                ('ruler_pattern', (r'^\s*[-~]{5,}.*$',))):
            if r.random() < .07:
                m[name] = r.choice(vals)
        out = {'format': d, 'markup': m,
               'parse': {'additional_commands': USERSPEC}}
        if r.random() < .1:
            # options of a command of its own
            pc = {}
            for name in ('set', 'add_library', 'foo', 'if', 'install',
                         'message', 'my_user_cmd', 'sorted_cmd'):
                if r.random() < .5:
                    pc[name] = r.choice((
                        {'command_case': 'upper'}, {'command_case': 'lower'},
                        {'command_case': 'unchanged'},
                        {'command_case': 'canonical'}))
            out['misc'] = {'per_command': pc}
        for k, v in over.items():
            out.setdefault(k, {}).update(v)
        return out
