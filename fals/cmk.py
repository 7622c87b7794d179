"""An independent scanner for CMake listfiles, used as an oracle.

Written from the cmake-language manual, not from cmakelang's lexer.
"""
import re


class ScanError(Exception):
    pass


class Item(object):
    """kind: name ( ) quoted bracket unquoted lcomment bcomment atword"""
    __slots__ = ('kind', 'text', 'start', 'end', 'depth', 'glued')

    def __init__(self, kind, text, start, end, depth=0, glued=False):
        self.kind, self.text = kind, text
        self.start, self.end = start, end
        self.depth, self.glued = depth, glued

    def __repr__(self):
        return '%s%r' % (self.kind, self.text)


_BR = re.compile(r'\[(=*)\[')
_ID = re.compile(r'[A-Za-z_][A-Za-z0-9_]*')
_AT = re.compile(r'@[A-Za-z_][A-Za-z0-9_]*@')
_MAKE = re.compile(r'\$\([^\$\(\)]+\)')
WS = ' \t\f\v\n\r'


def bracket_end(s, i):
    m = _BR.match(s, i)
    if not m:
        return None
    close = ']' + m.group(1) + ']'
    j = s.find(close, m.end())
    if j < 0:
        raise ScanError('unterminated bracket at %d' % i)
    return j + len(close)


def quoted_end(s, i):
    j = i + 1
    n = len(s)
    while j < n:
        if s[j] == '\\':
            j += 2
        elif s[j] == '"':
            return j + 1
        else:
            j += 1
    raise ScanError('unterminated string at %d' % i)


def scan(s):
    """List of Items; raises ScanError."""
    if s.startswith('\ufeff'):
        base = 1
    else:
        base = 0
    out = []
    i, n = base, len(s)
    depth = 0
    prev_arg_end = -1
    while i < n:
        c = s[i]
        if c in WS:
            i += 1
            continue
        if c == '#':
            j = bracket_end(s, i + 1) if s[i + 1:i + 2] == '[' else None
            if j is not None:
                out.append(Item('bcomment', s[i:j], i, j, depth))
                i = j
                continue
            j = s.find('\n', i)
            j = n if j < 0 else j
            out.append(Item('lcomment', s[i:j], i, j, depth))
            i = j
            continue
        if depth == 0:
            m = _AT.match(s, i)
            if m:
                out.append(Item('atword', m.group(0), i, m.end()))
                i = m.end()
                continue
            m = _ID.match(s, i)
            if not m:
                raise ScanError('expected a command at %d: %r'
                                % (i, s[i:i + 20]))
            out.append(Item('name', m.group(0), i, m.end()))
            i = m.end()
            while i < n and s[i] in WS:
                i += 1
            if s[i:i + 1] != '(':
                raise ScanError('expected ( at %d: %r' % (i, s[i:i + 20]))
            out.append(Item('(', '(', i, i + 1, 0))
            depth = 1
            i += 1
            continue
        if c == '(':
            out.append(Item('(', '(', i, i + 1, depth, i == prev_arg_end))
            depth += 1
            i += 1
            continue
        if c == ')':
            depth -= 1
            out.append(Item(')', ')', i, i + 1, depth))
            i += 1
            continue
        start = i
        j = None
        kind = None
        if c == '"':
            j = quoted_end(s, i)
            kind = 'quoted'
        elif c == '[':
            j = bracket_end(s, i)
            kind = 'bracket'
        if j is None:
            kind = 'unquoted'
            j = i
            while j < n:
                d = s[j]
                if d in WS or d in '()#':
                    break
                if d == '\\':
                    if j + 1 < n and s[j + 1] in '\r\n':
                        break
                    j += 2
                elif d == '"':
                    j = quoted_end(s, j)
                elif d == '$':
                    m = _MAKE.match(s, j)
                    j = m.end() if m else j + 1
                else:
                    j += 1
            if j == start:
                raise ScanError('bad character at %d: %r' % (j, s[j:j + 5]))
        out.append(Item(kind, s[start:j], start, j, depth,
                        start == prev_arg_end))
        prev_arg_end = j
        i = j
    if depth:
        raise ScanError('unclosed parenthesis')
    return out


_NL = re.compile(r'[ \t\f\v]*(\r?\n|\r\n?)')


def norm(text):
    """Line endings and the blanks before them."""
    return _NL.sub('\n', text)


def is_comment(it):
    return it.kind in ('lcomment', 'bcomment')


def meaning(items):
    """[(kind, normalised text, glued)] without comments."""
    return [(it.kind, norm(it.text) if it.kind in ('quoted', 'bracket', 'unquoted')
             else it.text, it.glued) for it in items if not is_comment(it)]


def comments(items):
    """[(index of the next non-comment item, kind, text)]"""
    out = []
    k = 0
    for it in items:
        if is_comment(it):
            out.append((k, it.kind, it.text))
        else:
            k += 1
    return out


_OFF = re.compile(r'#\s*(cmake-format|cmf): off')
_ON = re.compile(r'#\s*(cmake-format|cmf): on')


def is_off(it):
    return it.kind == 'lcomment' and bool(_OFF.match(it.text))


def is_on(it):
    return it.kind == 'lcomment' and bool(_ON.match(it.text))


def regions(s, items):
    """Verbatim regions: [(start, end, terminated)]: the text after a
    disabling comment up to the enabling one."""
    out = []
    cur = None
    for it in items:
        if cur is None and is_off(it):
            cur = it.end
        elif cur is not None and is_on(it):
            out.append((cur, it.start, True))
            cur = None
    if cur is not None:
        out.append((cur, len(s), False))
    return out
