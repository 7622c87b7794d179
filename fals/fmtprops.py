"""Oracles for one run of the formatter: each returns None or a description
of the violation.  They use the independent scanner (cmk), never the
formatter's own lexer or parser."""
import re

from . import cmk


def short(x, n=160):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


class Case(object):
    def __init__(self, text, cfgd, cfg, out, valid):
        self.text, self.cfgd, self.cfg = text, cfgd, cfg
        self.out, self.valid = out, valid
        self.items = cmk.scan(text)
        self._oitems = None
        self.scan_error = None

    @property
    def oitems(self):
        if self._oitems is None and self.scan_error is None:
            try:
                self._oitems = cmk.scan(self.out)
            except cmk.ScanError as ex:
                self.scan_error = str(ex)
        return self._oitems

    @property
    def endl(self):
        le = self.cfg.format.line_ending
        if le == 'auto':
            w = self.text.count('\r\n')
            u = self.text.count('\n') - w
            return None if w == u and w else ('\r\n' if w > u else '\n')
        return '\r\n' if le == 'windows' else '\n'


def c01(c, keyword_words=None):
    """Same commands, same arguments, same spelling."""
    if c.oitems is None:
        return 'the output is not a listfile: %s' % c.scan_error
    a, b = cmk.meaning(c.items), cmk.meaning(c.oitems)
    kc = c.cfg.format.keyword_case
    for i, (x, y) in enumerate(zip(a, b)):
        if x == y:
            continue
        if x[0] != y[0] or x[2] != y[2] and y[2]:
            return 'element %d: %s became %s' % (i, short(x), short(y))
        if x[1] == y[1]:
            continue
        if x[0] == 'name' and x[1].lower() == y[1].lower():
            continue
        if x[0] == 'unquoted' and kc != 'unchanged' and \
                x[1].lower() == y[1].lower():
            continue
        return 'element %d: %s became %s' % (i, short(x), short(y))
    if len(a) != len(b):
        return '%d elements became %d (first extra: %s)' % (
            len(a), len(b), short((a[len(b):] or b[len(a):])[0]))
    return None


def strip_hash(t):
    return t.lstrip('#')


def words(texts):
    out = []
    for t in texts:
        t = re.sub(r'^\s*[`~]{3,}', '', strip_hash(t.strip()))
        for w in re.split(r'\s+', t):
            w = w.strip('#') if not re.search(r'\w', w) else re.sub(
                '^[`~]{3,}', '', w)
            if not re.search(r'\w', w):
                continue
            if re.match(r'^\d+[.:)]$', w):
                continue
            out.append(w)
    return out


def comment_groups(items):
    """Comments with equal position, as
    [(position, [('l', [texts]) or ('b', text) ...])]"""
    groups = []
    for k, kind, text in cmk.comments(items):
        if groups and groups[-1][0] == k:
            groups[-1][1].append((kind, text))
        else:
            groups.append((k, [(kind, text)]))
    return groups


def canonical_switch(t):
    if cmk._OFF.match(t):
        return '# cmake-format: off'
    if cmk._ON.match(t):
        return '# cmake-format: on'
    return t


def c02(c):
    """Every comment, in place, with its words."""
    if c.oitems is None:
        return 'the output is not a listfile: %s' % c.scan_error
    a, b = comment_groups(c.items), comment_groups(c.oitems)
    markup = c.cfg.markup.enable_markup
    amap = dict(a)
    bmap = dict(b)
    for k in sorted(set(amap) | set(bmap)):
        x, y = amap.get(k, []), bmap.get(k, [])
        bx = [cmk.norm(t) for kd, t in x if kd == 'bcomment']
        by = [cmk.norm(t) for kd, t in y if kd == 'bcomment']
        if bx != by:
            return ('bracket comments before element %d: %s became %s'
                    % (k, short(bx), short(by)))
        # the text between two bracket comments
        ax, ay = runs(x), runs(y)
        if len(ax) != len(ay):
            return 'comment order changed before element %d' % k
        for p, q in zip(ax, ay):
            p = [canonical_switch(t) for t in p]
            q = [canonical_switch(t) for t in q]
            if markup:
                if words(p) != words(q):
                    return ('words of the comments before element %d: %s '
                            'became %s' % (k, short(p), short(q)))
            elif [t.strip() for t in p] != [t.strip() for t in q]:
                return ('comments before element %d: %s became %s'
                        % (k, short(p), short(q)))
    return None


def runs(x):
    out = [[]]
    for kd, t in x:
        if kd == 'bcomment':
            out.append([])
        else:
            out[-1].append(t)
    return out


def c03(c):
    """Verbatim regions."""
    if c.oitems is None:
        return 'the output is not a listfile: %s' % c.scan_error
    a = cmk.regions(c.text, c.items)
    b = cmk.regions(c.out, c.oitems)
    if len(a) != len(b):
        return '%d verbatim regions became %d' % (len(a), len(b))
    for i, ((s, e, t), (s2, e2, t2)) in enumerate(zip(a, b)):
        x, y = c.text[s:e], c.out[s2:e2]
        # the comment line itself may be rewritten up to its end
        x2, y2 = x[x.find('\n') + 1:], y[y.find('\n') + 1:]
        if '\n' not in x or '\n' not in y:
            x2, y2 = x, y
        if not t:
            # to the end of the file: a final newline may be supplied
            if not (y2 == x2 or y2 in (x2 + '\n', x2 + '\r\n')):
                return ('region %d (to the end of the file): %s became %s'
                        % (i, short(x2), short(y2)))
        elif x2 != y2:
            return 'region %d: %s became %s' % (i, short(x2), short(y2))
    # nothing duplicated or dropped around the regions
    r = c01(c)
    if r:
        return 'around the regions: ' + r
    return None


def outside(c):
    """Lines of the output outside verbatim regions (and the marker line's
    remainder)."""
    out = c.out
    reg = cmk.regions(out, c.oitems or [])
    keep = []
    pos = 0
    cuts = []
    for s, e, t in reg:
        cuts.append((s, e))
    lines = []
    i = 0
    for line in out.split('\n'):
        j = i + len(line)
        if not any(s < j + 1 and i < e for s, e in cuts):
            lines.append(line)
        i = j + 1
    return lines


def c04(c):
    if not c.valid:
        return None
    if c.oitems is None:
        return None
    w = c.cfg.format.line_width
    for line in outside(c):
        line = line[:-1] if line.endswith('\r') else line
        if len(line) > w:
            return ('layout reported valid but a line has %d > %d columns: %s'
                    % (len(line), w, short(line)))
    return None


def multiline_cuts(c):
    """Spans of multi-line arguments and bracket comments of the output."""
    return [(it.start, it.end) for it in c.oitems
            if it.kind in ('quoted', 'bracket', 'bcomment', 'unquoted')
            and '\n' in it.text]


def c07(c):
    out = c.out
    if out.startswith('\ufeff') != bool(c.cfg.encode.emit_byteorder_mark):
        return 'byte-order mark is %s' % out.startswith('\ufeff')
    body = out[1:] if out.startswith('\ufeff') else out
    if '\ufeff' in body and '\ufeff' not in c.text[1:]:
        return 'a byte-order mark inside the text'
    if not body.endswith('\n'):
        return 'no final newline: %s' % short(body[-20:])
    if c.oitems is None:
        return None
    endl = c.endl
    reg = cmk.regions(out, c.oitems)
    i = 0
    parts = out.split('\n')
    for n, line in enumerate(parts):
        j = i + len(line)
        # line is out[i:j], its ending (if any) is at j
        inreg = any(s < j + 1 and i < e for s, e, _ in reg)
        if not inreg and n < len(parts) - 1:
            cr = line.endswith('\r')
            if endl == '\n' and cr or endl == '\r\n' and not cr:
                return 'line %d ends with %s, not %s' % (
                    n + 1, short(line[-1:] + '\n'), short(endl))
            t = line[:-1] if cr else line
            if '\r' in t:
                return 'line %d contains a carriage return: %s' % (
                    n + 1, short(t))
            if t != t.rstrip(' \t'):
                return 'line %d has trailing blanks: %s' % (n + 1, short(t))
        i = j + 1
    return None


CTRL = None


def c13(c, kinds):
    """kinds: per argument element of the input whether the command's
    specification recognises it as keyword/flag (from the parse tree)."""
    if c.oitems is None:
        return None
    a = [it for it in c.items if not cmk.is_comment(it)]
    b = [it for it in c.oitems if not cmk.is_comment(it)]
    if len(a) != len(b):
        return None          # C01
    reg = cmk.regions(c.text, c.items)
    for x, y in zip(a, b):
        verb = any(s <= x.start < e for s, e, _ in reg)
        if verb:
            if x.text != y.text:
                return 'verbatim %s became %s' % (short(x), short(y))
            continue
        if x.kind == 'name':
            want = command_case(c, x.text)
            if want is not None and y.text != want:
                return 'command %s became %s, not %s' % (
                    short(x.text), short(y.text), short(want))
        elif x.kind == 'unquoted':
            kc = c.cfg.format.keyword_case
            iskw = kinds.get(x.start)
            want = x.text
            if iskw and kc in ('lower', 'upper'):
                want = getattr(x.text, kc)()
            if y.text != want:
                return '%s %s became %s, not %s' % (
                    'keyword' if iskw else 'argument', short(x.text),
                    short(y.text), short(want))
        elif x.kind in ('quoted', 'bracket'):
            # never recased (a quoted keyword keeps its spelling)
            if cmk.norm(x.text) != cmk.norm(y.text):
                return '%s became %s' % (short(x.text), short(y.text))
    return None


def command_case(c, name):
    fmt = c.cfgd.get('format', {})
    case = fmt.get('command_case', 'canonical')
    pc = c.cfgd.get('misc', {}).get('per_command', {}).get(name.lower(), {})
    case = pc.get('command_case', case)
    if case == 'lower':
        return name.lower()
    if case == 'upper':
        return name.upper()
    if case == 'unchanged':
        return name
    user = c.cfgd.get('parse', {}).get('additional_commands', {})
    for k, v in user.items():
        if k.lower() == name.lower():
            return v.get('spelling', k)
    return BUILTIN_SPELLING.get(name.lower(), name.lower())


BUILTIN_SPELLING = {}
