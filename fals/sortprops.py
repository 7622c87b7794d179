"""Oracle for argument sorting.

What the output must contain is computed from the input: the argument lists
are those of the real parser (their grouping is the subject of C18), whether
a list is sorted is decided here from the options, the annotation comments
and the documentation, and so is the resulting order."""
import re

from . import cmk, env, fmtprops

_LINE = re.compile(r'#\s*(?:cmake-format|cmf): ([^\n]*)')
_BRACKET = re.compile(r'#\[(=*)\[(?:cmake-format|cmf):(.*)\]\1\]')


def tag(text):
    m = _BRACKET.match(text)
    if m:
        return m.group(2).strip().lower()
    m = None if re.match(r'#\[=*\[', text) else _LINE.match(text)
    return m.group(1).strip().lower() if m else None


def tree(text, cfg):
    lex, parse = env.mod('cmakelang.lex'), env.mod('cmakelang.parse')
    funs = env.mod('cmakelang.parse.funs')
    db = env.mod('cmakelang.parse.funs').get_parse_db()
    db.update(funs.get_funtree(cfg.parse.fn_spec))
    ctx = parse.ParseContext(db, config=cfg)
    return parse.parse(lex.tokenize(text), ctx)


def tokens(node):
    if not hasattr(node, 'children'):
        return [node]
    out = []
    for c in node.children:
        out += tokens(c)
    return out


def name(node):
    return getattr(getattr(node, 'node_type', None), 'name', None)


def semantic(node):
    return [t for t in tokens(node)
            if t.type.name not in ('WHITESPACE', 'NEWLINE')]


def annotation(texts):
    """The last sort annotation among comments: True, False or None."""
    out = None
    for t in texts:
        g = tag(t)
        if g in ('sort', 'sortable'):
            out = True
        elif g in ('unsort', 'unsortable'):
            out = False
    return out


class Mixed(Exception):
    """The documentation does not say what happens here."""


def sortable(node, stmt, parents):
    """Is this list of arguments to be sorted (if sorting is enabled)?"""
    toks = semantic(node)
    comments = ('COMMENT', 'BRACKET_COMMENT', 'FORMAT_ON', 'FORMAT_OFF')
    lead = []
    for t in toks:
        if t.type.name not in comments:
            break
        lead.append(t.spelling)
    fun = semantic(stmt)[0].spelling.lower()
    if fun in ('add_library', 'add_executable') and 'file-list' in node.tags:
        # inherently sortable, if the arguments before the sources are known
        before = []
        for t in semantic(stmt)[2:]:
            if toks and t is toks[0]:
                break
            before.append(t)
        # the annotations between the name and the first source
        while before and before[0].type.name in comments:
            before.pop(0)       # says something about the name
        an = annotation([t.spelling for t in before
                         if t.type.name in comments] + lead)
        if an is not None:
            return an
        # the arguments which tell the form of the command
        args = [t for t in semantic(stmt)[2:]
                if t.type.name not in comments][1:3]
        if fun == 'add_executable':
            args = args[:1]
        return not any('${' in t.spelling for t in args)
    an = annotation(lead[:1])
    if an is not None:
        return an
    spec = bool(node.spec is not None and node.spec.sortable)
    return spec


def expected(text, cfg):
    """The start offsets of the tokens of text in the order in which they
    have to appear."""
    on = cfg.format.enable_sort and cfg.format.autosort
    out = []

    def walk(node, stmt, parents):
        if not hasattr(node, 'children'):
            if node.type.name not in ('WHITESPACE', 'NEWLINE'):
                out.append(node)
            return
        kids = list(node.children)
        if name(node) == 'STATEMENT':
            stmt = node
        if name(node) == 'PARGGROUP' and hasattr(node, 'sortable') and \
                stmt is not None:
            switch = any(t.type.name in ('FORMAT_ON', 'FORMAT_OFF')
                         for k in kids if name(k) == 'ONOFFSWITCH'
                         for t in tokens(k))
            s = sortable(node, stmt, parents)
            if s != bool(node.sortable) and not switch:
                raise Wrong('the list %s is %ssortable, but it was taken to '
                            'be %ssortable' % (fmtprops.short(' '.join(
                                t.spelling for t in semantic(node))),
                                '' if s else 'not ',
                                '' if node.sortable else 'not '))
            if on and s and not switch:
                runs = [[]]
                for k in kids:
                    if name(k) == 'ARGUMENT':
                        runs.append([])
                    runs[-1].append(k)
                first = runs.pop(0)
                runs.sort(key=lambda r: semantic(r[0])[0].spelling.lower())
                kids = first + [k for r in runs for k in r]
        for k in kids:
            walk(k, stmt, parents + [node])
    walk(tree(text, cfg), None, [])
    return out


class Wrong(Exception):
    pass


def reordered(c):
    """The items of the input in their expected order."""
    order = expected(c.text, c.cfg)
    at = {}
    for i, t in enumerate(order):
        at[t.begin.offset] = i
    items = []
    pos = -1
    off = done = 0
    for n, it in enumerate(c.items):
        off += len(c.text[done:it.start].encode('utf-8'))
        done = it.start
        p = at.get(off)
        if p is None:
            # not a token of its own: stays behind the one it follows
            p = pos
        pos = p
        items.append((p, n, it))
    items.sort(key=lambda x: x[:2])
    return [it for _, _, it in items]


def c14(c):
    try:
        items = reordered(c)
    except Wrong as ex:
        return str(ex)
    moved = [a.start for a in items] != [a.start for a in c.items]
    c.moved = moved
    saved = c.items
    c.items = items
    try:
        d = fmtprops.c01(c) or fmtprops.c02(c)
    finally:
        c.items = saved
    return d and ('with the order the arguments must have: ' + d)
