"""C01: formatting never changes what a listfile means."""
from . import base, fmtbase


class Check(fmtbase.FmtCheck):
    prop = 'C01'
    technique = base.TECHNIQUE % (
        'every child laid out and written exactly once, in order and '
        'apart')
    level_note = (
        'The layout side (_reflow of every node class: children laid '
        'out once, in order, no two glued together, none behind a line '
        'comment; lock; create_box_tree) and the output side (write of '
        'every node class, write_at, write_tree) are under contract for '
        'every tree, every configuration and all iterations. That the '
        'parts compose (C06 for the parse tree, these contracts for '
        'layout and output) into the statement is an argument in '
        'DESIGN.md, not a machine-checked lemma; the text of a quoted '
        'or bracket argument inside normalize_line_endings is specified '
        'under C07. The end-to-end statement is also searched by a '
        'bounded falsifier that formats random listfiles with the real '
        'code and compares them with an independent scanner.')
    modules = ('formatting', 'writing')
    groups = ('reflow', 'tree', 'output')
    oracles = ('c01',)
    quick_cases = 9000
    thorough_cases = 60000
    mixes = [(5, {}, {}), (2, {'argonoff': .05, 'onoff': .1}, {}),
             (2, {'multi': .2, 'rare': .1, 'newline': 'mixed'}, {}),
             (1, {'newline': '\r\n', 'multi': .1}, {}),
             (1, {'comments': .35, 'bcomments': .1}, {}),
             (1, {'paren': .2, 'flow': .5}, {}),
             (1, {'multi': .1}, {'format': {
                 'use_tabchars': True,
                 'line_ending': lambda r: r.choice(('auto', 'windows'))}})]
