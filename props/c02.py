"""C02: comments survive formatting."""
from . import base, fmtbase


class Check(fmtbase.FmtCheck):
    prop = 'C02'
    technique = base.TECHNIQUE % (
        'comment nodes and comments attached to arguments are laid out '
        'and written exactly once, and line comments end their line')
    level_note = (
        'CommentNode._reflow/write, the comment part of ScalarNode, '
        'has_terminal_comment, is_line_comment and the ordering '
        'contracts of every composite node are discharged for all '
        'inputs. For own-line comments, markup.parse, format_item(s), '
        'get_comment_lines and format_comment_lines keep the words of the '
        'comment in their order (line for line when markup is disabled); '
        'textwrap is an assumed dependency.')
    modules = ('formatting', 'writing', 'markups')
    groups = ('reflow', 'tree', 'output', 'markup')
    oracles = ('c02',)
    quick_cases = 9000
    thorough_cases = 60000
    mixes = [(4, {'comments': .3, 'bcomments': .08}, {}),
             (3, {'comments': .3, 'bcomments': .08, 'markup': .3}, {}),
             (3, {'comments': .1, 'blocks': .5}, {}),
             (1, {'comments': .3, 'bcomments': .1, 'tags': .1}, {}),
             (1, {'comments': .2, 'bcomments': .1, 'paren': .2,
                  'flow': .5}, {}),
             (1, {'comments': .3, 'bcomments': .2, 'newline': 'mixed'},
              {'format': {'line_ending':
                          lambda r: r.choice(('auto', 'windows'))}}),
             (1, {'comments': .2, 'onoff': .1, 'argonoff': .03}, {})]
