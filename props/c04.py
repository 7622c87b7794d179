"""C04: a layout reported valid fits the configured line width."""
from . import base, fmtbase


class Check(fmtbase.FmtCheck):
    prop = 'C04'
    technique = base.TECHNIQUE % (
        'a valid layout implies column extent <= line width and the '
        'extent covers every written line')
    level_note = (
        'reflow / _reflow / _validate_layout of every node class are '
        'under contract: valid implies all children valid, the extent '
        'covers every child and every line of a token, and is at most '
        'the line width. The last part of the statement (no output when '
        'no valid layout was found) is a contract on onefile_main.')
    modules = ('formatting', 'writing', 'effects')
    groups = ('reflow', 'reflow-main')
    oracles = ('c04',)
    quick_cases = 9000
    thorough_cases = 60000
    mixes = [(4, {}, {}), (2, {'multi': .2}, {}),
             (2, {'comments': .3, 'bcomments': .1}, {}),
             (1, {'flow': .6, 'depth': 4, 'paren': .2}, {}),
             (1, {'onoff': .1, 'argonoff': .03}, {}),
             (2, {'comments': .2}, {'format': {
                 'line_width': lambda r: r.randint(12, 45)}}),
             (1, {'comments': .25, 'bcomments': .08, 'atword': .25,
                  'trailing': .4, 'depth': 1}, {'format': {
                 'line_width': lambda r: r.randint(6, 30)}})]
