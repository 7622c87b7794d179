"""C03: regions between format off and on are copied byte for byte."""
from . import base, fmtbase


class Check(fmtbase.FmtCheck):
    prop = 'C03'
    technique = base.TECHNIQUE % (
        'write_tree, OnOffSwitchNode.write and '
        'WriteContext.read_disabled copy exactly the input between the '
        'switches')
    level_note = (
        'For every input text, every offset of the two switches and '
        'every tree: what is appended to the output for a disabled '
        'region is the slice of the input, and nothing else is written '
        'while the formatter is off. Which comments are recognised as '
        'switches is decided by the lexer and is covered by the bounded '
        'falsifier.')
    modules = ('formatting', 'writing')
    groups = ('output', 'tree')
    oracles = ('c03',)
    quick_cases = 9000
    thorough_cases = 60000
    mixes = [(4, {'onoff': .4, 'unterminated': .1}, {}),
             (3, {'argonoff': .15}, {}),
             (2, {'onoff': .3, 'argonoff': .1, 'unterminated': .2,
                  'multi': .2}, {}),
             (1, {'onoff': .3, 'argonoff': .05}, {'format': {
                 'use_tabchars': True,
                 'line_ending': lambda r: r.choice(('auto', 'windows',
                                                    'unix'))}}),
             (1, {'onoff': .4, 'newline': '\r\n', 'unterminated': .2},
              {'format': {'line_ending': lambda r: r.choice(
                  ('auto', 'windows', 'unix'))}})]

    def make(self, seed):
        text, cfgd = fmtbase.FmtCheck.make(self, seed)
        if seed % 11 == 0:
            text = '\ufeff' + text
        return text, cfgd
