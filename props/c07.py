"""C07: line endings, trailing blanks, final newline and BOM."""
from . import base, fmtbase

LE = {'line_ending': lambda r: r.choice(('auto', 'windows', 'unix', 'auto'))}


class Check(fmtbase.FmtCheck):
    prop = 'C07'
    technique = base.TECHNIQUE % (
        'the line ending chosen by process_file is the one every line '
        'break is written with')
    level_note = (
        'detect_line_endings, set_line_ending, process_file (which '
        'configuration the tree is written with, the byte-order mark), '
        'CursorFile.write_at (line breaks are the configured ending, '
        'padding only in front of text), write_tree and getvalue (final '
        'newline) are under contract for all inputs. '
        'normalize_line_endings, one regular expression, is checked '
        'exhaustively up to a bound. That no line of a reflowed comment '
        'ends in a blank is covered by the bounded falsifier only.')
    modules = ('writing', 'effects')
    groups = ('endings', 'output')
    oracles = ('c07',)
    quick_cases = 9000
    thorough_cases = 60000
    mixes = [(2, {'trailing': .3, 'multi': .1}, {'format': LE}),
             (2, {'newline': '\r\n', 'multi': .2, 'bcomments': .1},
              {'format': LE}),
             (2, {'newline': 'mixed', 'multi': .2, 'bcomments': .1},
              {'format': LE}),
             (1, {'newline': 'mixed', 'onoff': .2, 'unterminated': .3},
              {'format': LE}),
             (1, {'comments': .4, 'markup': .3, 'bcomments': .1},
              {'format': LE}),
             (1, {'multi': .2}, {'format': dict(LE, use_tabchars=True)})]

    def make(self, seed):
        text, cfgd = fmtbase.FmtCheck.make(self, seed)
        if seed % 5 == 0:
            cfgd.setdefault('encode', {})['emit_byteorder_mark'] = True
        if seed % 7 == 0:
            text = '\ufeff' + text
        return text, cfgd
