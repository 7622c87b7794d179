"""C12: Line-level lint checks are exact."""
from . import base, lintbase


class Check(lintbase.LintCheck):
    prop = 'C12'
    technique = base.TECHNIQUE % (
        'check_basics records each line defect on an arbitrary line exactly '
        'if that line has it')
    level_note = (
        'LintChecker.check_basics is proved for every text, every '
        'configuration and an arbitrary line, in terms of the length, the '
        'leading blanks and the last character of the line (Python string '
        'methods on it are assumed); lint.process_file is proved to run it '
        'on the text itself with the configured or detected line ending.')
    modules = ('linting',)
    groups = ('lines', 'lintfile')
    oracle_fn = 'c12'
    gen_opts = [{}, {'dirt': .6}, {'newline': 'mixed'}]
