"""C11: Lint suppression hides exactly what was asked."""
from . import base, lintbase


class Check(lintbase.LintCheck):
    prop = 'C11'
    technique = base.TECHNIQUE % (
        'a lint record is reported exactly unless its code is disabled or, '
        'at its line, more suppressions of its code began than ended')
    level_note = (
        'FileContext.suppress, unsuppress, record_lint and get_lint (for an '
        'arbitrary code and an arbitrary record) and lint.process_file are '
        'under contract for all inputs; LintChecker.check_body, '
        'check_comment, parse_pragmas_from_comment and '
        'parse_pragmas_from_token (from which line to which line a pragma '
        'counts, for which codes) are under contract for all inputs as '
        'well. '
        'The assembly of the tree they walk and the texts of comment tokens '
        'are covered by the bounded falsifier.')
    modules = ('linting', 'lintchecks')
    groups = ('suppress', 'pragmas', 'lintfile')
    oracle_fn = 'c11'
    gen_opts = [{'pragmas': .5, 'comments': .25},
                {'pragmas': .3, 'comments': .4, 'flow': .6}]
