"""C20: Structural lint checks are exact."""
from . import base, lintbase


class Check(lintbase.LintCheck):
    prop = 'C20'
    technique = base.TECHNIQUE % (
        'each structural check records its code for an arbitrary node, '
        'parameter or keyword exactly if it has the defect, and every node '
        'of the tree is seen by the check for its kind')
    level_note = (
        'LintChecker.check_is_in_loop (against a recursive definition of '
        '"inside a loop"), FlowControlNode.get_block_with, '
        'check_argument_names and check_arggroup (for the parameter or '
        'keyword at an arbitrary position), check_tree, check_statement, '
        'check_flow_control with check_fundef, check_macrodef and check_defn, '
        'TreeNode.build_ancestry and lint.process_file are under contract '
        'for all inputs. That the parser puts the right tokens and blocks '
        'into the nodes is covered by the bounded falsifier.')
    modules = ('linting', 'lintchecks')
    groups = ('structure', 'lintfile')
    oracle_fn = 'c20'
    gen_opts = [{'dirt': 0.0}, {'dirt': 0.0, 'flow': .7}]
