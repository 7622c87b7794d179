"""C14: sorting only permutes, correctly, and only when asked."""
from fals import env, sortprops
from . import base, fmtbase


class Check(fmtbase.FmtCheck):
    prop = 'C14'
    technique = base.TECHNIQUE % (
        'sort_arguments returns a permutation in which two arbitrary children '
        'are in the order of the lower-cased spellings of the arguments they '
        'follow, what follows the same argument (or none) keeps its order '
        'and equal spellings keep theirs; PargGroupNode.lock applies it '
        'to sortable lists with sorting enabled only')
    level_note = (
        'sort_arguments with filename_node_key (inlined) and '
        'PargGroupNode.lock are discharged for every list and option value; '
        'the order contract takes two arbitrary children, each once in the '
        'list, over an abstract string order. That no other node changes the '
        'order of its children follows from the ordering contracts of groups '
        'tree and reflow (C01). Which lists the parser marks sortable is '
        'decided by the falsifier only.')
    assumptions = fmtbase.FmtCheck.assumptions + (
        'sorted() returns a stable permutation in the order of the keys, and '
        'raises where it would have to compare two nodes (proved not to '
        'happen)',
        'a list holds no layout node twice (sort order contract)',
        'the first child of an ARGUMENT parse node is its token (C06)')
    modules = ('formatting', 'writing', 'sorting')
    groups = ('sort', 'tree', 'reflow')
    oracles = ('c14',)
    nosort = False
    quick_cases = 5000
    thorough_cases = 60000
    rule = fmtbase.FmtCheck.rule + (
        '; lists of files with sort annotations, comments and switched-off '
        'regions, sorting enabled or not')
    S = {'autosort': lambda r: r.random() < .8,
         'enable_sort': lambda r: r.random() < .9}
    mixes = [(4, {'sortcmd': .8, 'comments': .12, 'bcomments': .04},
              {'format': S}),
             (2, {'sortcmd': .9, 'comments': .25, 'bcomments': .1},
              {'format': S}),
             (1, {'sortcmd': .8, 'argonoff': .05}, {'format': S}),
             (2, {'tags': .2}, {'format': S})]

    def oracle(self, o, c):
        return sortprops.c14(c)
