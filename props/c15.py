"""C15: tab indentation rewrites leading blanks only."""
from fals import cmk, env, fmtprops
from . import base, fmtbase

TAB = {'use_tabchars': True,
       'fractional_tab_policy': lambda r: r.choice(('use-space', 'round-up')),
       'tab_size': lambda r: r.choice((1, 2, 3, 4, 8))}


class Check(fmtbase.FmtCheck):
    prop = 'C15'
    technique = base.TECHNIQUE % (
        'replace_with_tabs and CursorFile.write_at change leading '
        'blanks the formatter wrote and nothing else')
    level_note = (
        'count_indentation, replace_with_tabs and the write path are '
        'proved for every text, tab size and policy.')
    modules = ('formatting', 'writing')
    groups = ('indent', 'output')
    oracles = ('c15',)
    quick_cases = 5000
    thorough_cases = 40000
    mixes = [(3, {}, {'format': TAB}), (1, {'multi': .2}, {'format': TAB}),
             (1, {'onoff': .2, 'argonoff': .05}, {'format': TAB}),
             (1, {'flow': .6, 'depth': 4}, {'format': TAB}),
             (1, {'comments': .3, 'bcomments': .15}, {'format': TAB})]

    def oracle(self, o, c):
        d = dict(c.cfgd)
        d['format'] = dict(d.get('format', {}), use_tabchars=False)
        try:
            sp, _ = env.try_fmt(c.text, env.config(d))
        except env.Rejected:
            return None
        if '\t' in sp and '\t' not in c.text:
            return 'tabs appear although use_tabchars is off'
        a, b = c.out.split('\n'), sp.split('\n')
        if len(a) != len(b):
            return 'with tabs the output has %d lines, not %d' % (
                len(a), len(b))
        ts = c.cfg.format.tab_size
        pol = c.cfg.format.fractional_tab_policy
        items = cmk.scan(sp)
        inner = set()
        for it in items:
            if it.kind in ('quoted', 'bracket', 'bcomment', 'unquoted') and \
                    '\n' in it.text:
                l0 = sp.count('\n', 0, it.start)
                inner.update(range(l0 + 1, l0 + 1 + it.text.count('\n')))
        for s, e, _ in cmk.regions(sp, items):
            l0 = sp.count('\n', 0, s)
            inner.update(range(l0 + 1, sp.count('\n', 0, e) + 1))
        for i, (x, y) in enumerate(zip(a, b)):
            want = y
            if i not in inner:
                n = len(y) - len(y.lstrip(' '))
                q, f = divmod(n, ts)
                want = '\t' * q + ('' if not f else ' ' * f
                                   if pol == 'use-space' else '\t') + y[n:]
            if x != want:
                return ('line %d: %s with spaces became %s with tabs, not %s'
                        % (i + 1, fmtprops.short(y), fmtprops.short(x),
                           fmtprops.short(want)))
        return None
