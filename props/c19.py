"""C19: lint results are complete, ordered and reflected in the exit status."""
import json
import random
import re

from fals import clirun, env, gen, lintprops
from . import base

LM = 'cmakelang.lint.__main__'
NAMES = {'C': 'Convention', 'E': 'Error', 'R': 'Refactor', 'W': 'Warning'}
ROW = re.compile(r'^\s*(\w+): (\d+)$')
REC = re.compile(r'^([^:\n]+):((?:\d+(?:,\d+)?)?):? \[([A-Z]\d{4})\] (.*)$')


class Check(base.Check):
    prop = 'C19'
    technique = base.TECHNIQUE % (
        'get_lint returns every record that is not suppressed, in order; '
        'writeout writes each of them once; the counts of an arbitrary '
        'category and the exit status follow, for an arbitrary listed file')
    level_note = (
        'FileContext.get_lint, writeout, has_lint, suppress, unsuppress, '
        'record_lint, GlobalContext.get_file_ctx, get_category_counts, '
        'write_summary, lint inner_main (loop invariants about an arbitrary '
        'path) and main are under contract for all inputs; '
        'LintRecord.__repr__ and the categories of the lint database are '
        'enumerated (bounded). End to end, a bounded falsifier runs the '
        'real tool on several files in scratch directories.')
    modules = ('linting', 'lintchecks', 'lintmain')
    groups = ('suppress', 'lintmain')
    quick_cases = 5000
    thorough_cases = 60000
    rule = ('a seeded random run of the real cmake-lint on 0 to 5 listfiles '
            '(clean, with lint, suppressed lint, undecodable, missing, '
            'listed twice, standard input), with and without decorations '
            'and -o, in a scratch directory; non-trivial: at least one '
            'file; distinct: by files and options')
    assumptions = base.COMMON_ASSUMPTIONS + (
        'the file system does not change during a run',
        'sorted() sorts; textual formatting by str.format')

    def setup_cases(self):
        self.vocab = gen.vocabulary(env.mod)

    def plan(self, seed):
        r = random.Random('c19-%d' % seed)
        files = []
        for i in range(r.choice((0, 1, 1, 2, 2, 3, 4, 5))):
            x = r.random()
            n = 'f%d.cmake' % i
            if x < .06:
                files.append([n, None])
            elif x < .12:
                files.append([n, 'latin:set(a b)\n# \xfc\n'])
            elif x < .3:
                files.append([n, r.choice(('', 'set(a b)\n', '# hello\n'))])
            elif x < .4:
                files.append([n, 'set(a   b) \n'[:r.choice((10, 12))]
                              + '\n'])
            else:
                t = lintprops.generate(seed * 11 + i, self.vocab, pragmas=.3
                                       if r.random() < .5 else 0.0)[0]
                files.append([n, t[:1500]])
        names = [n for n, _ in files]
        listed = list(names)
        if names and r.random() < .2:
            listed.append(r.choice(names))
        stdin = bool(names) and r.random() < .08
        cfg = {}
        if r.random() < .4:
            cfg['line_width'] = r.choice((20, 40, 100))
        if r.random() < .3:
            cfg['disabled_codes'] = r.sample(lintprops.CODES, 3)
        return {'files': files, 'listed': listed, 'cfg': cfg,
                'plain': r.random() < .4, 'outfile': r.random() < .3,
                'stdin': stdin}

    def run_plan(self, pl):
        self.complete = True
        cfg = dict(pl['cfg'])
        full = {'lint': {}, 'format': {}}
        if 'disabled_codes' in cfg:
            full['lint']['disabled_codes'] = cfg['disabled_codes']
        if 'line_width' in cfg:
            full['format']['line_width'] = cfg['line_width']
        files = pl['files'][:1] if pl['stdin'] else pl['files']
        listed = ['-'] if pl['stdin'] else pl['listed']
        exp, seen, bad = [], {}, False
        data = {}
        for n, t in files:
            if t is None:
                data[n] = None
            elif t.startswith('latin:'):
                data[n] = t[6:].encode('latin-1')
            else:
                data[n] = t.encode('utf-8')
        counts = {}
        for n in listed:
            if n in seen:
                continue
            seen[n] = True
            d = data[files[0][0] if n == '-' else n]
            try:
                if d is None:
                    if n != '-':
                        raise UnicodeError
                    d = b''
                txt = d.decode('utf-8')
            except UnicodeError:
                bad = True
                continue
            try:
                run = lintprops.Lint(txt, full)
            except env.TooSlow:
                raise
            except Exception:
                self.complete = False
                return None          # cmake-lint does not complete
            recs = run.records
            exp.append((n, recs))
            for loc, code, msg in recs:
                counts[code[0]] = counts.get(code[0], 0) + 1
                bad = True
        with clirun.Scratch() as s:
            s.put('c.json', json.dumps(full).encode())
            for n, d in data.items():
                if d is not None:
                    s.put('w/' + n, d)
            s.put('w/x', b'')
            argv = ['-c', s.d + '/c.json']
            if pl['plain']:
                argv.append('--suppress-decorations')
            if pl['outfile']:
                argv += ['-o', 'report.txt']
            argv += ['--'] + listed
            stdin = b''
            if pl['stdin']:
                stdin = data[files[0][0]] or b''
            res = clirun.run(LM, argv, s.d + '/w', None, stdin)
            out = res.out
            if pl['outfile']:
                st = s.stat('w/report.txt')
                if st is None:
                    return 'no report was written'
                out = st[0]
        if res.exc is not None:
            return 'cmake-lint fails with %r' % res.exc
        return self.verdict(pl, exp, counts, bad, res.status,
                            out.decode('utf-8'))

    @staticmethod
    def verdict(pl, exp, counts, bad, status, out):
        if (status != 0) != bad:
            return 'exit status %d, but %s' % (
                status, 'there is something to report' if bad
                else 'nothing is reported and every file was read')
        want = []
        for n, recs in exp:
            for loc, code, msg in recs:
                l = ','.join('%02d' % x for x in loc[:2])
                want.append((n, l, code, msg))
            for a, b in zip(recs, recs[1:]):
                if a[0] > b[0]:
                    return '%s: findings out of order: %s, %s' % (n, a, b)
        got = []
        head, sep, tail = out.partition('Summary\n=======\n')
        if bool(sep) == pl['plain']:
            return 'summary %s' % ('shown although suppressed'
                                   if sep else 'missing')
        rest = head
        for n, l, code, msg in want:
            line = '%s:%s%s [%s] %s\n' % (n, l, ':' if l or True else '',
                                          code, msg)
            alt = '%s: [%s] %s\n' % (n, code, msg)
            for x in (line, alt):
                k = rest.find(x)
                if k >= 0:
                    rest = rest[k + len(x):]
                    break
            else:
                return 'not reported (in this order): %r in %r' % (
                    line, head[:500])
        for m in re.finditer(r'(?m)^(\S+):(\S*) \[([A-Z]\d{4})\] ', head):
            got.append((m.group(1), m.group(3)))
        if len(got) != len(want):
            return '%d findings reported, there are %d' % (
                len(got), len(want))
        if sep:
            rows = {}
            for ln in tail.split('\n'):
                m = ROW.match(ln)
                if m:
                    rows[m.group(1)] = int(m.group(2))
            w = {NAMES[k]: v for k, v in counts.items()}
            if rows != w:
                return 'the summary says %r, reported are %r' % (rows, w)
            if 'files scanned: %d\n' % len(exp) not in tail:
                return '%d files were scanned: %r' % (len(exp), tail[:60])
        return None

    def one(self, seed):
        pl = self.plan(seed)
        try:
            d = self.run_plan(pl)
        except env.TooSlow:
            return base.Outcome('too slow', nontrivial=False)
        v = None
        if d:
            pl, d = self.shrink(pl, d)
            v = base.Violation('%s\nrun: %s' % (d, json.dumps(pl)[:900]), pl)
        return base.Outcome(
            '%d files' % len(pl['files']) if self.complete
            else 'does not complete', base.digest(pl),
            bool(pl['files']) and self.complete, v, {k: pl[k] for k in (
                'listed', 'cfg', 'plain', 'outfile')})

    def shrink(self, pl, d):
        def attempt(**kw):
            q = dict(pl, **kw)
            try:
                return q, self.run_plan(q)
            except env.TooSlow:
                return q, None
        for i in reversed(range(len(pl['listed']))):
            q, e = attempt(listed=pl['listed'][:i] + pl['listed'][i + 1:])
            if e:
                pl, d = q, e
        for f in list(pl['files']):
            if f[0] in pl['listed'] or pl['stdin']:
                continue
            q, e = attempt(files=[x for x in pl['files'] if x is not f])
            if e:
                pl, d = q, e
        for i in range(len(pl['files'])):
            n, t = pl['files'][i]
            if not t:
                continue
            lines = t.split('\n')
            j = len(lines) - 1
            while j >= 0:
                ls = lines[:j] + lines[j + 1:]
                fs = [list(x) for x in pl['files']]
                fs[i][1] = '\n'.join(ls)
                q, e = attempt(files=fs)
                if e:
                    pl, d, lines = q, e, ls
                j -= 1
        return pl, d

    def replay(self, data):
        d = self.run_plan(data)
        return base.Violation(d, data) if d else None
