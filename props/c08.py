"""C08: the command line tool changes files only as asked."""
import json
import random

from fals import clirun, env, gen
from . import base

FM = 'cmakelang.format.__main__'
BAD = ['set(a b\n', 'foo(\n', 'if(a)\nendwhile()\n', 'a(b))\n',
       'function(f)\n']
NEAR = (
    lambda t: t.rstrip('\r\n'), lambda t: t + '\n',
    lambda t: t.replace('\n', '\r\n').replace('\r\r', '\r'),
    lambda t: t.replace('\r\n', '\n'), lambda t: t.replace('\n', ' \n', 1),
    lambda t: '\n' + t, lambda t: t.swapcase())


class Check(base.Check):
    prop = 'C08'
    technique = base.TECHNIQUE % (
        'effect traces of onefile_main, inner_main and main, with a '
        'possible failure at every call that leaves the program')
    level_note = (
        'onefile_main, inner_main and main are under contract for every '
        'command line, configuration, file content and number of files, '
        'and for a failure at every single external call: what is opened, '
        'written, closed, moved, in which order, with which text, mode and '
        'encoding, and what is raised. The effect of the external calls '
        '(a completed close has written the text, move replaces '
        'atomically) is assumed. The end-to-end statement is also searched '
        'by a bounded falsifier that runs the real tool in scratch '
        'directories with injected faults.')
    modules = ('effects',)
    groups = ('onefile', 'main')
    quick_cases = 3000
    thorough_cases = 40000
    rule = ('a seeded random run of the real command line tool (check, in '
            'place, to a file or standard output; several files, some '
            'already formatted, some rejected; encodings; permission bits; '
            'one injected fault) in a scratch directory; non-trivial: at '
            'least one file; distinct: by files, options and fault')
    assumptions = base.COMMON_ASSUMPTIONS + (
        'open/write/close/copymode/move of the standard library do what '
        'they are documented to do when they do not raise',)

    def setup_cases(self):
        self.vocab = gen.vocabulary(env.mod)

    def plan(self, seed):
        r = random.Random('c08-%d' % seed)
        cfg = {'line_width': r.choice((30, 60, 80, 100)),
               'tab_size': r.choice((2, 4))}
        if r.random() < .2:
            cfg['require_valid_layout'] = True
        if r.random() < .1:
            cfg['emit_byteorder_mark'] = True
        if r.random() < .2:
            cfg['line_ending'] = r.choice(('windows', 'auto'))
        if r.random() < .15:
            cfg['output_encoding'] = r.choice(('latin-1', 'ascii'))
        if r.random() < .05:
            cfg['disable'] = True
        files = []
        for i in range(r.choice((1, 1, 2, 3, 4))):
            x = r.random()
            if x < .12:
                t = r.choice(BAD)
            else:
                g = gen.Gen(seed * 7 + i, vocab=self.vocab)
                t = g.file()[:1500]
                if t.count('"') % 2 or r.random() < .1:
                    t = 'set(a   b)\n# ' + r.choice(
                        ('x', 'ünï', 'a b c')) + '\n'
                x = r.random()
                if x < .4:
                    t = 'FORMATTED:' + t
                elif x < .6:
                    # formatted but for one detail
                    t = 'NEAR%d:' % r.randrange(7) + t
            files.append([t, r.choice((0o644, 0o755, 0o600, 0o640))])
        mode = r.choice(('check', 'inplace', 'inplace', 'stdout', 'outfile',
                         'stdin'))
        if mode in ('outfile', 'stdin'):
            files = files[:1]
        fault = None
        if r.random() < .35:
            fault = [r.choice(clirun.Faults.KINDS), r.randrange(3),
                     r.random() < .5]
        latin = r.random() < .05
        return {'cfg': cfg, 'files': files, 'mode': mode, 'fault': fault,
                'latin': latin}

    def expected(self, text, cfgd):
        """(formatted text, valid) or None when the formatter fails"""
        try:
            return env.limited(env.fmt, text, env.config(cfgd))
        except Exception:
            return None

    def run_plan(self, pl):
        cfgd = dict(pl['cfg'])
        files, exp, raw = [], [], []
        for i, (t, m) in enumerate(pl['files']):
            if t.startswith(('FORMATTED:', 'NEAR')):
                kind, t = t.split(':', 1)
                e = self.expected(t, cfgd)
                if e:
                    t = e[0]
                    if kind != 'FORMATTED':
                        t = NEAR[int(kind[4:])](t)
            try:
                b = t.encode(cfgd.get('output_encoding', 'utf-8')
                             if pl['latin'] else 'utf-8')
            except UnicodeEncodeError:
                b = t.encode('utf-8')
            try:
                seen = b.decode('utf-8')
            except UnicodeDecodeError:
                seen = None
            e = None
            if seen is not None:
                e = self.expected(seen, cfgd)
            bad = e is None
            if e and cfgd.get('require_valid_layout') and not e[1]:
                bad = True
            eb = None
            if not bad:
                try:
                    eb = e[0].encode(cfgd.get('output_encoding', 'utf-8'))
                except UnicodeEncodeError:
                    eb = None
            files.append(('f%d.cmake' % i, b, m))
            exp.append((seen, None if bad else e[0], eb))
        with clirun.Scratch() as s:
            s.put('cfg/c.json', json.dumps(cfgd).encode())
            for n, b, m in files:
                s.put('w/' + n, b, m)
            s.put('w/out.txt', b'previous content', 0o644)
            before = {n: s.stat('w/' + n) for n, _, _ in files}
            l0 = s.listing()
            argv = ['-c', s.d + '/cfg/c.json']
            mode = pl['mode']
            stdin = b''
            if mode == 'check':
                argv.append('--check')
            elif mode == 'inplace':
                argv.append('-i')
            elif mode == 'outfile':
                argv += ['-o', 'out.txt']
            if mode == 'stdin':
                stdin = files[0][1]
                argv += ['--', '-']
            else:
                argv += ['--'] + [n for n, _, _ in files]
            flt = clirun.Faults(*pl['fault']) if pl['fault'] else None
            res = clirun.run(FM, argv, s.d + '/w', flt, stdin)
            after = {n: s.stat('w/' + n) for n, _, _ in files}
            outtxt = s.stat('w/out.txt')[0]
            l1 = s.listing()
        return self.verdict(pl, files, exp, before, after, res, outtxt, l0,
                            l1, flt)

    def verdict(self, pl, files, exp, before, after, res, outtxt, l0, l1,
                flt):
        mode = pl['mode']
        hit = flt is not None and flt.hit
        disabled = pl['cfg'].get('disable')
        sure = not hit and not disabled
        if mode == 'check':
            if before != after or l0 != l1 or \
                    outtxt != b'previous content':
                return 'check mode changed a file'
            good = all(e[1] is not None and e[0] == e[1] for e in exp)
            if sure and (res.status == 0) != good:
                return ('check: exit status %d, files already formatted: %r'
                        % (res.status, [e[1] is not None and e[0] == e[1]
                                        for e in exp]))
            if hit and res.status == 0 and not disabled:
                return 'check: exit status 0 although a call failed'
            return None
        if mode == 'inplace':
            for (n, b, m), e in zip(files, exp):
                x, y = before[n], after[n]
                if y is None:
                    return 'in place: %s is gone' % n
                if y[0] != x[0] and y[0] != e[2]:
                    return ('in place: %s holds neither its old text nor '
                            'the formatted text: %r' % (n, y[0][:200]))
                if y[1] != x[1]:
                    return 'in place: permissions of %s: %o -> %o' % (
                        n, x[1], y[1])
                if (e[1] is None or e[1] == e[0] or disabled) and x != y:
                    return ('in place: %s was touched although %s' % (
                        n, 'it cannot be formatted' if e[1] is None
                        else 'it needs no change'))
                if sure and res.exc is None and e[2] is not None and \
                        e[0] != e[1] and y[0] != e[2] and res.status == 0:
                    return 'in place: %s was not formatted: %r' % (
                        n, y[0][:200])
            need = any(e[1] is None or (e[2] is None and e[0] != e[1])
                       for e in exp)
            if not disabled and (need or hit) and res.status == 0:
                return 'in place: exit status 0 although something failed'
            odd = any(e[2] is None for e in exp)
            if sure and not need and not odd and res.status != 0:
                return 'in place: exit status %d, but nothing failed (%r)' \
                    % (res.status, res.exc)
            if not hit and l0 != l1:
                return 'in place: files left behind: %r' % sorted(
                    set(l1) - set(l0))
            return None
        # stdout, outfile, stdin
        if before != after:
            return '%s: an input file was changed' % mode
        bad = any(e[2] is None for e in exp)
        if not disabled and (bad or hit) and res.status == 0:
            return '%s: exit status 0 although something failed' % mode
        if sure and not bad:
            if res.status != 0:
                return '%s: exit status %d, but nothing failed (%r)' % (
                    mode, res.status, res.exc)
            want = b''.join(e[2] for e in exp)
            got = outtxt if mode == 'outfile' else res.out
            if got != want:
                return '%s: the output is not the formatted text: %r, ' \
                    'expected %r' % (mode, got[:300], want[:300])
        if mode == 'outfile':
            wr = hit and flt.kind in ('write', 'close')
            if (bad or disabled or hit) and not wr and outtxt not in (
                    b'previous content', exp[0][2]):
                return 'outfile: partial output %r' % outtxt[:200]
        elif mode == 'stdin' and bad and not hit and res.out:
            return 'partial output %r' % res.out[:200]
        return None

    def one(self, seed):
        pl = self.plan(seed)
        try:
            d = self.run_plan(pl)
        except env.TooSlow:
            return base.Outcome('too slow', nontrivial=False)
        v = None
        if d:
            pl, d = self.shrink(pl, d)
            v = base.Violation('%s\nrun: %s' % (d, json.dumps(pl)[:900]), pl)
        return base.Outcome(
            pl['mode'] + (' with fault' if pl['fault'] else ''),
            base.digest(pl), True, v, {k: pl[k] for k in (
                'cfg', 'mode', 'fault')})

    def shrink(self, pl, d):
        def attempt(**kw):
            q = dict(pl, **kw)
            try:
                e = self.run_plan(q)
            except env.TooSlow:
                e = None
            return q, e
        for i in reversed(range(len(pl['files']))):
            if len(pl['files']) > 1:
                q, e = attempt(files=pl['files'][:i] + pl['files'][i + 1:])
                if e:
                    pl, d = q, e
        for k in list(pl['cfg']):
            q, e = attempt(cfg={a: b for a, b in pl['cfg'].items()
                                if a != k})
            if e:
                pl, d = q, e
        if pl['fault']:
            q, e = attempt(fault=None)
            if e:
                pl, d = q, e
        return pl, d

    def replay(self, data):
        d = self.run_plan(data)
        return base.Violation(d, data) if d else None
