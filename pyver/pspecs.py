"""Bounded stand-ins for the functions that read a specification (C18)."""
import itertools

from pyver.contract import bounded

from cmakelang.common import UserError

UTIL = 'cmakelang.parse.util:'
NARGS = [0, 1, 2, 17, '0', '1', '3', '12', '*', '+', '?', '1+', '2+', '0+']


def means(n):
    """How a declared arity is to be read."""
    return int(n) if isinstance(n, str) and n.isdigit() else n


@bounded('pspec', UTIL + 'PositionalSpec', 'PositionalSpec()',
         'every arity of %r, with and without flags' % (NARGS,))
def arity(cls):
    n = 0
    for x in NARGS:
        for flags in (None, [], ['A', 'B']):
            s = cls(x, flags=flags)
            n += 1
            if s.nargs != means(x) or type(s.nargs) is not type(means(x)):
                return n, 'PositionalSpec(%r).nargs is %r' % (x, s.nargs)
            if list(s.flags) != (flags or []):
                return n, 'PositionalSpec(flags=%r).flags is %r' % (
                    flags, s.flags)
    return n, None


def decls():
    for x in NARGS:
        yield x, means(x), []
        yield {'nargs': x}, means(x), []
        yield {'nargs': x, 'flags': ['F'], 'tags': ['t']}, means(x), ['F']
        yield (x,), means(x), []
        yield [x, True], means(x), []
        yield [x, {'flags': ['G']}], means(x), ['G']
    yield {'flags': ['F']}, '*', ['F']
    yield {}, '*', []


@bounded('pspec', UTIL + 'parse_pspec', 'parse_pspec()',
         'every form of a declaration with every arity of %r: alone, and in '
         'lists of up to two' % (NARGS,))
def pspec(fn):
    n = 0

    def check(pargs, flags, want):
        got = [(s.nargs, list(s.flags)) for s in fn(pargs, flags)]
        if got != want:
            return 'parse_pspec(%r, %r) is %r, expected %r' % (
                pargs, flags, got, want)
    for x in NARGS:
        for flags in (None, [], ['A', 'B']):
            n += 1
            bad = check(x, flags, [(means(x), flags or [])])
            if bad:
                return n, bad
    n += 1
    bad = check(None, None, [('*', [])])
    if bad:
        return n, bad
    ds = list(decls())
    for d, a, f in ds:
        forms = [[d]] + ([d] if isinstance(d, dict) else [])
        for p in forms:
            n += 1
            bad = check(p, None, [(a, f)])
            if bad:
                return n, bad
    for (d, a, f), (e, b, g) in itertools.product(ds, ds):
        n += 1
        bad = check([d, e], None, [(a, f), (b, g)])
        if bad:
            return n, bad
        n += 1
    try:
        fn([1, 2], ['A'])
        return n, 'flags beside a list of declarations are not refused'
    except UserError:
        return n, None
