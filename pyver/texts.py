"""Texts put together from known and unknown pieces.

Formatting (str.format, %, +, str(), f-strings) of unknown values is carried
out for real, on placeholders; what comes out is remembered as a list of
literal pieces and values, so that a contract can say what a text shows."""
import ast
import re

import z3

from . import models as M
from .values import *  # noqa


class Atom(object):
    """The rendering of an unknown value."""

    def __init__(self, v, how):
        self.v, self.how = v, how

    def __repr__(self):
        return '<%r>' % (self.v,)


class Ph(object):
    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s
    __repr__ = __str__

    def __format__(self, spec):
        return format(self.s, spec)


def texts(ip):
    return ip.p.ghost.setdefault('$texts', {})


def parts(ip, v):
    """The pieces of a text."""
    if isinstance(v, str):
        return [v] if v else []
    t = v.t
    k = texts(ip).get(t.get_id())
    if k is not None:
        return k[1]
    if z3.is_string_value(t):
        return [t.as_string()]
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        out = []
        for c in t.children():
            out += parts(ip, SStr(c))
        return merge(out)
    return [Atom(v, 's')]


def merge(ps):
    out = []
    for p in ps:
        if p == '':
            continue
        if out and isinstance(p, str) and isinstance(out[-1], str):
            out[-1] += p
        else:
            out.append(p)
    return out


def make(ip, ps):
    ps = merge(ps)
    if all(isinstance(p, str) for p in ps):
        return ''.join(ps)
    t = ip.p.fresh(StrS, 'text')
    texts(ip)[t.get_id()] = (t, ps)
    return SStr(t)


PHRE = re.compile('\x02(\\d+)\x03|90000(\\d\\d\\d)7')


def formatted(ip, f, args, kwargs):
    """f applied to placeholders for the unknown values."""
    vals = []

    def ph(v):
        if isinstance(v, tuple):
            return tuple(ph(x) for x in v)
        if not ip.is_sym(v) and not isinstance(v, (Obj, LList)):
            return v
        vals.append(v)
        k = len(vals) - 1
        if isinstance(v, SInt):
            return int('90000%03d7' % k)
        if isinstance(v, SStr):
            return '\x02%d\x03' % k
        return Ph('\x02%d\x03' % k)
    a = [ph(x) for x in args]
    kw = {n: ph(x) for n, x in kwargs.items()}
    try:
        s = f(*a, **kw)
    except Exception as ex:  # noqa
        raise PyExc(type(ex), ex)
    out, pos = [], 0
    for m in PHRE.finditer(s):
        out.append(s[pos:m.start()])
        v = vals[int(m.group(1) or m.group(2))]
        if isinstance(v, SStr):
            out += parts(ip, v)
        else:
            out.append(Atom(v, 'f'))
        pos = m.end()
    out.append(s[pos:])
    return make(ip, out)


class TextEngineMixin(object):
    def str_method(self, ip, v, name):
        if name == 'format' and isinstance(v, str):
            return Builtin('format', lambda ip, a, k: formatted(
                ip, v.format, a, k))
        if name == 'join':
            def join(ip, a, k):
                lst = self.as_list(ip, a[0])
                if not lst.explicit():
                    return SStr(ip.p.fresh(StrS, 'joined'))
                out = []
                for i, it in enumerate(lst.items):
                    if i:
                        out += parts(ip, v)
                    out += parts(ip, it.v)
                return make(ip, out)
            return Builtin('join', join)
        return super(TextEngineMixin, self).str_method(ip, v, name)

    def binop(self, ip, op, a, b):
        if isinstance(op, ast.Mod) and isinstance(a, str):
            return formatted(ip, lambda *xs: a % tuple(xs),
                             b if isinstance(b, tuple) else (b,), {})
        if isinstance(op, ast.Add) and isinstance(
                a, (str, SStr)) and isinstance(b, (str, SStr)):
            return make(ip, parts(ip, a) + parts(ip, b))
        return super(TextEngineMixin, self).binop(ip, op, a, b)

    def fstring(self, ip, template, args):
        return formatted(ip, template.format, args, {})

    def call_model(self, ip, f, args, kwargs):
        if f in (str, repr, format) and args and not isinstance(
                args[0], (str, SStr)) and ip.is_sym(args[0]):
            return (formatted(ip, f, args, {}),)
        return super(TextEngineMixin, self).call_model(ip, f, args, kwargs)


def show(ps):
    return ''.join(p if isinstance(p, str) else repr(p) for p in ps)
