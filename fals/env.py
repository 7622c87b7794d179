"""Access to the real code under /repo (never a copy)."""
import importlib
import logging
import os
import signal
import sys

sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
for p in (REPO,):
    if p not in sys.path:
        sys.path.insert(0, p)
SP = '/opt/venv/lib/python3.12/site-packages'
if SP not in sys.path:
    sys.path.append(SP)
logging.disable(logging.CRITICAL)



def load_jinja():
    """The jinja2 the program runs with (it needs its own markupsafe), or
    None."""
    for n in [m for m in sys.modules
              if m.split('.')[0] in ('jinja2', 'markupsafe')
              and 'jinja2' not in sys.modules]:
        del sys.modules[n]
    sys.path.insert(0, SP)
    try:
        import jinja2
        return jinja2
    except ImportError:
        return None
    finally:
        sys.path.remove(SP)
        if SP not in sys.path:
            sys.path.append(SP)


_mods = {}


def mod(name):
    if name not in _mods:
        _mods[name] = importlib.import_module(name)
    return _mods[name]


def config(d):
    """A Configuration from a nested or flat dict of options."""
    import copy
    return mod('cmakelang.configuration').Configuration(**copy.deepcopy(d))


def fmt(text, cfg):
    """(formatted text, valid) of the real formatter; raises what it does."""
    return mod('cmakelang.format.__main__').process_file(cfg, text)


class Rejected(Exception):
    """The formatter does not accept the input."""
    cause = None


class TooSlow(BaseException):
    """The layout search takes too long for a bounded check.  (No Exception:
    the code under test must not take it for a failure of its own.)"""


def _alarm(sig, frame):
    raise TooSlow()


def limited(f, *a):
    """Runs f with a limit of CPU time (the same on a busy machine)."""
    old = signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, LIMIT)
    try:
        return f(*a)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


LIMIT = 1.0


def try_fmt(text, cfg):
    try:
        return limited(fmt, text, cfg)
    except TooSlow:
        raise Rejected('too slow')
    except Exception as ex:
        err = Rejected('%s: %s' % (type(ex).__name__, str(ex)[:200]))
        err.cause = ex
        raise err


def accepted(text, cfg):
    """Whether a text is a listfile for the formatter: it can be tokenized
    and parsed, and its blocks are closed (the parser fails on a foreach()
    without an endforeach(), but not on an if() without an endif())."""
    lex, parse = mod('cmakelang.lex'), mod('cmakelang.parse')

    def go():
        toks = lex.tokenize(text)
        lex.get_first_non_whitespace_token(toks)
        db = parse.funs.get_parse_db()
        db.update(parse.funs.get_funtree(cfg.parse.fn_spec))
        return closed(parse.parse(
            toks, parse.ParseContext(db, config=cfg)))

    def closed(node):
        kids = [k for k in node.children if hasattr(k, 'children')]
        if node.node_type.name == 'FLOW_CONTROL' and \
                kids[-1].node_type.name == 'BODY':
            return False
        return all(closed(k) for k in kids)
    try:
        return limited(go)
    except (Exception, TooSlow):
        return False
