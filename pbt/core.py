"""Harness shared by all property checks.

A property module (props/cNN.py) provides

    RULE      text: what makes a generated case count as non-trivial
    ASSUME    list of assumptions / domain limits
    BUDGET    {'quick': examples, 'thorough': examples}  (sum over all shards)
    strategy(profile)        -> hypothesis strategy producing JSON-able cases
    run_case(case, ctx)      -> raises Violation if the property does not hold

Hypothesis is needed for generation and shrinking only; a replay executes run_case alone.
"""
import ast
import gc
import hashlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

REPO = os.environ.get('VERIF_REPO', '/repo')
HYPOTHESIS = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The property does not hold for the executed case."""


class HarnessError(Exception):
    """The machinery itself failed; says nothing about the property."""


class CaseTimeout(BaseException):
    pass


def import_ezodf():
    """Import ezodf from the working tree of the repository."""
    if REPO not in sys.path or sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import ezodf
    where = os.path.dirname(os.path.dirname(os.path.abspath(ezodf.__file__)))
    if os.path.realpath(where) != os.path.realpath(REPO):
        raise HarnessError('ezodf imported from %s' % where)
    return ezodf


# ---------------------------------------------------------------- context

class Ctx(object):
    """Per-worker context: statistics and scratch directory."""

    def __init__(self, scratch, profile=None):
        self.scratch = scratch
        self.profile = profile or {}
        self.classes = {}
        self.evaluations = 0
        self.steps = 0
        self.nontrivial_hashes = set()
        self.samples = []
        self._nt = False
        self._case_dir = None

    # -- called by run_case
    def note(self, cls, n=1):
        self.classes[cls] = self.classes.get(cls, 0) + n

    def step(self, n=1):
        self.steps += n

    def nontrivial(self, flag=True):
        self._nt = self._nt or bool(flag)

    def tmpdir(self):
        """A fresh directory, removed after the case."""
        if self._case_dir is None:
            self._case_dir = tempfile.mkdtemp(prefix='case', dir=self.scratch)
        return self._case_dir

    # -- called by the harness
    def begin(self):
        self._nt = False

    def end(self, case_json, case):
        self.evaluations += 1
        if self._nt:
            h = hashlib.blake2b(case_json.encode('utf-8', 'surrogatepass'), digest_size=8).hexdigest()
            if h not in self.nontrivial_hashes:
                self.nontrivial_hashes.add(h)
                n = len(self.nontrivial_hashes)
                if len(self.samples) < 3 and n in (5, 50, 500) and len(case_json) < 3000:
                    self.samples.append(case)

    def cleanup(self):
        if self._case_dir is not None:
            shutil.rmtree(self._case_dir, ignore_errors=True)
            self._case_dir = None


def reset_global_state():
    """The library keeps process-wide state; every case starts from the defaults."""
    gc.collect(0)
    try:
        from ezodf import wrapcache
        wrapcache.clear()
    except Exception:
        pass
    try:
        from ezodf.conf import config
        config.reset_table_expand_strategy()
    except Exception:
        pass
    import random
    random.seed(12345)


# ---------------------------------------------------------------- running one case

def _on_alarm(signum, frame):
    raise CaseTimeout()


def short(x, n=300):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + '...(%d chars)' % len(s)


def execute(module, case, ctx, cpu_limit=40.0):
    """Run one case; returns None or a violation text."""
    case_json = json.dumps(case, sort_keys=True)
    # cases are always executed as they come back from JSON: what is shrunk is what is replayed
    case = json.loads(case_json)
    ctx.begin()
    reset_global_state()
    cwd = os.getcwd()
    old = signal.signal(signal.SIGPROF, _on_alarm)
    signal.setitimer(signal.ITIMER_PROF, cpu_limit)
    try:
        try:
            module.run_case(case, ctx)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
        ctx.end(case_json, case)
        return None
    except Violation as e:
        return 'property violated: %s' % e
    except CaseTimeout:
        return 'no result within %.0f s of CPU time' % cpu_limit
    except HarnessError:
        raise
    except MemoryError:
        return 'out of memory'
    except RecursionError as e:
        return 'unexpected exception: %r' % e
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ['%s:%d %s' % (os.path.basename(f.filename), f.lineno, f.name) for f in tb[-6:]]
        return 'unexpected exception %s: %s [%s]' % (type(e).__name__, short(str(e)), ' < '.join(reversed(where)))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
        os.chdir(cwd)
        ctx.cleanup()


# ---------------------------------------------------------------- helpers for oracles

def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % tuple(short(a) for a in args) if args else msg)


def same(got, expected, what):
    if got != expected or type(got) is bool and type(expected) is not bool:
        raise Violation('%s: got %s, expected %s' % (what, short(got), short(expected)))


def raises(excs, func, *args, **kw):
    """Call must raise one of 'excs'; returns the exception."""
    try:
        result = func(*args, **kw)
    except excs as e:
        return e
    except Exception as e:
        raise Violation('%s raised %s(%s) instead of %s' % (
            getattr(func, '__name__', 'call'), type(e).__name__, short(str(e)), excs))
    raise Violation('%s(%s) returned %s instead of raising %s' % (
        getattr(func, '__name__', 'call'), short(args), short(result), excs))


# ---------------------------------------------------------------- literal dictionary

def literals():
    """Integer and string literals of the library source (a fuzzing dictionary)."""
    ints, strs = set(), set()
    pkg = os.path.join(REPO, 'ezodf')
    for name in sorted(os.listdir(pkg)):
        if not name.endswith('.py'):
            continue
        try:
            with open(os.path.join(pkg, name), encoding='utf-8') as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError, ValueError):
            continue
        docs = set()
        for node in ast.walk(tree):
            if isinstance(node, (ast.Module, ast.ClassDef, ast.FunctionDef)) and node.body:
                first = node.body[0]
                if isinstance(first, ast.Expr) and isinstance(first.value, ast.Constant):
                    docs.add(id(first.value))
        for node in ast.walk(tree):
            if isinstance(node, ast.Constant) and id(node) not in docs:
                v = node.value
                if isinstance(v, bool):
                    continue
                if isinstance(v, int) and 0 <= v <= 10 ** 7:
                    ints.add(v)
                elif isinstance(v, float) and v == int(v) and 0 <= v <= 10 ** 7:
                    ints.add(int(v))
                elif isinstance(v, str) and 0 < len(v) <= 40:
                    strs.add(v)
    return sorted(ints), sorted(strs)
