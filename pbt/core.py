"""Facet registry, check context and case runner of the property-based checks.

A *facet* is one executable statement of (a part of) a property: a Hypothesis
strategy producing cases - plain Python literals, so that a case can be written
to a replay file and read back - and a body that runs the real code on one case
and compares it with an oracle.
"""
import errno
import os
import signal
import sys
import traceback

REPO = os.path.realpath(os.environ.get('PBT_REPO', '/repo'))
PKG = os.path.join(REPO, 'neocore') + os.sep
HERE = os.path.dirname(os.path.abspath(__file__)) + os.sep
ORACLE_FILES = (HERE + 'ref.py', HERE + 'core.py', HERE + 'gen.py')

CASE_CPU_SECONDS = 60


class CheckFailure(AssertionError):
    """The property does not hold for the case."""


class HarnessError(Exception):
    """The machinery itself is broken (never reported as a violation)."""


class Facet:
    def __init__(self, prop, name, body, strategy, n, shards, corpus, rule, thorough, fuzz, seq, spread=False):
        self.prop = prop
        self.name = name
        self.body = body
        self.strategy = strategy
        self.n = n
        self.shards = shards
        self.corpus = corpus
        self.spread = spread  # whether the shards share the corpus; otherwise the first one has it
        self.rule = rule
        self.thorough = thorough
        self.fuzz = fuzz
        self.seq = seq

    def sequences(self):
        """The facet over short sequences of cases, run one after the other in one process: related cases (made of parts
        of two others, where the parts are drawn independently) and repetitions, to catch state kept between calls."""
        if not self.seq or self.strategy is None:
            return None

        def body(ctx, cases):
            for i, case in enumerate(cases):
                try:
                    self.body(ctx, case)
                except CheckFailure as e:
                    raise CheckFailure('case %d of the sequence: %s' % (i + 1, e)) from e
        return Facet(self.prop, self.name + '+seq', body, lambda: sequence_strategy(self.strategy()), max(8, int(self.n * self.seq)), max(1, min(2, self.shards // 2)), None,
                     'sequence with a non-trivial case (%s)' % self.rule, self.thorough, False, 0)


def sequence_strategy(base):
    from hypothesis import strategies as st
    from hypothesis.strategies._internal.collections import TupleStrategy
    from hypothesis.strategies._internal.lazy import LazyStrategy
    s = base
    while isinstance(s, LazyStrategy):
        s = s.wrapped_strategy
    if isinstance(s, TupleStrategy):
        k = len(s.element_strategies)

        def build(t):
            a, b, mask, order = t
            x = tuple(a[i] if mask >> i & 1 else b[i] for i in range(k))
            y = tuple(b[i] if mask >> i & 1 else a[i] for i in range(k))
            return [a, x, b, y, a][order:]
        return st.tuples(base, base, st.integers(0, 2 ** k - 1), st.integers(0, 2)).map(build)
    return st.tuples(base, base, st.booleans()).map(lambda t: [t[0], t[1], t[0]] if t[2] else [t[0], t[0]])


class Lazy:
    """an object of the code under test which is made when it is used first (the modules of the facets call nothing while they
    are imported, so that the first calls of a process can be looked at too)"""

    def __init__(self, make):
        self.__dict__['_make'] = make

    def __getattr__(self, name):
        if '_it' not in self.__dict__:
            self.__dict__['_it'] = self._make()
        return getattr(self.__dict__['_it'], name)


REGISTRY = []


def facet(prop, strategy, n, rule, name=None, shards=2, corpus=None, thorough=20, fuzz=True, seq=0.06, spread=False):
    """Register a facet.

    prop      property id
    strategy  callable without arguments returning a Hypothesis strategy
    n         number of generated cases in the quick tier (over all shards)
    rule      what makes a case non-trivial (text for the evidence)
    corpus    callable returning fixed extra cases
    thorough  factor on n in the thorough tier
    fuzz      also drive it coverage guided (atheris) in the thorough tier
    seq       number of sequences of cases, as part of n (0: none)
    """
    def deco(fn):
        REGISTRY.append(Facet(prop, name or fn.__name__, fn, strategy, n, shards, corpus, rule, thorough, fuzz, seq, spread))
        return fn
    return deco


class Ctx:
    """What a facet body may use to judge a case."""

    def __init__(self, known_ids=()):
        self.known_ids = frozenset(known_ids)
        self.reset()

    def reset(self):
        self.is_nontrivial = False
        self.labels = []
        self.known_hits = []

    def nontrivial(self, flag=True):
        if flag:
            self.is_nontrivial = True

    def label(self, text):
        self.labels.append(text)

    def fail(self, what):
        raise CheckFailure(what)

    def true(self, cond, what):
        if not cond:
            raise CheckFailure(what)

    def eq(self, actual, expected, what):
        if not (actual == expected):
            raise CheckFailure('%s: got %s, expected %s' % (what, short(actual), short(expected)))

    def raises(self, fn, what, exc=Exception):
        """fn() has to be refused with an exception."""
        try:
            res = fn()
        except exc as e:
            return e
        raise CheckFailure('%s: accepted, returned %s' % (what, short(res)))

    def known(self, ident, what):
        """A listed known finding explains this deviation; otherwise it is a violation."""
        if ident in self.known_ids:
            self.known_hits.append(ident)
            return
        raise CheckFailure(what)


def short(x, n=200):
    try:
        s = repr(x)
    except Exception as e:  # a broken __repr__ is not what is being checked
        s = '<%s, repr failed: %s>' % (type(x).__name__, e)
    return s if len(s) <= n else s[:n] + '...(%d chars)' % len(s)


def _frames(exc):
    out = []
    tb = exc.__traceback__
    while tb is not None:
        out.append(tb.tb_frame.f_code.co_filename)
        tb = tb.tb_next
    return out


SANDBOX_ERRNOS = {errno.ENOSPC, errno.EDQUOT, errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.EIO, errno.EAGAIN, errno.EROFS}


def is_violation(exc):
    """Is an exception that left a facet body evidence against the code under test?"""
    if isinstance(exc, CheckFailure):
        return True
    if isinstance(exc, HarnessError):
        return False
    files = [os.path.realpath(f) if os.path.isabs(f) else f for f in _frames(exc)]
    if any(f.startswith(PKG) for f in files):
        # an operation the stream does not support is the fault of the code, a full disk or an exhausted table is not
        return not (isinstance(exc, OSError) and exc.errno in SANDBOX_ERRNOS)
    if isinstance(exc, (MemoryError, OSError, KeyboardInterrupt)):
        return False
    if files and files[-1] in ORACLE_FILES:
        return False
    # raised while using a result of the code under test (wrong type, missing attribute)
    return True


def describe(exc):
    if isinstance(exc, CheckFailure):
        return str(exc)
    tb = traceback.format_exception(type(exc), exc, exc.__traceback__)
    return 'unexpected %s: %s\n%s' % (type(exc).__name__, short(str(exc)), ''.join(tb)[-3000:])


class CaseRunner:
    """Runs cases of one facet, counts them and remembers failures."""

    def __init__(self, fct, known_ids, on_hang=None):
        self.facet = fct
        self.ctx = Ctx(known_ids)
        self.evaluations = 0
        self.nontrivial_evaluations = 0
        self.hashes = set()
        self.labels = {}
        self.known = {}
        self.samples = []
        self.first = None
        self.last = None
        self.on_hang = on_hang
        self.current = None
        self.counting = True

    def _alarm(self, signum, frame):
        if self.on_hang:
            self.on_hang(self.current)
        raise CheckFailure('no answer within %d s of CPU time' % CASE_CPU_SECONDS)

    def arm(self):
        signal.signal(signal.SIGPROF, self._alarm)

    def __call__(self, case):
        ctx = self.ctx
        ctx.reset()
        self.current = case
        signal.setitimer(signal.ITIMER_PROF, CASE_CPU_SECONDS)
        try:
            self.facet.body(ctx, case)
        except Exception as e:
            signal.setitimer(signal.ITIMER_PROF, 0)
            if type(e).__module__.startswith('hypothesis'):
                raise
            if not is_violation(e):
                raise HarnessError('facet %s, case %s: %s' % (self.facet.name, short(case, 2000), describe(e))) from e
            rec = (case, describe(e))
            if self.first is None:
                self.first = rec
            self.last = rec
            self.counting = False  # what follows is shrinking
            raise
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            if self.counting or self.first is None:
                self.evaluations += 1
                for lab in ctx.labels:
                    self.labels[lab] = self.labels.get(lab, 0) + 1
                for k in ctx.known_hits:
                    self.known.setdefault(k, case)
                if ctx.is_nontrivial:
                    self.nontrivial_evaluations += 1
                    self.hashes.add(hash_case(case))
                    if len(self.samples) < 3 or self.nontrivial_evaluations in (50, 200, 1000):
                        self.samples.append(short(case, 400))


def hash_case(case):
    import hashlib
    return hashlib.blake2b(repr(case).encode('utf-8', 'backslashreplace'), digest_size=8).digest()
