"""Common machinery of all checks: generation, shrinking, evidence, replay.

A *property* owns several *sub-checks*. A sub-check is a plain function of one
JSON-serialisable ``case`` which is drawn by Hypothesis from ``domain`` (a dict
of strategies). The function raises :class:`Violation` (through :func:`check`,
:func:`close`, ...) if the property does not hold and otherwise returns whether
the case was non-trivial. Because the function depends on nothing but ``case``
and the code under test, the shrunk case is the complete replay file.
"""

import json
import os
import signal
import sys
import time
import traceback
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')

sys.path.insert(0, REPO)

for _path in ('/opt/veriftools/pyvenv/lib/python3.12/site-packages',):
    if os.path.isdir(_path) and _path not in sys.path:
        sys.path.append(_path) # last: the interpreter's own packages win

import warnings
warnings.filterwarnings('ignore', category=SyntaxWarning)

import numpy as np

import hypothesis
from hypothesis import strategies as st
from hypothesis import HealthCheck, Phase

hypothesis.settings.register_profile('vp', database=None, deadline=None,
    suppress_health_check=list(HealthCheck), print_blob=False,
    report_multiple_bugs=False)
hypothesis.settings.load_profile('vp')

# Hypothesis likes to repeat parts of previous cases in new ones. The cases here
# consist of few values and many of them would only differ in irrelevant ones.

from hypothesis.internal.conjecture.engine import ConjectureRunner

ConjectureRunner.generate_mutations_from = lambda self, data: None

np.seterr(all='ignore')

CASE_LIMIT = int(os.environ.get("VP_CASE_LIMIT", 240)) # s


class Violation(Exception):
    """The code under test breaks the property."""


class HarnessError(Exception):
    """Something is wrong with the machinery, not with the code under test."""


class Hang(BaseException):
    """A single case does not return."""


# --------------------------------------------------------------------------
# Uninitialised memory is filled with conspicuous values, so that code that
# relies on the content of ``np.empty`` fails reproducibly.

_empty = np.empty
_empty_like = np.empty_like


def _poison(array):
    if array.dtype.kind in 'fc':
        array.fill(np.nan)
    elif array.dtype.kind in 'iu' and array.dtype.itemsize >= 4:
        array.fill(77777777)
    return array


def poison_empty():
    def empty(*args, **kwargs):
        return _poison(_empty(*args, **kwargs))

    def empty_like(*args, **kwargs):
        array = _empty_like(*args, **kwargs)
        return _poison(array) if isinstance(array, np.ndarray) else array

    np.empty = empty
    np.empty_like = empty_like


# --------------------------------------------------------------------------
# Oracle helpers

def check(condition, message='', **info):
    if not condition:
        raise Violation(message + _fmt(info))


def _fmt(info):
    return ''.join('\n    %s = %s' % (key, np.array2string(value,
        precision=10, threshold=40) if isinstance(value, np.ndarray)
        else repr(value)) for key, value in info.items())


def close(a, b, message='', tol=1e-8, rtol=None, **info):
    """|a - b| <= tol * max(1, |b|_max), same shape, no NaN."""

    a = np.asarray(a)
    b = np.asarray(b)

    if a.shape != b.shape:
        raise Violation('%s: shape %s instead of %s' % (message, a.shape,
            b.shape) + _fmt(info))

    if a.size == 0:
        return

    if a.dtype == object or b.dtype == object:
        raise Violation('%s: unexpected object array' % message)

    scale = np.max(np.abs(b), initial=0.0)

    if not np.isfinite(scale):
        raise HarnessError('%s: reference is not finite' % message)

    error = np.max(np.abs(a - b))

    if rtol is not None:
        ok = error <= rtol * scale + tol
    else:
        ok = error <= tol * max(1.0, scale)

    if not ok: # also if NaN
        raise Violation('%s: deviation %g (scale %g)' % (message, error, scale)
            + _fmt(dict(got=a, expected=b, **info)))


def equal(a, b, message='', **info):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a_ = np.asarray(a)
        b_ = np.asarray(b)
        same = a_.shape == b_.shape and bool(np.all(a_ == b_))
    else:
        same = a == b

    if not same:
        raise Violation('%s: got %r, expected %r' % (message, a, b)
            + _fmt(info))


def raises(exception, function, *args, message='', **kwargs):
    try:
        function(*args, **kwargs)
    except exception:
        return

    raise Violation('%s: %s not raised' % (message, exception))


# --------------------------------------------------------------------------
# Strategies shared by the checks

seeds = st.integers(0, 2 ** 32 - 1)


def rng(seed):
    """Expand a drawn seed into numerical payload (a pure function of it)."""

    return np.random.Generator(np.random.PCG64(seed))


def ints(lo, hi, n):
    return st.lists(st.integers(lo, hi), min_size=n, max_size=n)


def sizes(lo, hi, big):
    """Usual sizes and (in about one of ten cases) larger ones.

    Small cases are cheap and find most mistakes. Others only show above some
    size (more than one line, digit, block, or process).
    """
    usual = list(range(lo, hi + 1))
    large = list(range(hi + 1, big + 1))

    return st.sampled_from(usual * -(-10 * len(large) // len(usual)) + large)


# --------------------------------------------------------------------------

class Sub:
    def __init__(self, name, domain, function, quick, thorough, examples,
            budget, limit):
        self.name = name
        self.domain = domain
        self.function = function
        self.quick = quick
        self.thorough = thorough
        self.examples = examples
        self.budget = budget
        self.limit = limit or CASE_LIMIT


class Property:
    def __init__(self, id, rule, assumptions=()):
        self.id = id
        self.rule = rule
        self.assumptions = list(assumptions)
        self.subs = {}

    def sub(self, name, /, quick=100, thorough=None, examples=(), budget=None,
            limit=None, **domain):
        """Register a sub-check."""

        thorough = max(thorough or 0, 10 * quick)

        def decorator(function):
            assert name not in self.subs
            self.subs[name] = Sub(name, domain, function, quick, thorough,
                list(examples), budget, limit)
            return function

        return decorator


class Case(dict):
    __getattr__ = dict.__getitem__


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.generic):
        return x.item()
    return x


def _hang(signum, frame):
    raise Hang


def execute(sub, case):
    """Run a single case. Returns non-triviality or raises Violation."""

    import elphmod

    elphmod.misc.verbosity = 0

    case = json.loads(json.dumps(case)) # what the replay file will contain

    signal.signal(signal.SIGALRM, _hang)
    signal.alarm(sub.limit)

    stdout = sys.stdout

    try:
        with open(os.devnull, 'w') as sys.stdout:
            return bool(sub.function(Case(case)))

    except (Violation, HarnessError):
        raise

    except (hypothesis.errors.HypothesisException, MemoryError,
            KeyboardInterrupt):
        raise

    except Hang:
        raise Violation('no result after %d s:\n' % sub.limit
            + traceback.format_exc())

    except (Exception, SystemExit):
        # On the unchanged tree no case raises. Whatever is raised here is
        # caused by what the code under test does or returns.
        text = traceback.format_exc()

        if isinstance(sys.exc_info()[1], OSError) and REPO not in text:
            raise HarnessError(text)

        raise Violation('exception:\n' + text)

    finally:
        signal.alarm(0)
        sys.stdout = stdout


def finite(strategy):
    """Values of a strategy with few of them, in order of simplicity."""

    strategy = getattr(strategy, 'wrapped_strategy', strategy)
    kind = type(strategy).__name__

    if kind == 'SampledFromStrategy' and not strategy._transformations:
        return list(strategy.elements)

    if kind == 'BooleansStrategy':
        return [False, True]

    if kind == 'IntegersStrategy' and None not in (strategy.start,
            strategy.end) and strategy.end - strategy.start < 10:
        return list(range(strategy.start, strategy.end + 1))

    return None


def draw(sub, n, label):
    """Draw from the domain without running anything."""

    cases = []

    test = hypothesis.given(case=st.fixed_dictionaries(sub.domain))(
        lambda case: cases.append(dict(case)))
    test = hypothesis.settings(max_examples=n, phases=(Phase.generate,))(test)
    test = hypothesis.seed(zlib.crc32(label.encode()))(test)
    test()

    return cases


def stratified(prop, sub, n, seed):
    """Cases in which the values of finite parameters occur equally often."""

    if n < 1:
        return

    label = '%s/%s/%d/stratified' % (prop.id, sub.name, seed)

    cases = draw(sub, n, label)
    g = rng(zlib.crc32(label.encode()))
    g.shuffle(cases)

    if len(cases) < n: # small domain: vary only the finite parameters
        cases = (cases * n)[:n]

    columns = {}

    for key, strategy in sub.domain.items():
        values = finite(strategy)

        if values is not None:
            column = []

            while len(column) < n:
                column.extend(g.permutation(len(values)))

            columns[key] = [values[i] for i in column]

    for i, case in enumerate(cases):
        yield dict(case, **{key: columns[key][i] for key in columns})


def shrink(sub, case, body, state):
    """Replace parameters by simpler ones as long as the case fails."""

    if state['shrink_start'] == 0.0:
        return

    case = jsonable(case)

    for simple in draw(sub, 20, sub.name):
        simple = jsonable(simple)

        for key in sorted(case):
            if time.time() - state['shrink_start'] > 40:
                return

            trial = dict(case, **{key: simple[key]})

            if len(json.dumps(trial)) <= len(json.dumps(case)) \
                    and trial != case:
                try:
                    body(trial)
                except Violation:
                    case = trial


def run_sub(prop, sub, tier, seed, budget, factor=1.0, current=None):
    """Search for a violation of one sub-check. Returns a result dict."""

    n = sub.quick if tier == 'quick' else sub.thorough
    n = max(1, int(round(n * factor)))

    result = dict(sub=sub.name, evaluations=0, nontrivial=0, samples=[],
        violation=None, budget_hit=False, error=None, planned=n)

    seen = set()
    failing = {}
    state = dict(last=None, shrink_start=None)
    start = time.time()

    def body(case):
        case = jsonable(case)
        key = json.dumps(case, sort_keys=True)

        if state['shrink_start'] is None:
            if time.time() - start > budget:
                result['budget_hit'] = True
                return
        elif time.time() - state['shrink_start'] > 40:
            if key in failing: # keep Hypothesis consistent
                raise Violation(failing[key])
            return

        result['evaluations'] += 1

        if current is not None: # in case the interpreter dies
            with open(current, 'w') as data:
                data.write(key)

        try:
            nontrivial = execute(sub, case)
        except Violation as violation:
            failing[key] = str(violation)
            state['last'] = case, str(violation)

            if state['shrink_start'] is None:
                state['shrink_start'] = time.time()

            if 'no result after' in str(violation):
                state['shrink_start'] = 0.0 # do not shrink hangs

            raise

        if nontrivial and key not in seen:
            seen.add(key)

            if len(result['samples']) < 3:
                result['samples'].append(dict(sub=sub.name, case=case))

    strategy = st.fixed_dictionaries(sub.domain)

    half = (n + 1) // 2

    test = hypothesis.given(case=strategy)(lambda case: body(case))

    for example in reversed(sub.examples):
        test = hypothesis.example(case=example)(test)

    test = hypothesis.settings(max_examples=half, phases=(Phase.explicit,
        Phase.generate, Phase.target, Phase.shrink))(test)
    test = hypothesis.seed(zlib.crc32(('%s/%s/%d' % (prop.id, sub.name,
        seed)).encode()))(test)

    try:
        test()

        for case in stratified(prop, sub, n - half, seed):
            if result['budget_hit']:
                break

            try:
                body(case)
            except Violation:
                shrink(sub, case, body, state)
                break
    except BaseException:
        if state['last'] is None:
            result['error'] = traceback.format_exc()

    if state['last'] is not None:
        case, message = state['last']
        result['violation'] = dict(case=case, message=message)

    result['nontrivial'] = len(seen)
    result['wall_s'] = time.time() - start

    return result
