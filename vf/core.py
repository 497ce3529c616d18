"""Runner shared by every check: drives generated cases through a property's
facets, shrinks failures, writes replay files and evidence.

A *facet* is one executable statement of (part of) a property:

  strategy()      -> Hypothesis strategy producing a JSON-able case
  run(case, ctx)  -> executes the case against curvepy and an oracle; raises
                     Violation when the oracle disagrees.

run() never touches Hypothesis, so a saved case replays without the library.
"""
import hashlib
import importlib
import json
import math
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
PKG_DIR = os.path.join(os.path.realpath(REPO), 'curvepy') + os.sep


class Violation(Exception):
    """The code under test broke the property."""


class StepBudget(BaseException):
    """The code under test executed more steps than any terminating run does.

    Derived from BaseException so that `except Exception` in the code under
    test cannot swallow it."""


class Skip(Exception):
    """The case is outside the property's domain (counted, never silent)."""


# --------------------------------------------------------------------------
# Deterministic termination guard: counts function entries and jumps executed
# inside curvepy (no wall clock), so that a change which makes a call loop
# forever is reported as a violation and not as a hang of the check.

class Steps:
    TOOL = 4

    def __init__(self):
        self.count = 0
        self.limit = None
        self.peak = 0
        self.active = False

    def install(self):
        mon = sys.monitoring
        try:
            mon.use_tool_id(self.TOOL, 'vf-steps')
        except ValueError:
            return
        E = mon.events
        mon.register_callback(self.TOOL, E.PY_START, self._event)
        mon.register_callback(self.TOOL, E.JUMP, self._event)
        mon.set_events(self.TOOL, E.PY_START | E.JUMP)
        self.active = True

    def _event(self, code, _off, *_):
        if PKG_DIR is None or not code.co_filename.startswith(PKG_DIR):
            # (globals are gone when the interpreter shuts down)
            return sys.monitoring.DISABLE if PKG_DIR else None
        self.count += 1
        if self.limit is not None and self.count > self.limit:
            self.limit = None
            raise StepBudget()

    def start(self, limit):
        self.count = 0
        self.limit = limit

    def stop(self):
        self.limit = None
        if self.count > self.peak:
            self.peak = self.count


STEPS = Steps()
STEP_LIMIT = 3_000_000


class Ctx:
    """Handed to run(): counters, and the boundary to the code under test."""

    def __init__(self, stats=None):
        self.labels = set()
        self.is_nontrivial = False
        self.excluded = {}

    def label(self, *names):
        self.labels.update(names)

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def exclude(self, name):
        """A sub-case excluded because of a listed known finding."""
        self.excluded[name] = self.excluded.get(name, 0) + 1

    def fail(self, msg):
        raise Violation(msg)

    def check(self, cond, msg, *args):
        if not cond:
            raise Violation(msg() if callable(msg) else (msg.format(*args) if args else msg))

    def sut(self, desc, f, *args, **kw):
        """Call into the code under test with arguments it must accept: any
        exception it raises is a violation."""
        try:
            return f(*args, **kw)
        except (Violation, Skip):
            raise
        except (KeyboardInterrupt, SystemExit, MemoryError, StepBudget):
            raise
        except BaseException as e:
            raise Violation(f'{desc} raised {type(e).__name__}: {str(e)[:200]} at {pkg_frames(e)}') from None

    def raises(self, desc, f, *args, **kw):
        """Call which must be rejected with an ordinary exception."""
        try:
            r = f(*args, **kw)
        except Exception as e:
            return e
        raise Violation(f'{desc} was accepted (returned {short(r)}) but must be rejected')


def pkg_frames(e):
    tb = traceback.extract_tb(e.__traceback__)
    return ' > '.join([f'{os.path.basename(t.filename)}:{t.lineno}({t.name})' for t in tb if t.filename.startswith(PKG_DIR)][-3:])


def short(v, n=160):
    s = repr(v)
    return s if len(s) <= n else s[:n] + '...'


def close(a, b, tol=1e-9, scale=1.0):
    """Numeric agreement with None = absent; `scale` is the magnitude of the
    quantities combined to obtain the value."""
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(p, q, tol, scale) for p, q in zip(a, b))
    try:
        a = float(a)
        b = float(b)
    except (TypeError, ValueError, OverflowError):
        return a == b
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= tol * max(1.0, abs(scale), abs(a), abs(b))


class Facet:
    name = None
    weight = 1.0       # share of the property's case budget
    step_limit = STEP_LIMIT

    def strategy(self):
        raise NotImplementedError

    def run(self, case, ctx):
        raise NotImplementedError


def facet(name, strategy, weight=1.0, step_limit=STEP_LIMIT):
    """Decorator: turn `run(case, ctx)` into a Facet."""
    def deco(f):
        fc = Facet()
        fc.name = name
        fc.weight = weight
        fc.step_limit = step_limit
        fc.strategy = strategy
        fc.run = f
        return fc
    return deco


def run_case(fc, case, stats=None):
    """Execute one case. Returns ctx; raises Violation."""
    ctx = Ctx()
    STEPS.start(fc.step_limit)
    try:
        fc.run(case, ctx)
    except StepBudget:
        raise Violation(f'no result after {fc.step_limit} steps inside curvepy (does not terminate)') from None
    except (Violation, Skip):
        raise
    except Exception as e:
        # an error out of the code under test, wherever the harness called it
        where = pkg_frames(e)
        if not where:
            raise
        raise Violation(f'{type(e).__name__}: {str(e)[:200]} at {where}') from None
    finally:
        STEPS.stop()
    return ctx


def case_key(fc_name, case):
    return hashlib.blake2b((fc_name + json.dumps(case, sort_keys=True)).encode(), digest_size=8).hexdigest()


def derive_seed(*parts):
    return int.from_bytes(hashlib.blake2b(repr(parts).encode(), digest_size=8).digest(), 'big')


SHRINK_SECONDS = 25


def drive(fc, n, seed_int, stats, deadline=None):
    """Run n generated cases of one facet through Hypothesis. Returns None or
    (case, message)."""
    from hypothesis import given, settings, seed, HealthCheck, Phase
    import hypothesis.errors as herr

    state = {'fail': None, 'fail_key': None, 't_fail': None, 'harness': None}

    def body(case):
        key = case_key(fc.name, case)
        shrinking = state['t_fail'] is not None
        if state['harness'] is not None:
            return
        if shrinking and time.monotonic() - state['t_fail'] > SHRINK_SECONDS and key != state['fail_key']:
            return
        if not shrinking and deadline is not None and time.monotonic() > deadline:
            stats['cut_short'] = stats.get('cut_short', 0) + 1
            return
        if not shrinking:
            stats['evaluations'] += 1
        try:
            ctx = run_case(fc, case)
        except Skip as e:
            if not shrinking:
                k = f'skip:{e}'
                stats['labels'][k] = stats['labels'].get(k, 0) + 1
            return
        except Violation as e:
            if state['t_fail'] is None:
                state['t_fail'] = time.monotonic()
            state['fail'] = (case, str(e))
            state['fail_key'] = key
            raise
        except Exception:
            # An error of the harness itself, never a verdict on the code
            state['harness'] = traceback.format_exc() + '\ncase: ' + json.dumps(case)[:2000]
            return
        if not shrinking:
            for l in ctx.labels:
                stats['labels'][l] = stats['labels'].get(l, 0) + 1
            for k, v in ctx.excluded.items():
                stats['excluded'][k] = stats['excluded'].get(k, 0) + v
            if ctx.is_nontrivial:
                if key not in stats['nontrivial']:
                    stats['nontrivial'].add(key)
                    if len(stats['samples']) < 3:
                        stats['samples'].append({'facet': fc.name, 'case': case})

    test = given(fc.strategy())(body)
    test = seed(seed_int)(test)
    test = settings(
        max_examples=n, database=None, deadline=None,
        suppress_health_check=list(HealthCheck),
        phases=[Phase.generate, Phase.shrink],
        report_multiple_bugs=False, print_blob=False,
    )(test)
    try:
        test()
    except Violation:
        pass
    except herr.Flaky as e:
        if state['fail'] is None:
            raise
    except BaseExceptionGroup:
        if state['fail'] is None:
            raise
    if state['harness'] is not None:
        raise RuntimeError('harness error in facet %s\n%s' % (fc.name, state['harness']))
    return state['fail']


def load(prop):
    return importlib.import_module(f'vf.props.{prop.lower()}')


def new_stats():
    return {'evaluations': 0, 'labels': {}, 'excluded': {}, 'nontrivial': set(), 'samples': []}


def worker(prop, tier, seed_int, index, out_path, only=None, scale=1.0, max_s=None):
    """One worker process: its share of every facet."""
    import warnings
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    mod = load(prop)
    import curvepy
    assert os.path.realpath(curvepy.__file__).startswith(PKG_DIR), curvepy.__file__
    STEPS.install()
    res = {'facets': {}, 'violation': None}
    n_total = mod.CASES[tier] * scale
    facets = [f for f in mod.FACETS if only is None or f.name in only]
    wsum = sum(f.weight for f in mod.FACETS)
    deadline = None if max_s is None else time.monotonic() + max_s
    for fc in facets:
        stats = new_stats()
        n = max(5, int(n_total * fc.weight / wsum))
        t0 = time.monotonic()
        fail = drive(fc, n, derive_seed(seed_int, prop, fc.name, index), stats, deadline)
        stats['wall_s'] = round(time.monotonic() - t0, 2)
        stats['nontrivial'] = sorted(stats['nontrivial'])
        res['facets'][fc.name] = stats
        if fail is not None:
            case, msg = fail
            res['violation'] = {'facet': fc.name, 'case': case, 'message': msg, 'worker': index}
            break
    res['peak_steps'] = STEPS.peak
    with open(out_path, 'w') as f:
        json.dump(res, f)
