"""
Runner core.  A check module (vf/checks/cNN.py) registers scenarios; each scenario is a function of
(ctx, rng, i) executing case number i of the real code under its oracle.  Cases are numbered, and all their
randomness comes from (VERIF_SEED, property, scenario, case number), so any case can be replayed alone.
"""
from __future__ import annotations

import collections
import hashlib
import importlib
import json
import os
import random
import resource
import signal
import sys
import time
import traceback

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MEMORY = 5 << 30


class Violation(Exception):
    pass


class CaseTimeout(BaseException):
    pass


class Inconclusive(Exception):
    """The check could not decide (an environment problem, not a verdict)."""


class Scenario:
    def __init__(self, fn, name, quick, thorough, workers, timeout, setup):
        self.fn, self.name, self.quick, self.thorough = fn, name, quick, thorough
        self.workers, self.timeout, self.setup = workers, timeout, setup


class Suite:
    """The scenarios of one property."""
    def __init__(self, prop, rule, level='exploration', assumptions=(), require=None, post=None):
        self.prop, self.rule, self.level = prop, rule, level
        self.assumptions = list(assumptions)
        self.require = dict(require or {})
        self.scenarios = []
        self.post = post

    def scenario(self, name, quick, thorough, workers=8, timeout=150, setup=None):
        def deco(fn):
            assert all(s.name != name for s in self.scenarios)
            self.scenarios.append(Scenario(fn, name, quick, thorough, workers, timeout, setup))
            return fn
        return deco


def digest(obj) -> bytes:
    return hashlib.blake2b(repr(obj).encode(), digest_size=8).digest()


class Ctx:
    """What a case uses to talk to the runner."""
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.hits = collections.Counter()
        self.evaluations = 0
        self.cases = 0
        self.seen = set()
        self.samples = []
        self.scenario = None
        self.case = None
        self.note = None
        self.sample_budget = 2

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def hit(self, kind, k=1):
        """Count an event the monitor observed."""
        self.hits[kind] += k

    def distinct(self, key):
        """Record a non-trivial case, identified by key."""
        self.seen.add(digest(key))

    def sample(self, /, **kw):
        if self.sample_budget > 0:
            self.sample_budget -= 1
            text = {k: (v if isinstance(v, (int, float, bool)) else short(v)) for k, v in kw.items()}
            self.samples.append({'scenario': self.scenario, 'case': self.case, **text})

    def describe(self, /, **kw):
        """Describe the current case for the replay file, should it fail."""
        self.note = kw

    def check(self, ok, message, /, **kw):
        self.evaluations += 1
        if not ok:
            self.fail(message, **kw)

    def eq(self, got, want, message, /, **kw):
        self.evaluations += 1
        if type(got) is bool or type(want) is bool:
            ok = bool(got) == bool(want)
        else:
            ok = got == want
        if not ok:
            self.fail(message + f' got={short(got, 400)} want={short(want, 400)}', **kw)

    def fail(self, message, /, **kw):
        raise Violation(message + ''.join(f' {k}={short(v, 400)}' for k, v in kw.items()))

    def raises(self, kinds, fn, message, /, **kw):
        """The call must be refused with an exception of one of the given kinds."""
        self.evaluations += 1
        try:
            result = fn()
        except kinds:
            return
        except Exception as e:
            # Refused, but in an unexpected way: only accepted where `kinds` is Exception.
            self.fail(message + f': refused with {type(e).__name__}: {e}', **kw)
        self.fail(message + f': was answered with {short(result, 300)}', **kw)


def short(obj, limit=160):
    text = obj if isinstance(obj, str) else repr(obj)
    return text if len(text) <= limit else text[:limit] + '...'


def load_suite(prop):
    return importlib.import_module(f'vf.checks.{prop.lower()}').SUITE


def case_rng(seed, prop, scenario, i):
    return random.Random(f'{seed}/{prop}/{scenario}/{i}')


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(ctx, sc, seed, i):
    """Run one case.  Returns None, or a dict describing the violation."""
    rng = case_rng(seed, ctx.prop, sc.name, i)
    hung = False
    ctx.scenario, ctx.case, ctx.note = sc.name, i, None
    ctx.cases += 1
    # CPU time, so that a busy machine does not turn into an alarm; wall time is the runner's business.
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, sc.timeout)
    try:
        sc.fn(ctx, rng, i)
        return None
    except Violation as e:
        message, trace = str(e), traceback.format_exc(limit=-6)
    except Inconclusive:
        raise
    except CaseTimeout:
        hung = True
        message, trace = f'no answer after {sc.timeout} s of processor time in a case that takes well under a second', traceback.format_exc(limit=-12)
    except MemoryError:
        message, trace = f'needs more than {MEMORY >> 30} GB in a case that takes a small fraction of that', ''
    except Exception as e:
        message, trace = f'unexpected {type(e).__name__}: {short(str(e), 500)}', traceback.format_exc(limit=-12)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return dict(property=ctx.prop, scenario=sc.name, case=i, seed=seed, tier=ctx.tier, message=message, hung=hung,
                trace=trace[-4000:], note={k: short(v, 2000) for k, v in (ctx.note or {}).items()})


def worker_main(argv):
    prop, tier, seed, index, total, deadline, out = argv
    seed, index, total, deadline = int(seed), int(index), int(total), float(deadline)
    # A case that runs away must not take the machine with it.
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    sys.path.insert(0, REPO)
    suite = load_suite(prop)
    ctx = Ctx(prop, tier)
    violations, timings, cut, fatal = [], {}, [], None
    fast = bool(os.environ.get('VERIF_FAILFAST'))
    start = time.monotonic()
    try:
        for sc in suite.scenarios:
            w = min(sc.workers, total)
            # Rotate, so that scenarios limited to few workers do not all land on the first ones.
            offset = suite.scenarios.index(sc) * 3
            slot = (index - offset) % total
            if slot >= w:
                continue
            count = sc.thorough if tier == 'thorough' else sc.quick
            t0 = time.monotonic()
            ctx.sample_budget = 1
            if sc.setup is not None and slot < count:
                v = run_case(ctx, Scenario(lambda *_: sc.setup(), sc.name, 0, 0, w, 300, None), seed, slot)
                ctx.cases -= 1
                if v is not None:
                    violations.append(v)
                    if fast or v['hung']:
                        break
                    continue
            for i in range(slot, count, w):
                if time.monotonic() - start > deadline:
                    cut.append((sc.name, i))
                    break
                v = run_case(ctx, sc, seed, i)
                if v is not None:
                    violations.append(v)
                    break
            # What hangs here hangs elsewhere: report while there is time.
            if violations and (fast or violations[-1]['hung']):
                break
            timings[sc.name] = round(time.monotonic() - t0, 2)
    except Inconclusive as e:
        fatal = f'inconclusive: {e}'
    result = dict(hits=dict(ctx.hits), evaluations=ctx.evaluations, cases=ctx.cases, seen=[s.hex() for s in ctx.seen],
                  samples=ctx.samples, violations=violations, timings=timings, cut=cut, fatal=fatal)
    with open(out + '.part', 'w') as f:
        json.dump(result, f)
    os.rename(out + '.part', out)


if __name__ == '__main__':
    # Run as vf.core rather than __main__, so that the check modules see the same classes.
    from vf import core
    core.worker_main(sys.argv[1:])
