"""Property-based checks: what every file in /verif/checks is written with.

A check module defines SUBS, a list of `Sub`.  Each Sub is one executable
statement of (part of) a property:

* `strategy`  a Hypothesis strategy; its values are plain Python data (int, str,
              float, tuple, list, dict, None, bool) so that a case is fully
              written out in a replay file and can be read back;
* `run(case)` builds the objects from the case, drives the code under test and
              raises on any disagreement with the oracle.  It may return a dict
              with `nontrivial` (bool, by the rule stated in the Sub) and `tags`
              (counted in the evidence);
* `quick` / `thorough`: number of cases.
"""
import hashlib
import re
import sys
import time
from dataclasses import dataclass, field
from typing import Any, Callable

VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if VT not in sys.path:
    sys.path.append(VT)

import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase, given, seed, settings  # noqa: E402
from hypothesis import strategies as st  # noqa: E402,F401


class HarnessError(Exception):
    """The check itself is broken (not the code under test)."""


class Stop(KeyboardInterrupt):
    """Leaves Hypothesis at once."""


@dataclass
class Sub:
    name: str
    strategy: Any
    run: Callable
    quick: int = 200
    thorough: int = 20000
    rule: str = ''
    weight: float = 1.0  # share of the time budget
    shards: int = 0  # 0: all shards; otherwise only the first `shards` ones


@dataclass
class Stats:
    evaluations: int = 0
    rejected: int = 0
    nontrivial: set = field(default_factory=set)
    tags: dict = field(default_factory=dict)
    samples: list = field(default_factory=list)


def skip():
    """The generated case does not meet the preconditions."""
    hypothesis.reject()


def check(cond, *msg):
    if not cond:
        raise AssertionError(' '.join(map(str, msg)))


def expect_raises(fn, types=Exception, what=''):
    """Calls fn, which must raise one of types; returns the exception."""
    try:
        r = fn()
    except types as e:
        return e
    raise AssertionError(f'no error was raised: {what} (got {r!r:.200})')


KNOWN = {}  # key -> text: findings of this property (file KNOWN_FINDINGS)
SEEN = set()  # those that occurred


def load_known(prop, path):
    for line in open(path):
        m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
        if m and m[1] == prop:
            KNOWN[m[2]] = m[3]


def known(key):
    """Is this deviation, which the caller has identified, a listed one?"""
    if key in KNOWN:
        SEEN.add(key)
        return True
    return False


def case_hash(name, case):
    return int.from_bytes(
        hashlib.blake2b(f'{name}:{case!r}'.encode(errors='replace'),
                        digest_size=8).digest(), 'little')


def derive(*xs):
    return int.from_bytes(
        hashlib.blake2b(repr(xs).encode(), digest_size=6).digest(), 'little')


def run_sub(sub, *, n, base_seed, deadline, stats, journal, shrink_s=30.0):
    """Runs one sub-check; returns None or (case, exception)."""
    best = []
    t_fail = [None]
    rejects = hypothesis.errors.UnsatisfiedAssumption

    def body(case):
        now = time.monotonic()
        if t_fail[0] is None:
            if now > deadline:
                raise Stop
        elif now > t_fail[0] + shrink_s:
            raise Stop
        journal(sub.name, case)
        try:
            info = sub.run(case)
        except rejects:
            if t_fail[0] is None:
                stats.rejected += 1
            raise
        except (Stop, HarnessError):
            raise
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                e = AssertionError(f'{type(e).__name__}: {e}')
            if t_fail[0] is None:
                t_fail[0] = now
                stats.evaluations += 1
            if not best or len(repr(case)) <= len(repr(best[0])):
                best[:] = [case, e]
            raise AssertionError('failing case') from None
        if t_fail[0] is None:
            stats.evaluations += 1
            info = info or {}
            if info.get('nontrivial', True):
                h = case_hash(sub.name, case)
                if h not in stats.nontrivial:
                    stats.nontrivial.add(h)
                    k = len(stats.nontrivial)
                    if k in (3, 30, 300):
                        stats.samples.append({
                            'sub': sub.name,
                            'case': repr(case)[:1500]
                        })
            for t in info.get('tags', ()):
                stats.tags[t] = stats.tags.get(t, 0) + 1

    rounds = 0
    done = 0
    while done < n and not best and time.monotonic() < deadline:
        k = min(n - done, 1000)
        test = settings(
            max_examples=k,
            database=None,
            deadline=None,
            derandomize=False,
            report_multiple_bugs=False,
            print_blob=False,
            phases=(Phase.generate, Phase.shrink),
            suppress_health_check=list(HealthCheck))(given(sub.strategy)(body))
        test = seed(derive(base_seed, sub.name, rounds))(test)
        before = stats.evaluations
        try:
            test()
        except Stop:
            break
        except hypothesis.errors.Unsatisfiable:
            if stats.evaluations == before:
                raise HarnessError(f'{sub.name}: no case could be generated')
        except HarnessError:
            raise
        except BaseException:
            if not best:
                raise
        rounds += 1
        done += k
    return tuple(best) if best else None
