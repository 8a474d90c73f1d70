"""Machinery shared by all checks: case budgets, Hypothesis driving, watchdog,
shrinking, replay files and evidence.

A property module defines `PROPERTY` (id), `RULE` (what makes a case non-trivial)
and `TESTS`, a list of `Test`s.  A test draws JSON-serialisable cases from a
Hypothesis strategy and hands each to `check(case)`, which runs the code under
test and compares with its oracle.  Any exception out of `check` is a violation;
its return value is an `Info` (non-trivial or not, plus labels for the statistics).
"""
from __future__ import annotations

import contextlib
import dataclasses
import hashlib
import json
import os
import signal
import sys
import time
import traceback
import warnings
import logging
from typing import Any, Callable

VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def setup_paths() -> None:
    repo = os.environ.get("VERIF_REPO", "/repo")
    sys.path.insert(0, os.path.join(repo, "src"))
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        # appended last: everything else still comes from the repo's own environment
        sys.path.append(VT)
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")


class Violation(AssertionError):
    pass


class Hang(BaseException):
    """A single case used far more CPU time than any legitimate one."""


@dataclasses.dataclass
class Info:
    nontrivial: bool
    labels: tuple[str, ...] = ()


@dataclasses.dataclass
class Test:
    name: str
    strategy: Callable[[], Any]  # () -> hypothesis strategy of JSON-able cases
    check: Callable[[Any], Info]
    quick: int  # cases per run over all workers (quick tier)
    thorough: int = 0  # 0: 12 x quick
    cpu_limit: float = 30.0  # seconds of CPU one case may take before it is a hang


def expect(cond: bool, msg: str, /, **details) -> None:
    if not cond:
        raise Violation(msg + "".join(f"\n  {k} = {v!r}" for k, v in details.items()))


def expect_eq(got, want, msg: str, /, **details) -> None:
    if got != want:
        raise Violation(
            f"{msg}\n  got  = {shorten(got)}\n  want = {shorten(want)}"
            + "".join(f"\n  {k} = {shorten(v)}" for k, v in details.items()),
        )


@contextlib.contextmanager
def plain_recursion_limit(frames=900):
    """Hypothesis raises the interpreter's recursion limit; go back to (about) the default."""
    depth, f = 0, sys._getframe()
    while f is not None:
        depth, f = depth + 1, f.f_back
    before = sys.getrecursionlimit()
    sys.setrecursionlimit(depth + frames)
    try:
        yield
    finally:
        sys.setrecursionlimit(before)


def shorten(x, n=1500) -> str:
    s = repr(x)
    return s if len(s) <= n else s[:n] + f"... ({len(s)} chars)"


def case_key(test: str, case) -> str:
    raw = test + json.dumps(case, sort_keys=True, ensure_ascii=True)
    return hashlib.sha1(raw.encode()).hexdigest()[:16]


def derive_seed(*parts) -> int:
    return int.from_bytes(
        hashlib.sha256("/".join(map(str, parts)).encode()).digest()[:6],
        "big",
    )


def _on_cpu_limit(signum, frame):
    raise Hang()


def guarded(test: Test, case) -> Info:
    """Run one case under the watchdogs: CPU time, and wall-clock time (ten times as
    much and more, so that only a case which waits for something forever meets it)."""
    signal.signal(signal.SIGPROF, _on_cpu_limit)
    signal.signal(signal.SIGALRM, _on_cpu_limit)
    signal.setitimer(signal.ITIMER_PROF, test.cpu_limit)
    signal.setitimer(signal.ITIMER_REAL, max(300.0, 10 * test.cpu_limit))
    try:
        info = test.check(case)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
    return info if info is not None else Info(True)


@dataclasses.dataclass
class Outcome:
    test: str
    evaluations: int = 0
    keys: set = dataclasses.field(default_factory=set)
    labels: dict = dataclasses.field(default_factory=dict)
    samples: list = dataclasses.field(default_factory=list)
    failure: dict | None = None
    capped: bool = False


def run_test(test: Test, *, seed: int, examples: int, deadline: float, stop) -> Outcome:
    """Drive one test with Hypothesis; returns what was covered and any shrunk failure."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as engine

    engine.MAX_SHRINKING_SECONDS = 25

    out = Outcome(test.name)
    state: dict[str, Any] = {"last": None, "error": None, "since": None}
    hung: set[str] = set()
    slow = f"no answer within {test.cpu_limit:.0f} s of CPU time"

    def body(case):
        if state["since"] is not None:
            # a slow failure: reduce it for a limited time only
            key = case_key(test.name, case)
            if key in hung:
                state["last"], state["error"] = case, slow
                raise Hang()
            if time.monotonic() - state["since"] > 60:
                return
        if state["error"] is None and (time.monotonic() > deadline or stop()):
            out.capped = True
            return
        try:
            info = guarded(test, case)
        except Hang:
            state["last"], state["error"] = case, slow
            state["since"] = state["since"] or time.monotonic()
            hung.add(case_key(test.name, case))
            raise
        except Exception as e:
            state["last"] = case
            state["error"] = "".join(
                traceback.format_exception_only(type(e), e),
            ) + _tb_tail(e)
            raise
        if state["error"] is None:
            out.evaluations += 1
            for lab in info.labels:
                out.labels[lab] = out.labels.get(lab, 0) + 1
            if info.nontrivial:
                key = case_key(test.name, case)
                if key not in out.keys:
                    out.keys.add(key)
                    if len(out.samples) < 2 or (
                        len(out.keys) % 97 == 0 and len(out.samples) < 5
                    ):
                        out.samples.append(case)

    wrapped = given(test.strategy())(body)
    wrapped = settings(
        max_examples=max(1, examples),
        deadline=None,
        database=None,
        phases=[Phase.generate, Phase.shrink],
        suppress_health_check=list(HealthCheck),
        report_multiple_bugs=False,
        print_blob=False,
        verbosity=hypothesis.Verbosity.quiet,
    )(wrapped)
    wrapped = hypothesis.seed(seed)(wrapped)
    try:
        wrapped()
    except (Exception, Hang) as e:
        if state["error"] is None:
            raise  # a defect of the harness, not of the code under test
        out.failure = {
            "test": test.name,
            "case": state["last"],
            "error": state["error"],
            "seed": seed,
            "examples": examples,
        }
    return out


def _tb_tail(e: BaseException) -> str:
    tb = traceback.extract_tb(e.__traceback__)
    return "".join(
        f"  at {f.filename}:{f.lineno} {f.name}\n"
        for f in tb
        if "hypothesis" not in f.filename
    )[-1500:]
