"""What a property module is made of, and how one case is judged."""
import hashlib
import json
import os
import signal
import sys
import traceback

from . import env


class Violation(Exception):
    """The property is broken by this case."""


class Inconclusive(Exception):
    """The case could not be judged (harness time budget)."""


class Part:
    """One generated check of a property.

    strategy : () -> Hypothesis strategy producing a JSON-able case
    check    : case -> (nontrivial: bool, tags: list[str]); raises Violation
    """

    def __init__(self, name, strategy, check, quick, thorough):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough


def case_key(case):
    return hashlib.sha1(
        json.dumps(case, sort_keys=True).encode()
    ).hexdigest()[:16]


CASE_SECONDS = 240  # wall clock: the harness gives up
CPU_SECONDS = 60  # processor time: ten times the most expensive case


def _alarm(*a):
    raise Inconclusive("case took more than %d s" % CASE_SECONDS)


def _busy(*a):
    raise Violation(
        "not finished after %d s of processor time (the most expensive case "
        "needs 6 s)" % CPU_SECONDS
    )


def judge(part, case):
    """Run one case. An exception that comes out of trusspy code is a violation:
    every generated input is one the code is documented to accept. So is an
    exception raised while the check reads the model or the results it was
    given (a missing attribute, a list of the wrong length), and a case that
    does not come to an end."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _busy)
    signal.alarm(CASE_SECONDS)
    # fires again every second: code under test may swallow the first exception
    signal.setitimer(signal.ITIMER_PROF, CPU_SECONDS, 1.0)
    out = sys.stdout
    cwd = os.getcwd()
    try:
        return part.check(case)
    except (Violation, Inconclusive):
        raise
    except Exception as e:
        if type(e).__module__.split(".")[0] == "hypothesis":
            raise
        src = os.path.realpath(env.SRC) + os.sep
        frames = traceback.extract_tb(e.__traceback__)
        hits = [f for f in frames if os.path.realpath(f.filename).startswith(src)]
        if not hits and isinstance(e, (MemoryError, OSError, ImportError)):
            raise  # the harness
        f = (hits or frames)[-1]
        raise Violation(
            "%s %s: %s (raised %s %s line %d in %s)"
            % (
                "unexpected" if hits else "model or results cannot be read:",
                type(e).__name__,
                str(e)[:200],
                "under" if hits else "at",
                os.path.basename(f.filename),
                f.lineno,
                f.name,
            )
        ) from e
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.alarm(0)
        sys.stdout = out
        os.chdir(cwd)
        if "matplotlib.pyplot" in sys.modules:
            sys.modules["matplotlib.pyplot"].close("all")
