"""Fault injection: make the code under test raise at its k-th executed line."""

import os
import sys

from gv.core import PKG


class InjectedError(RuntimeError):
    pass


class InjectedInterrupt(KeyboardInterrupt):
    pass


_known = {}


def _mine(code, pkg=PKG):
    r = _known.get(code.co_filename)
    if r is None:
        r = _known[code.co_filename] = os.path.realpath(code.co_filename).startswith(pkg)
    return r


def run(fn, k=None, exc=InjectedError, stop=None):
    """run fn(), raising exc at the k-th line executed in the code under test.

    stop: optional predicate on the frame; once true, lines are no longer counted or faulted.
    Returns (outcome, value, lines) with outcome in 'returned', 'injected', 'raised'.
    """
    n = 0
    fired = False
    stopped = False
    where = None

    def local(frame, event, arg):
        nonlocal n, fired, stopped, where
        if event == "line" and not stopped:
            n += 1
            if n == k:
                fired = True
                where = (os.path.basename(frame.f_code.co_filename), frame.f_code.co_name)
                raise exc("injected fault")
        return local

    def tracer(frame, event, arg):
        nonlocal stopped
        if event == "call":
            if stop is not None and stop(frame):
                stopped = True
            if _mine(frame.f_code):
                return local
        return None

    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        value = fn()
        out = "returned"
    except (InjectedError, InjectedInterrupt) as e:
        out, value = "injected", e
    except Exception as e:
        out, value = "raised", e
    finally:
        sys.settrace(old)
    if fired and out == "raised":
        out = "injected"
    return out, value, n, where
