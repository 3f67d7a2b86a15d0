"""What made-up records evaluate to; the plan decides which evaluations fail."""
import contextlib

CALLS = {"n": 0, "fail": {}, "fired": []}


def build(i):
    """A stand-in for a completion; the n-th evaluation may fail."""
    CALLS["n"] += 1
    exc = CALLS["fail"].pop(CALLS["n"], None)
    if exc is not None:
        CALLS["fired"].append(exc.__name__)
        raise exc("evaluation %d" % CALLS["n"])
    return ["built", i]


@contextlib.contextmanager
def failing(faults):
    """{n: exception}: the n-th evaluation from now on raises."""
    CALLS["n"], CALLS["fired"] = 0, []
    CALLS["fail"] = dict(faults)
    try:
        yield CALLS["fired"]
    finally:
        CALLS["fail"] = {}


def text(i):
    return "__import__('sim.tails', fromlist=['build']).build(%d)" % i
