"""Shortcuts through third-party pure functions, so that more runs fit in the time.

mpmath's integer relation search takes most of the time of a scale estimate and is
a pure function of its arguments; results are looked up by argument in
golden/pslq.json (tools/make_pslq.py) and worked out as usual when not there.
Primes up to a few hundred are sieved before the process is cloned.
"""
import hashlib
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TABLE = os.path.join(HERE, "golden", "pslq.json")
SEEN = {}


def key(ctx, x, tol, maxcoeff, maxsteps):
    parts = [ctx.prec, [str(v._mpf_) for v in x], str(getattr(tol, "_mpf_", tol)), str(maxcoeff), str(maxsteps)]
    return hashlib.sha256(repr(parts).encode()).hexdigest()[:20]


def install(record=False):
    import mpmath
    import sympy

    sympy.sieve.extend_to_no(700)
    # imports what the solver imports when it is first used
    sympy.solve(1.5 / sympy.Symbol("x") - 2.5, sympy.Symbol("x"))
    cls = type(mpmath.mp)
    real = cls.pslq
    known = {}
    if os.path.exists(TABLE):
        with open(TABLE) as f:
            known = json.load(f)

    def pslq(ctx, x, tol=None, maxcoeff=1000, maxsteps=100, verbose=False):
        try:
            k = key(ctx, x, tol, maxcoeff, maxsteps)
        except AttributeError:
            return real(ctx, x, tol, maxcoeff, maxsteps, verbose)
        if k in known:
            r = known[k]
            return None if r is None else list(r)
        r = real(ctx, x, tol, maxcoeff, maxsteps, verbose)
        if record:
            SEEN[k] = None if r is None else [int(v) for v in r]
        return r

    cls.pslq = pslq
