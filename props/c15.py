"""Timing and progress displays tell the truth and change nothing."""
import contextlib
import io
import logging
import os
import random
import re
import signal
import sys
import threading
import time

from sim import session, work
from sim.seams import FAULTS, Clock, Tasks, Ticker, moment

LEVEL = "exploration"
TIERS = {
    "quick": {"runs": 400, "wall": 40, "min_runs": 40, "shrink_wall": 40, "twice_every": 12},
    "thorough": {"runs": 20000, "wall": 900, "min_runs": 600, "shrink_wall": 120, "twice_every": 12},
}
ASSUMPTIONS = [
    "the clock that is never set back always moves on between two readings",
    "no terminal: on one, the progress display runs a thread of its own, which is not simulated",
]
RULE = ("calculations with their displays on and timed functions, under clocks that are set back and forward, stall and "
        "leap, with an output that is full, closed or fails at a drawn write, functions that raise, interrupts and "
        "several threads; every result is compared with the quiet calculation in a fresh process")
STATE_MEASURE = "distinct (calculation or timing, kind of output, fault, outcome) tuples"
REAL = session.REAL + ["alive_progress"]
STUB = session.STUB + ["clocks: simulated", "standard output: in-process, or a full device"]
MUST_HIT = {"quick": ["clock_step", "output_failed", "timed", "display", "preemption", "KeyboardInterrupt"],
            "thorough": ["clock_step", "output_failed", "timed", "display", "preemption", "KeyboardInterrupt"]}
OUTPUTS = ["fine", "fine", "fine", "full", "fails", "ascii", "closed"]
OPS = ["1", "1", "OphieD1", "Ophie2", "OHHHH", "OphidD", "8"]


def draw_calc(rng):
    u = rng.random()
    if u < 0.35:
        return {"do": "complete", "op": rng.choice(OPS), "verbose": True}
    if u < 0.7:
        return {"do": "fieldstrings", "n": 2, "fields": rng.choice([["L", "H"], ["Q", "ub"], ["L", "Q", "H"], ["db"]])}
    if u < 0.8:
        return {"do": "loud", "what": "scale", "op": rng.choice(work.ALL_SCALES)}
    if u < 0.9:
        return {"do": "loud", "what": "fixed_point", "op": rng.choice(["1", "2", "3a", "8", "9"])}
    return {"do": "loud", "what": "smeft"}


def draw_timed(rng, depth=0):
    t = {"do": "timed", "name": rng.choice(["alpha", "beta", "gamma"]), "takes": rng.choice([0.0, 0.002, 1.5, 90000.0]),
         "value": rng.randrange(1000), "log": rng.choice([None, None, "name", "given"])}
    if rng.random() < 0.25:
        t["raises"] = rng.choice(["ValueError", "KeyboardInterrupt", "StopIteration"])
    if rng.random() < 0.3:
        t["first"] = rng.choice([0.0, 0.25, 7.0])
    if rng.random() < 0.2:
        t["deep"] = rng.randrange(1, 3)
    elif depth < 2 and rng.random() < 0.4:
        t["inner"] = draw_timed(rng, depth + 1)
    elif rng.random() < 0.2:
        t["calc"] = draw_calc(rng)
    return t


def gen(rng, tier, i):
    steps = []
    for _ in range(rng.randrange(2, 8)):
        st = {"part": draw_timed(rng) if rng.random() < 0.5 else draw_calc(rng), "out": rng.choice(OUTPUTS),
              "nth": rng.choice([1, 1, 2, 3, 6]), "clock": rng.randrange(1 << 30)}
        u = rng.random()
        if u < 0.2 and st["out"] == "fine":
            st["others"] = [draw_calc(rng) for _ in range(rng.randrange(1, 3))]
            st["quantum"] = rng.choice([10, 60, 300, -5])
        elif u < 0.4:
            st["interrupt"] = {**moment(rng, 3.5, 30), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}
        steps.append(st)
    return finish_plan({"lives": [{"hashseed": rng.randrange(3), "steps": steps}]})


def calcs(part):
    if part["do"] != "timed":
        return [part]
    return [c for k in ("inner", "calc") if part.get(k) for c in calcs(part[k])]


def finish_plan(plan):
    refs = []
    for st in plan["lives"][0]["steps"]:
        for p in [st["part"]] + st.get("others", []):
            for c in calcs(p):
                k = work.key(c)
                if k not in refs:
                    refs.append(k)
    plan["refs"] = refs
    return plan


def loud(step, verbose):
    """Calculations that talk while they work."""
    if step["what"] == "smeft":
        from neutrinomass.tensormethod import smeft as sm

        return sorted(work.sorted_leaves(p) for p in sm.generate_operators(3, sm.FIELDS, verbose=verbose))
    from neutrinomass.database import closures

    op = work.operators()[step["op"]]
    if step["what"] == "scale":
        return sorted(str(e) for e in closures.neutrino_mass_estimate(op, verbose=verbose))
    return sorted(str(closures.fixed_point(s, verbose=verbose)) for s in closures.parse_operator(op))


def calculate(step, verbose=True):
    if step["do"] == "loud":
        return loud(step, verbose)
    return work.run(dict(step, verbose=verbose) if step["do"] == "complete" else step)


def ref(k):
    return session.call(lambda: calculate(k, verbose=False))


class Flaky(io.TextIOBase):
    """A text output whose writes fail from the nth on (until mended)."""

    def __init__(self, kind, nth, ctx):
        self.kind, self.nth, self.ctx, self.n, self.hits = kind, nth, ctx, 0, 0
        self.text = []

    @property
    def encoding(self):
        return "ascii" if self.kind == "ascii" else "utf-8"

    def writable(self):
        return True

    def write(self, s):
        if self.kind == "ascii":
            bad = not s.isascii()
        else:
            self.n += 1
            bad = self.kind != "fine" and self.n >= self.nth
        if bad:
            self.hits += 1
            self.ctx.faults["output_failed"] += 1
            if self.kind == "closed":
                raise ValueError("I/O operation on closed file.")
            if self.kind == "ascii":
                s.encode("ascii")
            raise OSError(32 if self.kind == "fails" else 28, "output")
        self.text.append(s)
        return len(s)


EXC = {"ValueError": ValueError, "KeyboardInterrupt": KeyboardInterrupt, "StopIteration": StopIteration}


def perform(part, clock, facts):
    """A step; timings are noted as [name, log or None, shortest, longest]."""
    from neutrinomass.utils import timeit

    if part["do"] != "timed":
        return calculate(part)
    token = object() if part["value"] % 2 else [part["value"]]
    got, now = {}, {"takes": part["takes"], "deep": part.get("deep", 0)}

    def method(*args, **kw):
        clock.mono += now["takes"]
        clock.wall += now["takes"]
        if now["deep"]:
            now["deep"] -= 1
            call()
        for k in ("inner", "calc"):
            if part.get(k) and not now.get("first"):
                got[k] = perform(part[k], clock, facts)
        if part.get("raises") and not now.get("first"):
            raise EXC[part["raises"]]("as planned")
        assert args == (part["value"],)
        return token

    method.__name__ = part["name"]
    f = timeit(method)
    logbook, kw = {}, {}
    if part["log"]:
        kw["log_time"] = logbook
        if part["log"] == "given":
            kw["log_name"] = "my " + part["name"]

    def call():
        least = now["takes"] * (1 + now["deep"])
        start = clock.mono
        value = f(part["value"], **kw)
        facts.append({"name": part["name"], "log": [part["log"], dict(logbook)], "same": value is token,
                      "least": least, "most": clock.mono - start})

    if "first" in part:
        # the same function was timed before, and took another time
        now = {"takes": part["first"], "deep": 0, "first": True}
        call()
        now = {"takes": part["takes"], "deep": part.get("deep", 0)}
    call()
    return got


def attempt(fn):
    try:
        return {"ok": fn()}
    except (KeyboardInterrupt, Exception) as e:
        return {"raised": type(e).__name__}


def surroundings():
    return [sys.stdout is sys.__stdout__, "write" in getattr(sys.stdout, "__dict__", {}), threading.active_count(), str(signal.getsignal(signal.SIGINT)), sys.excepthook is sys.__excepthook__,
            len(logging.root.handlers), sys.gettrace() is None, sys.getswitchinterval(), os.getcwd()]


def life(plan, i, ctx):
    import neutrinomass.tensormethod.smeft  # noqa: F401

    out = []
    home = sys.stdout
    before = surroundings()
    full = os.open("/dev/full", os.O_WRONLY)
    null = os.open("/dev/null", os.O_WRONLY)
    with Ticker() as ticker:
        for n, st in enumerate(plan["lives"][i]["steps"]):
            intr, facts = st.get("interrupt"), []
            flaky = Flaky(st["out"], st["nth"], ctx)
            clock = Clock(ctx, st["clock"], least=1e-7)
            if st["out"] != "full":
                sys.stdout = flaky
            else:
                home.flush()
                os.dup2(full, 1)
            with clock:
                if st.get("others"):
                    pool = Tasks(ticker, random.Random(st["clock"]), st["quantum"])
                    todo = [lambda p=p: perform(p, clock, facts if k == 0 else []) for k, p in enumerate([st["part"]] + st["others"])]
                    got = [{"ok": r} if k == "ok" else {"raised": r} for k, r in pool.run(todo)]
                    ctx.faults["preemption"] += pool.switches
                else:
                    if intr:
                        ticker.arm(intr, FAULTS[intr["exc"]])
                    got = [attempt(lambda: perform(st["part"], clock, facts))]
                    if ticker.disarm():
                        ctx.faults[intr["exc"]] += 1
                        intr = True
                replaced = sys.stdout is not (flaky if st["out"] != "full" else home)
                sys.stdout = home
                failed = flaky.hits > 0
                if st["out"] == "full":
                    with contextlib.suppress(OSError):
                        home.flush()
                    os.dup2(null, 1)
                    with contextlib.suppress(OSError):
                        home.flush()
                    failed = True
                    ctx.faults["output_failed"] += 1
                said = "".join(flaky.text)
                ctx.probes["timed" if st["part"]["do"] == "timed" else "display"] += 1
                rec = {"got": got, "facts": facts if not st.get("others") else [], "excused": failed or intr is True or bool(st.get("others")) and raising(st["part"]),
                       "lines": timing_lines(said) if st["out"] == "fine" and not st.get("others") else None, "replaced": replaced,
                       "around": [a == b for a, b in zip(surroundings(), before)]}
                # the same, quietly and loudly, afterwards
                parts = [c for p in [st["part"]] + st.get("others", []) for c in calcs(p)]
                rec["again"] = [attempt(lambda: calculate(c)) for c in parts]
            ctx.states.add("%s %s %s %s" % (st["part"]["do"], st["out"], intr, [g.get("raised", "ok") for g in got]))
            ctx.log.append(work.h(rec))
            out.append(rec)
        ctx.ticks += ticker.n
    return out


def timing_lines(text):
    return [[a, float(b)] for a, b in re.findall(r"'(\w+)'\s+(-?[\d.]+) ms", text)]


def raising(part):
    return bool(part.get("raises")) or bool(part.get("inner")) and raising(part["inner"])


def planned(part):
    """The exception a timed step ends with."""
    if part.get("inner"):
        e = planned(part["inner"])
        if e:
            return e
    return part.get("raises")


def results(part, value):
    """[(calculation, result)] of a finished step."""
    if part["do"] != "timed":
        return [(part, value)]
    return [x for k in ("inner", "calc") if part.get(k) for x in results(part[k], value[k])]


def judge(plan, values, refs):
    bad = []
    gold = session.golden()
    for n, rec in enumerate(values[0]["result"]):
        st = plan["lives"][0]["steps"][n]

        def add(cls, detail):
            bad.append({"class": cls, "detail": "step %d (%s, output %s): %s" % (n, what(st["part"]), st["out"], detail)})

        def compare(c, value, when):
            k = session.skey(work.key(c))
            want = refs[k]
            if want["status"] != "ok":
                add("error", "in a fresh process: %s" % want.get("error"))
            elif value != want["value"]:
                add("result_changed", "%s gives another result %s" % (what(c), when))
            elif k in gold and gold[k] != work.h(want["value"]):
                add("differs_from_record", what(c))

        for p, got in zip([st["part"]] + st.get("others", []), rec["got"]):
            if "raised" in got:
                if got["raised"].split(":")[0] == planned(p) or rec["excused"]:
                    continue
                add("error", "raised %s" % got["raised"])
            elif planned(p):
                add("error_swallowed", "%s did not reach the caller" % planned(p))
            else:
                for c, v in results(p, got["ok"]):
                    compare(c, v, "with its display on")
        for f in rec["facts"]:
            if not f["same"]:
                add("result_changed", "the timed function returns something else")
            kind, book = f["log"]
            if kind:
                name = "my " + f["name"] if kind == "given" else f["name"].upper()
                if list(book) != [name]:
                    add("misreported", "notes %s instead of %s" % (list(book), name))
                elif not 1000 * f["least"] - 1 <= book[name] <= 1000 * f["most"] + 1:
                    add("wrong_time", "notes %s ms, it took %s to %s s" % (book[name], f["least"], f["most"]))
            elif rec["lines"] is not None:
                hits = [ms for name, ms in rec["lines"] if name == f["name"]]
                if not any(1000 * f["least"] - 0.02 <= ms <= 1000 * f["most"] + 0.02 for ms in hits):
                    add("wrong_time", "shows %s ms, it took %s to %s s" % (hits, f["least"], f["most"]))
        plain = [f for f in rec["facts"] if not f["log"][0]]
        if rec["lines"] is not None and len(rec["lines"]) == len(plain) and not rec["excused"]:
            for f, (name, ms) in zip(plain, rec["lines"]):
                if name != f["name"] or not 1000 * f["least"] - 0.02 <= ms <= 1000 * f["most"] + 0.02:
                    add("wrong_time", "shows %s ms for %s, %s took %s to %s s" % (ms, name, f["name"], f["least"], f["most"]))
        if rec["lines"] is not None and len(rec["lines"]) != sum(f["log"][0] is None for f in rec["facts"]) and not rec["excused"] and not planned(st["part"]):
            add("misreported", "%d timings shown for %d timed calls" % (len(rec["lines"]), len(rec["facts"])))
        if rec["replaced"] or not all(rec["around"]):
            add("left_behind", "the process is not as it was: %s" % ["output replaced"] * rec["replaced"] + str(rec["around"]))
        parts = [c for p in [st["part"]] + st.get("others", []) for c in calcs(p)]
        for c, got in zip(parts, rec["again"]):
            if "raised" in got:
                add("error", "%s raised %s when done again" % (what(c), got["raised"]))
            else:
                compare(c, got["ok"], "when done again")
        if bad:
            return bad
    return bad


def what(part):
    return "%s %s" % (part["do"], part.get("op", part.get("what", part.get("name", ""))))
