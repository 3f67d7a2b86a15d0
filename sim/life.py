"""Entry point of one simulated process life (inside the forked child)."""

import importlib
import random

from collections import Counter


class Ctx:
    def __init__(self, plan, index, scratch, previous):
        self.plan, self.index, self.scratch, self.previous = plan, index, scratch, previous
        self.log = []
        self.faults = Counter()
        self.probes = Counter()
        self.states = set()
        self.ticks = 0
        self.last = "start"

    def value(self, result):
        return {
            "result": result,
            "log": self.log,
            "faults": dict(self.faults),
            "probes": dict(self.probes),
            "states": sorted(self.states),
            "ticks": self.ticks,
        }


def run(prop, plan, index, scratch, previous, refs):
    mod = importlib.import_module("props." + prop.lower())
    ctx = Ctx(plan, index, scratch, previous)
    ctx.refs = refs
    # the process-wide generator: differently seeded in every life
    random.seed("%s|%s" % (plan.get("run"), index))
    result = mod.life(plan, index, ctx)
    return ctx.value(result)
