"""Interrupted and abandoned calculations leave nothing behind."""
from sim import session, work
from sim.session import finish_plan, judge, life, ref  # noqa: F401
from sim.seams import moment

LEVEL = "exploration"
TIERS = {
    "quick": {"runs": 70, "wall": 42, "min_runs": 16, "shrink_wall": 40, "twice_every": 24},
    "thorough": {"runs": 4000, "wall": 1500, "min_runs": 200, "shrink_wall": 120, "twice_every": 24},
}
ASSUMPTIONS = [
    "an interrupt arrives between two lines of neutrinomass code (lines of sympy or networkx are not interrupted)",
]
RULE = ("seeded history of operations; most are hit by KeyboardInterrupt, MemoryError, RecursionError or "
        "TimeoutError after a log-uniform number of executed lines, then repeated and followed by others")
STATE_MEASURE = "distinct functions in which a fault struck, and (previous, next) operation pairs"
REAL, STUB = session.REAL, session.STUB
MUST_HIT = {"quick": ["KeyboardInterrupt", "MemoryError"], "thorough": ["KeyboardInterrupt", "MemoryError"]}
MENU = ["complete", "complete", "complete", "models", "first", "physics", "export", "scale", "invariants",
        "unsimplified", "fieldstrings", "fieldstrings", "smeft", "topology", "table", "equivalent", "match", "small", "small", "small"]
QUICK_ONES = ["scale", "scale", "scale", "small", "match", "table", "topology"]
# executed lines of an operation, roughly
SIZE = {"complete": 6e5, "models": 7e5, "first": 1e5, "physics": 8e5, "export": 9e5, "scale": 2e3,
        "invariants": 1e5, "unsimplified": 2e4, "fieldstrings": 1e5, "smeft": 4e5, "topology": 3e2,
        "table": 1e3, "match": 4e3, "small": 1e4, "equivalent": 7e5, "mass_terms": 5e6}
# functions an operation goes through, roughly
FUNCTIONS = {"scale": 60, "topology": 12, "table": 20, "unsimplified": 60, "fieldstrings": 40, "match": 40, "small": 60}


def gen(rng, tier, i):
    ops = work.QUICK if tier == "quick" else work.SMALL
    menu = MENU + (["mass_terms"] if tier == "thorough" else [])
    steps = []
    for _ in range(rng.randrange(2, 5)):
        st = session.draw(rng, menu, ops)
        if rng.random() < 0.8:
            size = SIZE[st["do"]]
            lo = rng.choice([1.0, size / 100, size / 4])
            after = int(lo * (1.3 * size / lo) ** rng.random()) + 1
            when = {"after": after}
            if rng.random() < 0.35:
                when = moment(rng, 4, FUNCTIONS.get(st["do"], 150))
            hit = dict(st, fault={
                **when, "exc": rng.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "RecursionError", "TimeoutError"]),
            })
            steps.append(hit)
            if rng.random() < 0.5:
                steps.append(st)  # the user tries again
        else:
            steps.append(st)
    # quick ones, each interrupted and then done again
    for _ in range(rng.choice([1, 2, 3])):
        st = session.draw(rng, QUICK_ONES, ops)
        after = int((1.3 * SIZE[st["do"]]) ** rng.uniform(0.4, 1)) + 1
        when = {"after": after} if rng.random() < 0.7 else moment(rng, 4, FUNCTIONS.get(st["do"], 150))
        at = rng.randrange(len(steps) + 1)
        steps[at:at] = [dict(st, fault={**when, "exc": rng.choice(["KeyboardInterrupt", "MemoryError", "TimeoutError"])}), st]
    # what the history must not have spoilt
    probe = rng.choice([
        {"do": "complete", "op": rng.choice(["1", "8", "D2a"])},
        {"do": "physics", "op": "1"}, {"do": "export", "op": "8"},
        {"do": "invariants", "class": rng.choice([1, 3, 8])},
        {"do": "fieldstrings", "n": 3}, {"do": "scale", "op": "8"},
    ])
    steps.append(probe)
    return finish_plan({"lives": [{"hashseed": rng.randrange(3), "steps": steps}], "shared": True})
