"""Shared definitions survive everything; results belong to who asked for them."""
from sim import session, work
from sim.session import finish_plan, judge, life, ref  # noqa: F401

LEVEL = "exploration"
TIERS = {
    "quick": {"runs": 90, "wall": 40, "min_runs": 16, "shrink_wall": 40, "twice_every": 24},
    "thorough": {"runs": 4000, "wall": 1500, "min_runs": 200, "shrink_wall": 120, "twice_every": 24},
}
ASSUMPTIONS = [
    "the caller damages only what an operation returned to it, not the fields and operators it passed in",
]
RULE = ("seeded history of operations, interrupts at drawn lines, and callers that empty and overwrite the "
        "results they were given; after every step all shared definitions are compared with a fresh process")
STATE_MEASURE = "distinct (previous, next) operation pairs and functions in which a fault struck"
REAL, STUB = session.REAL, session.STUB
MUST_HIT = {"quick": ["results_spoilt"], "thorough": ["results_spoilt"]}
MENU = ["complete", "models", "first", "physics", "export", "scale", "invariants", "unsimplified",
        "fieldstrings", "fieldstrings", "smeft", "topology", "table", "equivalent", "small"]
SPOIL = ["field", "field", "topology", "topology", "complete", "complete", "invariants", "unsimplified", "table", "scale"]


def gen(rng, tier, i):
    ops = work.QUICK if tier == "quick" else work.SMALL
    steps = []
    for _ in range(rng.randrange(2, 4)):
        u = rng.random()
        if u < 0.5:
            do = rng.choice(SPOIL)
            what = {"do": do}
            if do == "field":
                steps.append({"do": "spoil", "what": what, "seed": rng.randrange(1000)})
                what = rng.choice([{"do": "small", "what": rng.choice(["derive", "multiply"]), "seed": 1, "n": 6},
                                   {"do": "unsimplified", "class": rng.choice([1, 2, 3])}])
            else:
                what.update(session.MENU[do](rng, ops))
                steps.append({"do": "spoil", "what": what, "seed": rng.randrange(1000)})
            steps.append(dict(what))
            if do == "topology":
                # the topologies of an operator that uses the same files
                op = {(2, 2): "1", (1, 4): "8", (3, 2): "D3"}.get((what["s"], what["f"]))
                if op:
                    steps.append({"do": "complete", "op": op})
        else:
            st = session.draw(rng, MENU, ops)
            if rng.random() < 0.3:
                st["fault"] = {"exc": "KeyboardInterrupt", "after": int(10 ** (rng.random() * 5.5)) + 1}
            steps.append(st)
    return finish_plan({"lives": [{"hashseed": rng.randrange(3), "steps": steps}], "shared": True})
