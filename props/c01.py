"""Same results whatever the process, its hash seed and what was done before."""
from sim import session, work
from sim.session import finish_plan, judge, life, ref  # noqa: F401

LEVEL = "exploration"
TIERS = {
    "quick": {"runs": 150, "wall": 40, "min_runs": 24, "shrink_wall": 40, "twice_every": 24},
    "thorough": {"runs": 6000, "wall": 1500, "min_runs": 200, "shrink_wall": 120, "twice_every": 24},
}
ASSUMPTIONS = [
    "two results are compared in canonical form: up to index names, letters of exotics, overall sign and order",
    "golden/results.json records the results at the pinned commit; found models are also in the shipped tables",
]
RULE = "seeded draw of 2-6 operations per process from the whole menu, one hash seed per process"
STATE_MEASURE = "distinct (previous operation, operation) pairs"
REAL, STUB = session.REAL, session.STUB
MENU = ["complete", "complete", "models", "first", "physics", "export", "scale", "scale", "scale", "invariants",
        "unsimplified", "fieldstrings", "smeft", "topology", "table", "equivalent", "small", "small"]
SEEDS = {"quick": 4, "thorough": 24}


def gen(rng, tier, i):
    ops = work.QUICK * 2 + work.SMALL + (work.SLOW if tier == "thorough" else [])
    menu = MENU + (["mass_terms"] if tier == "thorough" else [])
    lives = []
    for _ in range(rng.choice([1, 1, 2])):
        steps = []
        for _ in range(rng.randrange(2, 5)):
            repeat = steps and rng.random() < 0.35
            steps.append(session.again(rng, steps) if repeat else session.draw(rng, menu, ops))
        lives.append({"hashseed": 1 + rng.randrange(SEEDS[tier]), "steps": steps})
    return finish_plan({"lives": lives, "shared": False, "ticker": False})
