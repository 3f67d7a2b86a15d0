"""Calculations that run side by side do not disturb each other."""
from sim import session, work
from props.c02 import SIZE
from sim.session import finish_plan, judge, life, ref  # noqa: F401

LEVEL = "exploration"
TIERS = {
    "quick": {"runs": 60, "wall": 42, "min_runs": 16, "shrink_wall": 40, "twice_every": 12},
    "thorough": {"runs": 4000, "wall": 1500, "min_runs": 200, "shrink_wall": 120, "twice_every": 12},
}
ASSUMPTIONS = [
    "threads are preempted only between lines of neutrinomass code",
]
RULE = ("2-4 caller threads, or 2-4 partially consumed searches, each with its own operation; the next to run "
        "is drawn at line events with an exponentially distributed quantum, or at every delivered completion")
STATE_MEASURE = "distinct schedules (sequence of who runs next)"
REAL, STUB = session.REAL, session.STUB
MUST_HIT = {"quick": ["preemption", "interleaved"], "thorough": ["preemption", "interleaved"]}
MENU = ["complete", "complete", "complete", "models", "physics", "export", "scale", "invariants", "invariants",
        "unsimplified", "unsimplified", "fieldstrings", "fieldstrings", "topology", "table", "equivalent", "match", "small", "small"]
CHEAP = ["scale", "scale", "small", "small", "small", "topology", "table", "match"]


def gen(rng, tier, i):
    ops = work.QUICK if tier == "quick" else work.SMALL
    steps = []
    for _ in range(rng.choice([1, 1, 2])):
        if rng.random() < 0.65:
            n = rng.randrange(2, 4 if tier == "quick" else 5)
            u = rng.random()
            if u < 0.2:
                # in the middle of the same cheap thing
                n = rng.randrange(2, 5)
                do = rng.choice(CHEAP)
                parts = [session.draw(rng, [do], ops) for _ in range(n)]
                if do == "small":
                    parts = [dict(p, what=parts[0]["what"]) for p in parts]
            elif u < 0.4:
                one = session.draw(rng, MENU, ops)
                parts = [dict(one) for _ in range(n)]
            elif u < 0.65:
                n = 2 if tier == "quick" else n
                parts = [{"do": "complete", "op": rng.choice(ops + ["2"])} for _ in range(n)]
            else:
                parts = [session.draw(rng, MENU, ops) for _ in range(n)]
            quantum = rng.choice([1, 3, 30, 300, 3000, 30000, -2, -5, -10, -50])
            if u < 0.2:
                quantum = rng.choice([1, 2, 5, 20, -1, -3, -10])
            if quantum > 0 and tier == "quick":
                # no run with millions of switches
                quantum = max(quantum, int(sum(SIZE[p["do"]] for p in parts) / 2e5) + 1)
            steps.append({"do": "tasks", "parts": parts, "seed": rng.randrange(1 << 30), "quantum": quantum})
        else:
            n = rng.randrange(2, 4)
            pool = ["1", "8", "4a", "4b", "3a", "OQQdu", "OQQdd", "OphieD1"] if tier == "quick" else work.SMALL
            chosen = [rng.choice(pool) for _ in range(n)]
            limits = [None if rng.random() < 0.7 else rng.randrange(0, 12) for _ in range(n)]
            steps.append({"do": "weave", "ops": chosen, "limits": limits,
                          "seed": rng.randrange(1 << 30), "verbose": rng.random() < 0.3})
    return finish_plan({"lives": [{"hashseed": rng.randrange(3), "steps": steps}], "shared": True})


def shrink(plan):
    """Fewer steps, then fewer threads, then plainer operations."""
    import json

    from sim.core import default_shrink

    yield from default_shrink(plan)
    for si, st in enumerate(plan["lives"][0]["steps"]):
        group = "parts" if st["do"] == "tasks" else "ops"
        if len(st.get(group, [])) > 1:
            for k in range(len(st[group])):
                p = json.loads(json.dumps(plan))
                s = p["lives"][0]["steps"][si]
                del s[group][k]
                if "limits" in s:
                    del s["limits"][k]
                yield p
        if st["do"] == "tasks" and 0 < st["quantum"] < 30000:
            p = json.loads(json.dumps(plan))
            p["lives"][0]["steps"][si]["quantum"] = st["quantum"] * 10
            yield p
