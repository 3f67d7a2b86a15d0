"""The filters keep exactly the models that the published procedure keeps."""
import os

from sim import models as M
from sim import session, work
from sim.seams import FAULTS, Disk, Ticker, moment

LEVEL = "exploration"
TIERS = {
    "quick": {"runs": 900, "wall": 36, "min_runs": 40, "shrink_wall": 40, "twice_every": 16},
    "thorough": {"runs": 40000, "wall": 900, "min_runs": 800, "shrink_wall": 120, "twice_every": 16},
}
WANT_REFS = True
ASSUMPTIONS = [
    "reference model: a model stays unless an operator that implies a larger scale (lower dimension) has a model "
    "contained in it; field content or interactions are compared up to conjugation; of equivalent models the first stays",
    "scales of the operators are those of the library in a fresh process",
    "the operator tables are cut down to the operators of the records",
]
RULE = ("made-up databases of 1-7 operators, processed with drawn philosophy and criterion, seesaw and one-loop "
        "filters, in processes with different hash seeds and listing orders; interrupts at drawn lines, then again; "
        "the same records in a second database of another kind")
STATE_MEASURE = "distinct (philosophy, criterion, interrupted function) and numbers of models kept"
REAL, STUB = session.REAL, session.STUB
MUST_HIT = {"quick": ["KeyboardInterrupt", "removed", "listing_order", "records_shared"], "thorough": ["KeyboardInterrupt", "removed"]}
DIMENSION = {"1": 5, "2": 7, "3a": 7, "4a": 7, "8": 7, "9": 9, "14a": 9, "61a": 9, "1p": 7, "D2a": 7, "D3": 7}
ONE_LOOP = 605520000000.0 / (16 * 3.141592653589793 ** 2)


def gen(rng, tier, i):
    ops = rng.sample(M.FAST, rng.randrange(1, 8))
    if rng.random() < 0.25:
        near = rng.choice(M.NEAR + [rng.sample(M.AT_LOOP, 3)] * 5)
        ops = near + [o for o in ops[:2] if o not in near]
    n = rng.randrange(2, 30 if tier == "quick" else 80)
    models = M.draw_models(rng, ops, n, small=rng.random() < 0.6)
    files = M.spread(rng, models, rng.randrange(1, 5))
    lives = []
    for _ in range(rng.choice([1, 2])):
        steps = []
        for _ in range(rng.randrange(1, 4)):
            st = {"philosophy": rng.choice(["democratic", "stringent"]), "criterion": rng.choice(["mass", "mass", "dimension"]),
                  "seesaws": rng.random() < 0.3, "how": rng.choice(["process", "process", "filter", "steps"])}
            if rng.random() < 0.3:
                st["fill"] = True
            if rng.random() < 0.5:
                st["interrupts"] = [
                    {**moment(rng, 4.3, 25, "database/database"), "exc": rng.choice(["KeyboardInterrupt", "MemoryError", "TimeoutError"])}
                    for _ in range(rng.choice([1, 1, 2]))]
            if steps and rng.random() < 0.5:
                # the same records in another database, or what an earlier one kept
                st["from"] = rng.choice(["raw", "raw", "kept"])
            if rng.random() < (0.8 if set(ops) & set(M.AT_LOOP[1:]) else 0.4):
                st["groups"] = [rng.choice(M.LOOPS + [rng.sample(m["qns"], min(2, len(m["qns"]))) for m in models[:4]])]
            steps.append(st)
        lives.append({"hashseed": rng.randrange(4), "steps": steps, "disk": {"seed": rng.randrange(1 << 30), "shuffle": True}})
    return finish_plan({"lives": lives, "models": models, "files": files})


def finish_plan(plan):
    ops = sorted({m["op"] for m in plan["models"]})
    plan["refs"] = [{"do": "rank", "op": o} for o in ops]
    return plan


def ref(key):
    from neutrinomass.database.closures import neutrino_mass_estimate, numerical_np_scale_estimate

    op = work.operators()[key["op"]]
    return [max(float(numerical_np_scale_estimate(e)) for e in neutrino_mass_estimate(op)), op.mass_dimension]


def ranks(refs):
    import json

    return {json.loads(k)["op"]: v for k, v in refs.items()}


def kept(db):
    return [[k, [M.ident(m) for m in v]] for k, v in db.data.items()]


def run(db, st, n):
    """One attempt; a user who is interrupted calls the same thing again."""
    if st.get("fill"):
        db.fill_scale_dict()
    if st["how"] == "process":
        db.process(filter_seesaws=st["seesaws"])
    elif st["how"] == "filter":
        if st["seesaws"]:
            db.filter_by_query(type(db).no_seesaws)
        db.remove_equivalent_models()
        db.filter()
    else:
        if st["seesaws"]:
            db.filter_by_query(type(db).no_seesaws)
        db.remove_equivalent_models()
        db.order()
        if db.is_mass:
            db.filter_by_mass()
        else:
            db.filter_by_dimension()


def life(plan, i, ctx):
    from neutrinomass.completions import DERIV_EFF_OPERATORS, EFF_OPERATORS
    from neutrinomass.database.database import ModelDatabase

    ops = {m["op"] for m in plan["models"]}
    for table in (EFF_OPERATORS, DERIV_EFF_OPERATORS):
        for k in list(table):
            if k not in ops:
                del table[k]
    folder = os.path.join(ctx.scratch, "life%d" % i)
    M.lay(folder, plan["files"], plan["models"])
    L = plan["lives"][i]
    out = []
    raw = last = None
    with Ticker() as ticker:
        for n, st in enumerate(L["steps"]):
            given = {"raw": raw, "kept": last}.get(st.get("from"))
            with Disk(ctx, [folder], L["disk"]):
                if given is None:
                    db = ModelDatabase(folder, philosophy=st["philosophy"], criterion=st["criterion"])
                else:
                    db = ModelDatabase(folder, philosophy=st["philosophy"], criterion=st["criterion"],
                                       data={k: list(v) for k, v in given.items()})
                    ctx.probes["records_shared"] += 1
            if raw is None:
                raw = {k: list(v) for k, v in db.data.items()}
            start = [[k, [m.head["topology"] for m in v]] for k, v in db.data.items()]
            rec = {"start": start}
            fired = None
            try:
                for intr in st.get("interrupts", []):
                    ticker.arm(intr, FAULTS[intr["exc"]])
                    try:
                        run(db, st, n)
                    except FAULTS[intr["exc"]]:
                        pass
                    hit = ticker.disarm()
                    if hit:
                        ctx.faults[intr["exc"]] += 1
                        fired = hit
                run(db, st, n)
                rec["kept"] = kept(db)
                last = {k: list(v) for k, v in db.data.items()}
                if st.get("groups") and st["criterion"] == "mass":
                    nums = set()
                    for g in st["groups"]:
                        p = 1
                        for q in g:
                            p *= db.exotic_prime_dict.get(q, 0)
                        if p:
                            nums.add(p)
                    db.filter_one_loop_weinberg(nums)
                    rec["one_loop"] = kept(db)
            except Exception as e:
                rec["raised"] = "%s: %s" % (type(e).__name__, str(e)[:200])
            ctx.states.add("%s %s %s" % (st["philosophy"], st["criterion"], fired))
            left = sum(len(v) for v in db.data.values())
            ctx.states.add("kept %d of %d" % (left, len(plan["models"])))
            if left < len(plan["models"]):
                ctx.probes["removed"] += 1
            out.append(rec)
            ctx.log.append(work.h(rec))
        ctx.ticks += ticker.n
    return out


def judge(plan, values, refs):
    bad = []
    rank = ranks(refs)
    by = {m["id"]: m for m in plan["models"]}
    for i, v in enumerate(values):
        for n, rec in enumerate(v["result"]):
            st = plan["lives"][i]["steps"][n]
            where = "life %d step %d (%s, %s%s%s)" % (
                i, n, st["philosophy"], st["criterion"], ", no seesaws" if st["seesaws"] else "",
                ", interrupted" if st.get("interrupts") else "")
            if "raised" in rec:
                bad.append({"class": "error", "detail": "%s: %s" % (where, rec["raised"])})
                return bad
            models = [by[int(t[1:])] for _, ts in rec["start"] for t in ts]
            mass = st["criterion"] == "mass"
            r = {o: (rank[o][0] if mass else -rank[o][1]) for o in rank}
            want = M.process(models, r, st["philosophy"], st["seesaws"])

            def compare(what, got, want):
                g = {k: x for k, x in got if x}
                w = {k: [M.want(m) for m in x] for k, x in want.items() if x}
                for k in sorted(set(g) | set(w)):
                    a, b = sorted(g.get(k, [])), sorted(w.get(k, []))
                    if a != b:
                        bad.append({"class": what, "detail": "%s: operator %s keeps models %s, expected %s" % (
                            where, k, [x[0] for x in a], [x[0] for x in b])})
                        return

            compare("kept_models_differ", rec["kept"], want)
            order = [k for k, _ in rec["kept"]]
            if [r[k] for k in order] != sorted((r[k] for k in order), reverse=True):
                bad.append({"class": "not_ordered", "detail": "%s: operators come as %s" % (where, order)})
            if "one_loop" in rec:
                qns = {q for m in plan["models"] for q in m["qns"]} | {M.conj_field(q) for m in plan["models"] for q in m["qns"]}
                groups = [g for g in st["groups"] if all(q in qns for q in g)]
                compare("one_loop_filter_differs", rec["one_loop"],
                        M.one_loop(want, {o: rank[o][0] for o in rank}, groups, ONE_LOOP))
            if bad:
                return bad
    return bad
