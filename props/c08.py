"""Loading a folder keeps every record; order and numbering do not depend on the listing."""
import os
import random

from sim import models as M
from sim import session, work
from sim.canon import conj_field
from sim.seams import FAULTS, Disk, Ticker, moment

LEVEL = "exploration"
TIERS = {
    "quick": {"runs": 1500, "wall": 32, "min_runs": 40, "shrink_wall": 40, "twice_every": 16},
    "thorough": {"runs": 40000, "wall": 900, "min_runs": 800, "shrink_wall": 120, "twice_every": 16},
}
ASSUMPTIONS = ["model files are those named *.dat directly in the folder"]
RULE = ("a folder of 1-6 files with made-up records of 1-5 operators, loaded in 2-3 processes with different hash "
        "seeds and drawn listing orders, under I/O errors and interrupts, then loaded again without")
STATE_MEASURE = "distinct (fault kinds fired, outcome) pairs and listing orders"
REAL, STUB = session.REAL, session.STUB + ["disk: in-process fault layer"]
MUST_HIT = {"quick": ["EIO", "listing_order", "KeyboardInterrupt"], "thorough": ["EIO", "listing_order", "KeyboardInterrupt"]}


def gen(rng, tier, i):
    ops = rng.sample(M.OPS, rng.randrange(1, 6))
    models = M.draw_models(rng, ops, rng.randrange(1, 40), small=rng.random() < 0.5)
    files = M.spread(rng, models, rng.randrange(1, 7))
    if rng.random() < 0.25:
        # a record that is in two places
        rng.choice(files)[1].append(rng.randrange(len(models)))
    extra = rng.sample(["notes.txt", "op_1.dat.bak", "op.data"], rng.randrange(0, 3))
    lives = []
    for _ in range(rng.choice([2, 2, 3])):
        steps = []
        for _ in range(rng.randrange(1, 4)):
            st = {"disk": {"seed": rng.randrange(1 << 30), "shuffle": True, "short": rng.choice([0, 0, 50])}}
            u = rng.random()
            if u < 0.3:
                st["disk"]["faults"] = [{"op": rng.choice(["read", "open"]), "nth": rng.randrange(1, 9),
                                         "kind": rng.choice(["EIO", "ESTALE", "ENOENT", "EACCES"])}]
            elif u < 0.5:
                st["interrupt"] = {**moment(rng, 3.2, 20, "database/"),
                                   "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}
            if rng.random() < 0.3:
                st["process"] = True
            steps.append(st)
        lives.append({"hashseed": rng.randrange(4), "steps": steps,
                      "created": rng.sample(range(len(files)), len(files))})
    return {"lives": lives, "models": models, "files": files, "extra": extra, "refs": []}


def ref(key):
    return None


def describe(db):
    return {
        "data": [[k, [M.ident(m) for m in v]] for k, v in db.data.items()],
        "exotics": [[k, int(v)] for k, v in sorted(db.exotic_prime_dict.items())],
        "terms": [[list(k), int(v)] for k, v in sorted(db.term_prime_dict.items())],
        "numbers": [[int(db.democratic_model_number(m)), int(db.stringent_model_number(m))]
                    for v in db.data.values() for m in v],
    }


def life(plan, i, ctx):
    from neutrinomass.database.database import ModelDatabase

    folder = os.path.join(ctx.scratch, "life%d" % i)
    L = plan["lives"][i]
    order = [k for k in L["created"] if k < len(plan["files"])]
    M.lay(folder, [plan["files"][k] for k in order], plan["models"])
    for name in plan["extra"]:
        with open(os.path.join(folder, name), "w") as f:
            f.write("not a record\n")
    out = []
    with Ticker() as ticker:
        for st in L["steps"]:
            intr = st.get("interrupt")
            with Disk(ctx, [folder], st["disk"]) as disk:
                if intr:
                    ticker.arm(intr, FAULTS[intr["exc"]])
                try:
                    db = ModelDatabase(folder)
                    res = None
                except Exception as e:
                    db, res = None, {"raised": type(e).__name__}
                except KeyboardInterrupt:
                    db, res = None, {"raised": "KeyboardInterrupt"}
                hit = ticker.disarm()
                if hit:
                    ctx.faults[intr["exc"]] += 1
            if db is not None:
                res = {"ok": describe(db)}
            ctx.states.add("%s %s" % (sorted({x.split()[0] for x in disk.hits}), res.get("raised", "ok")))
            ctx.states.add("order " + work.h([t for t in disk.trace if t.startswith("open")]))
            res["fault"] = bool(disk.hits) or bool(hit)
            res["lost"] = [x for x in disk.hits]
            out.append(res)
            ctx.log.append(work.h(res))
        db = ModelDatabase(folder)
        out.append({"ok": describe(db), "fault": False})
        ctx.log.append(work.h(out[-1]))
        ctx.ticks += ticker.n
    return out


def judge(plan, values, refs):
    bad = []
    by = {m["id"]: m for m in plan["models"]}
    want = {}
    for name, ids in sorted(plan["files"]):
        for k in ids:
            if k in by:
                want.setdefault(by[k]["op"], []).append(M.want(by[k]))
    first = None
    for i, v in enumerate(values):
        for n, r in enumerate(v["result"]):
            where = "life %d load %d" % (i, n)
            if "raised" in r:
                if not r["fault"]:
                    bad.append({"class": "unreadable", "detail": "%s: %s" % (where, r["raised"])})
                continue
            d = r["ok"]
            got = {k: sorted(x) for k, x in d["data"] if x}
            for k in sorted(set(got) | set(want)):
                if got.get(k, []) != sorted(want.get(k, [])):
                    bad.append({"class": "records_differ", "detail": "%s: operator %s: %d records, the files hold %d"
                                % (where, k, len(got.get(k, [])), len(want.get(k, [])))})
                    break
            # conjugates share a number, everything else has its own
            num = dict(d["exotics"])
            seen = {}
            for q, p in num.items():
                if num.get(conj_field(q)) != p:
                    bad.append({"class": "numbering", "detail": "%s: %s and its conjugate" % (where, q)})
                seen.setdefault(p, set()).add(M.cls(q))
            if any(len(s) > 1 for s in seen.values()):
                bad.append({"class": "numbering", "detail": "%s: one number for different fields" % where})
            inter, seen = {}, {}
            for t, p in d["terms"]:
                c = M.term_cls(t)
                if inter.setdefault(c, p) != p:
                    bad.append({"class": "numbering", "detail": "%s: two numbers for %s and its conjugate" % (where, t)})
                seen.setdefault(p, set()).add(c)
            if any(len(s) > 1 for s in seen.values()):
                bad.append({"class": "numbering", "detail": "%s: one number for different interactions" % where})
            idents = [m for _, ms in d["data"] for m in ms]
            for m, (a, b) in zip(idents, d["numbers"]):
                if bad:
                    break
                x = y = 1
                for q in m[2]:
                    x *= num.get(q, 0)
                for t in m[3]:
                    y *= inter.get(M.term_cls(t), 0)
                if (a, b) != (x, y):
                    bad.append({"class": "numbering", "detail": "%s: numbers of %s are %s, expected %s" % (where, m[:2], (a, b), (x, y))})
            if bad:
                return bad
            if first is None:
                first = (where, d)
            elif d != first[1]:
                what = [k for k in d if d[k] != first[1][k]]
                bad.append({"class": "depends_on_order", "detail": "%s and %s of the same files differ in %s"
                            % (first[0], where, what)})
                return bad
    return bad
