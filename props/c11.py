"""The published tables: complete runs agree with the records, no crash leaves tables that do not belong together."""
import json
import os
import pickle
import sys

from sim import models as M
from sim import session, work
from sim.boot import REPO
from sim.seams import FAULTS, Disk, SimCrash, Ticker, moment

LEVEL = "exploration"
TIERS = {
    "quick": {"runs": 400, "wall": 45, "min_runs": 20, "shrink_wall": 50, "twice_every": 12},
    "thorough": {"runs": 20000, "wall": 1200, "min_runs": 300, "shrink_wall": 120, "twice_every": 12},
}
WANT_REFS = False
ASSUMPTIONS = [
    "one pickler at a time; name changes reach the disk in the order they were made",
    "the operator tables are cut down to the operators of the records (the script estimates the scale of each)",
]
RULE = ("the pickler script runs in 2-4 process lives on a folder of made-up records that changes in between, with "
        "crashes, lost unsynced data and name changes, torn writes, full disks, I/O errors and interrupts at drawn "
        "points; after every life the tables on disk are decoded, at the end a run without faults")
STATE_MEASURE = "distinct (point of the crash or fault, tables present afterwards) pairs"
REAL, STUB = session.REAL + ["neutrinomass/database/pickler"], session.STUB + ["disk: in-process fault layer"]
MUST_HIT = {"quick": ["crash", "complete_run", "tables_removed", "EIO"],
            "thorough": ["crash", "complete_run", "tables_removed", "EIO", "lost_name_change"]}
OPS = ["1", "2", "8", "9", "3a", "4a", "14a", "61a", "D2a", "D3"]
NEAR_LOOPS = [["S,10,1,-1/3,1", "S,10,1,0,1", "F,01,0,-1/2,-1"], ["S,10,0,-1/3,1", "S,10,2,2/3,1", "F,01,1,1/3,-1"],
              ["S,00,1,3/2,0", "S,00,1,2/3,0", "F,00,0,1,0"]]
TABLES = ["exotics.p", "terms.p", "unfiltered.p", "democratic.p"]


def gen(rng, tier, i):
    ops = rng.sample(OPS, rng.randrange(1, 5))
    models = M.draw_models(rng, ops, rng.randrange(2, 24), small=rng.random() < 0.5)
    if rng.random() < 0.5:
        # fields that differ from those of a one-loop model in their hypercharge only
        for m in rng.sample(models, min(len(models), 2)):
            m["qns"] = list(rng.choice(NEAR_LOOPS))
            m["terms"] = [[m["qns"][0], rng.choice(M.SM), rng.choice(M.SM)]]
    files = M.spread(rng, models, rng.randrange(1, 4))
    lives = []
    n = rng.choice([2, 2, 3, 4])
    for k in range(n):
        life = {"hashseed": rng.randrange(4), "disk": {"seed": rng.randrange(1 << 30), "shuffle": True},
                "known": [m["id"] for m in models]}
        if rng.random() < 0.5:
            # not (or no longer) all of the records
            life["known"] = sorted(rng.sample(life["known"], rng.randrange(1, len(models) + 1)))
        d = life["disk"]
        d["lose"] = rng.choice(["some", "some", "all", "none"])
        d["bufsize"] = rng.choice([None, None, 256])
        u = rng.random()
        if k == n - 1 and rng.random() < 0.6:
            pass
        elif u < 0.5:
            d["crash_at"] = rng.randrange(1, 26)
            d["crash_torn"] = rng.random() < 0.6
        elif u < 0.62:
            d["full_after"] = rng.randrange(1, 12)
        elif u < 0.8:
            d["faults"] = [{"op": rng.choice(["write", "open_w", "replace", "fsync", "unlink", "read"]),
                            "nth": rng.randrange(1, 5), "kind": rng.choice(["EIO", "EIO", "EACCES", "EDQUOT"])}]
        elif u < 0.9:
            life["interrupt"] = {**moment(rng, 4.5, 40), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}
        lives.append(life)
    if rng.random() < 0.6:
        lives.append({"hashseed": rng.randrange(4), "disk": {"seed": 0, "shuffle": True}, "known": lives[-1]["known"], "fresh": True})
    return finish_plan({"lives": lives, "models": models, "files": files})


def finish_plan(plan):
    ops = sorted({m["op"] for m in plan["models"]})
    qns = sorted({c for m in plan["models"] for q in m["qns"] for c in (q, M.conj_field(q))})
    plan["refs"] = [{"do": "operator", "op": o} for o in ops] + [{"do": "groups", "qns": qns}]
    return plan


def ref(key):
    if key["do"] == "groups":
        from neutrinomass.database.heavyloops import generate_models

        known = {}
        for q in key["qns"]:
            known.setdefault(",".join(q.split(",")[:4]), []).append(q)
        out = []
        for g in generate_models():
            if all(f in known for f in g):
                assert all(len(known[f]) == 1 for f in g)
                x = [known[f][0] for f in g]
                if x not in out:
                    out.append(x)
        return out
    from neutrinomass.database.closures import neutrino_mass_estimate, numerical_np_scale_estimate
    from neutrinomass.database.utils import loop_data

    op = work.operators()[key["op"]]
    est = neutrino_mass_estimate(op)
    out = {"dim": op.mass_dimension, "n_derivs": sum(f.derivs for f in op.fields), "est": {}}
    for e in est:
        loops, v2 = loop_data(e)
        n = [loops + k for k in v2] or [loops]
        out["est"][str(e)] = [float(numerical_np_scale_estimate(e)), min(n), max(n)]
    return out


def snapshot(folder):
    out = {}
    for name in TABLES:
        path = os.path.join(folder, name)
        if not os.path.exists(path):
            continue
        try:
            with open(path, "rb") as f:
                x = pickle.load(f)
            if name in ("exotics.p", "terms.p"):
                out[name] = {"ok": [[k if isinstance(k, str) else list(k), int(v)] for k, v in sorted(x.items())]}
            else:
                cols = sorted(x)
                n = {len(x[c]) for c in cols}
                rows = [[cell(x[c][r]) for c in cols] for r in range(max(n, default=0))] if len(n) < 2 else None
                out[name] = {"ok": {"columns": cols, "rows": rows}} if rows is not None else {"bad": "columns of different length"}
        except Exception as e:
            out[name] = {"bad": "%s: %s" % (type(e).__name__, str(e)[:80])}
    return out


def cell(v):
    import numbers

    if isinstance(v, bool) or isinstance(v, str):
        return str(v)
    if isinstance(v, numbers.Integral):
        return int(v)
    s = str(v)
    try:
        return float(v)
    except (TypeError, ValueError):
        return s


def run_script(raw, out):
    """neutrinomass/database/pickler as a program of its own."""
    import runpy

    argv = sys.argv
    path = os.path.join(REPO, "neutrinomass", "database", "pickler")
    sys.argv = [path, "--path", raw, "--output", out]
    try:
        runpy.run_path(path, run_name="__main__")
    finally:
        sys.argv = argv


def life(plan, i, ctx):
    from neutrinomass.completions import DERIV_EFF_OPERATORS, EFF_OPERATORS

    L = plan["lives"][i]
    ops = {m["op"] for m in plan["models"]}
    for table in (EFF_OPERATORS, DERIV_EFF_OPERATORS):
        for k in list(table):
            if k not in ops:
                del table[k]
    raw, out = os.path.join(ctx.scratch, "raw%d" % i), os.path.join(ctx.scratch, "fresh" if L.get("fresh") else "out")
    os.makedirs(out, exist_ok=True)
    known = set(L["known"])
    M.lay(raw, [[n, [k for k in ids if k in known]] for n, ids in plan["files"]], plan["models"])
    before = snapshot(out)
    rec = {}
    intr = L.get("interrupt")
    # counting lines is slow; lives without interrupts go without
    with Ticker() if intr else session.Idle() as ticker:
        with Disk(ctx, [raw, out], L["disk"], undo_dir=os.path.join(ctx.scratch, "undo%d" % i)) as disk:
            if intr:
                ticker.arm(intr, FAULTS[intr["exc"]])
            try:
                run_script(raw, out)
                rec["end"] = "ok"
            except SimCrash:
                rec["end"] = "crash"
            except SystemExit as e:
                rec["end"] = "ok" if not e.code else "raised exit %s" % e.code
            except (Exception, KeyboardInterrupt) as e:
                rec["end"] = "raised %s %s" % (type(e).__name__, getattr(e, "errno", None) or str(e)[:80])
            fired = ticker.disarm() if intr else None
            if fired:
                ctx.faults[intr["exc"]] += 1
        ctx.ticks += ticker.n
    rec["fault"] = bool(disk.hits) or bool(fired)
    rec["after"] = snapshot(out)
    if rec["end"] == "ok":
        ctx.probes["complete_run"] += 1
    if "democratic.p" in before and "democratic.p" not in rec["after"]:
        ctx.probes["tables_removed"] += 1
    last = [t for t in disk.trace if not t.startswith("read")][-1:]
    ctx.states.add("%s %s %s %s" % (rec["end"][:20], last, fired, sorted(rec["after"])))
    ctx.log.append(work.h([rec, disk.trace]))
    return rec


# -- what the tables have to say ------------------------------------------------------
def expected(plan, k, refs):
    """{"unfiltered.p": ids, "democratic.p": ids} for the records of life k."""
    info = {json.loads(r)["op"]: v for r, v in refs.items() if '"operator"' in r}
    groups = next(v for r, v in refs.items() if '"groups"' in r)
    known = set(plan["lives"][k]["known"])
    by = {m["id"]: m for m in plan["models"]}
    models = [by[x] for n, ids in sorted(plan["files"]) for x in ids if x in known and x in by]
    rank = {o: max(e[0] for e in v["est"].values()) for o, v in info.items()}
    kept = M.process(models, rank, "democratic", False)
    there = {c for m in models for q in m["qns"] for c in (q, M.conj_field(q))}
    kept = M.one_loop(kept, rank, [g for g in groups if all(q in there for q in g)], ONE_LOOP)
    return {"unfiltered.p": sorted(m["id"] for m in models),
            "democratic.p": sorted(m["id"] for v in kept.values() for m in v)}


ONE_LOOP = 605520000000.0 / (16 * 3.141592653589793 ** 2)


def product(names, table):
    p = 1
    for n in names:
        if n not in table:
            return None
        p *= table[n]
    return p


def judge(plan, values, refs):
    bad = []
    info = {json.loads(r)["op"]: v for r, v in refs.items() if '"operator"' in r}
    tails = {M.tail_of(m): m for m in plan["models"]}
    for i, v in enumerate(values):
        rec = v["result"]
        where = "life %d%s (%s)" % (i, ", in a fresh folder" * bool(plan["lives"][i].get("fresh")), rec["end"])

        def add(cls, detail):
            bad.append({"class": cls, "detail": "%s: %s" % (where, detail)})

        if rec["end"].startswith("raised") and not rec["fault"]:
            add("error", "the script fails without a fault")
            return bad
        after = rec["after"]
        for name, t in after.items():
            if "bad" in t:
                add("unreadable_table", "%s: %s" % (name, t["bad"]))
        if bad:
            return bad
        if rec["end"] == "ok" and sorted(after) != sorted(TABLES):
            add("table_missing", "the run ended well but left only %s" % sorted(after))
            return bad
        if plan["lives"][i].get("fresh") and rec["end"] == "ok" and i and values[i - 1]["result"]["end"] == "ok" \
                and plan["lives"][i]["known"] == plan["lives"][i - 1]["known"]:
            other = values[i - 1]["result"]["after"]
            for name in TABLES:
                if other[name] != after[name]:
                    add("not_as_fresh", "%s is not the one that the same run left in a folder with other tables" % name)
                    return bad
        numbers = {}
        for name in ("exotics.p", "terms.p"):
            if name in after:
                numbers[name] = {k if isinstance(k, str) else tuple(k): n for k, n in after[name]["ok"]}
                check_primes(name, numbers[name], add)
        for name in ("unfiltered.p", "democratic.p"):
            if name not in after or bad:
                continue
            if len(numbers) < 2:
                add("tables_do_not_match", "%s is there without %s" % (name, [n for n in TABLES[:2] if n not in after]))
                return bad
            t = after[name]["ok"]
            ids = []
            for row in t["rows"]:
                row = dict(zip(t["columns"], row))
                m = tails.get(row.get("completion"))
                if m is None:
                    add("foreign_row", "%s: %s" % (name, row))
                    return bad
                ids.append(m["id"])
                e = info[m["op"]]
                scale = max(x[0] for x in e["est"].values())
                sym = e["est"].get(row.get("symbolic_scale"))
                want = {
                    "op": m["op"], "dim": e["dim"], "n_derivs": e["n_derivs"], "topology": "t%d" % m["id"],
                    "n_scalars": sum(q[0] == "S" for q in set(m["qns"])),
                    "n_fermions": sum(q[0] == "F" for q in set(m["qns"])),
                    "n_fields": len(set(m["qns"])),
                    "democratic_num": product(set(m["qns"]), numbers["exotics.p"]),
                    "stringent_num": product([tuple(sorted(x)) for x in m["terms"]], numbers["terms.p"]),
                }
                if sym is not None:
                    want["min_loops"], want["max_loops"] = sym[1], sym[2]
                wrong = {c: (row.get(c), w) for c, w in want.items() if not same(row.get(c), w)}
                if sym is None or abs(sym[0] - scale) > 1e-6 * scale:
                    wrong["symbolic_scale"] = (row.get("symbolic_scale"), "the leading estimate")
                if abs(float(row.get("scale", 0)) - scale) > 1e-6 * scale:
                    wrong["scale"] = (row.get("scale"), scale)
                if wrong:
                    cls = "tables_do_not_match" if set(wrong) <= {"democratic_num", "stringent_num"} else "wrong_row"
                    add(cls, "%s, record %d: %s" % (name, m["id"], wrong))
                    return bad
            now = expected(plan, i, refs)[name]
            if rec["end"] == "ok":
                if sorted(ids) != now:
                    add("wrong_rows", "%s has the records %s, expected %s" % (name, sorted(ids), now))
                    return bad
            elif not any(sorted(ids) == expected(plan, k, refs)[name] for k in range(i + 1)):
                add("partial_table", "%s has the records %s, which no complete run gives" % (name, sorted(ids)))
                return bad
        if bad:
            return bad
    return bad


def same(a, b):
    if isinstance(b, str):
        return a == b or str(a) == b
    try:
        return int(a) == b
    except (TypeError, ValueError):
        return False


def check_primes(name, table, add):
    conj = (lambda k: M.conj_field(k)) if name == "exotics.p" else (lambda k: tuple(sorted(M.conj_field(x) for x in k)))
    owner = {}
    for k, n in table.items():
        c = min(k, tuple(sorted(conj(k))) if not isinstance(k, str) else conj(k))
        if owner.setdefault(n, c) != c:
            add("number_used_twice", "%s: %s and %s" % (name, owner[n], c))
            return
        if n < 2 or any(n % d == 0 for d in range(2, int(n ** 0.5) + 1)):
            add("not_a_prime", "%s: %s" % (name, n))
            return
