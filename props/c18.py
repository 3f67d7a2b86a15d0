"""Starting up reads all tables completely or fails, and starting again then works."""
import contextlib
import os
import pickle
import random
import sys

from sim import boot, session, work
from sim.seams import FAULTS, Disk, Ticker, moment

LEVEL = "exploration"
TIERS = {
    "quick": {"runs": 400, "wall": 36, "min_runs": 40, "shrink_wall": 60, "twice_every": 16},
    "thorough": {"runs": 20000, "wall": 900, "min_runs": 600, "shrink_wall": 120, "twice_every": 16},
}
ASSUMPTIONS = [
    "faults hit the tables, not the program text; a table with other bytes in it is not recognised as such",
    "after a failed start the user starts again in the same process, with the files in order",
]
RULE = ("the package is brought into processes that have only its libraries, with tables that are missing, cut short, "
        "unreadable or read in small pieces, interrupts and failed allocations at drawn lines of its start-up, several "
        "failed starts before the one without faults; then everything shared and a calculation are compared with a "
        "process that started well")
STATE_MEASURE = "distinct (fault, place of the fault, outcome) triples of start-ups"
REAL, STUB = session.REAL, ["disk: in-process fault layer over the shipped tables",
                            "database/democratic.p (not shipped): a made-up table"]
MUST_HIT = {"quick": ["EIO", "ENOENT", "cut_table", "missing_table", "short_read", "KeyboardInterrupt", "failed_start"],
            "thorough": ["EIO", "ENOENT", "cut_table", "missing_table", "short_read", "KeyboardInterrupt", "failed_start"]}
TABLES = ["completions/operators.p", "completions/deriv_operators.p", "database/exotics.p", "database/terms.p",
          "database/democratic.p"]
CALCS = [{"do": "complete", "op": "1"}, {"do": "scale", "op": "2"}, {"do": "table", "op": "D3"}, {"do": "table", "op": "8"},
         {"do": "complete", "op": "Ophie2"}, {"do": "export", "op": "1"}, {"do": "invariants", "class": 2}]


def gen(rng, tier, i):
    starts = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        st = {"disk": {"seed": rng.randrange(1 << 30), "short": rng.choice([0, 0, 5000, 200000])}}
        u = rng.random()
        if u < 0.3:
            st["disk"]["faults"] = [{"op": rng.choice(["open", "read", "read"]), "path": rng.choice(TABLES),
                                     "nth": rng.choice([1, 1, 2, 3]), "kind": rng.choice(["EIO", "ENOENT", "EACCES", "EMFILE", "eof"])}]
            if st["disk"]["faults"][0]["kind"] == "eof":
                st["disk"]["faults"][0]["op"] = "read"
        elif u < 0.5:
            st["damage"] = {"table": rng.choice(TABLES), "keep": rng.choice([None, 0.0, rng.random(), rng.random(), 0.999])}
        elif u < 0.85:
            st["interrupt"] = {**moment(rng, 5.3, 60), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}
        if not starts and i < 3 * len(TABLES):
            # every table has its turn
            keep = [None, 0.0, rng.random()][i // len(TABLES)]
            st = {"disk": {"seed": 0, "short": 0}, "damage": {"table": TABLES[i % len(TABLES)], "keep": keep}}
        starts.append(st)
    starts.append({"disk": {"seed": rng.randrange(1 << 30), "short": rng.choice([0, 5000])}})
    return finish_plan({"lives": [{"hashseed": -1 - rng.randrange(3), "starts": starts, "rows": rng.randrange(0, 5),
                                   "calc": rng.choice(CALCS)}]})


def finish_plan(plan):
    plan["refs"] = [{"do": "shared"}, work.key(plan["lives"][0]["calc"])]
    return plan


def ref(k):
    return session.call(work.shared) if k["do"] == "shared" else session.call(lambda: work.run(k))


def life(plan, i, ctx):
    L = plan["lives"][i]
    sys.dont_write_bytecode = True
    if boot.REPO not in sys.path:
        sys.path.insert(0, boot.REPO)
    import warnings

    warnings.simplefilter("ignore")
    table = os.path.join(ctx.scratch, "democratic.p")
    rows = {"op": ["1"] * L["rows"], "democratic_num": [2 + k for k in range(L["rows"])],
            "completion": ["%d + 1" % k for k in range(L["rows"])]}
    with open(table, "wb") as f:
        pickle.dump(rows, f)
    n_fds = len(os.listdir("/proc/self/fd"))
    out = {"starts": []}
    served = {os.path.join(boot.PKG, "database", "democratic.p"): table}
    with Ticker() as ticker:
        for n, st in enumerate(L["starts"]):
            overlay, intr, dmg = dict(served), st.get("interrupt"), st.get("damage")
            if dmg:
                path = os.path.join(boot.PKG, dmg["table"])
                copy = overlay[path] = os.path.join(ctx.scratch, "damaged%d" % n)
                if dmg["keep"] is None:
                    ctx.faults["missing_table"] += 1
                else:
                    with open(served.get(path, path), "rb") as f, open(copy, "wb") as g:
                        data = f.read()
                        g.write(data[: int(dmg["keep"] * len(data))])
                    ctx.faults["cut_table"] += 1
            rec = {}
            with Disk(ctx, [os.path.join(boot.PKG, t) for t in TABLES], dict(st["disk"], overlay=overlay)) as disk:
                if intr:
                    ticker.arm(intr, FAULTS[intr["exc"]])
                at = ticker.n
                try:
                    boot.bring_in()
                    rec["end"] = "ok"
                except (KeyboardInterrupt, Exception) as e:
                    rec["end"] = type(e).__name__
                    e.__traceback__ = None
                if intr and ticker.disarm():
                    ctx.faults[intr["exc"]] += 1
                    intr = True
            rec["excused"] = bool(disk.hits) or bool(dmg) or intr is True
            rec["lines"] = ticker.n - at
            if rec["end"] != "ok":
                ctx.probes["failed_start"] += 1
            ctx.states.add("%s %s %s %s" % (rec["end"], [x.split()[:2] + x.split()[2:] for x in disk.hits], dmg and [dmg["table"], dmg["keep"] is None], intr is True and rec["lines"] // 500))
            ctx.log.append(work.h([rec["end"], disk.trace, rec["lines"]]))
            out["starts"].append(rec)
            if rec["end"] == "ok":
                break
        ctx.ticks += ticker.n
    if rec["end"] == "ok":
        from sim import faster

        faster.install()
        out["shared"] = session.call(work.shared)
        out["calc"] = session.call(lambda: work.run(L["calc"]))
        out["frame"] = session.call(frame)
        out["names"] = session.call(names)
    import gc

    gc.collect()
    out["left"] = max(0, len(os.listdir("/proc/self/fd")) - n_fds)
    return out


def frame():
    """The table of models a user gets."""
    from neutrinomass.database import MVDF, EXOTICS, TERMS
    from neutrinomass.database import database

    return {"rows": len(MVDF), "columns": sorted(MVDF.columns),
            "op": [str(x) for x in MVDF["op"]] if len(MVDF) else [],
            "completion": [MVDF.completion(k) for k in range(len(MVDF))],
            "numbers": [int(x) for x in MVDF["democratic_num"]] if len(MVDF) else [],
            "own": MVDF.exotic2int == EXOTICS and MVDF.term2int == TERMS and database.MVDF is MVDF}


def names():
    """The ways to the parts of the package all lead to the same."""
    import neutrinomass
    import neutrinomass.completions.completions  # noqa: F401
    from neutrinomass.completions import EFF_OPERATORS
    from neutrinomass.tensormethod import L

    m = sys.modules
    return [neutrinomass is m["neutrinomass"], m["neutrinomass.completions"].EFF_OPERATORS is EFF_OPERATORS,
            m["neutrinomass.completions.operators"].EFF_OPERATORS is EFF_OPERATORS, m["neutrinomass.tensormethod.sm"].L is L,
            type(EFF_OPERATORS["1"].fields[0]) is m["neutrinomass.tensormethod.core"].Field
            or isinstance(EFF_OPERATORS["1"].fields[0], m["neutrinomass.tensormethod.core"].Field),
            isinstance(EFF_OPERATORS["1"], m["neutrinomass.completions.core"].EffectiveOperator)]


def judge(plan, values, refs):
    bad = []
    L, res = plan["lives"][0], values[0]["result"]
    gold = session.golden()

    def add(cls, detail):
        bad.append({"class": cls, "detail": "start %d (%s): %s" % (len(res["starts"]) - 1, [s["end"] for s in res["starts"]], detail)})

    for n, rec in enumerate(res["starts"]):
        if rec["end"] != "ok" and not rec["excused"]:
            add("cannot_start", "fails with %s without a fault" % rec["end"])
            return bad
    if res["starts"][-1]["end"] != "ok":
        add("cannot_start", "never came up")
        return bad
    want = refs[session.skey({"do": "shared"})]
    if res["shared"]["status"] != "ok" or want["status"] != "ok":
        add("error", "shared definitions: %s %s" % (res["shared"].get("error"), want.get("error")))
    elif res["shared"]["value"] != want["value"]:
        a, b = res["shared"]["value"], want["value"]
        add("incomplete", "differs from a good start in %s" % [k for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)][:6])
    k = session.skey(work.key(L["calc"]))
    want, got = refs[k], res["calc"]
    if got["status"] != "ok" or want["status"] != "ok":
        add("error", "%s: %s %s" % (L["calc"], got.get("error"), want.get("error")))
    elif got["value"] != want["value"] or k in gold and gold[k] != work.h(got["value"]):
        add("result_changed", "%s" % L["calc"])
    n = L["rows"]
    want = {"rows": n, "columns": ["completion", "democratic_num", "op"], "op": ["1"] * n, "completion": [x + 1 for x in range(n)],
            "numbers": [2 + x for x in range(n)], "own": True}
    if res["frame"].get("value") != want:
        add("incomplete", "the table of models: %s" % str(res["frame"])[:300])
    if res["names"]["status"] != "ok" or not all(res["names"]["value"]):
        add("split", "the parts of the package do not belong together: %s" % res["names"])
    if res["left"]:
        add("handle_leak", "%d files left open" % res["left"])
    return bad
