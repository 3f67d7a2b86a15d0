"""The topologies of a class come complete, each with its own graph, or not at all."""
import os
import random
import shutil

from sim import canon, session, work
from sim.boot import PKG
from sim.seams import FAULTS, Disk, Tasks, Ticker, moment

LEVEL = "exploration"
TIERS = {
    "quick": {"runs": 1500, "wall": 36, "min_runs": 60, "shrink_wall": 40, "twice_every": 16},
    "thorough": {"runs": 60000, "wall": 900, "min_runs": 1500, "shrink_wall": 120, "twice_every": 16},
}
ASSUMPTIONS = [
    "a class of which both files of a topology are gone cannot be told from a smaller class",
]
RULE = ("the shipped topology files behind a simulated disk: listings in drawn order, files missing, cut short or "
        "unreadable, short and failing reads, interrupts, several threads; afterwards the same with the files back")
STATE_MEASURE = "distinct (class, kind of damage, kind of file, outcome) tuples"
REAL, STUB = session.REAL, session.STUB + ["disk: in-process fault layer over a copy of the shipped topology files"]
MUST_HIT = {"quick": ["missing_file", "cut_file", "EIO", "listing_order", "refused", "preemption"],
            "thorough": ["missing_file", "cut_file", "EIO", "listing_order", "refused", "preemption"]}
CLASSES = [[0, 4], [0, 6], [1, 4], [2, 2], [2, 4], [3, 2], [4, 0], [4, 2], [6, 0], [3, 4], [5, 2], [2, 6]]
BIG = [[5, 4], [6, 2]]
OPS = {(2, 2): "1", (4, 0): "OHHHH", (0, 4): "OQQdu", (1, 4): "8", (3, 2): "D3"}
DATA = os.path.join(PKG, "completions", "topology_data")


def gen(rng, tier, i):
    steps = []
    for _ in range(rng.randrange(1, 5)):
        c = rng.choice(CLASSES + (BIG if tier != "quick" else []))
        st = {"s": c[0], "f": c[1], "disk": {"seed": rng.randrange(1 << 30), "shuffle": rng.random() < 0.8,
                                             "short": rng.choice([0, 0, 3, 40]), "bufsize": rng.choice([None, 16])}}
        u = rng.random()
        if u < 0.25:
            st["damage"] = [{"kind": "missing", "where": rng.choice(["partitions", "graphs"]), "pick": rng.random()}
                            for _ in range(rng.choice([1, 1, 2]))]
        elif u < 0.5:
            st["damage"] = [{"kind": "cut", "where": rng.choice(["partitions", "graphs", "graphs"]), "pick": rng.random(),
                             "keep": rng.choice([0.0, rng.random(), rng.random(), 0.97])} for _ in range(rng.choice([1, 1, 2]))]
        elif u < 0.7:
            st["disk"]["faults"] = [{"op": rng.choice(["read", "open", "read"]), "nth": rng.randrange(1, 14),
                                     "kind": rng.choice(["EIO", "ENOENT", "EACCES", "EMFILE", "eof"])}]
            if st["disk"]["faults"][0]["kind"] == "eof":
                st["disk"]["faults"][0]["op"] = "read"
        elif u < 0.85:
            st["interrupt"] = {**moment(rng, 2.8, 12), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}
        elif u < 0.93:
            st["threads"] = rng.randrange(2, 4)
            st["quantum"] = rng.choice([1, 4, 20, -3])
        if tuple(c) in OPS and rng.random() < 0.25 and "threads" not in st:
            st["op"] = OPS[tuple(c)]
        steps.append(st)
    return finish_plan({"lives": [{"hashseed": rng.randrange(3), "steps": steps}]})


def finish_plan(plan):
    refs = []
    for st in plan["lives"][0]["steps"]:
        k = key(st)
        if k not in refs:
            refs.append(k)
    plan["refs"] = refs
    return plan


def key(st):
    return {"do": "complete", "op": st["op"]} if st.get("op") else {"do": "ordered", "s": st["s"], "f": st["f"]}


def topologies(s, f):
    from neutrinomass.completions.topologies import get_topology_data

    out = []
    for t in get_topology_data(n_scalars=s, n_fermions=f):
        name = os.path.splitext(os.path.basename(t["partition_file"]))[0]
        out.append([name, work.h([str(t["partition"]), sorted(sorted(e) for e in t["graph"].edges)])])
    return out


def do(st):
    if st.get("op"):
        return work.complete({"op": st["op"]})
    return topologies(st["s"], st["f"])


def ref(k):
    return session.call(lambda: do(k) if k["do"] == "ordered" else work.run(k))


def attempt(fn):
    try:
        return {"ok": fn()}
    except (KeyboardInterrupt, Exception) as e:
        return {"raised": type(e).__name__}


def lay(folder, st):
    """A copy of the files of the class; returns the kinds of damage done."""
    prefix = "%ds%df_" % (st["s"], st["f"])
    for sub in ("partitions", "graphs"):
        os.makedirs(os.path.join(folder, sub))
        for n in os.listdir(os.path.join(DATA, sub)):
            if n.startswith(prefix):
                shutil.copyfile(os.path.join(DATA, sub, n), os.path.join(folder, sub, n))
    gone, done = set(), []
    for d in st.get("damage", []):
        names = sorted(os.listdir(os.path.join(folder, d["where"])))
        if not names:
            continue
        n = names[int(d["pick"] * len(names))]
        # with both files gone it is just a smaller class
        if os.path.splitext(n)[0] in gone:
            continue
        gone.add(os.path.splitext(n)[0])
        path = os.path.join(folder, d["where"], n)
        if d["kind"] == "missing":
            os.unlink(path)
        else:
            size = os.path.getsize(path)
            os.truncate(path, min(int(d["keep"] * size), size - 1))
        done.append("%s_file" % d["kind"])
    return done


def life(plan, i, ctx):
    out = []
    n_fds = len(os.listdir("/proc/self/fd"))
    with Ticker() as ticker:
        for n, st in enumerate(plan["lives"][i]["steps"]):
            copy = os.path.join(ctx.scratch, "copy%d_%d" % (i, n))
            for kind in lay(copy, st):
                ctx.faults[kind] += 1
            intr = st.get("interrupt")
            with Disk(ctx, [DATA], dict(st["disk"], overlay={DATA: copy})) as disk:
                if st.get("threads"):
                    pool = Tasks(ticker, random.Random(st["disk"]["seed"]), st["quantum"])
                    got = pool.run([lambda: do(st)] * st["threads"])
                    ctx.faults["preemption"] += pool.switches
                    parts = [{"ok": r} if k == "ok" else {"raised": r} for k, r in got]
                else:
                    if intr:
                        ticker.arm(intr, FAULTS[intr["exc"]])
                    parts = [attempt(lambda: do(st))]
                    if ticker.disarm():
                        ctx.faults[intr["exc"]] += 1
                        intr = True
                    elif intr:
                        intr = None
            rec = {"parts": parts, "excused": bool(disk.hits) or bool(st.get("damage")) or intr is True}
            if any("raised" in p for p in parts):
                ctx.probes["refused"] += 1
            rec["again"] = attempt(lambda: do(st))
            kinds = [x.split()[:2] for x in disk.hits] + [[d["kind"], d["where"]] for d in st.get("damage", [])]
            ctx.states.add("%ds%df %s %s" % (st["s"], st["f"], kinds, parts[0].get("raised", "ok")))
            ctx.log.append(work.h([rec, disk.trace]))
            out.append(rec)
        ctx.ticks += ticker.n
    return {"steps": out, "left": len(os.listdir("/proc/self/fd")) - n_fds}


def judge(plan, values, refs):
    bad = []
    gold = session.golden()
    res = values[0]["result"]
    for n, rec in enumerate(res["steps"]):
        st = plan["lives"][0]["steps"][n]
        k = session.skey(key(st))
        where = "step %d (%s)" % (n, "completions of %s" % st["op"] if st.get("op") else "%ds%df" % (st["s"], st["f"]))

        def add(cls, detail):
            bad.append({"class": cls, "detail": "%s: %s" % (where, detail)})

        want = refs[k]
        if want["status"] != "ok":
            add("error", "in a fresh process: %s" % want.get("error"))
            return bad
        if k in gold and gold[k] != work.h(want["value"]):
            add("differs_from_record", "gives %s in a fresh process, recorded %s" % (work.h(want["value"]), gold[k]))
        for p in rec["parts"]:
            if "raised" in p:
                if not rec["excused"]:
                    add("error", "raised %s with all files in order" % p["raised"])
            elif p["ok"] != want["value"]:
                add("wrong_topologies", "%d results instead of %d, or others, or in another order%s" % (
                    len(p["ok"]), len(want["value"]), " although files are damaged" if st.get("damage") else ""))
        if rec["again"].get("ok") != want["value"]:
            add("not_repaired", "with the files back: %s" % str(rec["again"])[:100])
        if bad:
            return bad
    if res["left"] > 0:
        bad.append({"class": "handle_leak", "detail": "%d files left open" % res["left"]})
    return bad
