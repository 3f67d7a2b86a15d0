"""Exported models survive: whatever was written durably reads back the same."""
import os

from sim import canon, session, store, work
from sim.seams import Disk, SimCrash, Ticker

LEVEL = "exploration"
TIERS = {
    "quick": {"runs": 80, "wall": 38, "min_runs": 12, "shrink_wall": 40, "twice_every": 16},
    "thorough": {"runs": 4000, "wall": 1200, "min_runs": 150, "shrink_wall": 120, "twice_every": 16},
}
ASSUMPTIONS = [
    "the program that writes the records appends one line per model and syncs; on restart it cuts off a line "
    "without an end (the repository ships the export function and the reader, not this loop)",
]
RULE = ("2-4 process lives with different hash seeds export drawn completions of 1-3 operators through a simulated "
        "disk that crashes, tears and loses unsynced writes or fills up; the last lives read everything back")
STATE_MEASURE = "distinct (operator, completion) pairs read back and outcomes of reading torn files"
REAL, STUB = session.REAL, session.STUB + ["the loop that appends exported lines", "disk: in-process fault layer"]
MUST_HIT = {"quick": ["crash", "lost_unsynced_data", "torn_tail"], "thorough": ["crash", "lost_unsynced_data", "torn_tail"]}


def gen(rng, tier, i):
    pool = ["1", "1", "8", "8", "4a", "4b", "D2a", "D3", "3a", "D2c", "OphieD3", "OphidD", "O1box", "OQQdd"] if tier == "quick" else work.SMALL
    ops = [rng.choice(pool) for _ in range(rng.choice([1, 1, 2]))]
    ops = list(dict.fromkeys(ops))
    lives = []
    for k in range(rng.choice([1, 2, 2, 3])):
        disk = {"seed": rng.randrange(1 << 30), "bufsize": rng.choice([None, 64, 4096]),
                "lose": rng.choice(["some", "some", "all", "none"])}
        u = rng.random()
        if u < 0.55:
            disk["crash_at"] = rng.randrange(2, 26)
            disk["crash_torn"] = rng.random() < 0.7
        elif u < 0.75:
            disk["full_after"] = rng.randrange(1, 14)
        if rng.random() < 0.4:
            disk["short"] = rng.choice([16, 300])
        life = {"hashseed": rng.randrange(4), "role": "write", "disk": disk, "sync_every": rng.choice([1, 1, 2, 3]),
                "steps": [{"op": op, "pick": rng.randrange(1 << 20), "n": rng.randrange(2, 9)} for op in ops]}
        for st in life["steps"]:
            if rng.random() < 0.4:
                st["letter"] = rng.choice("ψψχ")
        if rng.random() < 0.25:
            life["warm"] = rng.choice(["1", "8"])
        if rng.random() < 0.3:
            life["interrupt"] = int(10 ** (1 + rng.random() * 3.5))
        lives.append(life)
    lives.append({"hashseed": rng.randrange(4), "role": "read", "steps": [{"op": op} for op in ops],
                  "warm": rng.choice([None, None, "1", "8"])})
    return finish_plan({"lives": lives})


def finish_plan(plan):
    ops = []
    for l in plan["lives"]:
        for s in l["steps"]:
            if s["op"] not in ops:
                ops.append(s["op"])
    plan["refs"] = [{"do": "gallery", "op": op} for op in ops]
    return plan


def ref(key):
    return store.gallery(key["op"])


def fresh_lines(op, step, exported):
    """Completions still to be exported, in a drawn order."""
    import random

    rng = random.Random(step["pick"])
    todo = [(d, c) for d, c in work.distinct(work.completions_of(op)) if d not in exported]
    if step.get("letter"):
        todo = [(d, store.reletter(c, step["letter"])) for d, c in todo]
    rng.shuffle(todo)
    return todo[: step["n"]]


def read_back(path, ctx):
    from neutrinomass.database.database import read_completions

    try:
        got = read_completions(path)
    except Exception as e:
        return {"raised": "%s" % type(e).__name__}
    out = {}
    for k, v in got.items():
        out[k] = [store.look_lazy(m) for m in v]
    return {"ok": out}


def life(plan, i, ctx):
    L = plan["lives"][i]
    if i:
        ctx.faults["restart"] += 1
    if L.get("warm"):
        list(work.completions_of(L["warm"]))
    if L["role"] == "read":
        return read_life(L, ctx)
    out = {"acked": {}, "files": {}, "torn": {}, "letters": [], "crashed": False, "full": False}
    folder = os.path.join(ctx.scratch, "models")
    os.makedirs(folder, exist_ok=True)
    todo = {}
    for n, step in enumerate(L["steps"]):
        path = os.path.join(folder, "op%s.dat" % step["op"])
        good, size = store.split_tail(path)
        if size:
            # what the reader makes of the file as the crash left it
            seen = read_back(path, ctx)
            out["torn"][step["op"]] = {"complete": good == size, "seen": seen}
            if good != size:
                ctx.probes["torn_tail"] += 1
            os.truncate(path, good)
            seen = read_back(path, ctx) if good != size else seen
            out["files"][step["op"]] = seen
            exported = {x[0] for v in seen.get("ok", {}).values() for x in v}
        else:
            exported = set()
        if not os.path.exists(path):
            # the name is durable before the first record is written
            open(path, "w").close()
        todo[step["op"]] = (path, fresh_lines(step["op"], step, exported))
    with Ticker() as ticker:
        if L.get("interrupt"):
            ticker.arm(L["interrupt"], KeyboardInterrupt)
        with Disk(ctx, [folder], L["disk"], undo_dir=os.path.join(ctx.scratch, "undo%d" % i)) as disk:
            try:
                for op, (path, comps) in todo.items():
                    acked = out["acked"].setdefault(op, [])
                    waiting = []
                    with open(path, "a") as f:
                        for n, (d, c) in enumerate(comps):
                            try:
                                line = store.text_of(c)
                            except KeyboardInterrupt:
                                ctx.faults["KeyboardInterrupt"] += 1
                                line = store.text_of(c)
                            out["letters"].append([d, work.h(work.letters(c))])
                            if "\n" in line:
                                out["newline"] = d
                            f.write(line + "\n")
                            waiting.append(d)
                            if n % L["sync_every"] == 0:
                                f.flush()
                                os.fsync(f.fileno())
                                acked += waiting
                                waiting = []
                        f.flush()
                        os.fsync(f.fileno())
                        acked += waiting
            except SimCrash:
                out["crashed"] = True
            except OSError as e:
                out["full"] = True
                disk.dead = False
        ticker.disarm()
        ctx.ticks += ticker.n
    ctx.log.append([out["crashed"], out["full"], {k: sorted(v) for k, v in out["acked"].items()}])
    ctx.log.append(work.h(out))
    return out


def read_life(L, ctx):
    from neutrinomass.database.database import ModelDatabase

    out = {"files": {}, "again": {}}
    folder = os.path.join(ctx.scratch, "models")
    for step in L["steps"]:
        path = os.path.join(folder, "op%s.dat" % step["op"])
        good, size = store.split_tail(path)
        if not size:
            continue
        os.truncate(path, good)
        out["files"][step["op"]] = seen = read_back(path, ctx)
        # exporting what was read back, lazily or not, gives the same models
        if "ok" in seen:
            from neutrinomass.database.database import read_completions

            again = []
            for k, v in read_completions(path).items():
                for m in v[:3]:
                    c = m.force()
                    again.append(store.look_lazy(work.reload_completion(store.text_of(c))))
                    again.append(store.look(work.reload_completion(store.text_of(c, lazy=False))))
            out["again"][step["op"]] = again
        for v in seen.get("ok", {}).values():
            ctx.states.update("model %s %s" % (step["op"], x[0]) for x in v)
    if os.path.isdir(folder):
        db = ModelDatabase(folder)
        out["db"] = {k: sorted(work.h(store.head_of(m)) for m in v) for k, v in db.data.items()}
    ctx.log.append(work.h(out))
    return out


def judge(plan, values, refs):
    bad = []
    gal = {}
    gold = session.golden()
    for k, r in refs.items():
        import json

        op = json.loads(k)["op"]
        gal[op] = r
        if k in gold and gold[k] != work.h(r):
            bad.append({"class": "differs_from_record", "detail": "%s: completions look different from recorded" % k})
    acked = {}
    letters = {(d, l) for v in values for d, l in v["result"].get("letters", [])}

    def check(where, op, seen, final=True):
        if "raised" in seen:
            bad.append({"class": "unreadable", "detail": "%s: records of %s: %s" % (where, op, seen["raised"])})
            return set()
        got = set()
        for name, models in seen["ok"].items():
            if name != op:
                bad.append({"class": "wrong_operator", "detail": "%s: %s filed under %s" % (where, op, name)})
            for m in models:
                got.add(m[0])
                check_one(where, op, m)
        return got

    def check_one(where, op, m):
        want = gal[op].get(m[0])
        if want is None:
            bad.append({"class": "model_changed", "detail":
                        "%s: a model of %s read back is none of its completions" % (where, op)})
        elif m[1] != want[0]:
            bad.append({"class": "model_changed", "detail":
                        "%s: a model of %s reads differently after being read back" % (where, op)})
        elif (m[0], m[3]) not in letters:
            bad.append({"class": "model_changed", "detail":
                        "%s: a model of %s was not exported with these names of fields" % (where, op)})
        elif m[2] != want[1]:
            bad.append({"class": "head_wrong", "detail":
                        "%s: the summary of a model of %s does not describe it" % (where, op)})

    for i, v in enumerate(values):
        r = v["result"]
        where = "life %d" % i
        if r.get("newline"):
            bad.append({"class": "unreadable", "detail": "%s: exported record spans lines" % where})
        for op, t in r.get("torn", {}).items():
            if "ok" in t["seen"]:
                check(where + " (file as the crash left it)", op, t["seen"])
            elif t["complete"]:
                bad.append({"class": "unreadable", "detail": "%s: %s" % (where, t["seen"])})
        for op, seen in r.get("files", {}).items():
            got = check(where, op, seen)
            lost = acked.get(op, set()) - got
            if "ok" in seen and lost:
                bad.append({"class": "model_lost", "detail": "%s: %d synced models of %s are gone" % (where, len(lost), op)})
        for op, ms in r.get("again", {}).items():
            for m in ms:
                check_one(where + " (exported again)", op, m)
        if "db" in r:
            for op, seen in r["files"].items():
                if "ok" in seen:
                    want = sorted(gal[op][m[0]][1] for ms in seen["ok"].values() for m in ms if m[0] in gal[op])
                    if sorted(r["db"].get(op, [])) != want and not bad:
                        bad.append({"class": "model_lost", "detail": "%s: the folder loads other models of %s than its file" % (where, op)})
        for op, ds in r.get("acked", {}).items():
            acked.setdefault(op, set()).update(ds)
    return bad


def shrink(plan):
    import json

    from sim.core import default_shrink

    yield from default_shrink(plan)
    for li, l in enumerate(plan["lives"]):
        if len(plan["lives"]) > 1 and l["role"] == "write":
            p = json.loads(json.dumps(plan))
            del p["lives"][li]
            yield p
        for key in ("warm", "interrupt"):
            if l.get(key):
                p = json.loads(json.dumps(plan))
                del p["lives"][li][key]
                yield p
        for key in ("crash_at", "full_after", "short", "bufsize"):
            if l.get("disk", {}).get(key):
                p = json.loads(json.dumps(plan))
                del p["lives"][li]["disk"][key]
                yield p
        for si, s in enumerate(l["steps"]):
            if s.get("n", 1) > 1:
                p = json.loads(json.dumps(plan))
                p["lives"][li]["steps"][si]["n"] = s["n"] // 2
                yield p
