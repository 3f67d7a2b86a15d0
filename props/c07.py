"""Reading a model file gives every record, unchanged and in order, or fails."""
import json
import os
import random

from sim import models as M
from sim import session, store, work
from sim.seams import FAULTS, Disk, Tasks, Ticker

LEVEL = "exploration"
TIERS = {
    "quick": {"runs": 400, "wall": 28, "min_runs": 40, "shrink_wall": 40, "twice_every": 16},
    "thorough": {"runs": 40000, "wall": 900, "min_runs": 800, "shrink_wall": 120, "twice_every": 16},
}
WANT_REFS = True
ASSUMPTIONS = [
    "a file whose reads end early exactly between two records cannot be told from a shorter file",
]
RULE = ("files of exported and made-up records, read with short reads, I/O errors at drawn operations, early end of "
        "file, interrupts at drawn lines, damaged last records, and by several threads; then read again without faults")
STATE_MEASURE = "distinct (fault kinds fired, outcome) pairs and thread schedules"
REAL, STUB = session.REAL, session.STUB + ["disk: in-process fault layer"]
MUST_HIT = {"quick": ["EIO", "short_read", "KeyboardInterrupt", "preemption", "cut_record"],
            "thorough": ["EIO", "short_read", "KeyboardInterrupt", "preemption", "cut_record"]}
GALLERY = ["1", "8"]


def gen(rng, tier, i):
    models = M.draw_models(rng, rng.sample(M.OPS, rng.randrange(1, 4)), rng.randrange(1, 14))
    pool = GALLERY if tier == "quick" else ["1", "8", "4a", "D2a"]
    files = []
    for k in range(rng.randrange(1, 4)):
        if rng.random() < 0.45:
            op = rng.choice(pool)
            files.append({"op": op, "pick": [rng.randrange(40) for _ in range(rng.randrange(1, 4))]})
        else:
            ids = [m["id"] for m in models]
            rng.shuffle(ids)
            files.append({"ids": ids[: rng.randrange(0, len(ids) + 1)]})
        if rng.random() < 0.2:
            files[-1]["cut"] = rng.random()
        if rng.random() < 0.2:
            files[-1]["no_newline"] = True
        if rng.random() < 0.12:
            files[-1]["blank"] = rng.randrange(6)
    steps = []
    for _ in range(rng.randrange(1, 5)):
        u = rng.random()
        k = rng.randrange(len(files))
        if u < 0.7:
            st = {"do": "read", "file": k, "disk": {"seed": rng.randrange(1 << 30)}}
            d = st["disk"]
            if rng.random() < 0.5:
                d["short"] = rng.choice([1, 7, 100, 5000])
            if rng.random() < 0.5:
                d["bufsize"] = rng.choice([16, 256, 2048])
            v = rng.random()
            if v < 0.45:
                d["faults"] = [{"op": rng.choice(["read", "read", "read", "open"]), "nth": rng.randrange(1, 12),
                                "kind": rng.choice(["EIO", "EIO", "ESTALE", "EINTR"])}]
                if d["faults"][0]["op"] == "open":
                    d["faults"][0].update(nth=1, kind=rng.choice(["EIO", "EMFILE", "ENOENT", "EACCES"]))
            elif v < 0.55:
                d["faults"] = [{"op": "read", "nth": rng.randrange(1, 12), "kind": "eof"}]
            elif v < 0.7:
                st["interrupt"] = {"after": rng.randrange(1, 60), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}
            steps.append(st)
        elif u < 0.85:
            steps.append({"do": "tasks", "files": [rng.randrange(len(files)) for _ in range(rng.randrange(2, 4))],
                          "seed": rng.randrange(1 << 30), "quantum": rng.choice([1, 2, 5])})
        else:
            steps.append({"do": "force", "op": rng.choice(pool), "pick": rng.randrange(40),
                          "threads": rng.choice([1, 1, 2]), "seed": rng.randrange(1 << 30),
                          "interrupt": rng.choice([None, int(10 ** (rng.random() * 3.5))])})
    return finish_plan({"lives": [{"hashseed": rng.randrange(3), "steps": steps}], "models": models, "files": files})


def finish_plan(plan):
    ops = []
    for f in plan["files"]:
        if "op" in f and f["op"] not in ops:
            ops.append(f["op"])
    for s in plan["lives"][0]["steps"]:
        if s["do"] == "force" and s["op"] not in ops:
            ops.append(s["op"])
    plan["refs"] = [{"do": "records", "op": o} for o in ops]
    return plan


def ref(key):
    rec = store.records(key["op"])
    gal = store.gallery(key["op"])
    return [[d, text, gal[d]] for d, text in rec]


def rkey(op):
    return json.dumps({"do": "records", "op": op}, sort_keys=True)


def expected(plan, refs):
    """Per file: the records in order [op, identity], and whether it is damaged."""
    by = {m["id"]: m for m in plan["models"]}
    out = []
    for f in plan["files"]:
        if "op" in f:
            rec = refs[rkey(f["op"])]
            rs = [rec[k % len(rec)] for k in f["pick"]]
            lines = [r[1] for r in rs]
        else:
            rs = [by[i] for i in f["ids"] if i in by]
            lines = [M.line_of(m) for m in rs]
        broken = False
        if lines and "blank" in f:
            # somebody left a blank line between two records
            k = f["blank"] % len(lines)
            data = "".join(("\n" if n == k else "") + l + "\n" for n, l in enumerate(lines))
            out.append({"data": data, "records": [plain(l) for l in lines], "broken": "blank"})
            continue
        data = "".join(l + "\n" for l in lines)
        if lines and f.get("no_newline"):
            data = data[:-1]
        if lines and "cut" in f:
            last = lines[-1]
            start = len(data) - len(last) - (0 if f.get("no_newline") else 1)
            at = 1 + int(f["cut"] * (len(last) - 2))
            data = data[: start + at]
            broken = True
        out.append({"data": data, "records": [plain(l) for l in lines], "broken": broken})
    return out


def plain(line):
    """[operator, digest] of a line, read without the library."""
    head, tail = eval(line, {"LazyCompletion": lambda head, tail: (head, tail)})
    return [head["operator_name"], work.h([head, tail])]


def again(lazy):
    """The same of a record."""
    return [lazy.operator_name, work.h([lazy.head, lazy.tail])]


def read(path):
    from neutrinomass.database.database import read_completions

    got = read_completions(path)
    return {k: [again(m) for m in v] for k, v in got.items()}


def attempt(fn):
    before = files_open()
    try:
        return {"ok": fn()}
    except (Exception, KeyboardInterrupt) as e:
        # looked at while the error is still held
        return {"raised": type(e).__name__, "left": max(0, files_open() - before)}


def files_open():
    return len(os.listdir("/proc/self/fd"))


def life(plan, i, ctx):
    exp = expected(plan, ctx.refs)
    paths = []
    for k, f in enumerate(exp):
        paths.append(os.path.join(ctx.scratch, "file%d.dat" % k))
        with open(paths[-1], "w") as g:
            g.write(f["data"])
        if f["broken"]:
            ctx.probes["cut_record"] += 1
    out = []
    n_fds = files_open()
    with Ticker() as ticker:
        for st in plan["lives"][i]["steps"]:
            if st["do"] == "read":
                path = paths[st["file"] % len(paths)]
                intr = st.get("interrupt")
                with Disk(ctx, [ctx.scratch], st["disk"]) as disk:
                    if intr:
                        ticker.arm(intr, FAULTS[intr["exc"]])
                    res = attempt(lambda: read(path))
                    if ticker.disarm():
                        ctx.faults[intr["exc"]] += 1
                        # one that comes just before a file would be closed leaves it open
                        n_fds = max(n_fds, files_open())
                fired = sorted({x.split()[0] for x in disk.hits})
                rec = {"step": st, "res": res, "eof": "eof" in fired, "fault": bool(disk.hits) or bool(intr)}
                rec["again"] = attempt(lambda: read(path))
                ctx.states.add("%s %s" % (fired, res.get("raised", "ok")))
            elif st["do"] == "tasks":
                pool = Tasks(ticker, random.Random(st["seed"]), st["quantum"])
                got = pool.run([lambda k=k: read(paths[k % len(paths)]) for k in st["files"]])
                ctx.faults["preemption"] += pool.switches
                ctx.states.add("schedule " + work.h(pool.trace))
                rec = {"step": st, "parts": [{"ok": r} if k == "ok" else {"raised": r} for k, r in got]}
            else:
                text = ctx.refs[rkey(st["op"])]
                text = text[st["pick"] % len(text)][1]
                lazy = work.reload_completion(text)
                rec = {"step": st, "parts": []}
                if st["threads"] > 1:
                    pool = Tasks(ticker, random.Random(st["seed"]), 3)
                    got = pool.run([lambda: store.look_lazy(lazy)[:3]] * st["threads"])
                    ctx.faults["preemption"] += pool.switches
                    rec["parts"] = [{"ok": r} if k == "ok" else {"raised": r} for k, r in got]
                else:
                    if st["interrupt"]:
                        ticker.arm(st["interrupt"], KeyboardInterrupt)
                    got = attempt(lazy.force)
                    if ticker.disarm():
                        ctx.faults["KeyboardInterrupt"] += 1
                    elif "raised" in got:
                        rec["parts"].append(got)
                    rec["parts"].append(attempt(lambda: store.look_lazy(lazy)[:3]))
            out.append(rec)
            ctx.log.append(work.h(rec))
        ctx.ticks += ticker.n
    left = files_open() - n_fds
    return {"steps": out, "left": left}


def judge(plan, values, refs):
    bad = []
    exp = expected(plan, refs)

    def group(records):
        d = {}
        for op, x in records:
            d.setdefault(op, []).append([op, x])
        return d

    def check(where, k, res, eof=False, may_fail=False):
        e = exp[k % len(exp)]
        # (an interrupt can come just before the file would be closed)
        if res.get("left") and res["raised"] not in FAULTS:
            bad.append({"class": "handle_leak", "detail": "%s: %d files are open while the error is handled" % (where, res["left"])})
            return
        if "raised" in res:
            if not (may_fail or e["broken"]):
                bad.append({"class": "unreadable", "detail": "%s: %s" % (where, res["raised"])})
            return
        if e["broken"] is True and not eof:
            bad.append({"class": "damage_unnoticed", "detail": "%s: a file with a cut record reads without error" % where})
            return
        got = {k: v for k, v in res["ok"].items() if v}
        ok = got == group(e["records"])
        if not ok and eof:
            ok = any(got == group(e["records"][:n]) for n in range(len(e["records"])))
        if not ok:
            bad.append({"class": "records_differ", "detail": "%s: %d records instead of %d, or in another order, or changed"
                        % (where, sum(map(len, got.values())), len(e["records"]))})

    for n, rec in enumerate(values[0]["result"]["steps"]):
        st = rec["step"]
        where = "step %d" % n
        if st["do"] == "read":
            check(where + " (with faults)", st["file"], rec["res"], rec["eof"], rec["fault"])
            check(where + " (read again)", st["file"], rec["again"])
        elif st["do"] == "tasks":
            for k, r in zip(st["files"], rec["parts"]):
                check(where + " (threads)", k, r)
        else:
            gal = {d: g for d, _, g in refs[rkey(st["op"])]}
            for r in rec["parts"]:
                if "raised" in r:
                    bad.append({"class": "unreadable", "detail": "%s: force: %s" % (where, r["raised"])})
                elif gal.get(r["ok"][0]) != r["ok"][1:3]:
                    bad.append({"class": "records_differ", "detail": "%s: a forced record is another model" % where})
    if values[0]["result"]["left"] > 0:
        bad.append({"class": "handle_leak", "detail": "%d files left open" % values[0]["result"]["left"]})
    return bad
