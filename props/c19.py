"""The tables of operators come out of their scripts as published, every structure under its label."""
import os
import pickle
import random
import re
import sys

from sim import canon, session, work
from sim.boot import REPO
from sim.seams import FAULTS, Disk, SimCrash, Ticker, moment

LEVEL = "exploration"
TIERS = {
    "quick": {"runs": 300, "wall": 34, "min_runs": 14, "shrink_wall": 50, "twice_every": 12},
    "thorough": {"runs": 10000, "wall": 1200, "min_runs": 200, "shrink_wall": 120, "twice_every": 12},
}
WANT_REFS = False
ASSUMPTIONS = [
    "the scripts are run for some of the classes of operators at a time (their lists of classes are cut down)",
    "name changes reach the disk in the order they were made",
]
RULE = ("the scripts that make the tables are run in several processes with drawn hash seeds, after drawn histories, "
        "with interrupts, crashes and disk errors, repeated, and what they print and write is compared with the shipped "
        "tables; the tables they write are used in other processes")
STATE_MEASURE = "distinct (script, last operation of the history, outcome, place of the fault) tuples"
REAL, STUB = session.REAL + ["tensormethod/lnvlatex", "tensormethod/lnvderivlatex"], session.STUB + ["disk: in-process fault layer"]
MUST_HIT = {"quick": ["complete_run", "crash", "KeyboardInterrupt", "used_table"],
            "thorough": ["complete_run", "crash", "KeyboardInterrupt", "used_table", "EIO", "ENOSPC"]}
FILES = {"lnvlatex": "output.p", "lnvderivlatex": "deriv_operators.p"}
PLAIN = [1, 2, 3, 4, 5, 8, 9, 12, 14, 15, 16, 17, 18, 19, 20, 13, 61, 71, 76]
SLOW_PLAIN = [6, 10, 11, 7, 33, 34, 35, 45, 46, 52, 53, 65]
DERIVS = ["2", "3", "6", "7", "9", "10", "12", "13", "14", "15", "16", "17", "21", "22", "4"]
SLOW_DERIVS = ["5", "8", "18", "20"]
USED = {"1": 1, "8": 8, "4a": 4, "D3": "3", "D2a": "2"}
MENU = ["complete", "first", "invariants", "unsimplified", "fieldstrings", "table", "scale", "export"]


def gen(rng, tier, i):
    plain = PLAIN + (SLOW_PLAIN if tier != "quick" else [])
    derivs = DERIVS + (SLOW_DERIVS if tier != "quick" else [])
    script = rng.choice(list(FILES))
    pool = plain if script == "lnvlatex" else derivs
    want = rng.sample(pool, rng.randrange(1, 4))
    lives = []
    for k in range(rng.choice([1, 2, 2, 3])):
        life = {"hashseed": rng.randrange(6), "kind": "make", "history": [session.draw(rng, MENU, ["1", "8", "D2a", "4a"]) for _ in range(rng.choice([0, 0, 1, 2]))],
                "runs": []}
        for _ in range(rng.choice([1, 2, 2])):
            run = {"names": want if rng.random() < 0.7 else rng.sample(pool, rng.randrange(1, 3)),
                   "disk": {"seed": rng.randrange(1 << 30), "lose": rng.choice(["some", "all", "none"]), "bufsize": rng.choice([None, None, 256])}}
            u = rng.random()
            if u < 0.25:
                run["interrupt"] = {**moment(rng, 5.6, 120), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}
            elif u < 0.5:
                run["disk"]["crash_at"] = rng.choice([1, 2, 2, 3, 3, 4, 5, 6])
                run["disk"]["crash_torn"] = rng.random() < 0.6
            elif u < 0.7:
                run["disk"]["faults"] = [{"op": rng.choice(["write", "open_w"]), "nth": rng.choice([1, 1, 2, 2, 3, 4]),
                                          "kind": rng.choice(["EIO", "ENOSPC", "EACCES", "KeyboardInterrupt", "MemoryError"])}]
            life["runs"].append(run)
        lives.append(life)
    last = {"hashseed": rng.randrange(6), "kind": "make", "history": [], "runs": [{"names": want, "disk": {"seed": 0}}]}
    lives.append(last)
    if rng.random() < 0.7:
        lives.append({"hashseed": rng.randrange(6), "kind": "use"})
    return finish_plan({"script": script, "lives": lives})


def finish_plan(plan):
    names = sorted({str(n) for L in plan["lives"] if L["kind"] == "make" for r in L["runs"] for n in r["names"]})
    plan["refs"] = [{"do": "shipped", "script": plan["script"], "name": n} for n in names]
    for op, n in sorted(USED.items()):
        if op.startswith("D") == (plan["script"] != "lnvlatex") and str(n) in names:
            plan["refs"].append({"do": "complete", "op": op})
    return plan


def ref(key):
    """The operators of a class in the shipped tables: label -> canonical form."""
    if key["do"] == "complete":
        return work.run(key)
    from neutrinomass.tensormethod.core import Operator

    plain = key["script"] == "lnvlatex"
    path = os.path.join(REPO, "neutrinomass", "completions", "operators.p" if plain else "deriv_operators.p")
    with open(path, "rb") as f:
        table = pickle.load(f)
    out = {}
    for k, form in table.items():
        if re.fullmatch(("" if plain else "D") + r"(\d+)[a-z]?", k) and re.sub(r"\D", "", k) == key["name"]:
            op = Operator.from_pickle_form(form)
            out[k] = canon.operator(op)
    return out


def snapshot(path):
    from neutrinomass.tensormethod.core import Operator

    if not os.path.exists(path):
        return None
    try:
        with open(path, "rb") as f:
            table = pickle.load(f)
    except Exception as e:
        return {"bad": type(e).__name__}
    try:
        ops = {k: Operator.from_pickle_form(v) for k, v in table.items()}
        return {"ok": {k: canon.operator(v) for k, v in ops.items()}, "tex": {k: v.latex(ignore=["c", "u", "d"]) for k, v in ops.items()}}
    except Exception as e:
        return {"ok": {"?": "%s: %s" % (type(e).__name__, str(e)[:80])}}


def run_script(script, names):
    """One of the scripts in a program of its own, for some of the classes; what it prints."""
    import contextlib
    import io
    import runpy

    from neutrinomass.tensormethod import deriv_operators, lnv

    path = os.path.join(REPO, "neutrinomass", "tensormethod", script)
    tables = lnv.BL_LIST, deriv_operators.deriv_operator_names
    whole = [dict(t) for t in tables]
    for t, names_in in zip(tables, (lambda k, v: v in names, lambda k, v: k in names)):
        for k, v in list(t.items()):
            if not names_in(k, v):
                del t[k]
    argv, text = sys.argv, io.StringIO()
    sys.argv = [path]
    try:
        with contextlib.redirect_stdout(text):
            runpy.run_path(path, run_name="__main__")
    finally:
        sys.argv = argv
        for t, w in zip(tables, whole):
            t.clear()
            t.update(w)
    return text.getvalue()


def printed(script, text):
    """label -> LaTeX"""
    out = {}
    for line in text.splitlines():
        if script == "lnvlatex":
            m = re.match(r"(\w+) & (.*)$", line)
            if m:
                out[m.group(1)] = m.group(2)
        else:
            m = re.match(r"\$(\w+)\$ & \$(.*)\$ & & & & ", line)
            if m:
                out["D" + m.group(1)] = m.group(2)
    return out


def life(plan, i, ctx):
    L = plan["lives"][i]
    folder = os.path.join(ctx.scratch, "tables")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, FILES[plan["script"]])
    if L["kind"] == "use":
        return use(plan, path, ctx)
    out = []
    os.chdir(folder)
    with Ticker() if any(r.get("interrupt") for r in L["runs"]) else session.Idle() as ticker:
        last = "start"
        for st in L["history"]:
            rec = session.call(lambda: work.run(st))
            last = st["do"]
            ctx.log.append([st["do"], rec["status"]])
        for n, run in enumerate(L["runs"]):
            intr, fired, rec, text = run.get("interrupt"), None, {}, None
            with Disk(ctx, [folder], run["disk"], undo_dir=os.path.join(ctx.scratch, "undo%d_%d" % (i, n))) as disk:
                if intr:
                    ticker.arm(intr, FAULTS[intr["exc"]])
                try:
                    text = run_script(plan["script"], run["names"])
                    rec["end"] = "ok"
                except SimCrash:
                    rec["end"] = "crash"
                except (Exception, KeyboardInterrupt) as e:
                    rec["end"] = "raised %s %s" % (type(e).__name__, getattr(e, "errno", None) or str(e)[:80])
                    e.__traceback__ = None
                if intr:
                    fired = ticker.disarm()
            if fired:
                ctx.faults[intr["exc"]] += 1
            rec["fault"] = bool(disk.hits) or bool(fired)
            rec["after"] = snapshot(path)
            if text is not None:
                rec["printed"] = printed(plan["script"], text)
                ctx.probes["complete_run"] += 1
            ctx.states.add("%s %s %s %s" % (plan["script"], last, rec["end"][:24], fired or disk.hits[:1]))
            ctx.log.append([rec, disk.trace])
            out.append(rec)
            last = "script"
            if rec["end"] == "crash":
                break
        ctx.ticks += ticker.n
    return out


def use(plan, path, ctx):
    """The written table in place of the shipped one."""
    from neutrinomass.completions.completions import completions
    from neutrinomass.completions.core import EffectiveOperator
    from neutrinomass.tensormethod.core import Operator

    def go():
        with open(path, "rb") as f:
            table = pickle.load(f)
        out = {}
        for op in sorted(USED):
            if op in table:
                ctx.probes["used_table"] += 1
                got = {}
                for c in completions(EffectiveOperator(op, Operator.from_pickle_form(table[op]))):
                    d = canon.completion(c)
                    got[d] = got.get(d, 0) + 1
                out[op] = got
        return out

    rec = session.call(go)
    ctx.log.append(work.h(rec))
    return rec


def judge(plan, values, refs):
    bad = []
    shipped = {}

    def add(cls, detail):
        bad.append({"class": cls, "detail": "life %d (hash seed %s)%s: %s" % (i, plan["lives"][i]["hashseed"], where, detail)})

    def expected(names):
        out = {}
        for n in names:
            out.update(refs[session.skey({"do": "shipped", "script": plan["script"], "name": str(n)})])
        return out

    complete = [None]
    for i, v in enumerate(values):
        L, where = plan["lives"][i], ""
        if L["kind"] == "use":
            rec = v["result"]
            if rec["status"] != "ok":
                add("error", "using the table: %s" % rec.get("error"))
                break
            for op, got in rec["value"].items():
                if got != refs[session.skey({"do": "complete", "op": op})]:
                    add("unusable", "completions of %s from the written table differ from those of the shipped one" % op)
            break
        for n, rec in enumerate(v["result"]):
            run = L["runs"][n]
            where = " run %d (%s)" % (n, rec["end"])
            want = expected(run["names"])
            table = dict(want)
            complete.append(table)
            if rec["end"].startswith("raised") and not rec["fault"]:
                add("error", "the script fails without a fault")
                break
            after = rec["after"]
            if rec["end"] == "ok":
                if after is None or "bad" in after:
                    add("no_table", "the script ended well, table: %s" % after)
                    break
                if after["ok"] != table:
                    wrong = [k for k in sorted(set(table) | set(after["ok"])) if table.get(k) != after["ok"].get(k)]
                    cls = "wrong_label" if sorted(table.values()) == sorted(after["ok"].values()) else "wrong_table"
                    add(cls, "operators %s are not those of the shipped table" % wrong[:8])
                    break
                tex = after["tex"]
                if rec["printed"] != tex:
                    wrong = [k for k in sorted(set(tex) | set(rec["printed"])) if tex.get(k) != rec["printed"].get(k)]
                    add("wrong_print", "%s: %s instead of %s" % (wrong[0], rec["printed"].get(wrong[0]), tex.get(wrong[0])))
                    break
            elif after is not None and "ok" in after and after["ok"] not in complete:
                add("partial_table", "a table with %s only is left" % sorted(after["ok"])[:8])
                break
        if bad:
            break
    return bad
