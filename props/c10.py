"""Queries leave a database alone; querying by side effect and loading are all or nothing."""
import os
import random
import re

from sim import models as M
from sim import session, store, tails, work
from sim.seams import FAULTS, Tasks, Ticker, moment

LEVEL = "exploration"
TIERS = {
    "quick": {"runs": 1200, "wall": 36, "min_runs": 40, "shrink_wall": 40, "twice_every": 16},
    "thorough": {"runs": 40000, "wall": 900, "min_runs": 800, "shrink_wall": 120, "twice_every": 16},
}
WANT_REFS = True
ASSUMPTIONS = [
    "threads only read the database side by side; nobody changes it at the same time",
]
RULE = ("a database of made-up and exported records; queries whose function fails at a drawn model, loading whose "
        "n-th evaluation fails, interrupts at drawn lines, readers in preempted threads; then the same again "
        "without faults, compared with a reference list after every step")
STATE_MEASURE = "distinct (operation, fault, number of models) triples"
REAL, STUB = session.REAL, session.STUB + ["tails of made-up records: a function of the harness"]
MUST_HIT = {"quick": ["query_failed", "evaluation_failed", "KeyboardInterrupt", "preemption", "forced"],
            "thorough": ["query_failed", "evaluation_failed", "KeyboardInterrupt", "preemption", "forced"]}
PATTERNS = ["S", "F", "S,10", "F,00,2,0,0", "S,10,[012],-1/3,1", "F,0.", ".*,1/2,0", "S,00,1,1/2,0", "L", "H", "Q", "db",
            ".*conj", "(S|F),1", "S,..,0", "x"]
EXC = ["KeyboardInterrupt", "MemoryError", "RecursionError", "TimeoutError"]
# what a query or the evaluation of a record may raise
OWN = {e.__name__: e for e in (KeyError, AttributeError, TypeError, ValueError, IndexError, NameError, ZeroDivisionError,
                               OSError, StopIteration, AssertionError)}
ERRORS = {**FAULTS, **OWN}


def draw_query(rng):
    if rng.random() < 0.15:
        return {"kind": "no_seesaws"}
    if rng.random() < 0.4:
        return {"kind": "field", "pattern": rng.choice(PATTERNS), "not": rng.random() < 0.5}
    return {"kind": "interaction", "patterns": rng.sample(PATTERNS, rng.randrange(1, 4)), "not": rng.random() < 0.5}


def gen(rng, tier, i):
    ops = rng.sample(M.OPS, rng.randrange(1, 5))
    models = M.draw_models(rng, ops, rng.randrange(1, 24), small=rng.random() < 0.4)
    real = [["1", rng.randrange(40)] for _ in range(rng.choice([0, 0, 1, 2]))]
    steps = []
    for _ in range(rng.randrange(2, 7)):
        u = rng.random()
        if u < 0.35:
            st = {"do": "query", "q": draw_query(rng), "spoil": rng.random() < 0.4}
        elif u < 0.6:
            st = {"do": "filter_by_query", "q": draw_query(rng)}
        elif u < 0.72:
            st = {"do": "readers", "qs": [draw_query(rng) for _ in range(rng.randrange(2, 4))],
                  "seed": rng.randrange(1 << 30), "quantum": rng.choice([1, 2, 6, -3])}
        elif u < 0.8:
            st = {"do": "numbers"}
        else:
            st = {"do": "force"}
        if st["do"] in ("query", "filter_by_query", "force") and rng.random() < 0.65:
            if rng.random() < 0.5:
                st["fail"] = {"nth": rng.randrange(1, max(2, len(models))), "exc": rng.choice(EXC + list(OWN))}
            else:
                st["interrupt"] = {**moment(rng, 2.7 if st["do"] != "force" or not real else 3.4, 30, "database/"),
                                   "exc": rng.choice(EXC)}
        steps.append(st)
        if st["do"] == "force" and rng.random() < 0.6:
            steps.append({"do": "force"})
    # loading is what most sessions end with
    if rng.random() < 0.7:
        st = {"do": "force"}
        n = len(models) + len(real)
        if rng.random() < 0.6:
            if rng.random() < 0.4:
                st["interrupt"] = {"after": rng.randrange(1, 2 * n + 8), "exc": rng.choice(EXC)}
            else:
                st["fail"] = {"nth": rng.randrange(1, n + 1), "exc": rng.choice(EXC + list(OWN))}
        steps += [st, {"do": "force"}]
    return finish_plan({"lives": [{"hashseed": rng.randrange(3), "steps": steps}], "models": models, "real": real})


def finish_plan(plan):
    plan["refs"] = [{"do": "records", "op": o} for o in sorted({o for o, _ in plan["real"]})]
    return plan


def ref(key):
    return [[d, text] for d, text in store.records(key["op"])]


def data_of(plan, refs):
    """[(op, line, identity after loading)] in the order of the file"""
    import json

    out = [(m["op"], M.line_of(m, tails.text(m["id"])), ["built", m["id"]]) for m in plan["models"]]
    for op, k in plan["real"]:
        rec = refs[json.dumps({"do": "records", "op": op}, sort_keys=True)]
        d, text = rec[k % len(rec)]
        out.insert(k % (len(out) + 1), (op, text, ["digest", d]))
    return out


# -- what the queries mean, without the library ---------------------------------------
def head(line):
    return eval(line, {"LazyCompletion": lambda head, tail: head})


def has_field(h, pattern):
    return any(re.match(pattern, x) for x in set(h["quantum_numbers"]))


def has_interaction(h, patterns):
    return any(all(any(re.match(p, x) for x in t) for p in patterns) for t in h["terms"])


def wanted(q, h):
    if q["kind"] == "no_seesaws":
        return not any(has_field(h, s) for s in M.SEESAWS)
    got = has_field(h, q["pattern"]) if q["kind"] == "field" else has_interaction(h, q["patterns"])
    return got != q["not"]


class Failing:
    """The query of the user; it may fail at its n-th model."""

    def __init__(self, q, fail=None):
        self.q, self.n, self.fail, self.fired = q, 0, fail, False

    def __call__(self, m):
        self.n += 1
        if self.fail and self.n == self.fail["nth"]:
            self.fired = True
            raise ERRORS[self.fail["exc"]]("in the query")
        q = self.q
        if q["kind"] == "no_seesaws":
            from neutrinomass.database.database import ModelDatabase

            return ModelDatabase.no_seesaws(m)
        got = m.contains_field(q["pattern"]) if q["kind"] == "field" else m.contains_interaction(q["patterns"])
        return got != q["not"]


def who(m):
    """Which record or loaded model this is."""
    if isinstance(m, list):
        return ["loaded", m]
    if hasattr(m, "tail"):
        return ["record", [m.operator_name, work.h([m.tail, sorted(m.head["quantum_numbers"])])]]
    from sim import canon

    return ["loaded", ["digest", canon.completion(m)]]


def listing(data):
    return {k: [who(m) for m in v] for k, v in data.items() if v}


def answer(db, f, spoil):
    """What a query gives; the caller may take it apart."""
    got = db.query(f)
    out = listing(got)
    if spoil:
        for v in got.values():
            v.clear()
        got.clear()
    return out


def attempt(fn):
    try:
        return {"ok": fn()}
    except (KeyboardInterrupt, Exception) as e:
        return {"raised": "%s: %s" % (type(e).__name__, str(e)[:120])}


def life(plan, i, ctx):
    from neutrinomass.database.database import ModelDatabase

    folder = os.path.join(ctx.scratch, "db%d" % i)
    os.makedirs(folder)
    data = data_of(plan, ctx.refs)
    with open(os.path.join(folder, "a.dat"), "w") as f:
        for _, line, _ in data:
            f.write(line + "\n")
    db = ModelDatabase(folder)
    out = []
    forced = False
    with Ticker() as ticker:
        for st in plan["lives"][i]["steps"]:
            if forced and st["do"] != "force":
                out.append(None)
                continue
            rec = {}
            intr, fail = st.get("interrupt"), st.get("fail")
            n = sum(len(v) for v in db.data.values())
            if intr:
                ticker.arm(intr, FAULTS[intr["exc"]])
            if st["do"] in ("query", "filter_by_query"):
                f = Failing(st["q"], fail)
                if st["do"] == "query":
                    rec = attempt(lambda: answer(db, f, st.get("spoil")))
                else:
                    rec = attempt(lambda: db.filter_by_query(f))
                if f.fired:
                    ctx.faults["query_failed"] += 1
                    rec["fault"] = True
            elif st["do"] == "readers":
                pool = Tasks(ticker, random.Random(st["seed"]), st["quantum"])
                got = pool.run([lambda q=q: listing(db.query(Failing(q))) for q in st["qs"]])
                ctx.faults["preemption"] += pool.switches
                rec["parts"] = [{"ok": r} if k == "ok" else {"raised": r} for k, r in got]
            elif st["do"] == "numbers":
                rec = attempt(lambda: [[who(m), [str(db.democratic_model_number(m)), str(db.stringent_model_number(m))]]
                                       for v in db.data.values() for m in v])
            else:
                with tails.failing({fail["nth"]: ERRORS[fail["exc"]]} if fail else {}) as fired:
                    rec = attempt(lambda: db.force())
                    if fired:
                        ctx.faults["evaluation_failed"] += 1
                        rec["fault"] = True
                if "ok" in rec:
                    forced = True
                    ctx.probes["forced"] += 1
            if intr and ticker.disarm():
                ctx.faults[intr["exc"]] += 1
                rec["fault"] = True
            rec["after"] = attempt(lambda: listing(db.data))
            rec["loaded"] = bool(db.is_forced)
            if st["do"] == "force" and any(w[0] == "loaded" for v in rec["after"].get("ok", {}).values() for w in v):
                forced = True
            out.append(rec)
            ctx.states.add("%s %s %d" % (st["do"], (intr or fail or {}).get("exc"), n))
            ctx.log.append(work.h(rec))
        ctx.ticks += ticker.n
    return out


def judge(plan, values, refs):
    bad = []
    data = data_of(plan, refs)
    heads = [head(line) for _, line, _ in data]
    tail = lambda line: eval(line, {"LazyCompletion": lambda head, tail: tail})
    record = [["record", [op, work.h([tail(line), sorted(h["quantum_numbers"])])]]
              for (op, line, _), h in zip(data, heads)]
    now = list(range(len(data)))
    loaded = False

    def show(ids, loaded=False):
        d = {}
        for k in ids:
            d.setdefault(data[k][0], []).append(["loaded", data[k][2]] if loaded else record[k])
        return d

    for n, rec in enumerate(values[0]["result"]):
        st = plan["lives"][0]["steps"][n]
        if rec is None:
            continue
        where = "step %d (%s)" % (n, st["do"])

        def add(cls, detail):
            bad.append({"class": cls, "detail": "%s: %s" % (where, detail)})

        faulty = rec.get("fault")
        if "raised" in rec and not faulty:
            add("error", rec["raised"])
            return bad
        if st["do"] == "query" and "ok" in rec:
            if rec["ok"] != show([k for k in now if wanted(st["q"], heads[k])]):
                add("wrong_answer", "the query %s does not give the models that match" % st["q"])
        if st["do"] == "readers":
            for q, r in zip(st["qs"], rec["parts"]):
                if r.get("ok") != show([k for k in now if wanted(q, heads[k])]):
                    add("wrong_answer", "the query %s in a thread: %s" % (q, str(r)[:120]))
        if "ok" not in rec["after"]:
            add("error", "the database cannot be listed: %s" % rec["after"]["raised"])
            return bad
        after = rec["after"]["ok"]
        if st["do"] == "filter_by_query":
            kept = [k for k in now if wanted(st["q"], heads[k])]
            if "ok" in rec:
                now = kept
            elif after != show(now) and after == show(kept):
                now = kept
        if st["do"] == "force":
            if "ok" in rec:
                loaded = True
            elif after == show(now, True) and rec["loaded"]:
                # the fault struck after the last step of loading
                loaded = True
            if rec["loaded"] != loaded:
                add("half_loaded", "after %s the database says loaded=%s" % (rec.get("raised", "loading"), rec["loaded"]))
        if after != show(now, loaded):
            add("database_changed" if "raised" in rec or st["do"] in ("query", "readers", "numbers") else "wrong_content",
                "after %s it holds %d models, expected %d%s" % (
                    rec.get("raised", "success"), sum(map(len, after.values())), len(now), ", loaded" if loaded else ""))
        if bad:
            return bad
    return bad
