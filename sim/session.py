"""A user's session: a history of operations in one process, with faults.

A step is a ``work`` step, optionally with {"fault": {"exc", "after"}}, or

    {"do": "tasks", "parts": [step, ...], "seed", "quantum"}   preempted threads
    {"do": "weave", "ops": [...], "limits": [...], "seed"}     interleaved generators
    {"do": "spoil", "what": step-like, ...}                    caller damages its own results

The oracle is the result of the same operation in a pristine process (hash seed
0, nothing done before), and the recorded result in golden/ where there is one.
"""

import functools
import json
import os
import random

from sim import canon, work
from sim.seams import FAULTS, Ticker, Tasks, SimCrash, StepBudget

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUDGET = 40_000_000


def skey(k):
    return json.dumps(k, sort_keys=True)


@functools.lru_cache(None)
def golden():
    path = os.path.join(HERE, "golden", "results.json")
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        return json.load(f)


# -- plans -----------------------------------------------------------------------
def step_refs(step):
    if step["do"] == "tasks":
        return [k for p in step["parts"] for k in step_refs(p)]
    if step["do"] == "weave":
        return [{"do": "complete", "op": o} for o in step["ops"]]
    if step["do"] == "spoil":
        return [] if step["what"]["do"] == "field" else [work.key(step["what"])]
    return [work.key(step)]


def finish_plan(plan):
    seen, refs = set(), []
    for life in plan["lives"]:
        for step in life["steps"]:
            for k in step_refs(step):
                if skey(k) not in seen:
                    seen.add(skey(k))
                    refs.append(k)
    if plan.get("shared", True):
        refs.append({"do": "shared"})
    plan["refs"] = refs
    return plan


MENU = {
    "complete": lambda r, ops: {"op": r.choice(ops)},
    "models": lambda r, ops: {"op": r.choice(ops)},
    "first": lambda r, ops: {"op": r.choice(ops), "n": r.randrange(1, 6)},
    "physics": lambda r, ops: {"op": r.choice(ops)},
    "export": lambda r, ops: {"op": r.choice(ops)},
    "equivalent": lambda r, ops: {"op": r.choice(["1", "8", "4a", "4b"]), "seed": r.randrange(6)},
    "scale": lambda r, ops: {"op": r.choice(work.ALL_SCALES)},
    "invariants": lambda r, ops: {"class": r.choice([1, 2, 3, 4, 8, 16, 76, 18, 17, 20])},
    "unsimplified": lambda r, ops: {"class": r.choice([1, 2, 3, 4, 8, 9, 12, 5, 61])},
    "fieldstrings": lambda r, ops: r.choice(work.FIELDSTRINGS),
    "smeft": lambda r, ops: {"dim": r.choice([3, 3, 4])},
    "topology": lambda r, ops: dict(zip("sf", r.choice(work.TOPOLOGIES[:6]))),
    "table": lambda r, ops: {"op": r.choice(work.TABLE_OPS)},
    "mass_terms": lambda r, ops: {"op": "1", "k": r.randrange(1, 3)},
    "match": lambda r, ops: {"seed": r.randrange(6), "n": 60},
    "small": lambda r, ops: {"what": r.choice(work.KINDS), "seed": r.randrange(work.SMALL_SEEDS), "n": 6},
}


def draw(rng, menu, ops):
    do = rng.choice(menu)
    step = {"do": do, **MENU[do](rng, ops)}
    if "op" in step and do != "scale" and rng.random() < 0.2:
        step["verbose"] = True
    if "op" in step and do != "table" and rng.random() < 0.25:
        step["names"] = rng.randrange(1000)
    if "op" in step and do not in ("table", "export") and rng.random() < (0.5 if do == "scale" else 0.15):
        # completions() takes a D in the name for an operator with derivatives
        step["called"] = rng.choice(["D3", "D2a", "D"] if "D" in step["op"] else ["1", "8", "mine"])
    return step


SEARCHES = ["complete", "first", "models", "physics"]


def again(rng, before):
    """An operation that was done before, or another one on its operator."""
    step = {k: v for k, v in rng.choice(before).items() if k not in ("fault", "faults")}
    if step["do"] in SEARCHES and rng.random() < 0.5:
        step["do"] = rng.choice(SEARCHES + (["scale"] if step["op"] in work.ALL_SCALES else []))
        step["n"] = rng.randrange(1, 6)
        if step["do"] != "first":
            del step["n"]
    elif step["do"] == "scale" and rng.random() < 0.6:
        # two operators of one name
        step.setdefault("called", step["op"])
        step["op"] = rng.choice(work.ALL_SCALES)
    return step


class Idle:
    n = 0
    budget = None

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        pass


# -- one life -----------------------------------------------------------------------
def call(fn):
    try:
        return {"status": "ok", "value": fn()}
    except (SimCrash, StepBudget):
        raise
    except Exception as e:
        return {"status": "raised", "error": "%s: %s" % (type(e).__name__, str(e)[:200])}


def life(plan, i, ctx):
    steps = plan["lives"][i]["steps"]
    out = []
    # counting lines costs a third; histories without faults go without
    with Ticker() if plan.get("ticker", True) else Idle() as ticker:
        for n, step in enumerate(steps):
            ticker.budget = ticker.n + plan.get("budget", BUDGET)
            try:
                rec = one(step, ticker, ctx)
            except StepBudget:
                rec = {"status": "stuck"}
            rec["n"] = n
            out.append(rec)
            ctx.log.append([n, rec.get("status"), work.h(rec)])
            if plan.get("shared", True):
                ticker.budget = None
                sh = call(work.shared)
                rec["shared"] = sh
                ctx.log.append(work.h(sh))
        ctx.ticks += ticker.n
    return out


def one(step, ticker, ctx):
    if step["do"] == "tasks":
        return tasks(step, ticker, ctx)
    if step["do"] == "weave":
        return weave(step, ticker, ctx)
    if step["do"] == "spoil":
        return spoil(step, ticker, ctx)
    fault = step.get("fault")
    if not fault:
        rec = call(lambda: work.run(step))
        arg = step.get("op", step.get("class", ""))
        ctx.states.add("%s>%s %s" % (ctx.last, step["do"], arg))
        ctx.last = "%s %s" % (step["do"], arg)
        return rec
    exc = FAULTS[fault["exc"]]
    ticker.arm(fault, exc)
    try:
        rec = call(lambda: work.run(step))
    except BaseException as e:
        if isinstance(e, (SimCrash, StepBudget)):
            raise
        if type(e) is not exc:
            rec = {"status": "raised", "error": "%s: %s" % (type(e).__name__, e)}
        else:
            rec = {"status": "interrupted"}
    fired = ticker.disarm()
    if fired:
        ctx.faults[fault["exc"]] += 1
        ctx.states.add("fault " + fired)
        rec["fired"] = fired
        if rec["status"] == "raised" and rec["error"].startswith(fault["exc"]):
            rec = {"status": "interrupted", "fired": fired}
        elif rec["status"] == "raised":
            # the fault surfaced as another error: the user still knows
            ctx.probes["fault_translated"] += 1
            rec = {"status": "interrupted", "fired": fired, "as": rec["error"]}
        elif rec["status"] == "ok":
            ctx.probes["fault_absorbed"] += 1
    else:
        ctx.probes["fault_after_end"] += 1
    return rec


def tasks(step, ticker, ctx):
    rng = random.Random("tasks|%s" % step["seed"])
    pool = Tasks(ticker, rng, step["quantum"])
    fns = [lambda p=p: work.run(p) for p in step["parts"]]
    res = pool.run(fns)
    ctx.faults["preemption"] += pool.switches
    ctx.log.append(work.h(pool.trace))
    ctx.states.add("interleaving " + work.h(pool.trace))
    recs = []
    for r in res:
        if r[0] == "ok":
            recs.append({"status": "ok", "value": r[1]})
        else:
            recs.append({"status": "raised", "error": r[1]})
    return {"status": "tasks", "parts": recs}


def weave(step, ticker, ctx):
    """Generators advanced in a drawn order; some are dropped half way."""
    rng = random.Random("weave|%s" % step["seed"])
    its, got, kept, done = [], [], [], []
    rec = {"status": "weave", "parts": []}

    def go():
        for op in step["ops"]:
            its.append(iter(work.completions_of(op, step.get("verbose", False), step.get("names"))))
            got.append([])
            kept.append([])
            done.append(False)
        alive = list(range(len(its)))
        order = []
        while alive:
            k = rng.choice(alive)
            order.append(k)
            limit = step["limits"][k]
            if limit is not None and len(got[k]) >= limit:
                its[k] = None
                alive.remove(k)
                ctx.faults["abandoned"] += 1
                continue
            c = next(its[k], None)
            if c is None:
                done[k] = True
                alive.remove(k)
                continue
            got[k].append(canon.completion(c))
            kept[k].append(c)
        ctx.faults["interleaved"] += sum(a != b for a, b in zip(order, order[1:]))
        ctx.log.append(work.h(order))
        ctx.states.add("interleaving " + work.h([step["ops"], order]))
        out = []
        for k in range(len(its)):
            again = [canon.completion(c) for c in kept[k]]
            out.append({"done": done[k], "got": count(got[k]), "stable": again == got[k]})
        return out

    r = call(go)
    if r["status"] != "ok":
        return r
    rec["parts"] = r["value"]
    return rec


def count(xs):
    out = {}
    for x in xs:
        out[x] = out.get(x, 0) + 1
    return out


def siblings(comps, rng):
    """Taking one completion apart changes none of the others."""
    if len(comps) < 2:
        return 0
    before = [canon.completion(c) for c in comps]
    hit = sorted(rng.sample(range(len(comps)), min(len(comps) // 2, 6)))
    for n in hit:
        c = comps[n]
        for e in c.graph.edges:
            c.graph.edges[e]["particle"] = "spoilt"
        c.terms.clear()
        c.exotics.clear()
    return sum(canon.completion(c) != before[n] for n, c in enumerate(comps) if n not in hit)


def deface(f, rng):
    """Empties and overwrites what a field (or the dictionary of one) is made of."""
    get = f.get if isinstance(f, dict) else (lambda name: getattr(f, name, None))
    for name in ("charges", "symmetry", "stripped", "indices", "index_labels"):
        x = get(name)
        if rng.random() < 0.3 or (name == "indices" and not isinstance(f, dict)):
            continue
        if isinstance(x, dict):
            for y in list(x.values()):
                if isinstance(y, (dict, list)):
                    y.clear()
            for k in x:
                x[k] = 17
        elif isinstance(x, list):
            for y in x:
                if isinstance(y, list):
                    y.append(17)
            x.append("spoilt")


def spoil(step, ticker, ctx):
    """The caller takes results apart; the next caller must not notice."""
    rng = random.Random("spoil|%s" % step.get("seed", 0))
    what = step["what"]

    def go():
        if what["do"] == "topology":
            from neutrinomass.completions.topologies import get_topology_data

            data = get_topology_data(n_scalars=what["s"], n_fermions=what["f"])
            for t in data:
                for e in list(t["graph"].edges):
                    t["graph"].edges[e]["particle"] = "spoilt"
                if rng.random() < 0.5:
                    t["graph"].clear()
                t["partition"] = None
                t.clear()
            data.clear()
        elif what["do"] in ("complete", "physics", "models", "export"):
            from neutrinomass.completions.completions import clean_completions, collect_completions

            comps = list(work.completions_of(what["op"]))
            changed = siblings(comps, rng)
            if changed:
                return changed
            collected = collect_completions(comps)
            clean = clean_completions(comps)
            for c in comps:
                if rng.random() < 0.7:
                    c.graph.clear()
                if rng.random() < 0.7:
                    c.terms.clear()
                if rng.random() < 0.7:
                    c.exotics.clear()
                if rng.random() < 0.3:
                    c.operator.operator.tensors.clear()
                    c.operator.name = "spoilt"
            for v in collected.values():
                v.clear()
            clean.clear()
        elif what["do"] in ("invariants", "unsimplified"):
            from neutrinomass.tensormethod.contract import invariants, unsimplified_invariants

            fn = invariants if what["do"] == "invariants" else unsimplified_invariants
            ops = fn(*work.class_fields(what["class"]))
            for o in ops:
                o.tensors.clear()
            ops.clear()
        elif what["do"] == "table":
            op = work.operators()[what["op"]]
            form = op.operator.pickle_form()
            for f in form["fields"]:
                f["label"] = "spoilt"
                deface(f, rng)
            for f in op.fields:
                deface(f, rng)
            form["fields"].clear()
            op.fields.clear()
            op.indexed_fields.clear()
            op.topology_type.clear()
            op.operator.epsilons.clear()
        elif what["do"] == "field":
            from neutrinomass.tensormethod import sm
            from neutrinomass.tensormethod.core import D

            for n in ("L", "Q", "H", "ub", "db", "eb"):
                f = getattr(sm, n)
                derived = D(f, "11" if n == "H" else "01")
                for g in (f.conj, f.fresh_indices(), f.fresh_indices().conj, f.fresh_indices().field,
                          (f * f.conj)[0], derived, derived.conj, derived.fresh_indices(),
                          derived.fresh_indices().strip_derivs()):
                    deface(g, rng)
        elif what["do"] == "scale":
            from neutrinomass.database.closures import neutrino_mass_estimate

            neutrino_mass_estimate(work.operators()[what["op"]]).clear()
        return None

    r = call(go)
    ctx.faults["results_spoilt"] += 1
    if r["status"] != "ok":
        return r
    return {"status": "spoilt", "siblings": r["value"] or 0}


# -- judgement ------------------------------------------------------------------------
def ref(key):
    if key["do"] == "shared":
        return call(work.shared)
    return call(lambda: work.run(key))


def diff(a, b):
    a, b = json.dumps(a, sort_keys=True), json.dumps(b, sort_keys=True)
    n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    lo = max(0, n - 60)
    return "...%s... instead of ...%s..." % (a[lo : n + 80], b[lo : n + 80])


def judge(plan, values, refs):
    bad = []

    def add(cls, detail, key=None):
        bad.append({"class": cls, "detail": detail, "key": key})

    gold = golden()
    good = {}
    for k, r in refs.items():
        if r["status"] != "ok":
            add("fails_in_fresh_process", "%s: %s" % (k, r.get("error")), k)
            continue
        good[k] = r["value"]
        if k in gold and gold[k] != work.h(r["value"]):
            add("differs_from_record", "%s gives %s in a fresh process, recorded %s"
                % (k, work.h(r["value"]), gold[k]), k)

    def compare(where, step, rec):
        k = skey(work.key(step))
        if rec["status"] == "raised":
            if k in good:
                add("error_in_session", "%s: %s raised %s" % (where, k, rec["error"]), k)
        elif rec["status"] == "ok":
            if k in good and rec["value"] != good[k]:
                add("result_depends_on_session",
                    "%s: %s gives %s" % (where, k, diff(rec["value"], good[k])), k)

    for i, v in enumerate(values):
        steps = plan["lives"][i]["steps"]
        for rec in v["result"]:
            step = steps[rec["n"]]
            where = "life %d (hash seed %s) step %d" % (i, plan["lives"][i]["hashseed"], rec["n"])
            if rec["status"] == "stuck":
                add("no_progress", "%s: %s does not finish" % (where, skey(step)))
            elif rec["status"] == "tasks":
                for p, r in zip(step["parts"], rec["parts"]):
                    compare(where + " (concurrent)", p, r)
            elif rec["status"] == "weave":
                for op, r in zip(step["ops"], rec["parts"]):
                    k = skey({"do": "complete", "op": op})
                    if not r["stable"]:
                        add("delivered_result_changed",
                            "%s: a completion of %s changed after it was delivered" % (where, op), k)
                    if k not in good:
                        continue
                    if r["done"] and r["got"] != good[k]:
                        add("result_depends_on_session",
                            "%s (interleaved): completions of %s: %s" % (where, op, diff(r["got"], good[k])), k)
                    if any(n > good[k].get(d, 0) for d, n in r["got"].items()):
                        add("result_depends_on_session",
                            "%s (interleaved): a completion of %s that a fresh process does not find" % (where, op), k)
            elif rec["status"] in ("interrupted", "spoilt"):
                if rec.get("siblings"):
                    add("results_share_parts", "%s: %s: taking some results apart changed %d others"
                        % (where, skey(step)[:160], rec["siblings"]))
            elif step["do"] in ("weave", "spoil", "tasks"):
                add("error_in_session", "%s: %s raised %s" % (where, skey(step)[:200], rec.get("error")))
            else:
                compare(where, step, rec)
            if "shared" in rec:
                want = refs.get(skey({"do": "shared"}))
                got = rec["shared"]
                if want is not None and want["status"] == "ok":
                    if got["status"] != "ok":
                        add("shared_definition_changed", "%s: %s" % (where, got.get("error")))
                    elif got["value"] != want["value"]:
                        what = [n for n in want["value"] if got["value"].get(n) != want["value"][n]]
                        what += [n for n in got["value"] if n not in want["value"]]
                        add("shared_definition_changed",
                            "%s: after %s: %s" % (where, skey(step)[:160], ", ".join(what[:6])))
        if bad:
            break
    return bad


REAL = [
    "all of neutrinomass (working tree), sympy, networkx, basisgen, matchpy",
]
STUB = [
    "database/democratic.p (not shipped): an empty table is served while importing",
]
