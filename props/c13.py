"""Pickled and copied models, operators and fields arrive with all they had."""
import copy
import os
import pickle
import random

from props.c05 import names_of, base
from sim import canon, session, store, work
from sim.seams import FAULTS, SimCrash, StepBudget, Tasks, Ticker, moment

LEVEL = "exploration"
TIERS = {
    "quick": {"runs": 300, "wall": 40, "min_runs": 24, "shrink_wall": 50, "twice_every": 24},
    "thorough": {"runs": 20000, "wall": 1200, "min_runs": 300, "shrink_wall": 120, "twice_every": 24},
}
ASSUMPTIONS = [
    "sender and receiver run the same version of the package",
    "messages are delivered whole or cut short; no bits flip (pickle has no checksum)",
]
RULE = ("several processes with drawn hash seeds send each other models, operators, Lagrangians, fields, indices and "
        "records (delayed, reordered, duplicated, cut short, forwarded), between calculations of their own; threads "
        "pickle and copy the same objects at the same time; interrupts strike while they are pickled, read or copied")
STATE_MEASURE = "distinct (kind of object, way, previous action, fault) and schedules"
REAL, STUB = session.REAL + ["pickle, copy"], session.STUB + ["delivery of messages: files read by later processes"]
MUST_HIT = {"quick": ["received", "cut", "preemption", "duplicate", "interrupt"],
            "thorough": ["received", "cut", "preemption", "duplicate", "interrupt", "forwarded"]}
OPS = ["1", "8", "4a", "4b", "2", "D3", "D2b", "D2a", "OphieD3", "OQQdu", "O1box"]
CHEAP = ["1", "8", "4a", "4b", "D2a", "OphieD3", "OQQdu"]
CLASSES = [1, 2, 3, 4, 8, 76, 18]
WAYS = ["copy", "deepcopy", "pickle", "pickle"]


def gen(rng, tier, i):
    quick = tier == "quick"
    ops = rng.sample(CHEAP if quick else OPS, 1 if quick else 2)
    n = [0]

    def thing():
        what = rng.choice(["completions", "completions", "effective", "fields", "exotics", "exotics", "lagrangian", "invariants",
                           "lazy", "indices", "topology", "scale", "strings"])
        t = {"what": what, "seed": rng.randrange(1 << 20)}
        if what in ("completions", "effective", "exotics", "lagrangian", "lazy"):
            t["op"] = rng.choice(ops)
        if what == "scale":
            t["op"] = rng.choice(["1", "8", "2", "3a", "D3"])
        if what == "invariants":
            t["class"] = rng.choice(CLASSES)
        return t

    def interrupt(size):
        return {**moment(rng, size, 60), "exc": rng.choice(["KeyboardInterrupt", "MemoryError", "RecursionError"])}

    def step(first):
        u = rng.random()
        if first or u < 0.35:
            n[0] += 1
            st = {"do": "send", "thing": thing(), "protocol": rng.choice([0, 2, 3, 4, 5]), "id": n[0],
                  "after": rng.choice(WAYS) if rng.random() < 0.25 else None}
        elif u < 0.65:
            n[0] += 1
            st = {"do": "receive", "k": rng.randrange(1 << 16), "cut": rng.random() if rng.random() < 0.25 else None,
                  "times": rng.choice([1, 1, 1, 2]), "forward": n[0] if rng.random() < 0.3 else None,
                  "protocol": rng.choice([0, 2, 4, 5])}
        elif u < 0.8:
            st = {"do": "apart", "thing": thing(), "way": rng.choice(["deepcopy", "pickle"]), "which": rng.choice(["copy", "original"])}
        elif u < 0.9:
            return {"do": "tasks", "thing": thing(), "ways": [rng.choice(WAYS + ["read"]) for _ in range(rng.randrange(2, 4))],
                    "seed": rng.randrange(1 << 30), "quantum": rng.choice([1, 3, 20, 200, -3, -20])}
        else:
            menu = ["complete", "invariants", "unsimplified", "scale", "table"]
            return {"do": "work", "step": session.draw(rng, menu, ops)}
        if rng.random() < 0.25:
            st["interrupt"] = interrupt(3.5)
        return st

    lives = []
    for k in range(rng.choice([1, 2, 2] if quick else [1, 2, 2, 3])):
        steps = [step(j == 0 and k == 0) for j in range(rng.randrange(2, 5 if quick else 7))]
        if k:
            for _ in range(rng.randrange(1, 4)):
                steps.insert(rng.randrange(len(steps) + 1), {
                    "do": "receive", "k": rng.randrange(1 << 16), "cut": None, "times": 1, "forward": None, "protocol": 4})
        lives.append({"hashseed": rng.randrange(5), "steps": steps})
    return finish_plan({"lives": lives})


def finish_plan(plan):
    refs = []

    def want(key):
        if key not in refs:
            refs.append(key)

    for L in plan["lives"]:
        for st in L["steps"]:
            t = st.get("thing", {})
            if st["do"] == "work":
                want(work.key(st["step"]))
            elif t.get("what") == "completions":
                want({"do": "gallery", "op": t["op"]})
            elif t.get("what") == "effective":
                want({"do": "complete", "op": t["op"]})
            elif t.get("what") == "scale":
                want({"do": "scale", "op": t["op"]})
            elif t.get("what") == "invariants":
                want({"do": "invariants", "class": t["class"]})
    plan["refs"] = refs
    return plan


def ref(key):
    return store.gallery(key["op"]) if key["do"] == "gallery" else work.run(key)


# -- what is sent ---------------------------------------------------------------------
def make(t):
    from neutrinomass.tensormethod import sm
    from neutrinomass.tensormethod.core import D, Index, delta, eps

    rng = random.Random("thing|%s" % t["seed"])
    what = t["what"]
    if what in ("completions", "exotics", "lagrangian", "lazy"):
        comps = [c for _, c in work.distinct(work.completions_of(t["op"]))]
        picked = rng.sample(comps, min(len(comps), 4))
        if what == "completions":
            return picked
        if what == "lazy":
            return [work.reload_completion(store.text_of(c, lazy=True)) for c in picked]
        if what == "lagrangian":
            return picked[0].lagrangian
        out = []
        for c in picked:
            for e in sorted(c.exotics, key=lambda e: e.label):
                out += [e, e.conj, e.lower_su2()[0]]
                for partner in ("majorana_partner", "dirac_partner"):
                    if hasattr(e, partner):
                        out.append(getattr(e, partner)())
            for term in c.terms:
                out += term.indexed_fields
        return out
    if what == "effective":
        return work.operators()[t["op"]]
    if what == "scale":
        from neutrinomass.database.closures import neutrino_mass_estimate

        op = work.operators()[t["op"]]
        return [op, sorted(neutrino_mass_estimate(op), key=str)]
    if what == "invariants":
        from neutrinomass.tensormethod.contract import invariants

        return list(invariants(*work.class_fields(t["class"])))
    if what == "strings":
        from neutrinomass.tensormethod.lagrangian import npoint_fieldstrings

        out = [f.walked() for f in npoint_fieldstrings(2)]
        return rng.sample(out, min(4, len(out)))
    if what == "topology":
        from neutrinomass.completions.topologies import get_topology_data

        return get_topology_data(**dict(zip(("n_scalars", "n_fermions"), rng.choice(work.TOPOLOGIES[:4]))))
    out = []
    if what == "indices":
        for _ in range(8):
            i = Index.fresh(rng.choice("udcig"))
            out += [i, -i, i.conj, Index("%s%s%d%s" % (rng.choice(["", "-"]), rng.choice("udci"), rng.randrange(9), rng.choice(["", "_", "^"])))]
        out += [eps("-i0 -i1"), eps("-c0 -c1 -c2"), delta("c0 -c1"), eps("-u0 -u1")]
        return out
    for _ in range(8):
        f = getattr(sm, rng.choice(["L", "Q", "H", "ub", "db", "eb"]))
        if rng.random() < 0.5:
            f = f.conj
        if rng.random() < 0.3:
            u, d = int(f.dynkin[0]), int(f.dynkin[1])
            f = D(f, "%d%d" % (u + 1 - 2 * (u == 1), d + 1))
        x = f.fresh_indices()
        out += [f, x, x.conj]
    return out


def desc(x):
    """Everything an object says of itself."""
    import networkx as nx
    from neutrinomass.completions.core import Completion, EffectiveOperator
    from neutrinomass.database.database import LazyCompletion
    from neutrinomass.tensormethod.core import Field, Index, IndexedField, Operator
    from neutrinomass.tensormethod.lagrangian import Lagrangian
    from sympy.tensor.tensor import Tensor

    name = type(x).__name__
    if isinstance(x, Index):
        return [name, x.label, str(x), x.index_type, bool(x.is_up), str(x.tensor_index_type)]
    if isinstance(x, Field):
        out = [name, x.label, x.dynkin, canon.charges(x), bool(x.is_conj), str(x.comm), x.nf, x.derivs, x.get_latex(), str(x.stripped)]
        if isinstance(x, IndexedField):
            out += [str(x), [desc(i) for i in x.indices], getattr(x, "is_unbarred", None)]
        return out
    if isinstance(x, Operator):
        return [name, [desc(t) for t in x.tensors], x.latex(), x.mass_dim]
    if isinstance(x, Tensor):
        return [name, str(x), [desc(i) for i in x.indices]]
    if isinstance(x, EffectiveOperator):
        return [name, x.name, desc(x.operator), sorted(x.topology_type.items()), x.mass_dimension]
    if isinstance(x, Completion):
        return [name, desc(x.operator), desc(x.graph), desc(x.partition), desc(x.terms), desc(x.exotics), x.topology]
    if isinstance(x, Lagrangian):
        return [name, desc(x.exotics), desc(x.interaction_terms), desc(x.terms)]
    if isinstance(x, LazyCompletion):
        return [name, x.head, x.tail]
    if isinstance(x, nx.Graph):
        return [name, sorted(map(str, x.nodes.data())), sorted([sorted([str(a), str(b)]), str(sorted(d.items()))] for a, b, d in x.edges.data())]
    if isinstance(x, (set, frozenset)):
        return [name, sorted((desc(y) for y in x), key=str)]
    if isinstance(x, (list, tuple)):
        return [name, [desc(y) for y in x]]
    if isinstance(x, dict):
        return [name, sorted([str(k), desc(v)] for k, v in x.items())]
    return [name, str(x)]


def uses(x, t):
    """What one gets from working with it (canonical)."""
    what = t["what"]
    if what == "completions":
        out = []
        for c in x:
            lazy = work.reload_completion(store.text_of(c, lazy=True))
            out.append([store.look(c)[:3], canon.completion(lazy.force())])
        return out
    if what == "lazy":
        return [store.look_lazy(l)[:3] for l in x]
    if what == "effective":
        from neutrinomass.completions.completions import completions

        return session.count(canon.completion(c) for c in completions(x))
    if what == "scale":
        from neutrinomass.database.closures import neutrino_mass_estimate, numerical_np_scale_estimate
        from neutrinomass.database.utils import loop_data

        again = sorted(neutrino_mass_estimate(x[0]), key=str)
        return [sorted([str(e), "%.9e" % numerical_np_scale_estimate(e), str(loop_data(e))] for e in es) for es in (x[1], again)]
    if what == "invariants":
        return [sorted(canon.operator(o) for o in x), sorted(o.latex() for o in x)]
    if what == "lagrangian":
        return [sorted(canon.operator(o) for o in x.terms), x.num_u1_symmetries(), sorted(len(f.indices) for f in x.fields)]
    if what in ("exotics", "fields"):
        out = []
        for f in x:
            one = [desc(f.conj), desc(f.conj.conj), f.is_fermion, f.is_scalar]
            if hasattr(f, "mass_term"):
                one.append(canon.operator(f.mass_term))
            if hasattr(f, "indices"):
                one += [canon.field_colour(f.field) if what == "fields" else "", [desc(i.conj) for i in f.indices]]
            out.append(one)
        return out
    if what == "indices":
        return [[desc(-i), desc(i.conj)] for i in x if hasattr(i, "conj")]
    return []


def equal(a, b):
    """Are they the same as far as Python is concerned (in one process)?"""
    from neutrinomass.tensormethod.core import Field, Index

    bad = []
    for x, y in zip(a if isinstance(a, list) else [a], b if isinstance(b, list) else [b]):
        if isinstance(x, (Field, Index)):
            if not (x == y and y == x):
                bad.append("%s is not equal to what became of it" % x)
            elif hash(x) != hash(y):
                bad.append("%s has another hash than what became of it" % x)
    return bad[:3]


# -- the lives -----------------------------------------------------------------------
def over(x, way, protocol=4):
    if way == "copy":
        return [copy.copy(y) for y in x] if isinstance(x, list) else copy.copy(x)
    if way == "deepcopy":
        return copy.deepcopy(x)
    return pickle.loads(pickle.dumps(x, protocol))


def spoil(x):
    """Takes a model apart."""
    import networkx as nx
    from neutrinomass.completions.core import Completion
    from neutrinomass.tensormethod.core import Field, Operator

    if isinstance(x, Completion):
        for part in (x.graph, x.partition, x.terms, x.exotics):
            spoil(part)
    elif isinstance(x, Field):
        x.charges["y"] = x.charges.get("y", 0) + 7
        x.latex = "spoilt"
    elif isinstance(x, Operator):
        for t in x.tensors:
            spoil(t)
    elif isinstance(x, nx.Graph):
        x.clear()
    elif hasattr(x, "field") and hasattr(x, "node"):
        spoil(x.field)
    elif isinstance(x, (list, tuple, set)):
        for y in list(x):
            spoil(y)
        if not isinstance(x, tuple):
            x.clear()
    elif isinstance(x, dict):
        for y in x.values():
            spoil(y)
        x.clear()
    elif hasattr(x, "interaction_terms"):
        spoil(x.interaction_terms)
    elif hasattr(x, "operator"):
        spoil(x.operator)


class Node:
    def __init__(self, ctx):
        self.ctx = ctx
        self.dir = os.path.join(ctx.scratch, "messages")
        os.makedirs(self.dir, exist_ok=True)
        self.seen = set()

    def path(self, n):
        return os.path.join(self.dir, "m%04d" % n)

    def post(self, n, data, meta):
        with open(self.path(n), "wb") as f:
            f.write(data)
        with open(self.path(n) + ".meta", "wb") as f:
            pickle.dump(meta, f)

    def fetch(self, k):
        names = sorted(f for f in os.listdir(self.dir) if not f.endswith(".meta"))
        if not names:
            return None
        p = os.path.join(self.dir, names[k % len(names)])
        with open(p, "rb") as f, open(p + ".meta", "rb") as g:
            return names[k % len(names)], f.read(), pickle.load(g)


def life(plan, i, ctx):
    node = Node(ctx)
    recs = []
    before = work.shared()
    last = ""
    with Ticker() as ticker:
        for n, st in enumerate(plan["lives"][i]["steps"]):
            rec = session.call(lambda: STEPS[st["do"]](st, node, ticker, ctx))
            recs.append(rec)
            ctx.log.append([n, rec["status"], work.h(rec)])
            ctx.states.add("%s>%s %s %s %s" % (last, st["do"], st.get("thing", {}).get("what"), st.get("way", st.get("after")), rec.get("value", {}).get("fired")))
            last = st["do"]
        ctx.ticks += ticker.n
    now = work.shared()
    return {"steps": recs, "changed": sorted(k for k in before if now.get(k) != before[k])[:4]}


def hit(fn, st, ticker, ctx, rec):
    """fn, perhaps struck once by an interrupt, and then again."""
    intr = st.get("interrupt")
    if not intr:
        return fn()
    ticker.arm(intr, FAULTS[intr["exc"]])
    try:
        out = fn()
    except (SimCrash, StepBudget):
        raise
    except BaseException:
        if not ticker.disarm():
            raise
        ctx.faults["interrupt"] += 1
        rec["fired"] = intr["exc"]
        return fn()
    if ticker.disarm():
        # swallowed: what came out has to be right
        ctx.faults["interrupt"] += 1
        rec["fired"] = intr["exc"] + " swallowed"
    return out


def send(st, node, ticker, ctx):
    x, t, rec = make(st["thing"]), st["thing"], {"thing": st["thing"]}
    rec["desc"], rec["id"] = work.h(desc(x)), st["id"]
    if st["after"]:
        y = hit(lambda: over(x, st["after"]), st, ticker, ctx, rec)
        rec["unequal"] = equal(x, y)
        rec["copied"] = work.h(desc(y))
        x = y
    data = hit(lambda: pickle.dumps(x, st["protocol"]), st, ticker, ctx, rec)
    rec["after"] = work.h(desc(x))
    rec["uses"] = session.call(lambda: uses(x, t))
    node.post(st["id"], data, {"thing": t, "desc": rec["desc"], "uses": work.h(rec["uses"])})
    ctx.faults["sent"] += 1
    return rec


def receive(st, node, ticker, ctx):
    m = node.fetch(st["k"])
    if m is None:
        return {}
    name, data, meta = m
    t, rec = meta["thing"], {"thing": meta["thing"], "sent": meta["desc"], "sent_uses": meta["uses"], "got": []}
    if name in node.seen:
        ctx.faults["duplicate"] += 1
    node.seen.add(name)
    if st["cut"] is not None:
        ctx.faults["cut"] += 1
        part = data[:int(len(data) * st["cut"])]
        try:
            rec["got"].append([work.h(desc(pickle.loads(part))), None, []])
            rec["cut"] = "read"
        except Exception as e:
            rec["cut"] = "raised"
        return rec
    for _ in range(st["times"]):
        ctx.probes["received"] += 1
        x = hit(lambda: pickle.loads(data), st, ticker, ctx, rec)
        d = work.h(desc(x))
        clash = fresh_clash(x)
        u = session.call(lambda: uses(x, t))
        rec["got"].append([d, work.h(u), clash])
        rec["uses"] = u
        if work.h(desc(x)) != d:
            rec["got"].append(["changed by use", None, []])
    if st["times"] > 1:
        ctx.faults["duplicate"] += 1
    if st["forward"]:
        node.post(st["forward"], pickle.dumps(x, st["protocol"]), meta)
        ctx.probes["forwarded"] += 1
    return rec


def fresh_clash(x):
    """Fresh names that what arrived already uses."""
    from neutrinomass.completions.core import Completion
    from neutrinomass.tensormethod.core import Index

    held = set()

    def walk(y):
        if isinstance(y, Completion):
            walk(y.terms)
            walk(y.operator.operator)
            walk(list(y.exotics))
        elif isinstance(y, (list, tuple, set)):
            for z in y:
                walk(z)
        elif hasattr(y, "operator") and hasattr(y.operator, "tensors"):
            walk(y.operator)
        elif isinstance(y, Index) or hasattr(y, "tensors") or hasattr(y, "index_labels"):
            held.update(names_of(y))

    walk(x)
    return sorted(n for n in (base(Index.fresh(t)) for t in "udcig" for _ in range(3)) if n in held)[:3]


def apart(st, node, ticker, ctx):
    x, t, rec = make(st["thing"]), st["thing"], {"thing": st["thing"]}
    rec["desc"] = work.h(desc(x))
    y = hit(lambda: over(x, st["way"]), st, ticker, ctx, rec)
    rec["copied"], rec["unequal"] = work.h(desc(y)), equal(x, y)
    if t["what"] in ("completions", "exotics", "lagrangian", "invariants", "topology") and st["which"] == "copy":
        # (operators of the tables, rules and Standard Model fields stay in one piece)
        spoil(y)
        ctx.faults["copy_spoilt"] += 1
        rec["left"] = work.h(desc(x))
    elif t["what"] in ("completions", "topology", "invariants"):
        kept = rec["copied"]
        for c in x if t["what"] == "completions" else []:
            c.graph.clear()
            c.terms.clear()
            c.exotics.clear()
        if t["what"] == "topology":
            spoil(x)
        ctx.faults["original_spoilt"] += 1
        rec["left"] = work.h(desc(y))
    else:
        rec["left"] = work.h(desc(x))
    return rec


def tasks(st, node, ticker, ctx):
    x = make(st["thing"])
    data = pickle.dumps(x)
    rec = {"thing": st["thing"], "desc": work.h(desc(x))}
    jobs = {"read": lambda: pickle.loads(data)}
    pool = Tasks(ticker, random.Random("tasks|%s" % st["seed"]), st["quantum"])
    res = pool.run([lambda w=w: jobs[w]() if w in jobs else over(x, w) for w in st["ways"]])
    ctx.faults["preemption"] += pool.switches
    ctx.states.add("interleaving " + work.h(pool.trace))
    rec["parts"] = [work.h(desc(r[1])) if r[0] == "ok" else "raised %s" % str(r[1])[:200] for r in res]
    rec["left"] = work.h(desc(x))
    return rec


def own_work(st, node, ticker, ctx):
    return {"value": work.run(st["step"])}


STEPS = {"send": send, "receive": receive, "apart": apart, "tasks": tasks, "work": own_work}


# -- judgement -----------------------------------------------------------------------
def judge(plan, values, refs):
    bad = []

    def add(cls, detail):
        bad.append({"class": cls, "detail": "life %d step %d (%s of %s): %s" % (i, n, st["do"], rec.get("thing"), detail)})

    def against_fresh(t, u):
        """What one gets from it, against a fresh process."""
        if u["status"] != "ok":
            add("unusable", u.get("error"))
            return
        u = u["value"]
        get = lambda **k: refs[session.skey(k)]
        if t["what"] == "completions":
            want = get(do="gallery", op=t["op"])
            for (d, pic, head), again in u:
                if d not in want or want[d] != [pic, head]:
                    add("not_the_model", "completion %s is not one of those a fresh process finds" % d)
                elif again != d:
                    add("not_the_model", "completion %s is another one after export" % d)
        elif t["what"] == "effective" and u != get(do="complete", op=t["op"]):
            add("not_the_operator", "its completions: %s" % session.diff(u, get(do="complete", op=t["op"])))
        elif t["what"] == "scale" and any(x != get(do="scale", op=t["op"]) for x in u):
            add("not_the_operator", "its scales: %s" % str(u)[:200])
        elif t["what"] == "invariants" and u[0] != get(do="invariants", **{"class": t["class"]}):
            add("not_the_operator", "operators %s" % u[0])

    for i, v in enumerate(values):
        n, st, rec = 0, {"do": "start"}, {}
        for n, r in enumerate(v["result"]["steps"]):
            st = plan["lives"][i]["steps"][n]
            if r["status"] != "ok":
                rec = {}
                add("error", r.get("error", r["status"]))
                break
            rec = r["value"]
            if st["do"] == "work":
                want = refs[session.skey(work.key(st["step"]))]
                if rec["value"] != want:
                    add("result_depends_on_session", "%s: %s" % (st["step"], session.diff(rec["value"], want)))
                continue
            for k in ("copied", "after", "left"):
                if k in rec and rec[k] != rec["desc"]:
                    add("changed", {"copied": "the copy differs", "after": "changed by pickling", "left": "changed with its copy"}[k])
            for p in rec.get("parts", []):
                if p != rec["desc"]:
                    add("changed", "in a thread: %s" % p)
            for e in rec.get("unequal") or []:
                add("unequal", e)
            if st["do"] == "send":
                against_fresh(rec["thing"], rec["uses"])
            for d, u, clash in rec.get("got", []):
                if d != rec["sent"]:
                    add("arrived_changed", d if " " in d else "what arrives differs from what was sent")
                elif u is not None and u != rec["sent_uses"]:
                    add("arrived_changed", "what arrives behaves differently: %s" % str(rec["uses"])[:200])
                for c in clash:
                    add("fresh_name_in_use", "%s, used by what arrived" % c)
            if rec.get("cut") is None and rec.get("got"):
                against_fresh(rec["thing"], rec["uses"])
            if bad:
                break
        if v["result"]["changed"] and not bad:
            add("shared_definition_changed", str(v["result"]["changed"]))
        if bad:
            break
    return bad
