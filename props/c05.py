"""A fresh index name is not in use anywhere in the process."""
import json
import os
import random
import re

from sim import canon, session, work
from sim.seams import FAULTS, Tasks, Ticker

LEVEL = "exploration"
TIERS = {
    "quick": {"runs": 150, "wall": 30, "min_runs": 40, "shrink_wall": 40, "twice_every": 24},
    "thorough": {"runs": 20000, "wall": 900, "min_runs": 500, "shrink_wall": 120, "twice_every": 24},
}
ASSUMPTIONS = [
    "a name is in use if a field, index or operator still held by the caller carries it (or its conjugate)",
]
RULE = ("seeded history in 1-3 process lives: fresh fields and indices, names written by hand, operators enumerated, "
        "saved and read back in the next life, several threads at once, interrupts at drawn lines")
STATE_MEASURE = "distinct schedules and (previous, next) operation pairs"
REAL, STUB = session.REAL, session.STUB + ["storage between lives is a JSON file without faults"]
MUST_HIT = {"quick": ["preemption", "restart", "KeyboardInterrupt"]}

CLASSES = [1, 2, 3, 4, 8, 9, 12, 5, 61]
FIELDS = ["L", "Q", "H", "ub", "db", "eb"]
# representations with several indices of a kind
REPS = ["00002", "00004", "20000", "11001", "00020", "00113", "22000", "00201"]
OPS = ["1", "2", "3a", "4a", "8", "14a", "D2a", "D3", "D18a"]


def gen(rng, tier, i):
    def step(depth=0):
        u = rng.random()
        if u < 0.22:
            return {"do": "field", "f": rng.choice(FIELDS), "conj": rng.random() < 0.4, "n": rng.randrange(1, 4)}
        if u < 0.27:
            return {"do": "rep", "dynkin": rng.choice(REPS), "conj": rng.random() < 0.4, "n": rng.randrange(1, 4)}
        if u < 0.36:
            return {"do": "index", "t": rng.choice("udcig"), "n": rng.randrange(1, 5)}
        if u < 0.43:
            # names like those that come next, as in a form saved by another process
            return {"do": "next", "t": rng.choice("udcig"), "gaps": sorted(rng.sample(range(1, 9), rng.randrange(1, 5))),
                    "down": rng.random() < 0.3}
        if u < 0.5:
            t = rng.choice("udcig")
            return {"do": "hand", "names": [
                "%s%d%s" % (t, rng.choice([0, 1, 2, rng.randrange(400), rng.randrange(60)]), rng.choice(["_", "_", ""]))
                for _ in range(rng.randrange(1, 4))], "upper": rng.random() < 0.2, "down": rng.random() < 0.3}
        if u < 0.53:
            return {"do": "many", "t": rng.choice("udcig"), "n": rng.choice([300, 3000, 12000])}
        if u < 0.66:
            return {"do": "enumerate", "class": rng.choice(CLASSES)}
        if u < 0.74:
            return {"do": "table", "op": rng.choice(OPS)}
        if u < 0.8:
            return {"do": "search", "op": rng.choice(["1", "D2a", "4b"]), "n": rng.randrange(1, 4)}
        if u < 0.9 and depth == 0:
            return {"do": "tasks", "parts": [step(1) for _ in range(rng.randrange(2, 4))],
                    "seed": rng.randrange(1 << 30), "quantum": rng.choice([1, 1, 2, 5, 40, 400, -3, -20])}
        return {"do": "read", "k": rng.randrange(3)}

    lives = []
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        steps = []
        for _ in range(rng.randrange(2, 8)):
            st = step()
            if st["do"] in ("enumerate", "field", "rep", "search") and rng.random() < 0.25:
                st["fault"] = {"exc": "KeyboardInterrupt", "after": int(10 ** (rng.random() * 4.2)) + 1}
            steps.append(st)
            if rng.random() < 0.3:
                steps.append({"do": "save", "k": rng.randrange(3)})
        lives.append({"hashseed": rng.randrange(3), "steps": steps})
    return {"lives": lives, "refs": []}


def ref(key):
    return None


def base(i):
    """Name of an index, without its position; conjugates share a name."""
    name = str(i).lstrip("-").lower()
    if name[0] in "ud":
        name = "l" + name[1:]
    return name


def names_of(x):
    from neutrinomass.tensormethod.core import Index

    if isinstance(x, Index):
        return {base(x)}
    if hasattr(x, "tensors"):
        return {base(i) for t in x.tensors for i in t.indices}
    return {base(i) for i in x.indices}


class World:
    """What the caller holds: groups of things made by one call."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.held = []
        self.used = {}
        self.bad = []
        self.saved = {}
        self.seen = 0

    def hold(self, things, source, fresh):
        """``fresh``: everything in the group has names made up by the library."""
        names = set()
        for t in things:
            names |= names_of(t)
        if fresh:
            clash = sorted(n for n in names if n in self.used)
            if clash:
                self.bad.append("%s hands out %s, in use by %s" % (source, clash[0], self.used[clash[0]]))
        for n in names:
            self.used.setdefault(n, source)
        self.held.extend(things)
        self.seen += len(names)


def perform(step, world):
    from neutrinomass.tensormethod import sm
    from neutrinomass.tensormethod.core import Field, Index, Operator
    from neutrinomass.tensormethod.contract import unsimplified_invariants

    do = step["do"]
    if do == "field":
        f = getattr(sm, step["f"])
        f = f.conj if step["conj"] else f
        out = []
        for _ in range(step["n"]):
            x = f.fresh_indices()
            out.append(([x], "fresh_indices of " + step["f"], True))
        return out
    if do == "rep":
        f = Field("R", step["dynkin"], charges={"y": 0, "3b": 0, "l": 0})
        f = f.conj if step["conj"] else f
        return [([f.fresh_indices()], "fresh_indices of a " + step["dynkin"], True) for _ in range(step["n"])]
    if do == "next":
        name = str(Index.fresh(step["t"]))
        number = re.search("[0-9]+", name).group()
        names = [name.replace(number, str(int(number) + gap), 1) for gap in step["gaps"]]
        names = [("-" if step.get("down") else "") + n for n in names]
        taken = [n for n in names if base(n) not in world.used]
        return [([Index(name)], "fresh index " + step["t"], True), ([Index(n) for n in taken], "name written by hand", False)]
    if do == "index":
        return [([Index.fresh(step["t"])], "fresh index " + step["t"], True) for _ in range(step["n"])]
    if do == "hand":
        names = [n.upper() if step["upper"] else n for n in step["names"]]
        names = [("-" if step.get("down") else "") + n for n in names]
        return [([Index(n) for n in names], "name written by hand", False)]
    if do == "many":
        return [([Index("%sx%d" % (step["t"], n)) for n in range(step["n"])], "name written by hand", False)]
    if do == "enumerate":
        ops = unsimplified_invariants(*work.class_fields(step["class"]), ignore=["u", "d", "c"])
        return [(ops[:6], "operators of class %s" % step["class"], True)]
    if do == "table":
        return [([work.operators()[step["op"]].operator], "table operator", False)]
    if do == "search":
        out = []
        it = iter(work.completions_of(step["op"]))
        for _ in range(step["n"]):
            c = next(it, None)
            if c is None:
                break
            out += c.terms
        return [(out, "completion", False)]
    if do == "read":
        path = os.path.join(world.ctx.scratch, "ops%d.json" % step["k"])
        if not os.path.exists(path):
            return []
        with open(path) as f:
            forms = json.load(f)
        ops = []
        for form in forms:
            for fld in form["fields"]:
                fld["charges"] = dict(fld["charges"])
            ops.append(Operator.from_pickle_form(form))
        world.ctx.probes["read_back"] += 1
        return [(ops, "operator read back", False)]
    raise KeyError(do)


def plain(form):
    out = {"epsilons": form["epsilons"], "fields": []}
    for f in form["fields"]:
        g = dict(f)
        g["charges"] = [[str(k), str(v)] for k, v in f["charges"].items()]
        g["indices"] = f["indices"] if isinstance(f["indices"], str) else [str(i) for i in f["indices"]]
        g["comm"] = str(f["comm"]) if f["comm"] else 0
        g["stripped"] = None
        out["fields"].append(g)
    return out


def life(plan, i, ctx):
    world = World(ctx)
    if i:
        ctx.faults["restart"] += 1
    # names the package itself uses
    for k, op in work.operators().items():
        world.hold([op.operator], "operator %s of the tables" % k, False)
    errors = []
    with Ticker() as ticker:
        for n, step in enumerate(plan["lives"][i]["steps"]):
            do = step["do"]
            if do == "save":
                from neutrinomass.tensormethod.core import Operator

                ops = [x for x in world.held if isinstance(x, Operator)][-4:]
                ops = [x for x in ops if not any(f.derivs for f in x.fields)]
                forms = [plain(x.pickle_form()) for x in ops]
                with open(os.path.join(ctx.scratch, "ops%d.json" % step["k"]), "w") as f:
                    json.dump(forms, f)
                continue
            groups = []
            if do == "tasks":
                rng = random.Random("tasks|%s" % step["seed"])
                pool = Tasks(ticker, rng, step["quantum"])
                res = pool.run([lambda p=p: perform(p, world) for p in step["parts"]])
                ctx.faults["preemption"] += pool.switches
                ctx.states.add("interleaving " + work.h(pool.trace))
                for kind, r in res:
                    if kind != "ok":
                        errors.append("step %d: %s" % (n, r))
                    else:
                        groups.append(r)
            else:
                fault = step.get("fault")
                try:
                    if fault:
                        ticker.arm(fault, FAULTS[fault["exc"]])
                    groups.append(perform(step, world))
                except KeyboardInterrupt:
                    pass
                except Exception as e:
                    errors.append("step %d: %s: %s" % (n, type(e).__name__, e))
                if ticker.disarm():
                    ctx.faults[fault["exc"]] += 1
            # groups of one step ran side by side: library-made names must differ
            order = sorted((g for gs in groups for g in gs), key=lambda g: g[2])
            hand = [g for g in order if not g[2]]
            lib = [g for g in order if g[2]]
            if do == "tasks":
                # a name written by hand may be taken while a thread draws it
                for g in lib:
                    world.hold(*g)
                for g in hand:
                    world.hold(*g)
            else:
                for g in order:
                    world.hold(*g)
            ctx.log.append([n, do, len(world.held), world.seen])
            ctx.states.add("%s>%s" % (ctx.last, do))
            ctx.last = do
        ctx.ticks += ticker.n
    return {"bad": world.bad, "errors": errors}


def judge(plan, values, refs):
    out = []
    for i, v in enumerate(values):
        for b in v["result"]["bad"][:3]:
            out.append({"class": "fresh_name_in_use", "detail": "life %d: %s" % (i, b)})
        for b in v["result"]["errors"][:3]:
            out.append({"class": "error", "detail": "life %d %s" % (i, b)})
    return out
