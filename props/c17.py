"""What is collected from completions does not depend on how or in what order they arrive."""
import copy
import random
import sys

from sim import canon, session, store, work
from sim.canon import h
from sim.seams import FAULTS, Tasks, Ticker, moment

LEVEL = "exploration"
TIERS = {
    "quick": {"runs": 300, "wall": 34, "min_runs": 30, "shrink_wall": 40, "twice_every": 12},
    "thorough": {"runs": 20000, "wall": 900, "min_runs": 500, "shrink_wall": 120, "twice_every": 12},
}
ASSUMPTIONS = [
    "equivalence by comparison of terms is used as it is (for exotics with equal quantum numbers it is known to miss some)",
]
RULE = ("completions of one to three operators arrive shuffled, repeated, in part, as lists or through generators that "
        "take turns, made here or read back from records, from generators that fail half way; they are grouped, cleaned, "
        "sieved and stripped of equivalent ones, interrupted, side by side in threads, and again; compared with a "
        "reference that reads the fields itself and with a fresh process")
STATE_MEASURE = "distinct (function, way of arrival, fault, numbers of arrivals and groups) tuples"
REAL, STUB = session.REAL, session.STUB
MUST_HIT = {"quick": ["shuffled", "source_failed", "KeyboardInterrupt", "preemption", "through_records"],
            "thorough": ["shuffled", "source_failed", "KeyboardInterrupt", "preemption", "through_records"]}
OPS = ["1", "8", "4a", "OphieD1", "Ophie2", "OHHHH", "OphidD", "OHHbox1", "2"]
SIEVES = ["1", "Ophie2", "OphieD1", "OHHHH"]
FUNCS = ["collect", "collect", "collect_key", "models", "clean", "clean", "filter", "filter", "slow", "numbers"]


def gen(rng, tier, i):
    steps = []
    menu = OPS + (["3b", "D3", "OQQdu"] if tier != "quick" else [])
    ops = rng.sample(menu, rng.randrange(1, 3)) + ["1"] * (rng.random() < 0.4)
    ops = list(dict.fromkeys(ops))
    for _ in range(rng.randrange(2, 7)):
        st = {"fn": rng.choice(FUNCS), "ops": ops, "seed": rng.randrange(1 << 30), "way": rng.choice(["list", "generator", "tuple"]),
              "share": rng.choice([1.0, 1.0, 1.0, rng.random()]), "repeat": rng.choice([0, 0, 2]), "records": rng.choice([0, 0, 0.5]), "turned": rng.choice([0, 0, 0.3])}
        if st["fn"] in ("filter", "slow"):
            st["ops"], st["sieve"] = ops[:1], rng.choice(SIEVES)
        if st["fn"] == "slow":
            st["turned"] = 0
        u = rng.random()
        if u < 0.15:
            st["source_fails"] = rng.random()
        elif u < 0.4:
            st["interrupt"] = {**moment(rng, 3.3, 40), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}
        elif u < 0.55:
            st["also"] = rng.sample(["collect", "models", "clean", "numbers"], rng.randrange(1, 3))
            st["quantum"] = rng.choice([3, 15, 80, -5])
        steps.append(st)
    return finish_plan({"lives": [{"hashseed": rng.randrange(3), "steps": steps}]})


def finish_plan(plan):
    ops = sorted({o for st in plan["lives"][0]["steps"] for o in st["ops"] + ([st["sieve"]] if "sieve" in st else [])})
    plan["refs"] = [{"do": "content", "op": o} for o in ops]
    return plan


# -- the reference: reads fields on its own ---------------------------------------------
def content(c):
    """Quantum numbers of the exotics, hypercharge not negative."""
    out = set()
    for e in c.exotics:
        d, ch = e.dynkin, canon.charges(e)
        cu, cd, y = d[2], d[3], e.charges["y"]
        if y < 0:
            cu, cd = cd, cu
            ch = [(k, canon.conj_field("S,00,0,0,%s" % v).split(",")[-1]) for k, v in ch]
        out.add("%s,%s%s,%s,%s" % ("S" if e.is_scalar else "F", cu, cd, d[4], sorted((k, str(v)) for k, v in ch)))
    return sorted(out)


def plain(key):
    """The key of a group in the same form."""
    out = set()
    for l, cu, cd, i, *ch in key:
        out.add("%s,%s%s,%s,%s" % (l, cu, cd, i, sorted((k, str(v)) for k, v in ch)))
    return sorted(out)


def lagrangian(c):
    return [str(c.topology), sorted(list(canon.coarse_term(t)) for t in c.terms)]


def ref(k):
    return session.call(lambda: sorted([canon.completion(c), content(c), h(lagrangian(c))] for c in work.completions_of(k["op"])))


class Turned:
    """The hermitian conjugate of a term, as far as its fields go."""

    def __init__(self, term):
        self.fields = [f.conj for f in term.fields]
        self.indexed_fields = [f.conj for f in term.indexed_fields]


def digest(c):
    if any(isinstance(t, Turned) for t in c.terms):
        return h(lagrangian(c))
    return canon.completion(c)


class SourceFails(Exception):
    pass


def arrivals(st, ctx, made):
    """The completions in the order in which they arrive."""
    rng = random.Random("arrivals|%s" % st["seed"])
    out = []
    for o in st["ops"]:
        if o not in made:
            made[o] = list(work.completions_of(o))
        out += made[o]
    rng.shuffle(out)
    ctx.faults["shuffled"] += 1
    if st["share"] < 1:
        out = out[: max(1, int(st["share"] * len(out)))]
    for _ in range(st["repeat"]):
        out.insert(rng.randrange(len(out) + 1), rng.choice(out))
    if st["records"]:
        for k in rng.sample(range(len(out)), min(6, int(st["records"] * len(out)))):
            out[k] = work.reload_completion(store.text_of(out[k])).force()
            ctx.probes["through_records"] += 1
    if st["turned"]:
        # the same model written with the hermitian conjugates of some terms
        for k in rng.sample(range(len(out)), max(1, int(st["turned"] * len(out)))):
            c = copy.copy(out[k])
            c.terms = [Turned(t) if rng.random() < 0.5 else t for t in c.terms]
            out.append(c)
            ctx.probes["turned"] += 1
    return out


def source(st, comps):
    """Hands them over; a generator may fail half way."""
    if "source_fails" in st:
        stop = int(st["source_fails"] * len(comps))

        def failing():
            for k, c in enumerate(comps):
                if k == stop:
                    raise SourceFails()
                yield c

        return failing()
    return {"list": list, "tuple": tuple, "generator": iter}[st["way"]](comps)


def perform(fn, st, comps, sieve, feed=None):
    """Calls the function and reads the result: positions of the arrivals."""
    lib = sys.modules["neutrinomass.completions.completions"]

    feed = source(st, comps) if feed is None else feed
    where = {}
    for k, c in enumerate(comps):
        where.setdefault(id(c), []).append(k)

    def pos(cs):
        used, out = {}, []
        for c in cs:
            n = used.get(id(c), 0)
            used[id(c)] = n + 1
            ks = where.get(id(c), [-1])
            out.append(ks[min(n, len(ks) - 1)])
        return out

    if fn == "collect":
        got = lib.collect_completions(feed)
        return [[plain(k), pos(v)] for k, v in got.items()]
    if fn == "collect_key":
        got = lib.collect_completions(feed, key=lambda c: {e: (e.is_scalar,) for e in c.exotics})
        return [[sorted(str(x) for (x,) in k), pos(v)] for k, v in got.items()]
    if fn == "models":
        got = lib.collect_models(feed)
        return [[content(m.completions[0]), pos(m.completions), repr(m)] for m in got]
    if fn == "clean":
        return pos(lib.clean_completions(feed))
    if fn == "filter":
        show = lambda groups: [[plain(k), [id(c) for c in v]] for k, v in groups.items()]
        groups, small = lib.collect_completions(feed), lib.collect_completions(sieve)
        before = show(groups), show(small)
        try:
            got = lib.filter_completions(groups, small)
        finally:
            if (show(groups), show(small)) != before:
                st["groups_altered"] = True
        return [[plain(k), pos(v)] for k, v in got.items()]
    if fn == "slow":
        feed = list(feed)[:8]
        lib.slow_remove_equivalent_completions(feed)
        return pos(feed)
    table = lib.cons_term_prime_dict(list(feed))
    return [str(lib.completion_characteristic_number(c, table)) for c in comps]


def expected(fn, comps, sieve):
    if fn in ("collect", "models", "filter"):
        groups = {}
        for k, c in enumerate(comps):
            groups.setdefault(tuple(content(c)), []).append(k)
        if fn == "filter":
            small = [set(content(c)) for c in sieve]
            groups = {g: v for g, v in groups.items() if not any(s <= set(g) for s in small)}
        return [[list(g), v] for g, v in groups.items()]
    if fn == "collect_key":
        groups = {}
        for k, c in enumerate(comps):
            groups.setdefault(tuple(sorted({str(e.is_scalar) for e in c.exotics})), []).append(k)
        return [[list(g), v] for g, v in groups.items()]
    return [lagrangian(c) for c in comps]


def verdict(fn, got, want, comps):
    """None, or what is wrong (judged in the life: the objects are there)."""
    if fn in ("collect", "collect_key", "filter"):
        if sorted(got) != sorted(want):
            return "groups %s, expected %s" % (brief(got), brief(want))
    elif fn == "models":
        if sorted([g[0], g[1]] for g in got) != sorted(want):
            return "models %s, expected %s" % (brief(got), brief(want))
        if any(g[2].count("(") < len(g[0]) for g in got):
            return "a model does not show all its fields"
    elif fn == "clean":
        if -1 in got:
            return "a completion that was not among the arrivals"
        kinds = {h(w) for w in want}
        have = [h(want[k]) for k in got]
        if len(have) != len(set(have)) or set(have) != kinds:
            return "%d completions (%d kinds), there are %d kinds" % (len(have), len(set(have)), len(kinds))
        tops = [str(comps[k].topology) for k in got]
        if tops != sorted(tops):
            return "not in the order of topologies"
    elif fn == "slow":
        from neutrinomass.completions.completions import are_equivalent_completions as eq

        kept = []
        for k, c in enumerate(comps[:8]):
            if not any(eq(comps[j], c) for j in kept):
                kept.append(k)
        if [h(want[k]) for k in got] != [h(want[k]) for k in kept]:
            return "keeps %s, expected %s" % (got, kept)
    else:
        seen = {}
        for n, w in zip(got, want):
            key = h(w[1])
            if seen.setdefault(n, key) != key:
                return "one number for different terms"
        if len(seen) != len({h(w[1]) for w in want}):
            return "two numbers for the same terms"
    return None


def brief(groups):
    return sorted((len(g[0]), len(g[1])) for g in groups)


def attempt(fn):
    try:
        return {"ok": fn()}
    except (KeyboardInterrupt, Exception) as e:
        return {"raised": type(e).__name__}


def life(plan, i, ctx):
    out, made = [], {}
    with Ticker() as ticker:
        for n, st in enumerate(plan["lives"][i]["steps"]):
            comps = arrivals(st, ctx, made)
            sieve = []
            if "sieve" in st:
                if st["sieve"] not in made:
                    made[st["sieve"]] = list(work.completions_of(st["sieve"]))
                sieve = made[st["sieve"]]
            digests = [digest(c) for c in comps]
            fns = [st["fn"]] + st.get("also", [])
            intr = st.get("interrupt")
            if st.get("also"):
                pool = Tasks(ticker, random.Random(st["seed"]), st["quantum"])
                got = [{"ok": r} if k == "ok" else {"raised": r} for k, r in
                       pool.run([lambda f=f: perform(f, st, comps, sieve, comps) for f in fns])]
                ctx.faults["preemption"] += pool.switches
            else:
                if intr:
                    ticker.arm(intr, FAULTS[intr["exc"]])
                got = [attempt(lambda: perform(st["fn"], st, comps, sieve))]
                if ticker.disarm():
                    ctx.faults[intr["exc"]] += 1
                    intr = True
            if got[0].get("raised", "").startswith("SourceFails"):
                ctx.faults["source_failed"] += 1
            same = [digest(c) for c in comps] == digests
            again = attempt(lambda: perform(st["fn"], st, comps, sieve, comps))
            same = same and not st.pop("groups_altered", False)
            rec = {"excused": intr is True, "source": "source_fails" in st, "unaltered": same, "n": len(comps), "parts": []}
            for f, g in zip(fns + [st["fn"]], got + [again]):
                p = {"fn": f}
                if "raised" in g:
                    p["raised"] = g["raised"]
                else:
                    p["wrong"] = verdict(f, g["ok"], expected(f, comps, sieve), comps)
                    p["size"] = len(g["ok"])
                rec["parts"].append(p)
            # what arrived, to be compared with a fresh process
            if st["share"] == 1 and not st["repeat"] and not st["turned"]:
                rec["kinds"] = sorted([d, content(c), h(lagrangian(c))] for d, c in zip(digests, comps))
            ctx.states.add("%s %s %s %s %s" % (fns, "fails" if rec["source"] else st["way"], intr, len(comps), rec["parts"][-1].get("size")))
            ctx.log.append(work.h([rec, got[0]]))
            out.append(rec)
        ctx.ticks += ticker.n
    return out


def judge(plan, values, refs):
    bad = []
    for n, rec in enumerate(values[0]["result"]):
        st = plan["lives"][0]["steps"][n]

        def add(cls, detail):
            bad.append({"class": cls, "detail": "step %d (%s of %d completions of %s): %s" % (n, st["fn"], rec["n"], st["ops"], detail)})

        for k, p in enumerate(rec["parts"]):
            last = k == len(rec["parts"]) - 1
            if "raised" in p:
                if last or not (rec["excused"] or rec["source"]):
                    add("error", "%s raised %s%s" % (p["fn"], p["raised"], " when done again" if last else ""))
            elif rec["source"] and not last:
                if p["fn"] != "numbers":
                    add("failure_hidden", "%s gives a result although its source failed" % p["fn"])
            elif p["wrong"]:
                add("wrong_%s" % p["fn"], p["wrong"])
        if not rec["unaltered"]:
            add("arrivals_altered", "the completions are not what they were")
        if "kinds" in rec:
            want = []
            for o in st["ops"]:
                r = refs[session.skey({"do": "content", "op": o})]
                if r["status"] != "ok":
                    add("error", "completions of %s in a fresh process: %s" % (o, r.get("error")))
                    return bad
                want += r["value"]
            if rec["kinds"] != sorted(want):
                add("differs_from_fresh", "the completions are not those of a fresh process")
        if bad:
            return bad
    return bad
