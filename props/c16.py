"""From the models found to the table of models: every row is the model it was made from."""
import os
import pickle
import random

from props import c11
from sim import canon, session, store, work
from sim import models as M
from sim.seams import FAULTS, Disk, SimCrash, Tasks, Ticker, moment

LEVEL = "exploration"
TIERS = {
    "quick": {"runs": 300, "wall": 40, "min_runs": 10, "shrink_wall": 50, "twice_every": 12},
    "thorough": {"runs": 10000, "wall": 1500, "min_runs": 200, "shrink_wall": 120, "twice_every": 12},
}
ASSUMPTIONS = [
    "one pickler at a time; the files of records are complete (what a crash leaves of them is C07)",
    "completions of operators that take less than a few seconds",
]
RULE = ("models are found and exported in one process, the pickler runs over them in others (crashes, disk errors, "
        "interrupts, then a complete run), and the tables are read in further ones, through selections, copies and "
        "pickled frames, by several threads, with interrupts and damage to earlier results")
STATE_MEASURE = "distinct (history of the frame, kind of access, fault) triples and pickler outcomes"
REAL, STUB = session.REAL + ["neutrinomass/database/pickler"], session.STUB + ["disk: in-process fault layer"]
MUST_HIT = {"quick": ["complete_run", "preemption", "row", "related"], "thorough": ["complete_run", "preemption", "crash", "row", "related"]}
OPS = ["1", "8", "4a", "4b", "2", "D3", "D2b", "D2a"]
WAYS = ["copy", "pickle", "sort", "op", "field", "tail", "query", "loc", "assign", "dropna"]


def gen(rng, tier, i):
    ops = rng.sample(OPS, rng.choice([1, 2, 2, 3] if tier == "quick" else [1, 2, 3, 4]))
    names = rng.sample(["a", "b", "1", "10", "2", "Z"], rng.randrange(1, 4))
    lives = [{"hashseed": rng.randrange(4), "kind": "export", "seed": rng.randrange(1 << 30),
              "files": {o: rng.choice(names) for o in ops}, "letters": rng.random() < 0.3}]
    for _ in range(rng.choice([0, 0, 1])):
        d = {"seed": rng.randrange(1 << 30), "shuffle": True, "lose": rng.choice(["some", "all", "none"])}
        life = {"hashseed": rng.randrange(4), "kind": "pickle", "disk": d}
        u = rng.random()
        if u < 0.6:
            d["crash_at"] = rng.randrange(1, 26)
            d["crash_torn"] = rng.random() < 0.6
        elif u < 0.8:
            d["faults"] = [{"op": rng.choice(["write", "open_w", "replace", "fsync", "read"]), "nth": rng.randrange(1, 5), "kind": "EIO"}]
        else:
            life["interrupt"] = {**moment(rng, 4.5, 40), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}
        lives.append(life)
    lives.append({"hashseed": rng.randrange(4), "kind": "pickle", "disk": {"seed": rng.randrange(1 << 30), "shuffle": True}})
    for k in range(rng.choice([1, 2])):
        lives.append({"hashseed": rng.randrange(4), "kind": "read", "saved": k > 0 and rng.random() < 0.7, "made": rng.randrange(1 << 30),
                      "steps": [draw_step(rng) for _ in range(rng.randrange(3, 9))]})
    return finish_plan({"lives": lives})


def draw_access(rng):
    return {"do": rng.choice(["row", "row", "related", "whole"]), "n": rng.randrange(1 << 16)}


def draw_step(rng):
    st = {"table": rng.choice(["unfiltered.p", "democratic.p", "democratic.p", "made"]),
          "ways": [[rng.choice(WAYS), rng.randrange(1 << 16)] for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))]}
    u = rng.random()
    if u < 0.25:
        st.update(do="tasks", parts=[draw_access(rng) for _ in range(rng.randrange(2, 4))], seed=rng.randrange(1 << 30),
                  quantum=rng.choice([3, 20, 200, -5]))
    elif u < 0.35:
        st.update(do="spoil", n=rng.randrange(1 << 16))
    else:
        st.update(draw_access(rng))
        if rng.random() < 0.3:
            st["interrupt"] = {**moment(rng, 4, 40), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}
    st["save"] = rng.random() < 0.3
    if st["table"] == "made":
        # rows that are not what their numbers say: only good for relatives
        if st["do"] == "spoil":
            st.update(draw_access(rng), do="related")
        for p in [st] + st.get("parts", []):
            p["made"] = True
    return st


def ops_of(plan):
    return sorted(o for L in plan["lives"] if L["kind"] == "export" for o in L["files"])


def finish_plan(plan):
    plan["refs"] = [{"do": "loops"}]
    for o in ops_of(plan):
        plan["refs"] += [{"do": "operator", "op": o}, {"do": "chain", "op": o}]
    return plan


def ref(key):
    if key["do"] == "operator":
        return c11.ref(key)
    if key["do"] == "chain":
        return [[d, store.head_from(c)] for d, c in work.distinct(work.completions_of(key["op"]))]
    from neutrinomass.database.heavyloops import generate_models

    return sorted({tuple(g) for g in generate_models()})


# -- the lives -----------------------------------------------------------------------
def life(plan, i, ctx):
    return {"export": export, "pickle": pickler, "read": read}[plan["lives"][i]["kind"]](plan, i, ctx)


def export(plan, i, ctx):
    L = plan["lives"][i]
    raw = os.path.join(ctx.scratch, "raw")
    os.makedirs(raw, exist_ok=True)
    rng = random.Random(L["seed"])
    ops = sorted(L["files"])
    rng.shuffle(ops)
    text = {}
    for op in ops:
        text[op] = []
        for d, c in work.distinct(work.completions_of(op)):
            text[op].append(store.text_of(store.reletter(c) if L["letters"] else c))
    for op in sorted(text):
        with open(os.path.join(raw, "op_%s.dat" % L["files"][op]), "a") as f:
            f.writelines(t + "\n" for t in text[op])
    ctx.log.append({o: len(t) for o, t in text.items()})
    return {o: len(t) for o, t in text.items()}


def pickler(plan, i, ctx):
    from neutrinomass.completions import DERIV_EFF_OPERATORS, EFF_OPERATORS

    L = plan["lives"][i]
    for table in (EFF_OPERATORS, DERIV_EFF_OPERATORS):
        for k in list(table):
            if k not in ops_of(plan):
                del table[k]
    raw, out = os.path.join(ctx.scratch, "raw"), os.path.join(ctx.scratch, "out")
    os.makedirs(out, exist_ok=True)
    intr, fired, rec = L.get("interrupt"), None, {}
    with Ticker() if intr else session.Idle() as ticker:
        with Disk(ctx, [raw, out], L["disk"], undo_dir=os.path.join(ctx.scratch, "undo%d" % i)) as disk:
            if intr:
                ticker.arm(intr, FAULTS[intr["exc"]])
            try:
                c11.run_script(raw, out)
                rec["end"] = "ok"
            except SimCrash:
                rec["end"] = "crash"
            except SystemExit as e:
                rec["end"] = "ok" if not e.code else "raised exit %s" % e.code
            except (Exception, KeyboardInterrupt) as e:
                rec["end"] = "raised %s %s" % (type(e).__name__, getattr(e, "errno", None) or str(e)[:80])
            if intr:
                fired = ticker.disarm()
        ctx.ticks += ticker.n
    if fired:
        ctx.faults[intr["exc"]] += 1
    rec["fault"] = bool(disk.hits) or bool(fired)
    if rec["end"] == "ok":
        ctx.probes["complete_run"] += 1
    ctx.states.add("pickler %s %s" % (rec["end"][:20], [t for t in disk.trace if not t.startswith("read")][-1:]))
    ctx.log.append([rec, disk.trace])
    return rec


def read(plan, i, ctx):
    from neutrinomass.database.database import ModelDataFrame

    L = plan["lives"][i]
    out = os.path.join(ctx.scratch, "out")

    def load(name):
        with open(os.path.join(out, name), "rb") as f:
            return pickle.load(f)

    frames = {}

    def frame(name):
        if name not in frames:
            kept = os.path.join(ctx.scratch, "kept_" + name)
            if L["saved"] and os.path.exists(kept):
                import pandas

                frames[name] = pandas.read_pickle(kept)
                ctx.probes["kept_frame"] += 1
            else:
                data = load(name) if name != "made" else made_up(load("unfiltered.p"), load("exotics.p"), L["made"])
                frames[name] = ModelDataFrame.new(data, load("exotics.p"), load("terms.p"))
        return frames[name]

    recs = []
    with Ticker() as ticker:
        for n, st in enumerate(L["steps"]):
            try:
                df = frame(st["table"])
                for way in st["ways"]:
                    df = go(df, way)
                # later, and in other processes
                if st["save"]:
                    df.to_pickle(os.path.join(ctx.scratch, "kept_" + st["table"]))
            except Exception as e:
                recs.append({"status": "raised", "error": "%s: %s" % (type(e).__name__, str(e)[:100])})
                break
            rec = step(df, st, ticker, ctx)
            recs.append(rec)
            ctx.states.add("%s %s %s %s" % (st["table"], [w[0] for w in st["ways"]], st["do"], rec.get("fired")))
            ctx.log.append(rec)
        ctx.ticks += ticker.n
    return recs


def made_up(data, exotics, seed):
    """The rows of a table with the numbers of made-up sets of a few fields."""
    rng = random.Random(seed)
    primes = rng.sample(sorted(set(exotics.values())), min(5, len(set(exotics.values()))))
    picked = [rng.randrange(len(data["op"])) for _ in range(rng.randrange(4, 40))] if data.get("op") else []
    out = {c: [v[k] for k in picked] for c, v in data.items()}
    out["democratic_num"] = []
    for _ in picked:
        n = 1
        for p in rng.sample(primes, rng.randrange(1, min(4, len(primes)) + 1)):
            n *= p * (p if rng.random() < 0.1 else 1)
        out["democratic_num"].append(n)
    return out


def go(df, way):
    """What users do with frames on the way to the models they want."""
    name, n = way
    if name == "copy":
        return df.copy()
    if name == "pickle":
        return pickle.loads(pickle.dumps(df))
    if name == "sort":
        return df.sort_values(["scale", "democratic_num", "stringent_num", "topology", "n_fields"][n % 5], ascending=n % 2 == 0, kind="stable")
    if name == "assign":
        return df.assign(**{"mark": n})
    if name == "dropna":
        return df.dropna()
    if len(df) == 0:
        return df
    if name == "op":
        some = sorted(set(df["op"]))
        return df[df["op"] == some[n % len(some)]]
    if name == "field":
        some = sorted(df.exotic2int)
        return df[df["democratic_num"] % df.exotic2int[some[n % len(some)]] == 0]
    if name == "tail":
        return df.tail(1 + n % len(df))
    if name == "query":
        return df.query("n_fields > %d" % (n % 3))
    return df.loc[[k for k in df.index if (k * 7 + n) % 3]]


def step(df, st, ticker, ctx):
    if st["do"] == "tasks":
        pool = Tasks(ticker, random.Random("tasks|%s" % st["seed"]), st["quantum"])
        res = pool.run([lambda p=p: access(df, p, ctx) for p in st["parts"]])
        ctx.faults["preemption"] += pool.switches
        ctx.states.add("interleaving " + work.h(pool.trace))
        return {"status": "ok", "value": [r[1] if r[0] == "ok" else {"error": str(r[1])[:200]} for r in res]}
    if st["do"] == "spoil":
        if not len(df):
            return {"status": "ok", "value": []}
        k = df.index[st["n"] % len(df)]
        c = df.completion(k)
        c.graph.clear()
        c.terms.clear()
        c.exotics.clear()
        ctx.faults["results_spoilt"] += 1
        return {"status": "ok", "value": [row(df, k)]}
    intr, fired = st.get("interrupt"), None
    if intr:
        ticker.arm(intr, FAULTS[intr["exc"]])
    try:
        rec = session.call(lambda: [access(df, st, ctx)])
    except KeyboardInterrupt:
        rec = {"status": "interrupted"}
    if intr:
        fired = ticker.disarm()
        if fired:
            ctx.faults[intr["exc"]] += 1
            rec = session.call(lambda: [access(df, st, ctx)])
            rec["fired"] = fired
    return rec


def access(df, p, ctx):
    if not len(df):
        return {"do": "none"}
    if p["do"] == "whole" and "made" not in p:
        return {"do": "whole", "rows": [line(df, k) for k in df.index], "tables": tables(df)}
    k = df.index[p["n"] % len(df)]
    made = "made" in p
    ctx.probes["related" if made else p["do"]] += 1
    if p["do"] == "related" or made:
        rel = df.related_models(k)
        return {"do": "related", "of": line(df, k), "all": [line(df, j) for j in df.index],
                "found": [line(rel, j) for j in rel.index], "tables": tables(rel)}
    return row(df, k)


def row(df, k):
    c = df.completion(k)
    return {"do": "row", "row": line(df, k), "digest": canon.completion(c), "head": store.head_from(c),
            "exotics": [M.cls(x) for x in decode(int(df["democratic_num"][k]), df.int2exotic)],
            "terms": [list(M.term_cls(x)) for x in decode(int(df["stringent_num"][k]), df.int2term)]}


def line(df, k):
    return [int(k)] + [c11.cell(df[c][k]) for c in COLUMNS]


COLUMNS = ["op", "dim", "scale", "symbolic_scale", "topology", "n_fields", "n_scalars", "n_fermions", "min_loops", "max_loops",
           "n_derivs", "democratic_num", "stringent_num"]


def decode(number, table):
    """The things a number stands for."""
    out = []
    for p in sorted(table):
        while number % p == 0:
            number //= p
            out.append(table[p])
    return out if number == 1 else out + ["?,?%d" % number]


def tables(df):
    bad = []
    for there, back, both in ((df.exotic2int, df.int2exotic, df.exotics), (df.term2int, df.int2term, df.terms)):
        bad += [str(k) for k, v in there.items() if back.get(v) is None or there.get(back[v]) != v]
        bad += [str(k) for k in list(there) + list(back) if k not in both]
    return bad[:4]


# -- judgement -----------------------------------------------------------------------
def known(plan, refs):
    """(models in the order of the files, operator data, one-loop groups)"""
    ref_of = lambda **k: refs[session.skey(k)]
    ex = [L for L in plan["lives"] if L["kind"] == "export"][0]
    models = []
    for name in sorted(set(ex["files"].values()), key=lambda n: "op_%s.dat" % n):
        for op in sorted(ex["files"]):
            if ex["files"][op] == name:
                for d, head in ref_of(do="chain", op=op):
                    models.append({"id": d, "op": op, "qns": head[1], "terms": head[2], "topology": head[3]})
    groups = []
    by = {}
    for m in models:
        for q in m["qns"]:
            for c in (q, M.conj_field(q)):
                by.setdefault(",".join(c.split(",")[:4]), c)
    for g in ref_of(do="loops"):
        if all(f in by for f in g):
            groups.append([by[f] for f in g])
    return models, {o: ref_of(do="operator", op=o) for o in ops_of(plan)}, groups


def judge(plan, values, refs):
    bad = []
    models, info, groups = known(plan, refs)
    rank = {o: max(e[0] for e in v["est"].values()) for o, v in info.items()}
    kept = M.one_loop(M.process(models, rank, "democratic", False), rank, groups, c11.ONE_LOOP)
    want = {"made": None, "unfiltered.p": {m["id"]: m for m in models}, "democratic.p": {m["id"]: m for v in kept.values() for m in v}}

    def add(cls, detail):
        bad.append({"class": cls, "detail": "life %d (%s)%s: %s" % (i, L["kind"], where, detail)})

    done = False
    for i, v in enumerate(values):
        L, rec, where = plan["lives"][i], v["result"], ""
        if L["kind"] == "export":
            got = {o: sum(m["op"] == o for m in models) for o in rec}
            if got != rec:
                add("models_differ", "exports %s models, a fresh process finds %s" % (rec, got))
        elif L["kind"] == "pickle":
            if rec["end"].startswith("raised") and not rec["fault"]:
                add("error", "the pickler fails without a fault: %s" % rec["end"])
            done = rec["end"] == "ok"
        elif done:
            for n, r in enumerate(rec):
                st = L["steps"][n]
                where = " step %d (%s, %s)" % (n, st["table"], [w[0] for w in st["ways"]])
                if r["status"] != "ok":
                    add("error", r.get("error", r["status"]))
                    break
                for x in r["value"]:
                    check(x, st, want[st["table"]], info, add, L["saved"])
                if bad:
                    break
        if bad:
            break
    return bad


def expected_line(m, e):
    """What the columns say of a model, except for the numbers."""
    q = set(m["qns"])
    return {"op": m["op"], "dim": e["dim"], "topology": m["topology"], "n_fields": len(q),
            "n_scalars": sum(x[0] == "S" for x in q), "n_fermions": sum(x[0] == "F" for x in q), "n_derivs": e["n_derivs"]}


def check(x, st, want, info, add, saved):
    if "error" in x:
        add("error", "thread: %s" % x["error"])
    elif x["do"] == "row":
        m = want.get(x["digest"])
        if m is None:
            add("foreign_model", "row %s forces to a model that should not be there" % x["row"][:2])
            return
        r = dict(zip(["index"] + COLUMNS, x["row"]))
        e = info[m["op"]]
        w = expected_line(m, e)
        wrong = {c: (r[c], v) for c, v in w.items() if not c11.same(r[c], v)}
        sym = e["est"].get(r["symbolic_scale"])
        if sym is None or abs(sym[0] - r["scale"]) > 1e-6 * sym[0] or sym[0] < max(y[0] for y in e["est"].values()) * (1 - 1e-6):
            wrong["scale"] = (r["scale"], r["symbolic_scale"])
        elif [r["min_loops"], r["max_loops"]] != sym[1:]:
            wrong["loops"] = (r["min_loops"], r["max_loops"], sym[1:])
        if x["head"] != [m["op"], m["qns"], m["terms"], m["topology"]]:
            wrong["model"] = (x["head"], m)
        if sorted(x["exotics"]) != M.content(m, "democratic"):
            wrong["democratic_num"] = (x["exotics"], M.content(m, "democratic"))
        terms = sorted(list(t) for t in M.content(m, "stringent"))
        if sorted(x["terms"]) != terms:
            wrong["stringent_num"] = (x["terms"], terms)
        if wrong:
            add("wrong_row", "row %s: %s" % (x["row"][:2], str(wrong)[:400]))
    elif x["do"] == "whole":
        if x["tables"]:
            add("broken_dictionaries", "%s" % x["tables"])
        if want is not None and not st["ways"] and not saved and len(x["rows"]) != len(want):
            add("wrong_rows", "%d rows, expected %d" % (len(x["rows"]), len(want)))
    elif x["do"] == "related":
        at = COLUMNS.index("democratic_num") + 1
        number = x["of"][at]
        primes = factors(number)
        good = sorted(l for l in x["all"] if l[0] != x["of"][0] and len(factors(l[at])) > 1 and set(factors(l[at])) <= set(primes)
                      and len(set(factors(l[at]))) == len(factors(l[at])))
        if sorted(x["found"]) != good:
            add("wrong_relatives", "of row %s: rows %s, expected %s" % (x["of"][0], [l[0] for l in x["found"]], [l[0] for l in good]))
        if x["tables"]:
            add("broken_dictionaries", "%s" % x["tables"])


def factors(n):
    out, p = [], 2
    while n > 1:
        while n % p == 0:
            out.append(p)
            n //= p
        p += 1
    return out
