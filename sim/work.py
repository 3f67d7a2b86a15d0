"""The operations users perform, each returning a canonical (JSON) result.

A result never mentions index names, object identities, list positions that the
code does not promise, or the letters of exotic fields.
"""

import hashlib
import json
import random

from sim import canon

# operators whose completions take at most a few seconds
# operators users build themselves (as the tests of the completions do)
OWN = ["OphieD1", "Ophie2", "OphieD3", "Ophie4", "OphidD", "OHHbox1", "OHHbox2", "OHHbox4", "O1box", "OQQdu", "OQQdd",
       "OLLQQ", "OHHHH"]
TABLED = ["1", "2", "3a", "3b", "4a", "4b", "8", "D2a", "D2b", "D2c", "D3"]
SMALL = TABLED + OWN
QUICK = ["1", "4a", "4b", "8", "D2a", "D3", "OphieD3", "OQQdu", "O1box"]
SLOW = ["D21", "D15", "D13a", "D4a", "D4b", "D7a", "1p"]

# operator classes (labels of the BL list) that are enumerated in about a second
CLASSES = [1, 2, 3, 4, 5, 8, 9, 12, 14, 15, 16, 17, 18, 19, 20, 13, 61, 71, 76]
SLOW_CLASSES = [6, 10, 11, 7, 33, 34, 35, 45, 46, 52, 53, 65]

# operators whose mass estimate takes seconds
SLOW_SCALES = ["7", "37", "53", "54a", "55a", "59a", "60b", "76", "1pp", "7p", "71p", "76p", "77p",
               "78p", "79a", "82", "54d", "55d", "59b", "60c", "8p", "8pp", "79b", "80a", "80b", "80c", "80d",
               "81a", "81b", "81c", "81d"]
# the operators as published
NAMES = """
1 2 3a 3b 4a 4b 5a 5b 5c 5d 6a 6b 6c 6d 7 8 9 10 11a 11b 12a 12b 13 14a 14b 15 16 17 18 19 20
21a 21b 22a 22b 23a 23b 24a 24b 24c 24d 24e 24f 25a 25b 25c 26a 26b 26c 26d 27a 27b 27c 27d 28a
28b 28c 28d 28e 28f 28g 28h 28i 29a 29b 29c 29d 30a 30b 30c 30d 31a 31b 31c 32a 32b 32c 32d 32e
32f 33 34 35 36 37 38 39a 39b 39c 39d 40a 40b 40c 40d 40e 40f 40g 40h 40i 40j 40k 40l 41a 41b
42a 42b 43a 43b 43c 43d 44a 44b 44c 44d 45 46 47a 47b 47c 47d 47e 47f 47g 47h 47i 47j 47k 47l
48 49 50a 50b 51 52a 52b 53 54a 54b 54c 54d 55a 55b 55c 55d 56 57 58 59a 59b 59c 60a 60b 60c
61a 61b 62a 62b 63a 63b 63c 63d 64a 64b 64c 64d 65a 65b 71 75 76 77 78 1p 8p 1pp 7p 8pp 71p 76p
77p 78p 79a 79b 80a 80b 80c 80d 81a 81b 81c 81d 82 D2a D2b D2c D3 D4a D4b D5a D5b D5c D5d D6a
D6b D7a D7b D7c D8a D8b D8c D8d D8e D8f D8g D8h D8i D9a D9b D10a D10b D10c D12a D12b D13a D13b
D13c D14a D14b D14c D15 D16a D16b D16c D17 D18a D18b D18c D18d D18e D18f D20 D21 D22
""".split()
ALL_SCALES = [n for n in NAMES if n not in SLOW_SCALES]
TABLE_OPS = NAMES

FIELDSTRINGS = [
    {"n": 3}, {"n": 3, "derivs": True}, {"n": 4, "number": 2}, {"n": 4, "number": 0, "fields": ["L", "H"]},
    {"n": 2}, {"n": 3, "fields": ["Q", "ub", "db", "H"]}, {"n": 4, "number": 1, "fields": ["Q", "ub", "eb"]},
    {"n": 2, "derivs": True},
]

TOPOLOGIES = [[2, 2], [2, 4], [3, 2], [1, 4], [0, 4], [4, 2], [0, 6], [2, 6]]


def h(value):
    return hashlib.sha256(json.dumps(value, sort_keys=True, default=str).encode()).hexdigest()[:20]


def own(name):
    """An operator that is not in the tables, made from fields and epsilons."""
    from neutrinomass.completions.core import EffectiveOperator
    from neutrinomass.tensormethod.contract import invariants
    from neutrinomass.tensormethod.core import D, eps
    from neutrinomass.tensormethod.sm import H, L, Q, db, eb, ub

    box = lambda p, a, b: p * D(a, "11")("u0 d0 i2") * D(b, "11")("u1 d1 i3")
    made = {
        "OphieD1": lambda: invariants(D(H, "11"), H.conj, eb.conj, eb)[0],
        "Ophie2": lambda: invariants(H, D(H.conj, "11"), eb.conj, eb)[0],
        "OphieD3": lambda: invariants(H, H.conj, D(eb.conj, "10"), eb)[0],
        "Ophie4": lambda: invariants(H, H.conj, eb.conj, D(eb, "01"))[0],
        "OphidD": lambda: invariants(H, H.conj, D(db.conj, "10"), db)[0],
        "OHHbox1": lambda: box(H.conj("i0") * H.conj("i1"), H, H) * eps("-i0 -i2") * eps("-i1 -i3"),
        "OHHbox2": lambda: box(H.conj("i0") * H("i1"), H.conj, H) * eps("-i0 -i1") * eps("-i2 -i3"),
        "OHHbox4": lambda: box(H.conj("i0") * H("i1"), H.conj, H) * eps("-i0 -i3") * eps("-i1 -i2"),
        "O1box": lambda: L("u0 i0") * L("u1 i1") * D(H, "11")("u2 d0 i2") * D(H, "11")("u3 d1 i3")
        * eps("-i0 -i2") * eps("-i1 -i3"),
        "OQQdu": lambda: invariants(Q, Q, db, ub)[0],
        "OQQdd": lambda: invariants(Q, Q.conj, db, db.conj)[0],
        "OLLQQ": lambda: L("u0 i0") * L.conj("d0 i1") * Q("u1 c0 i2") * Q.conj("d1 -c0 i3")
        * eps("-i0 -i2") * eps("-i1 -i3"),
        "OHHHH": lambda: invariants(H, H, H.conj, H.conj)[0],
    }
    return EffectiveOperator(name, made[name]())


def operators():
    from neutrinomass.completions import EFF_OPERATORS, DERIV_EFF_OPERATORS

    return Operators({**EFF_OPERATORS, **DERIV_EFF_OPERATORS})


class Operators(dict):
    def __missing__(self, name):
        return own(name)


def renamed(eff, seed):
    """The same operator, its indices named by hand: i1, i10, ..."""
    from neutrinomass.completions.core import EffectiveOperator
    from neutrinomass.tensormethod.core import Operator

    rng = random.Random(seed)
    pools, names = {}, {}

    def name(label):
        label = str(label)
        sign, bare = ("-", label[1:]) if label.startswith("-") else ("", label)
        if bare not in names:
            letter = bare[0].lower()
            pool = pools.setdefault(letter, [letter + str(n) for n in rng.sample(range(24), 24)])
            names[bare] = pool.pop()
        return sign + names[bare]

    form = eff.operator.pickle_form()
    fields = []
    for d in form["fields"]:
        indices = d["indices"].split() if isinstance(d["indices"], str) else d["indices"]
        fields.append({**d, "indices": [name(i) for i in indices]})
    epsilons = [[name(i) for i in e] for e in form["epsilons"]]
    return EffectiveOperator(eff.name, Operator.from_pickle_form({"fields": fields, "epsilons": epsilons}))


def operator(name, names=None, called=None):
    from neutrinomass.completions.core import EffectiveOperator

    op = operators()[name]
    if names is not None:
        op = renamed(op, names)
    return op if called is None else EffectiveOperator(called, op.operator)


def completions_of(op, verbose=False, names=None, called=None):
    from neutrinomass.completions.completions import completions

    return completions(operator(op, names, called), verbose=verbose)


def found(step):
    return completions_of(step["op"], step.get("verbose", False), step.get("names"), step.get("called"))


def distinct(comps):
    """Distinct completions by canonical digest, in canonical order."""
    seen = {}
    for c in comps:
        seen.setdefault(canon.completion(c), c)
    return [(d, seen[d]) for d in sorted(seen)]


def info(comp):
    return sorted(str(v) for v in comp.exotic_info().values())


def class_fields(label):
    from neutrinomass.tensormethod import sm
    from neutrinomass.tensormethod.lnv import bl_list

    for k, v in bl_list.items():
        if v == label:
            return [
                getattr(sm, f.split(".")[0]).conj if f.endswith(".conj") else getattr(sm, f)
                for f in k
            ]
    raise KeyError(label)


# -- the operations ----------------------------------------------------------
def complete(step):
    """All completions of an operator: how often each distinct one comes up."""
    out = {}
    for c in found(step):
        d = canon.completion(c)
        out[d] = out.get(d, 0) + 1
    return out


def models(step):
    from neutrinomass.completions.completions import clean_completions, collect_completions

    comps = list(found(step))
    collected = collect_completions(comps)
    return {
        "clean": sorted(canon.model(c) for c in clean_completions(comps)),
        "content": {h(str(k)): len(v) for k, v in collected.items()},
    }


def first(step):
    """Looks at the first few completions and walks away."""
    it = iter(found(step))
    n = 0
    for _ in range(step["n"]):
        if next(it, None) is None:
            break
        n += 1
    return {"seen": n}


def invariants(step):
    from neutrinomass.tensormethod.contract import invariants as inv

    return sorted(canon.operator(o) for o in inv(*class_fields(step["class"])))


def unsimplified(step):
    from neutrinomass.tensormethod.contract import unsimplified_invariants

    return sorted(
        canon.operator(o)
        for o in unsimplified_invariants(*class_fields(step["class"]), ignore=["u", "d", "c"])
    )


def physics(step):
    """What a user reads off the models of an operator."""
    out = []
    for d, c in distinct(found(step)):
        lag = c.lagrangian
        out.append(
            [
                d,
                info(c),
                lag.num_u1_symmetries(),
                sorted(canon.operator(t) for t in lag.terms),
                len(lag.fields),
                c.topology,
            ]
        )
    return out


def reload_completion(text):
    from neutrinomass.database import database

    return eval(text, dict(vars(database)))


def letters(c):
    """Names of the fields term by term; exotics have the letters of this completion."""
    return sorted(sorted(f.get_latex() for f in t.indexed_fields) for t in c.terms)


def picture(c):
    """Everything a user can read off one completion, except for the letters."""
    lag = c.lagrangian
    return {
        "completion": canon.completion(c),
        "info": info(c),
        "u1": lag.num_u1_symmetries(),
        "terms": sorted(canon.operator(t) for t in c.terms),
        "masses": sorted(canon.operator(t) for t in lag.terms),
        "kinds": sorted(type(e).__name__ for e in c.exotics),
        "topology": str(c.topology),
        "operator": c.operator.name,
        "dimension": c.operator.mass_dimension,
        "type": sorted(c.operator.topology_type.items()),
    }


def export(step):
    """Writes every distinct completion down and reads it back in."""
    from neutrinomass.database.export import export_completion

    out = []
    for d, c in distinct(found(step)):
        lazy = reload_completion(export_completion(c, lazy=True))
        back = lazy.force()
        out.append(
            [
                d,
                canon.completion(back) == d,
                sorted(lazy.quantum_numbers),
                sorted(tuple(sorted(t)) for t in lazy.head["terms"]),
                lazy.head["topology"],
                lazy.operator_name,
            ]
        )
    return out


def scale(step):
    from neutrinomass.database.closures import neutrino_mass_estimate, numerical_np_scale_estimate
    from neutrinomass.database.utils import loop_data

    est = neutrino_mass_estimate(operator(step["op"], step.get("names"), step.get("called")))
    return sorted([str(e), "%.9e" % numerical_np_scale_estimate(e), str(loop_data(e))] for e in est)


def fieldstrings(step):
    from neutrinomass.tensormethod import lagrangian as lg

    number = step.get("number")
    func = None
    if number is not None:
        func = lambda c: sum(f.charges["l"] for f in c) == number
    names = step.get("fields")
    kw = {}
    if names:
        from neutrinomass.tensormethod import sm

        kw["fields"] = tuple(getattr(sm, n) for n in names)
    out = lg.npoint_fieldstrings(step["n"], derivs=step.get("derivs", False), func=func, **kw)
    return sorted([f.dynkin, str(f.y), sorted_leaves(f)] for f in out)


def sorted_leaves(f):
    out = []

    def walk(p):
        if hasattr(p, "irrep"):
            walk(p.left)
            walk(p.right)
        else:
            out.append(p.label_with_dagger)

    walk(f.walked())
    return sorted(out)


def smeft(step):
    from neutrinomass.tensormethod import smeft as sm

    out = sm.generate_operators(step["dim"], sm.FIELDS)
    return sorted([sorted_leaves(p), str(p.charges.get("L"))] for p in out)


def topology(step):
    from neutrinomass.completions.topologies import get_topology_data

    return topology_digest(get_topology_data(n_scalars=step["s"], n_fermions=step["f"]))


def topology_digest(data):
    import os

    out = []
    for t in data:
        out.append(
            [
                os.path.splitext(os.path.basename(t["partition_file"]))[0],
                str(t["partition"]),
                sorted(sorted(e) for e in t["graph"].edges),
            ]
        )
    return sorted(out)


def table(step):
    """One operator of the shipped tables as this process sees it."""
    op = operators()[step["op"]]
    return [
        canon.operator(op.operator),
        op.mass_dimension,
        sorted(op.topology_type.items()),
        op.operator.BL_classification,
        op.operator.latex(ignore=["u", "d"]),
        canon.operator(type(op.operator).from_pickle_form(op.operator.pickle_form())),
    ]


def mass_terms(step):
    """Full Lagrangian made from the exotics of one model."""
    picked = distinct(found(step))
    d, c = picked[step["k"] % len(picked)]
    full = c.lagrangian.generate_full()
    return [
        d,
        sorted(canon.operator(t) for t in full.interaction_terms),
        full.num_u1_symmetries(),
    ]


def equivalent(step):
    """Which of an operator's models the term comparison calls the same."""
    from neutrinomass.completions.completions import are_equivalent_completions

    picked = distinct(found(step))
    rng = random.Random(step["seed"])
    out = []
    for _ in range(step.get("pairs", 4)):
        (da, a), (db, b) = rng.choice(picked), rng.choice(picked)
        out.append([da, db, are_equivalent_completions(a, b)])
    return out


def match(step):
    """Patterns matched against what models are made of."""
    from neutrinomass.utils import pmatch

    rng = random.Random(step["seed"])

    def data(depth):
        if depth == 0 or rng.random() < 0.2:
            return rng.choice(["L", "H", "Q", 0, 1, 2])
        return tuple(data(depth - 1) for _ in range(rng.randrange(1, 4)))

    def hide(x, names):
        u = rng.random()
        if u < 0.15 and names:
            return rng.choice(sorted(names))
        if u < 0.3:
            name = "?%d" % len(names)
            names[name] = x
            return name
        return tuple(hide(y, names) for y in x) if isinstance(x, tuple) else x

    out = []
    for _ in range(step["n"]):
        d = (data(3), data(2), data(3))
        d = d + (d[rng.randrange(3)],)
        out.append([str(d), str(pmatch(hide(d, {}), d))])
    return out


SM_NAMES = ["L", "Q", "H", "ub", "db", "eb"]
SYMBOLS = {"S": "φχηζ", "F": "ψξλσ"}


def some_field(rng):
    from neutrinomass.tensormethod import sm

    f = getattr(sm, rng.choice(SM_NAMES))
    return f.conj if rng.random() < 0.5 else f


def plain(x):
    """A field without its history."""
    return [x.label_with_dagger, x.dynkin, str(x.y), str(x.charges.get("3b")), x.multiplicity, x.derivs]


def hands(rng, n):
    """Hand-made operators: n fields, then invariants that tie some of the indices."""
    from neutrinomass.tensormethod.core import eps, delta

    fields, free = [], {"u": [], "d": [], "i": [], "c": [], "-c": []}
    names = {k: iter(rng.sample(range(12), 12)) for k in "udic"}
    for _ in range(n):
        f = some_field(rng)
        used = []
        for kind, k in zip(["u", "d", "c", "-c", "i"], f.dynkin):
            for _ in range(int(k)):
                name = kind + str(next(names[kind[-1]]))
                free[kind].append(name)
                used.append(name)
        fields.append(f(" ".join(used)))
    op = fields[0]
    for f in fields[1:]:
        op = op * f
    for kind in "udi":
        some = list(free[kind])
        rng.shuffle(some)
        while len(some) > 1 and rng.random() < 0.8:
            op = op * eps("-%s -%s" % (some.pop(), some.pop()))
    while free["c"] and free["-c"] and rng.random() < 0.8:
        up, down = free["c"].pop(), free["-c"].pop()
        op = op * delta("%s -%s" % (down[1:], up))
    if len(free["c"]) == 3:
        op = op * eps(" ".join("-" + c for c in free["c"]))
    return op


def calc_multiply(rng):
    from neutrinomass.tensormethod.core import decompose_product

    fs = [some_field(rng) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
    out = decompose_product(*fs)
    out = out if isinstance(out, list) else [out]
    return sorted([plain(p), sorted_leaves(p), p.is_singlet, p.is_sm_singlet, p.qn_string] for p in out)


def calc_derive(rng):
    from neutrinomass.tensormethod.core import D, Index

    f = some_field(rng)
    out = []
    for _ in range(rng.choice([1, 1, 2])):
        a, b = f.lorentz_irrep
        choices = [(x, y) for x in (a - 1, a + 1) for y in (b - 1, b + 1) if x >= 0 and y >= 0]
        f = D(f, "%d%d" % rng.choice(choices))
        out.append([plain(f), f.get_latex(), plain(f.conj), f.conj.conj == f])
        if sum(f.lorentz_irrep) < 3:
            g = f.fresh_indices()
            out.append([plain(g.strip_derivs()), plain(g.strip_derivs_with_indices()), len(g.gauge_indices)])
    return out


def calc_latex(rng):
    op = hands(rng, rng.choice([2, 3, 4, 5]))
    # indices that are not to be shown are those without epsilons
    tied = {str(i).lstrip("-")[0] for e in op.epsilons for i in e.indices}
    ignore = rng.choice([None, [k for k in "udci" if k not in tied]])
    return [op.latex(ignore=ignore), canon.operator(op), op.BL_classification, str(op.mass_dim), op.dynkin_ints]


def calc_simplify(rng):
    op = hands(rng, rng.choice([2, 2, 3, 4]))
    filled = op.simplify(fill=True)
    return [str(op.safe_simplify()), str(filled), canon.operator(op), sorted(op.duplicate_fields),
            [len(x) for x in op.by_structures()], [len(x) for x in op.by_epsilon_structures()]]


def calc_scalars(rng):
    """Products in which no field has an index."""
    from neutrinomass.tensormethod.core import BOSE, Field

    fs = [Field(rng.choice("ABCS"), "00000", {"y": rng.randrange(-2, 3)}, comm=BOSE) for _ in range(rng.choice([2, 3]))]
    fs = [f.conj if rng.random() < 0.3 else f for f in fs]
    op = fs[0]("") * fs[1]("")
    if len(fs) == 3:
        op = op * fs[2]("")
    if rng.random() < 0.4:
        op = op * some_field(rng).fresh_indices() * some_field(rng).fresh_indices()
    simple = op.safe_simplify()
    return [type(simple).__name__, sorted(str(t).split("(")[0] for t in getattr(simple, "tensors", [])), canon.operator(op)]


def calc_contract(rng):
    from neutrinomass.tensormethod import contract

    from neutrinomass.tensormethod.sm import H, L, Q, db, eb, ub

    if rng.random() < 0.2:
        fs = [some_field(rng) for _ in range(rng.choice([2, 3]))]
    else:
        fs = rng.choice([[L, L, H, H], [L, eb, H.conj], [Q, db, H.conj], [Q, ub, H], [L, L, L, eb], [Q, Q, Q, L]])
        if rng.random() < 0.5:
            f = some_field(rng)
            g = rng.choice([f, some_field(rng)])
            fs = [f, f.conj, g, g.conj][: rng.choice([2, 4, 4])]
        if rng.random() < 0.3:
            fs = [f.conj for f in fs]
    fn = contract.unsimplified_invariants if rng.random() < 0.7 or len(fs) > 3 else contract.invariants
    kw = {} if fn is contract.invariants else {"ignore": rng.choice([[], ["u", "d", "c"], ["c"]])}
    try:
        out = fn(*fs, **kw)
    except (ValueError, TypeError):
        return "error"
    return sorted(canon.operator(o) for o in out if o != 0)


def calc_pickle(rng):
    import copy
    import pickle

    op = hands(rng, rng.choice([2, 3, 4]))
    how = rng.choice(["form", "pickle", "deepcopy"])
    if how == "form":
        back = type(op).from_pickle_form(op.pickle_form())
    elif how == "pickle":
        back = pickle.loads(pickle.dumps(op))
    else:
        back = copy.deepcopy(op)
    return [canon.operator(op), canon.operator(back), sorted(map(str, op.tensors)) == sorted(map(str, back.tensors))]


def some_exotic(rng, n):
    from sympy import Rational

    from neutrinomass.completions.core import ComplexScalar, MajoranaFermion, RealScalar, VectorLikeDiracFermion

    kind = rng.choice([ComplexScalar, RealScalar, MajoranaFermion, VectorLikeDiracFermion])
    colour = rng.choice(["", "", "c%d", "-c%d", "c%d -c%d"])
    if kind in (RealScalar, MajoranaFermion):
        colour = rng.choice(["", "c%d -c%d"])
    ups = colour.count("%d")
    colour = colour % tuple(range(10 * n, 10 * n + ups)) if ups else ""
    iso = " ".join("i%d" % (10 * n + k) for k in range(rng.choice([0, 1, 2])))
    lorentz = "" if kind in (ComplexScalar, RealScalar) else rng.choice(["u%d", "d%d"]) % n
    y = Rational(rng.choice([-4, -2, -1, 1, 3, 6]), 6) if kind in (ComplexScalar, VectorLikeDiracFermion) else 0
    symbol = SYMBOLS["F" if lorentz else "S"][n % 4]
    return kind(symbol, " ".join(x for x in (lorentz, colour, iso) if x),
                charges={"y": y, "3b": rng.randrange(-3, 4) if y else 0})


def calc_exotic(rng):
    e = some_exotic(rng, rng.randrange(4))
    out = [canon.h(canon.field_colour(e)), canon.operator(e.mass_term), e.get_latex(),
           canon.h(canon.field_colour(e.conj)), len(e.lower_su2()[1]), plain(e.field)]
    if hasattr(e, "dirac_partner"):
        out.append([canon.h(canon.field_colour(e.dirac_partner())), e.dirac_partner().dirac_partner() == e])
    return out


def calc_symmetries(rng):
    from neutrinomass.tensormethod.lagrangian import Lagrangian

    exotics = [some_exotic(rng, n) for n in range(rng.choice([1, 2, 3]))]
    lag = Lagrangian(set(exotics), [])
    return [lag.num_u1_symmetries(), sorted(canon.operator(t) for t in lag.terms), len(lag.fields)]


def calc_owned(rng):
    """What is made from a caller's dictionaries and lists does not change with them."""
    from neutrinomass.tensormethod.core import Field, IndexedField, Operator

    charges, symmetry = {"y": rng.randrange(-3, 4), "3b": rng.randrange(3)}, [[1], [1]]
    if rng.random() < 0.3:
        charges["l"] = 1
    f = Field("A", "10001", charges=charges, symmetry=symmetry)
    labels = ["u0", "i0"]
    x = IndexedField("B", labels, charges=charges, symmetry=symmetry)
    form = hands(rng, 2).pickle_form()
    op = Operator.from_pickle_form(form)

    def shown():
        return [describe_field(f), describe_field(x), list(x.substituted_indices()._dict["indices"]).__repr__(),
                repr(x._dict["indices"]), canon.operator(op)]

    before = shown()
    charges["y"] = 17
    labels.clear()
    charges.pop("3b")
    symmetry.append([2])
    symmetry[0].append(1)
    for d in form["fields"]:
        for name in ("charges", "symmetry", "indices"):
            if isinstance(d[name], (dict, list)):
                d[name].clear()
        d["label"] = "spoilt"
    form["epsilons"].clear()
    return [before, before == shown()]


def calc_helpers(rng):
    from neutrinomass.completions.utils import chunks, factors, flatten, foldr, multiple_replace
    from neutrinomass.tensormethod.utils import is_linear_in_deriv, repr_tree, strip_parens, to_tex
    from neutrinomass.utils.functions import conjugate_term, remove_equivalent, remove_equivalent_nopop, stringify_qns

    numbers = [rng.randrange(8) for _ in range(rng.randrange(1, 12))]
    a = list(numbers)
    remove_equivalent(a, eq_func=lambda x, y: x % 4 == y % 4)
    b = remove_equivalent_nopop(list(numbers), eq_func=lambda x, y: x % 4 == y % 4)
    term = tuple(sorted(stringify_qns(f) for f in [some_field(rng) for _ in range(2)] + [some_exotic(rng, 0).field]))
    return [a, b, list(chunks(numbers, 3)), sorted(factors(1 + numbers[0])), list(flatten([numbers, [[1], (2, [3])]])),
            foldr(lambda x, y: x - y, list(numbers)), multiple_replace({"a": "b", "b": "a"}, "abcab"),
            is_linear_in_deriv([some_field(rng) for _ in range(3)]), to_tex(rng.choice("αβψωaQ")), strip_parens("(x)"),
            repr_tree((1, (2, 3, 4), 5)), list(term), list(conjugate_term(term))]


def calc_singlets(rng):
    """Contractions made by hand, one kind of index at a time."""
    from neutrinomass.tensormethod.contract import colour_singlets, lorentz_singlets
    from neutrinomass.tensormethod.sm import H, L, Q, db, eb, ub

    # (no coincidences of names: every index of the product is its own)
    labels = {"L": "u%d i%d", "Q": "u%d c%d i%d", "ub": "u%d -c%d", "db": "u%d -c%d", "eb": "u%d", "H": "i%d"}
    table = {"L": L, "Q": Q, "ub": ub, "db": db, "eb": eb, "H": H}
    names = rng.choice([["Q", "db", "L", "eb"], ["L", "L", "H"], ["Q", "ub", "L", "L"], ["Q", "db", "Q", "ub"], ["Q", "Q"],
                        ["ub", "ub", "db", "eb"], ["Q", "Q", "Q", "L"], ["L", "L", "eb"]])
    out = []
    for make, few in ((lorentz_singlets, False), (colour_singlets, True), (colour_singlets, False)):
        op = 1
        for n, name in enumerate(names):
            text = labels[name]
            op = table[name](text % tuple(range(3 * n, 3 * n + text.count("%")))) * op
        try:
            got = make(op) if make is lorentz_singlets else make([op], few)
            out.append(sorted(canon.operator(o) for o in got))
        except (ValueError, AttributeError, UnboundLocalError):
            out.append("error")
    return out


def calc_estimates(rng):
    import re

    from neutrinomass.database.closures import neutrino_mass_estimate, numerical_mv
    from neutrinomass.database.utils import estimate_np_scale, get_leading_mv, table_data

    op = operators()[rng.choice(["1", "2", "3a", "4a", "8", "9", "14a", "61a", "D2a", "D3", "D5a", "D12a", "1p"])]
    scales = sorted(float(x) for x in estimate_np_scale(op))
    lead = get_leading_mv(op)
    # (estimates of the same size: either of them may be given)
    return [["%.6g" % x for x in scales], "%.6g" % float(numerical_mv(lead)), lead in list(neutrino_mass_estimate(op)),
            "%.6g" % float(re.search(r"mynum\{(.*)\}", table_data(op)[1]).group(1))]


KINDS = ["contract", "derive", "estimates", "exotic", "helpers", "latex", "multiply", "owned", "pickle", "scalars", "simplify",
         "singlets", "symmetries"]
SMALL_SEEDS = 12
CALCULATIONS = {n[5:]: f for n, f in sorted(globals().items()) if n.startswith("calc_")}


def small(step):
    """Many small calculations, one after the other."""
    rng = random.Random("small|%s|%s" % (step["what"], step["seed"]))
    out = []
    for _ in range(step["n"]):
        try:
            out.append(CALCULATIONS[step["what"]](rng))
        except (ValueError, TypeError, KeyError, AttributeError, IndexError, AssertionError):
            # nonsense was asked for: it is refused every time
            out.append("error")
    return out


STEPS = {
    f.__name__: f
    for f in (
        complete, models, first, invariants, unsimplified, physics, export, scale,
        fieldstrings, smeft, topology, table, mass_terms, equivalent, match, small,
    )
}


def run(step):
    return STEPS[step["do"]](step)


def key(step):
    """The part of a step that decides its result."""
    drop = {"fault", "faults", "verbose", "names"}
    if step["do"] == "scale":
        drop.add("called")
    return {k: v for k, v in sorted(step.items()) if k not in drop}


# -- definitions that belong to everyone ---------------------------------------
def shared():
    """Fingerprint of everything that all users of the process share."""
    from neutrinomass.tensormethod import sm, core, lnv
    from neutrinomass.completions import EFF_OPERATORS, DERIV_EFF_OPERATORS
    from neutrinomass.database import database, closures

    out = {}
    for n in ("L", "Q", "H", "ub", "db", "eb"):
        f = getattr(sm, n)
        out["field " + n] = describe_field(f)
    for n in sorted(vars(sm)):
        f = getattr(sm, n)
        if isinstance(f, core.Field) and "field " + n not in out:
            out["field " + n] = describe_field(f)
    for name, ops in (("operator", EFF_OPERATORS), ("operator", DERIV_EFF_OPERATORS)):
        for k, op in ops.items():
            out["%s %s" % (name, k)] = h(
                [
                    op.name,
                    [describe_field(t) if isinstance(t, core.IndexedField) else str(t)
                     for t in op.operator.tensors],
                ]
            )
    out["order"] = h([list(EFF_OPERATORS), list(DERIV_EFF_OPERATORS)])
    out["exotic table"] = h(sorted((str(k), str(v)) for k, v in database.EXOTICS.items()))
    out["term table"] = h(sorted((str(k), str(v)) for k, v in database.TERMS.items()))
    out["classification"] = h(sorted((str(k), v) for k, v in lnv.BL_LIST.items()))
    out["rules"] = h([[str(k), str(v)] for k, v in closures.RULES.items()])
    out["charges"] = h(core.CHARGES)
    return out


def describe_field(f):
    return [
        f.label, f.dynkin, sorted((str(k), str(v)) for k, v in f.charges.items()),
        bool(f.is_conj), str(f.comm), str(f.symmetry), str(f.latex), f.nf, f.derivs,
        f.multiplicity, f.history is None, str(getattr(f, "index_labels", None)),
        None if f.stripped is None else sorted((str(k), str(v)) for k, v in f.stripped.items()),
    ]
