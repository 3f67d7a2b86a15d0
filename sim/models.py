"""Small databases of made-up models, and what a database has to do with them."""
import json
import os

from sim.canon import conj_field

VOCAB = [
    "F,00,0,0,0", "F,00,2,0,0", "S,00,2,1,0", "S,00,1,1/2,0", "S,00,0,1,0", "F,00,1,1/2,0",
    "S,10,0,-1/3,1", "S,10,1,1/6,1", "S,10,2,2/3,1", "F,10,1,7/6,1", "F,01,1,1/6,-1", "F,10,0,-4/3,1",
    "S,20,0,1/3,2", "S,11,1,1/2,0", "F,11,0,0,0", "F,11,2,0,0", "S,10,2,-1/3,-2", "S,11,0,0,0",
]
SM = ["L", "Q", "H", "ub", "db", "eb"]
# in the tables of one-loop completions of the Weinberg operator
LOOPS = [["S,10,0,-1/3,1", "S,10,2,2/3,1", "F,01,1,1/6,-1"]]

OPS = ["1", "2", "8", "9", "3a", "4a", "14a", "61a", "D2a", "D3", "1p", "76"]
# operators whose scales are nearly the same
NEAR = [["26a", "34", "23b", "26b"], ["24b", "24d"], ["16", "5c", "35"], ["12b", "6d", "27c"], ["13", "61b"], ["14b", "5d"],
        ["4b", "D12b", "D13a"], ["12a", "6a", "22a"], ["4a", "D13b", "D18a", "D12a"], ["8", "62b", "D15"]]
# operators whose scales are those of a one-loop Weinberg operator, or close to them
AT_LOOP = ["4a", "1p", "D5a", "D12a", "D18a", "D6a", "D9a"]
FAST = ["1", "2", "8", "9", "3a", "4a", "14a", "61a", "D2a", "D3"]


def draw_models(rng, ops, n, start=0, small=False):
    """[{"id", "op", "qns", "terms"}]"""
    vocab = rng.sample(VOCAB, rng.randrange(3, 7)) if small else VOCAB
    out = []
    for k in range(n):
        if rng.random() < 0.15:
            base = list(rng.choice(LOOPS))
        else:
            base = rng.sample(vocab, rng.randrange(1, min(4, len(vocab)) + 1))
        qns = [conj_field(q) if rng.random() < 0.3 else q for q in base]
        if rng.random() < 0.08:
            qns.append(conj_field(qns[0]))
        qns = list(dict.fromkeys(qns))
        if rng.random() < 0.1:
            qns.append(qns[0])
        terms = []
        for _ in range(rng.randrange(1, 4)):
            pool = qns + rng.sample(SM, 2)
            t = [rng.choice(pool) for _ in range(3)]
            t = [conj_field(x) if rng.random() < 0.25 else x for x in t]
            if not any("," in x for x in t):
                t[0] = qns[0]
            terms.append(t)
        if out and rng.random() < 0.35:
            # a relative of an earlier model: same, conjugated, extended
            old = rng.choice(out)
            qns = list(old["qns"])
            terms = [list(t) for t in old["terms"]]
            u = rng.random()
            if u < 0.3:
                qns = [conj_field(q) for q in qns]
                terms = [[conj_field(x) for x in t] for t in terms]
            elif u < 0.7:
                extra = rng.choice(vocab)
                if extra not in qns and conj_field(extra) not in qns:
                    qns.append(extra)
                    terms.append([extra, rng.choice(SM), rng.choice(SM)])
            rng.shuffle(qns)
            for t in terms:
                rng.shuffle(t)
        out.append({"id": start + k, "op": rng.choice(ops), "qns": qns, "terms": terms})
    return out


def tail_of(m):
    return json.dumps(["model", m["id"]]).replace('"', "'")


def line_of(m, tail=None):
    head = {
        "operator_name": m["op"],
        "quantum_numbers": list(m["qns"]),
        "terms": [tuple(t) for t in m["terms"]],
        "topology": "t%d" % m["id"],
    }
    return 'LazyCompletion(head=%r, tail="%s")' % (head, tail or tail_of(m))


def write(path, models, tail=None):
    with open(path, "w") as f:
        for m in models:
            f.write(line_of(m, tail) + "\n")


def ident(record):
    """Everything a record says."""
    return [
        int(record.head["topology"][1:]),
        record.operator_name,
        sorted(record.quantum_numbers),
        sorted(sorted(t) for t in record.head["terms"]),
        record.tail,
    ]


def want(m):
    return [
        m["id"], m["op"], sorted(set(m["qns"])), sorted(sorted(t) for t in m["terms"]), tail_of(m),
    ]


# -- reference model of the filters -----------------------------------------------
def cls(q):
    return min(q, conj_field(q))


def term_cls(t):
    a = tuple(sorted(t))
    b = tuple(sorted(conj_field(x) for x in t))
    return min(a, b)


def content(m, philosophy):
    """Multiset of what makes up a model."""
    if philosophy == "democratic":
        return sorted(cls(q) for q in set(m["qns"]))
    return sorted(term_cls(t) for t in m["terms"])


def contains(big, small):
    rest = list(big)
    for x in small:
        if x not in rest:
            return False
        rest.remove(x)
    return True


def first_of_each(models, philosophy):
    out, seen = [], []
    for m in models:
        c = content(m, philosophy)
        if c not in seen:
            seen.append(c)
            out.append(m)
    return out


SEESAWS = ["F,00,2,0,0", "F,00,0,0,0", "S,00,2,1,0"]


def no_seesaws(m):
    return not any(q == s for q in m["qns"] for s in SEESAWS)


def filtered(data, rank, philosophy):
    """data: op -> models; rank: op -> number, larger goes first.  A model stays
    unless some operator with larger rank has a model contained in it."""
    con = {op: [content(m, philosophy) for m in ms] for op, ms in data.items()}
    out = {}
    for op, ms in data.items():
        keep = []
        for m, c in zip(ms, con[op]):
            if not any(contains(c, d) for o in data if rank[o] > rank[op] for d in con[o]):
                keep.append(m)
        out[op] = keep
    return out


def one_loop(data, rank, groups, limit):
    """Drops models that contain a one-loop Weinberg model (by field content)."""
    sets = [sorted(cls(q) for q in g) for g in groups]
    out = {}
    for op, ms in data.items():
        out[op] = ms if rank[op] >= limit else [
            m for m in ms if not any(contains(content(m, "democratic"), s) for s in sets)]
    return out


def process(models, rank, philosophy, filter_seesaws):
    data = {}
    for m in models:
        data.setdefault(m["op"], []).append(m)
    if filter_seesaws:
        data = {k: [m for m in v if no_seesaws(m)] for k, v in data.items()}
    data = {k: first_of_each(v, philosophy) for k, v in data.items()}
    return filtered(data, rank, philosophy)


def spread(rng, models, n_files):
    """[[name, ids]]: which file holds which record, in order."""
    names = ["op_%s" % x for x in rng.sample(["a", "b", "c", "d", "e", "1", "10", "2", "Z"], n_files)]
    files = [[n + ".dat", []] for n in names]
    for m in models:
        rng.choice(files)[1].append(m["id"])
    return files


def lay(folder, files, models, tail=None, order=None):
    """Writes the files; the record ids are indices into models."""
    os.makedirs(folder, exist_ok=True)
    by = {m["id"]: m for m in models}
    for name, ids in files:
        write(os.path.join(folder, name), [by[i] for i in ids], tail)
