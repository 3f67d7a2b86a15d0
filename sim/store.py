"""Exported models: files of records, and what one can read off a record."""
import os

from sim import canon, work
from sim.work import h


def text_of(c, lazy=True):
    from neutrinomass.database.export import export_completion

    return export_completion(c, lazy=lazy)


def reletter(c, old="ψ", new=("θ", "\\theta")):
    """The same completion with another letter for one exotic (models with many
    exotics use the whole alphabet; this one is cheap to have)."""

    def change(f):
        label = getattr(f, "label", None)
        if isinstance(label, str) and old in label:
            f.label = label.replace(old, new[0])
            f.latex = new[1]

    def walk(p):
        if hasattr(p, "node"):
            change(p.field)
        else:
            for q in p:
                walk(q)

    for e in c.exotics:
        change(e)
    for t in c.terms:
        for x in t.tensors:
            change(x)
    walk(c.partition)
    c.exotics = set(c.exotics)
    for _, _, edge in c.graph.edges(data=True):
        for k, v in edge.items():
            if isinstance(v, str):
                edge[k] = v.replace(old, new[0])
    return c


def head_of(lazy):
    """What a record says without being forced."""
    return [
        lazy.operator_name,
        sorted(lazy.quantum_numbers),
        sorted(sorted(t) for t in lazy.head["terms"]),
        str(lazy.head["topology"]),
    ]


def head_from(c):
    """The same, worked out from the completion itself."""
    qns = set()
    for l, cu, cd, i, (_, b), (_, y) in c.exotic_info().values():
        qns.add("%s,%s%s,%s,%s,%s" % (l, cu, cd, i, y, b))
    return [
        c.operator.name,
        sorted(qns),
        sorted(sorted(canon.coarse_field(f) for f in t.indexed_fields) for t in c.terms),
        str(c.topology),
    ]


def look(c):
    """[digest, picture, head, letters] of a completion."""
    return [canon.completion(c), h(work.picture(c)), h(head_from(c)), h(work.letters(c))]


def look_lazy(lazy):
    """The same through a record; the head is the one the record carries."""
    c = lazy.force()
    return [canon.completion(c), h(work.picture(c)), h(head_of(lazy)), h(work.letters(c))]


def gallery(op):
    """digest -> [picture, head] of every distinct completion."""
    out = {}
    for d, c in work.distinct(work.completions_of(op)):
        x = look(c)
        out[d] = x[1:3]
    return out


def records(op):
    """Exported text of every distinct completion, in canonical order."""
    return [[d, text_of(c)] for d, c in work.distinct(work.completions_of(op))]


def split_tail(path):
    """Length of the part of the file that ends in a newline, and the size."""
    if not os.path.exists(path):
        return 0, 0
    with open(path, "rb") as f:
        data = f.read()
    return data.rfind(b"\n") + 1, len(data)
