"""Canonical forms that do not depend on index names, dictionary or set order,
labels of exotic fields, overall signs, or which process produced the object.

Terms and operators are turned into graphs (fields and invariant tensors are
nodes, contracted index pairs are edges) and hashed by colour refinement.
"""

import hashlib


def h(*parts):
    return hashlib.sha256(repr(parts).encode()).hexdigest()[:16]


SM = {"L", "Q", "ub", "db", "eb", "H"}


def charges(f):
    return tuple(sorted((str(k), str(v)) for k, v in f.charges.items()))


def field_colour(f, exotic_as="qns"):
    """Identity of a field without its indices or (for exotics) its letter."""
    if f.derivs or base_label(f) in SM or not is_exotic(f):
        return ("sm", f.label, f.dynkin, charges(f), bool(f.is_conj), f.derivs, f.nf)
    return (
        "ex",
        f.dynkin,
        charges(f),
        bool(f.is_conj),
        "~" in f.label,
        type(f).__name__,
    )


def base_label(f):
    return f.label.replace("†", "")


def is_exotic(f):
    from neutrinomass.completions.core import FieldType

    return isinstance(f, FieldType)


def op_graph(op):
    from neutrinomass.tensormethod.core import IndexedField

    colours, ports = [], {}
    for n, t in enumerate(op.tensors):
        if isinstance(t, IndexedField):
            colours.append(h("field", field_colour(t)))
        else:
            kind = [(i.index_type, bool(i.is_up)) for i in t.indices]
            colours.append(h("inv", type(t).__name__, str(t).split("(")[0], sorted(kind)))
        for i in t.indices:
            name = str(i).lstrip("-")
            ports.setdefault((i.index_type, name), []).append((n, bool(i.is_up)))
    adj = [[] for _ in colours]
    for (itype, _), ends in sorted(ports.items()):
        for a in range(len(ends)):
            others = [e for b, e in enumerate(ends) if b != a]
            n, up = ends[a]
            if not others:
                adj[n].append((itype, up, None, None))
            for m, mup in others:
                adj[n].append((itype, up, m, mup))
    return colours, adj


def refine(colours, adj, rounds=6):
    for _ in range(rounds):
        colours = [
            h(
                colours[n],
                sorted(
                    (str(t), str(u), colours[m] if m is not None else "free", str(mu))
                    for t, u, m, mu in adj[n]
                ),
            )
            for n in range(len(colours))
        ]
    return colours


def operator(op):
    """Digest of an operator or Lagrangian term, up to index names and sign."""
    colours, adj = op_graph(op)
    return h("op", sorted(refine(colours, adj)))


def term_fields(op):
    out = []
    for f in op.indexed_fields:
        out.append(repr(field_colour(f)))
    return sorted(out)


def qn_string(f):
    return "%s|%s|%s" % (
        "S" if f.is_scalar else "F",
        f.dynkin,
        ",".join("%s=%s" % kv for kv in charges(f)),
    )


def exotics(comp):
    return sorted(h(field_colour(e)) for e in comp.exotics)


def edge_names(comp):
    """exotic letter -> canonical particle name"""
    names = {}
    for e in comp.exotics:
        names[e.label] = "ex:" + h(field_colour(e))
    return names


def graph(comp):
    names = edge_names(comp)
    g = comp.graph
    nodes = sorted(g.nodes, key=str)
    pos = {n: k for k, n in enumerate(nodes)}
    colours = [h("node", len(list(g.neighbors(n)))) for n in nodes]
    adj = [[] for _ in nodes]
    for a, b, data in g.edges.data():
        p = data.get("particle")
        p = names.get(p, p)
        if isinstance(p, str) and not p.startswith("ex:"):
            p = "sm:" + p.rstrip("0123456789")
        adj[pos[a]].append((str(p), "", pos[b], ""))
        adj[pos[b]].append((str(p), "", pos[a], ""))
    return h("graph", sorted(refine(colours, adj)))


def partition(part, g):
    """Leaves of the partition with the shape of the nesting."""

    def walk(x):
        if hasattr(x, "field"):
            return ("leaf", repr(field_colour(x.field)))
        return ("node", sorted(walk(y) for y in x))

    return h(walk(part))


def completion(comp):
    """Fine canonical digest of one completion."""
    return h(
        comp.operator.name,
        comp.topology,
        operator(comp.operator.operator),
        sorted(operator(t) for t in comp.terms),
        exotics(comp),
        graph(comp),
        partition(comp.partition, comp.graph),
    )


def conj_field(s):
    if s.endswith(".conj"):
        return s[:-5]
    if s in SM:
        return s + ".conj"
    lor, col, iso, y, b = s.split(",")
    neg = lambda x: x if x == "0" else (x[1:] if x[0] == "-" else "-" + x)
    return ",".join([lor, col[::-1], iso, neg(y), neg(b)])


def coarse_field(f):
    if base_label(f) in SM:
        return base_label(f) + (".conj" if f.is_conj else "")
    d = f.dynkin
    return "%s,%s,%s,%s,%s" % (
        "S" if f.is_scalar else "F", d[2:4], d[4], f.charges["y"], f.charges["3b"])


def coarse_term(t):
    a = tuple(sorted(coarse_field(f) for f in t.indexed_fields))
    b = tuple(sorted(conj_field(x) for x in a))
    return min(a, b)


def model(comp):
    """What distinguishes two models: topology and Lagrangian field content."""
    return h(comp.topology, sorted(coarse_term(t) for t in comp.terms))
