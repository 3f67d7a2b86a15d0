"""Records, per operation, the digest of its result in a fresh process (hash seed 0).

Run by hand; the checks only read the outcome. With --new only operations without
a recorded result are added.
"""
import json
import os
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from sim import core, session, work  # noqa: E402


def keys():
    from props import c12

    for s, f in c12.CLASSES + c12.BIG:
        yield {"do": "ordered", "s": s, "f": f}
    for op in work.SMALL:
        for do in ("complete", "models", "physics", "export"):
            yield {"do": do, "op": op}
        for n in range(1, 6):
            yield {"do": "first", "op": op, "n": n}
    for op in ("1", "8", "4a", "4b"):
        for s in range(6):
            yield {"do": "equivalent", "op": op, "seed": s}
    for op in work.ALL_SCALES:
        yield {"do": "scale", "op": op}
    for c in work.CLASSES + work.SLOW_CLASSES:
        yield {"do": "invariants", "class": c}
    for c in work.CLASSES:
        yield {"do": "unsimplified", "class": c}
    for f in work.FIELDSTRINGS:
        yield {"do": "fieldstrings", **f}
    for d in (3, 4):
        yield {"do": "smeft", "dim": d}
    for s, f in work.TOPOLOGIES:
        yield {"do": "topology", "s": s, "f": f}
    for op in work.TABLE_OPS:
        yield {"do": "table", "op": op}
    for k in range(1, 3):
        yield {"do": "mass_terms", "op": "1", "k": k}
    for w in work.KINDS:
        for s in range(work.SMALL_SEEDS):
            yield {"do": "small", "what": w, "seed": s, "n": 6}


def main():
    runner = core.Runner("C01")
    topo = core.Runner("C12")
    out = dict(session.golden()) if "--new" in sys.argv else {}

    def one(k):
        if session.skey(work.key(k)) in out:
            return
        r = (topo if k["do"] == "ordered" else runner).ref(work.key(k))
        if r["status"] != "ok":
            print("FAILED", k, r)
            return
        out[session.skey(work.key(k))] = work.h(r["value"])

    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, list(keys())))
    runner.close()
    topo.close()
    with open(os.path.join(HERE, "golden", "results.json"), "w") as f:
        json.dump(out, f, indent=0, sort_keys=True)
        f.write("\n")
    print(len(out))


main()
