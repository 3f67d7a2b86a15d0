"""A diagram is reported only when it was made, from a complete document, of the graph given."""
import contextlib
import io
import os
import random
import re
import shlex

from sim import session, work
from sim.boot import PKG  # noqa: F401
from sim.seams import FAULTS, Disk, Programs, Tasks, Ticker, moment

LEVEL = "exploration"
TIERS = {
    "quick": {"runs": 700, "wall": 30, "min_runs": 60, "shrink_wall": 40, "twice_every": 16},
    "thorough": {"runs": 60000, "wall": 600, "min_runs": 1500, "shrink_wall": 120, "twice_every": 16},
}
ASSUMPTIONS = [
    "the typesetting program is a stand-in: it reads the document and writes the diagram when the document is complete",
    "exports that run at the same time go to different files",
    "the graphs carry fields on their edges; those of completions carry names only, which the exporter does not take",
]
RULE = ("graphs with drawn fields exported one after another and in threads, to plain and awkward paths, with a "
        "typesetting program that is missing, fails, is killed or leaves a torn diagram, full disks, failing and short "
        "writes, forbidden folders, interrupts; then again without faults")
STATE_MEASURE = "distinct (fault, point of the fault, outcome) triples"
REAL = session.REAL
STUB = session.STUB + ["lualatex: a stand-in that reads the document and writes a diagram", "disk: in-process fault layer"]
MUST_HIT = {"quick": ["program_missing", "program_failed", "program_killed", "ENOSPC", "refused", "preemption", "exported"],
            "thorough": ["program_missing", "program_failed", "program_killed", "ENOSPC", "refused", "preemption", "exported"]}
SM = ["L", "Q", "H", "ub", "db", "eb"]
EXOTIC = [["complex", "φ", "\\phi"], ["real", "Ξ", "\\Xi_{1}"], ["dirac", "ψ", "\\psi"], ["majorana", "χ", "\\chi"],
          ["dirac", "θ", "\\theta"], ["complex", "ω", "\\omega_{12}"]]
NAMES = ["a.tex", "b.tex", "sub/a.tex", "two words.tex", "semi;colon.tex", "dollar$x.tex", "quote'.tex", "~/home.tex",
         "amp&.tex", "star*.tex"]
PROGRAM = ["missing", "exit 1", "exit 134", "killed", "torn", "full"]


def draw_graph(rng):
    n = rng.randrange(2, 9)
    nodes = rng.sample(range(1, 60), n)
    edges = []
    for k in range(1, n):
        f = [rng.choice(SM), rng.random() < 0.5] if rng.random() < 0.6 else [rng.choice(EXOTIC), rng.random() < 0.5]
        e = [nodes[rng.randrange(k)], nodes[k]]
        edges.append((e if rng.random() < 0.5 else e[::-1]) + [f])
    return edges


def gen(rng, tier, i):
    steps = []
    for _ in range(rng.randrange(2, 8)):
        n = rng.choice([1, 1, 1, 2, 3])
        st = {"parts": [{"graph": draw_graph(rng), "path": p, "relative": rng.random() < 0.3} for p in rng.sample(NAMES, n)],
              "disk": {"seed": rng.randrange(1 << 30), "short": rng.choice([0, 0, 7, 100])}}
        if n > 1:
            st["seed"], st["quantum"] = rng.randrange(1 << 30), rng.choice([1, 3, 10, -3])
        u = rng.random()
        if u < 0.25:
            st["program"] = rng.choice(PROGRAM)
        elif u < 0.4:
            st["disk"]["full_after"] = rng.choice([1, 1, 2])
        elif u < 0.6:
            st["disk"]["faults"] = [{"op": rng.choice(["write", "open_w", "mkdir"]), "nth": rng.choice([1, 1, 2]),
                                     "kind": rng.choice(["EIO", "EACCES", "ENOSPC", "EMFILE", "EROFS"])}]
        elif u < 0.8 and n == 1:
            st["interrupt"] = {**moment(rng, 2.2, 12), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}
        steps.append(st)
    return finish_plan({"lives": [{"hashseed": rng.randrange(3), "steps": steps}]})


def finish_plan(plan):
    refs = []
    for st in plan["lives"][0]["steps"]:
        for p in st["parts"]:
            k = {"do": "document", "graph": p["graph"]}
            if k not in refs:
                refs.append(k)
    plan["refs"] = refs
    return plan


def field(f):
    from neutrinomass.completions import core
    from neutrinomass.tensormethod import sm

    what, conj = f
    if isinstance(what, str):
        x = getattr(sm, what)
        return (x.conj if conj else x).fresh_indices()
    kind, label, latex = what
    cls = {"complex": core.ComplexScalar, "real": core.RealScalar, "dirac": core.VectorLikeDiracFermion,
           "majorana": core.MajoranaFermion}[kind]
    x = cls(label, "" if kind in ("complex", "real") else "u0", charges={"y": 0, "3b": 0}, latex=latex)
    return x.conj if conj and kind != "real" else x


def graph(edges):
    import networkx as nx

    g = nx.Graph()
    for a, b, f in edges:
        g.add_edge(a, b, particle=field(f))
    return g


def ref(k):
    from neutrinomass.completions.tikzfeynman import proc_body, skeleton

    return session.call(lambda: skeleton(proc_body(graph(k["graph"]))))


def shows(doc, edges):
    """Does the document show the graph: every edge once, with its name?"""
    m = re.search(r"\\feynmandiagram.*?\{(.*)\};\s*\\end\{document\}\s*$", doc, re.S)
    if not m:
        return False
    got = sorted((tuple(sorted((int(a), int(b)))), t) for a, b, t in
                 re.findall(r"v(\d+)\s*--\s*\[[^\]]*edge label=\$(.*?)\$\]\s*v(\d+)", m.group(1))
                 for b, t in [(t, b)])
    want = sorted((tuple(sorted(e[:2])), e[2][0] if isinstance(e[2][0], str) else e[2][0][2]) for e in edges)
    return [(a, norm(b)) for a, b in got] == [(a, norm(b)) for a, b in want]


def norm(s):
    return re.sub(r"\\bar\{(\w+)\}", r"\1b", s).split("^")[0]


def typeset(cmd, kind, ctx):
    """The stand-in for lualatex."""
    if kind == "missing":
        ctx.faults["program_missing"] += 1
        return FileNotFoundError(2, "No such file or directory", "lualatex")
    if kind == "killed":
        ctx.faults["program_killed"] += 1
        return -9
    argv = shlex.split(cmd.rstrip("; ")) if isinstance(cmd, str) else cmd
    out, path = ".", argv[-1]
    for k, a in enumerate(argv):
        if a.lstrip("-").startswith("output-directory"):
            out = a.split("=", 1)[1] if "=" in a else argv[k + 1]
    try:
        with open(path) as f:
            doc = f.read()
    except OSError:
        return 1
    name = os.path.join(out, os.path.splitext(os.path.basename(path))[0] + ".pdf")
    if kind is not None or not doc.rstrip().endswith("\\end{document}"):
        ctx.faults["program_failed"] += 1
        if kind in ("torn", "full"):
            with open(name, "w") as f:
                f.write("torn")
        return 134 if kind == "exit 134" else 1
    try:
        with open(name, "w") as f:
            f.write("diagram of " + work.h(doc))
    except OSError:
        return 1
    return 0


def export(p, g, folder):
    from neutrinomass.completions.tikzfeynman import tikz_export

    path = p["path"] if p["path"].startswith("~") or p["relative"] else os.path.join(folder, p["path"])
    try:
        tikz_export(g, path)
        r = "ok"
    except (KeyboardInterrupt, Exception) as e:
        r = type(e).__name__
    return r


def look(g):
    return sorted([a, b, str(d.get("particle")), str(getattr(d.get("particle"), "latex", None)), sorted(map(str, d))]
                  for a, b, d in g.edges(data=True))


def files(folder):
    out = {}
    for d, _, names in os.walk(folder):
        for n in names:
            with open(os.path.join(d, n), errors="replace") as f:
                out[os.path.relpath(os.path.join(d, n), folder)] = f.read()
    return out


def life(plan, i, ctx):
    # threads that import it would wait for each other
    import neutrinomass.completions.tikzfeynman  # noqa: F401

    folder = os.path.join(ctx.scratch, "out")
    os.makedirs(os.path.join(folder, "sub"))
    os.makedirs(os.path.join(folder, "home"))
    os.environ["HOME"] = os.path.join(folder, "home")
    os.chdir(folder)
    n_fds = len(os.listdir("/proc/self/fd"))
    out = []
    with Ticker() as ticker:
        for n, st in enumerate(plan["lives"][i]["steps"]):
            intr, ran = st.get("interrupt"), []
            graphs = [graph(p["graph"]) for p in st["parts"]]
            before = [look(g) for g in graphs]

            def run(cmd):
                s = typeset(cmd, st.get("program"), ctx)
                ran.append(s == 0)
                return s

            text = io.StringIO()
            with contextlib.redirect_stdout(text), Programs(run):
                with Disk(ctx, [folder], st["disk"], undo_dir=os.path.join(ctx.scratch, "undo%d" % n)) as disk:
                    todo = [lambda p=p, g=g: export(p, g, folder) for p, g in zip(st["parts"], graphs)]
                    if len(todo) > 1:
                        pool = Tasks(ticker, random.Random(st["seed"]), st["quantum"])
                        got = [r if k == "ok" else str(r) for k, r in pool.run(todo)]
                        ctx.faults["preemption"] += pool.switches
                    else:
                        if intr:
                            ticker.arm(intr, FAULTS[intr["exc"]])
                        got = [todo[0]()]
                        if ticker.disarm():
                            ctx.faults[intr["exc"]] += 1
                            intr = True
                rec = {"got": got, "excused": bool(disk.hits) or bool(st.get("program")) or intr is True, 
                       "said": [any("uccess" in l and path_in(p, l) for l in text.getvalue().splitlines()) for p in st["parts"]]}
                rec["files"] = files(folder)
                ctx.probes["exported"] += got.count("ok")
                ctx.probes["refused"] += len(got) - got.count("ok")
                disk_at = [h.split()[:2] for h in disk.hits]
                program, st = st.get("program"), dict(st, program=None)
                rec["again"] = [export(p, g, folder) for p, g in zip(st["parts"], graphs)]
                rec["altered"] = [p["path"] for p, g, b in zip(st["parts"], graphs, before) if look(g) != b]
                rec["files_again"] = files(folder)
                if os.getcwd() != os.path.realpath(folder):
                    rec["moved"] = True
                    os.chdir(folder)
            ctx.states.add("%s %s %s %s" % (program, disk_at, intr, got))
            ctx.log.append(work.h([rec, disk.trace]))
            out.append(rec)
        ctx.ticks += ticker.n
    return {"steps": out, "left": len(os.listdir("/proc/self/fd")) - n_fds}


def path_in(p, line):
    return "/out/" + place(p)[0] in line or (p["path"][0] == "~" or p["relative"]) and " " + p["path"] in line


def place(p):
    """Where the document and the diagram have to be."""
    path = p["path"].replace("~/", "home/")
    d, b = os.path.split(path)
    return path, os.path.join(d, "texbuild", os.path.splitext(b)[0] + ".pdf")


def judge(plan, values, refs):
    bad = []
    res = values[0]["result"]
    done, allowed = {}, set()
    for n, rec in enumerate(res["steps"]):
        st = plan["lives"][0]["steps"][n]

        def add(cls, detail):
            bad.append({"class": cls, "detail": "step %d (%s): %s" % (n, p["path"], detail)})

        for p in st["parts"]:
            allowed.update(place(p))
            for f in place(p):
                done.pop(f, None)
        for k, p in enumerate(st["parts"]):
            want = refs[session.skey({"do": "document", "graph": p["graph"]})]
            if want["status"] != "ok":
                add("error", "in a fresh process: %s" % want.get("error"))
                return bad
            doc = want["value"]
            if not shows(doc, p["graph"]):
                add("wrong_diagram", "the document does not show the graph: %s" % doc[-300:])
            tex, pdf = place(p)
            made = "diagram of " + work.h(doc)
            for which, got, there in (("", rec["got"][k], rec["files"]), (" when done again", rec["again"][k], rec["files_again"])):
                if got == "ok":
                    if there.get(tex) != doc:
                        add("incomplete_document", "reported as exported%s, but the document on disk is not the whole one" % which)
                    if there.get(pdf) != made:
                        add("no_diagram", "reported as exported%s, but the diagram is %s" % (which, str(there.get(pdf))[:40]))
                elif which or not rec["excused"]:
                    add("error", "raised %s without a fault%s" % (got, which))
            if rec["said"][k] != (rec["got"][k] == "ok") and rec["got"][k] in ("ok", "CalledProcessError", "FileNotFoundError", "OSError", "PermissionError"):
                add("misreported", "says %s, but the export %s" % ("success" if rec["said"][k] else "nothing", rec["got"][k]))
            if p["path"] in rec["altered"]:
                add("graph_altered", "the graph is not the same after the export")
        if rec.get("moved"):
            add("process_changed", "the working directory is another one")
        for there in (rec["files"], rec["files_again"]):
            for f, text in done.items():
                if there.get(f) != text:
                    p = {"path": f}
                    add("other_export_touched", "was fine before")
            for f in there:
                if f not in allowed:
                    p = {"path": f}
                    add("stray_file", "left behind")
        for p in st["parts"]:
            for f in place(p):
                done[f] = rec["files_again"].get(f)
        if bad:
            return bad
    if res["left"] > 0:
        bad.append({"class": "handle_leak", "detail": "%d files left open" % res["left"]})
    return bad
