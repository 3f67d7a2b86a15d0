"""Driver: plans, lives, search, minimisation, replay files, evidence.

A *plan* is a JSON object that decides one simulated execution completely:

    {"property": "C01", "seed": "...", "refs": [...],
     "lives": [{"hashseed": 3, "steps": [...], ...}, ...]}

Each *life* is one process incarnation (its own PYTHONHASHSEED); lives of one
plan run one after another and share nothing but the plan's scratch directory,
the simulated durable storage.  A property module supplies

    gen(rng, tier, index)       -> plan
    life(plan, i, ctx)          -> JSON value     (runs in the forked child)
    judge(plan, values, refs)   -> [{"class", "detail"}]  (runs in the driver)
    ref(key)                    -> JSON value     (pristine process, hashseed 0)
"""

import hashlib
import importlib
import json
import os
import queue
import random
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import traceback
from collections import Counter

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get("SIM_PYTHON", "/opt/venv/bin/python")
WORKERS = int(os.environ.get("SIM_WORKERS", "8"))
# where evidence and replay files go (elsewhere while trying planted bugs)
OUT = os.environ.get("SIM_EVIDENCE", HERE)
LIFE_WALL = float(os.environ.get("SIM_LIFE_WALL", "150"))


def rng_for(*parts):
    return random.Random("|".join(str(p) for p in parts))


def digest(value):
    return hashlib.sha256(
        json.dumps(value, sort_keys=True, default=str).encode()
    ).hexdigest()[:20]


class HarnessError(Exception):
    pass


class ImportFails(Exception):
    """The package cannot be imported in a fresh process."""


class Lost(Exception):
    """A simulated process died or did not come to an end."""


class Failed(Exception):
    """The package raised an error where the run expects a result."""


def last_line(trace):
    return trace.strip().splitlines()[-1][:300]


class Zygote:
    def __init__(self, hashseed, bare=False):
        env = dict(os.environ)
        for k in list(env):
            if k.startswith("VERIF_"):
                del env[k]
        env.update(
            PYTHONHASHSEED=str(hashseed),
            PYTHONDONTWRITEBYTECODE="1",
            MPLBACKEND="Agg",
            OPENBLAS_NUM_THREADS="1",
            OMP_NUM_THREADS="1",
            LANG="C.UTF-8",
            LC_ALL="C.UTF-8",
        )
        self.proc = subprocess.Popen(
            [PY, "-W", "ignore", os.path.join(HERE, "sim", "zygote.py")]
            + (["--bare"] if bare else []),
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            env=env,
            cwd="/",
            start_new_session=True,
        )
        self.lock = threading.Lock()
        self.waiters = {}
        self.counter = 0
        line = self.proc.stdout.readline()
        if not line:
            raise HarnessError("interpreter did not start")
        first = json.loads(line)
        if not first["ready"]:
            raise ImportFails("hash seed %s: %s" % (hashseed, first["trace"][-1500:]))
        threading.Thread(target=self._read, daemon=True).start()

    def _read(self):
        for line in self.proc.stdout:
            msg = json.loads(line)
            with self.lock:
                ev = self.waiters.pop(msg["id"], None)
            if ev:
                ev[1] = msg["status"]
                ev[0].set()
        with self.lock:
            pending, self.waiters = self.waiters, {}
        for ev in pending.values():
            ev[1] = "zygote died"
            ev[0].set()

    def call(self, module, fn, args, wall=LIFE_WALL):
        fd, out = tempfile.mkstemp(prefix="sim_out_")
        os.close(fd)
        os.unlink(out)
        ev = [threading.Event(), None]
        with self.lock:
            self.counter += 1
            rid = self.counter
            self.waiters[rid] = ev
            req = {"id": rid, "module": module, "fn": fn, "args": args, "out": out}
            self.proc.stdin.write((json.dumps(req) + "\n").encode())
            self.proc.stdin.flush()
        timed_out = not ev[0].wait(wall)
        if timed_out:
            with self.lock:
                self.proc.stdin.write((json.dumps({"kill": rid}) + "\n").encode())
                self.proc.stdin.flush()
            ev[0].wait(10)
        try:
            with open(out) as f:
                res = json.load(f)
            os.unlink(out)
            return res
        except FileNotFoundError:
            try:
                os.unlink(out + ".tmp")
            except OSError:
                pass
            if timed_out:
                return {"status": "timeout"}
            return {"status": "died", "wait": ev[1]}

    def close(self):
        try:
            self.proc.stdin.close()
        except OSError:
            pass
        try:
            self.proc.wait(5)
        except subprocess.TimeoutExpired:
            self.proc.kill()
            self.proc.wait()


class Pool:
    """Interpreters by hash seed, started when first needed."""

    def __init__(self):
        self.z = {}
        self.lock = threading.Lock()
        self.starting = {}

    def get(self, hashseed):
        with self.lock:
            if hashseed in self.z:
                return self.z[hashseed]
            ev = self.starting.get(hashseed)
            mine = ev is None
            if mine:
                ev = self.starting[hashseed] = threading.Event()
        if mine:
            try:
                z = Zygote(abs(hashseed), bare=hashseed < 0)
            except BaseException as e:
                z = e
            with self.lock:
                self.z[hashseed] = z
            ev.set()
        else:
            ev.wait()
        z = self.z[hashseed]
        if isinstance(z, BaseException):
            raise z
        return z

    def close(self):
        zs = [z for z in self.z.values() if isinstance(z, Zygote)]
        ts = [threading.Thread(target=z.close) for z in zs]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        self.z, self.starting = {}, {}


class Runner:
    def __init__(self, prop):
        self.prop = prop
        self.mod = importlib.import_module("props." + prop.lower())
        self.pool = Pool()
        self.refs = {}
        self.ref_lock = threading.Lock()
        self.ref_events = {}

    # -- references: results in a pristine process with hash seed 0 ---------
    def ref(self, key):
        k = json.dumps(key, sort_keys=True)
        with self.ref_lock:
            ev = self.ref_events.get(k)
            mine = ev is None
            if mine:
                ev = self.ref_events[k] = threading.Event()
        if mine:
            try:
                res = self.pool.get(0).call("props." + self.prop.lower(), "ref", [key])
            except ImportFails as e:
                res = {"status": "import", "trace": str(e)}
            except BaseException as e:
                res = {"status": "error", "trace": repr(e)}
            self.refs[k] = res
            ev.set()
        else:
            ev.wait()
        res = self.refs[k]
        if res["status"] == "import":
            raise ImportFails(res["trace"])
        if res["status"] in ("died", "timeout"):
            raise Lost("%s alone in a fresh process: %s" % (k, res["status"]))
        if res.get("package"):
            raise Failed("%s alone in a fresh process: %s" % (k, last_line(res["trace"])))
        if res["status"] != "ok":
            raise HarnessError("reference %s: %s" % (k, res.get("trace", res["status"])))
        return res["value"]

    def execute(self, plan):
        """Runs the plan; returns {"violations", "values", "digest"}."""
        try:
            return self._execute(plan)
        except ImportFails as e:
            v = {"class": "import_fails", "detail": str(e)}
        except Lost as e:
            v = {"class": "no_progress", "detail": str(e)}
        except Failed as e:
            v = {"class": "unexpected_error", "detail": str(e)}
        return {"violations": [v], "values": [], "digest": digest(v["class"])}

    def _execute(self, plan):
        refs = {}
        for key in plan.get("refs", []):
            refs[json.dumps(key, sort_keys=True)] = self.ref(key)
        handed = refs if getattr(self.mod, "WANT_REFS", False) else {}
        scratch = tempfile.mkdtemp(prefix="sim_run_")
        values = []
        try:
            for i, life in enumerate(plan["lives"]):
                res = self.pool.get(life["hashseed"]).call(
                    "sim.life", "run", [self.prop, plan, i, scratch, values, handed]
                )
                if res["status"] != "ok":
                    if res["status"] == "died" or res["status"] == "timeout":
                        raise Lost("life %d of %s: %s" % (i, json.dumps(plan)[:600], res))
                    if res.get("package"):
                        raise Failed("life %d: %s" % (i, last_line(res["trace"])))
                    raise HarnessError(res["trace"] + "\nplan: " + json.dumps(plan)[:3000])
                values.append(res["value"])
            violations = self.mod.judge(plan, values, refs)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        return {
            "violations": violations,
            "values": values,
            "digest": digest([v.get("log") for v in values]),
        }

    # -- minimisation ---------------------------------------------------------
    def minimise(self, plan, klass, wall):
        t0 = time.monotonic()
        tried = 0

        def fails(p):
            nonlocal tried
            tried += 1
            try:
                r = self.execute(p)
            except HarnessError:
                return False
            return any(v["class"] == klass for v in r["violations"])

        shrink = getattr(self.mod, "shrink", default_shrink)
        progress = True
        while progress and time.monotonic() - t0 < wall:
            progress = False
            for cand in shrink(plan):
                if time.monotonic() - t0 > wall:
                    break
                fix = getattr(self.mod, "finish_plan", None)
                if fix:
                    cand = fix(cand)
                if fails(cand):
                    plan = cand
                    progress = True
                    break
        return plan, tried

    def close(self):
        self.pool.close()


def default_shrink(plan):
    """Smaller plans: drop chunks of any life's steps, then whole lives."""
    for li in range(len(plan["lives"])):
        steps = plan["lives"][li].get("steps", [])
        n = len(steps)
        size = n // 2 or (1 if n else 0)
        while size >= 1:
            for at in range(0, n, size):
                p = json.loads(json.dumps(plan))
                del p["lives"][li]["steps"][at : at + size]
                yield p
            size //= 2
    for li in range(len(plan["lives"])):
        for si, st in enumerate(plan["lives"][li].get("steps", [])):
            if not isinstance(st, dict):
                continue
            for key in ("fault", "faults"):
                if st.get(key):
                    p = json.loads(json.dumps(plan))
                    del p["lives"][li]["steps"][si][key]
                    yield p


def load_known():
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)["known"]


def check(prop, tier, seed):
    t_start = time.monotonic()
    runner = Runner(prop)
    mod = runner.mod
    conf = mod.TIERS[tier]
    n_runs, wall = conf["runs"], conf["wall"]
    if os.environ.get("SIM_RUNS"):
        n_runs = int(os.environ["SIM_RUNS"])
    if os.environ.get("SIM_WALL"):
        wall = float(os.environ["SIM_WALL"])
    faults, probes, states = Counter(), Counter(), set()
    samples, digests = [], {}
    found = []  # (index, plan, violations)
    errors = []
    known_hit = {}
    known = [k for k in load_known() if k["property"] == prop]
    done = 0
    ticks = 0
    lock = threading.Lock()
    next_i = iter(range(n_runs))
    stop = threading.Event()
    deterministic_twice = 0
    nondet = []

    def worker():
        nonlocal done, ticks, deterministic_twice
        while not stop.is_set():
            with lock:
                if time.monotonic() - t_start > wall and done >= conf.get("min_runs", 1):
                    return
                i = next(next_i, None)
            if i is None:
                return
            try:
                plan = mod.gen(rng_for(prop, seed, tier, i), tier, i)
                plan.setdefault("property", prop)
                plan.setdefault("run", i)
                res = runner.execute(plan)
                again = None
                if i % conf.get("twice_every", 16) == 5 or os.environ.get("SIM_TWICE"):
                    again = runner.execute(plan)
            except HarnessError as e:
                with lock:
                    errors.append(str(e))
                stop.set()
                return
            except BaseException:
                with lock:
                    errors.append(traceback.format_exc())
                stop.set()
                return
            with lock:
                done += 1
                digests[i] = res["digest"]
                for v in res["values"]:
                    faults.update(v.get("faults", {}))
                    probes.update(v.get("probes", {}))
                    ticks += v.get("ticks", 0)
                    states.update(v.get("states", []))
                if len(samples) < 3 and i % 7 == 0:
                    samples.append(plan)
                if again is not None:
                    if again["digest"] == res["digest"]:
                        deterministic_twice += 1
                    else:
                        nondet.append((plan, res, again))
                        stop.set()
                fresh = []
                for v in res["violations"]:
                    k = match_known(known, v)
                    if k is not None:
                        known_hit.setdefault(k["id"], v)
                    else:
                        fresh.append(v)
                if fresh:
                    found.append((i, plan, fresh))
                    stop.set()

    threads = [threading.Thread(target=worker) for _ in range(WORKERS)]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    search_wall = time.monotonic() - t_start

    code = 0
    if found or nondet:
        found.sort(key=lambda x: x[0])
        if found:
            i, plan, violations = found[0]
            klass = violations[0]["class"]
            small, tried = runner.minimise(plan, klass, conf.get("shrink_wall", 40))
        else:
            plan = small = nondet[0][0]
            i, klass, tried, violations = plan["run"], UNREPEATABLE, 0, []
        runner.close()
        # the reported execution is the minimised plan in fresh interpreters
        hit, final = [], None
        try:
            for p in ([small, plan] if small is not plan else [plan]) if found else []:
                final = execute_fresh(prop, p)
                hit = [v for v in final["violations"] if v["class"] == klass]
                if hit:
                    small = p
                    break
            if not hit:
                # the same plan behaves differently from one execution to the next
                small = plan
                first, final, n = repeat(prop, plan, klass)
                if final is not None:
                    hit = [v for v in final["violations"] if v["class"] == klass] or [
                        {"class": UNREPEATABLE, "detail":
                         "equal histories in equal processes give different results: %s"
                         % difference(first, final)}]
                    klass = hit[0]["class"]
        except HarnessError as e:
            errors.append(str(e))
            hit = []
        if hit:
            os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
            path = os.path.join(
                OUT, "replays", "%s-%s-%s.json" % (prop, seed, digest(small)[:8])
            )
            with open(path, "w") as f:
                json.dump(
                    {
                        "property": prop,
                        "verif_seed": seed,
                        "tier": tier,
                        "run": i,
                        "class": klass,
                        "detail": hit[0]["detail"],
                        "digest": final["digest"],
                        "shrink_attempts": tried,
                        "plan": small,
                    },
                    f,
                    indent=1,
                    sort_keys=True,
                )
            print("%s: %s" % (klass, hit[0]["detail"]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            code = 1
        else:
            errors.append(
                "violation of run %d did not reproduce in fresh interpreters: %s"
                % (i, json.dumps(violations)[:2000])
            )
    else:
        runner.close()
    for k in known:
        if k["id"] in known_hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        elif k.get("always"):
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    total_wall = time.monotonic() - t_start
    hours = max(search_wall, 1e-9) / 3600.0
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": int(seed),
        "level": mod.LEVEL,
        "wall_s": round(total_wall, 2),
        "violations": 1 if code else 0,
        "assumptions": mod.ASSUMPTIONS,
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": len(set(digests.values())),
            "rule": mod.RULE,
            "samples": samples[:3],
            "simulated_runs_per_hour": round(done / hours),
            "seeds_per_hour": round(done / hours),
            "simulated_time_ticks": ticks,
            "simulated_time_unit": "executed line events of neutrinomass code in instrumented lives",
            "faults_fired": dict(sorted(faults.items())),
            "probes": dict(sorted(probes.items())),
            "distinct_states": len(states),
            "state_measure": mod.STATE_MEASURE,
            "runs_executed_twice_with_equal_logs": deterministic_twice,
            "hash_seeds": sorted(abs(h) for h in runner_hashseeds(digests, mod, prop, seed, tier)),
            "workers": WORKERS,
            "real_components": mod.REAL,
            "stub_components": mod.STUB,
        },
    }
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
    if code:
        return 1
    missing = [p for p in getattr(mod, "MUST_HIT", {}).get(tier, []) if not (probes.get(p) or faults.get(p))]
    if errors:
        print("HARNESS ERROR:", errors[0][:8000], file=sys.stderr)
        return 2
    if done < conf.get("min_runs", 1):
        print("HARNESS ERROR: only %d runs within the wall budget" % done, file=sys.stderr)
        return 2
    if missing:
        print("WARNING: rare conditions not reached in this batch: %s" % missing)
    print(
        "%s %s: held on %d simulated runs (%d distinct logs, %d states), faults %s, %.1fs"
        % (prop, tier, done, len(set(digests.values())), len(states), dict(faults), total_wall)
    )
    return 0


UNREPEATABLE = "not_repeatable"
REPEATS = 6


def execute_fresh(prop, plan):
    runner = Runner(prop)
    try:
        return runner.execute(plan)
    finally:
        runner.close()


def repeat(prop, plan, klass):
    """Executes a plan in fresh interpreters until two executions differ."""
    first = execute_fresh(prop, plan)
    for n in range(REPEATS):
        again = execute_fresh(prop, plan)
        if again["digest"] != first["digest"] or any(v["class"] == klass for v in again["violations"]):
            return first, again, n
    return first, None, REPEATS


def difference(a, b):
    for i, (x, y) in enumerate(zip(a["values"], b["values"])):
        for n, (p, q) in enumerate(zip(x.get("log", []), y.get("log", []))):
            if p != q:
                return "life %d, record %d: %s and %s" % (i, n, str(p)[:300], str(q)[:300])
    return "%s and %s" % (a["digest"], b["digest"])


def runner_hashseeds(digests, mod, prop, seed, tier):
    seen = set()
    for i in sorted(digests)[:400]:
        plan = mod.gen(rng_for(prop, seed, tier, i), tier, i)
        seen.update(l["hashseed"] for l in plan["lives"])
    return seen


def match_known(known, v):
    for k in known:
        if k["class"] == v["class"] and v.get("key") == k["key"]:
            return k
    return None


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    if rec["class"] == UNREPEATABLE:
        first, res, _ = repeat(rec["property"], rec["plan"], UNREPEATABLE)
        hit = res is not None
        if hit:
            print("%s: %s" % (UNREPEATABLE, difference(first, res)))
        res = res or first
    else:
        res = execute_fresh(rec["property"], rec["plan"])
        for v in res["violations"]:
            print("%s: %s" % (v["class"], v["detail"]))
        hit = any(v["class"] == rec["class"] for v in res["violations"])
    print("digest %s (recorded %s)" % (res["digest"], rec["digest"]))
    if hit:
        print("VIOLATION property=%s replay=%s" % (rec["property"], path))
        return 1
    return 0
