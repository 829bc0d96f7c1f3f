"""Property-check runner: sub-checks = (strategy of JSON cases, oracle function)."""
import hashlib, json, os, re, subprocess, sys, time, traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = os.path.realpath(os.path.join(REPO, "OpenNTN"))
EVID = os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
SHRINK_BUDGET = 45.0


class Violation(Exception):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class HarnessError(Exception):
    pass


class StopShrink(BaseException):
    pass


class Sub:
    """name; strategy: () -> hypothesis strategy of a JSON-able dict; fn(case, ctx)."""
    def __init__(self, name, strategy, fn, quick=50, thorough=None, shards=1, weight=1.0,
                 fixed=None):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough = quick, thorough or quick * 8
        self.shards, self.weight, self.fixed = shards, weight, fixed


class Ctx:
    def __init__(self, prop, known):
        self.prop, self.known = prop, known
        self.evals = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.known_hits = {}
        self._nt = False
        self._lab = ()

    def nt(self, cond=True):
        """mark the current case non-trivial"""
        self._nt = self._nt or bool(cond)

    def label(self, *labels):
        for l in labels:
            self.labels[l] = self.labels.get(l, 0) + 1

    def fail(self, msg, key=None):
        if key is not None and key in self.known:
            self.known_hits[key] = msg
            return
        raise Violation(msg, key)

    def check(self, cond, msg, key=None):
        if not bool(cond):
            self.fail(msg() if callable(msg) else msg, key)

    def close(self, got, want, what, rtol=1e-4, atol=1e-5, key=None):
        """element-wise |got-want| <= atol + rtol*|want|, and same shape"""
        import numpy as np
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            self.fail(f"{what}: shape {got.shape}, expected {want.shape}", key)
            return
        if got.size == 0:
            return
        err = np.abs(got - want)
        lim = atol + rtol * np.abs(want)
        bad = ~(err <= lim)
        both_inf = np.isinf(got) & np.isinf(want) & (got == want) if not np.iscomplexobj(got) else False
        bad = bad & ~both_inf if both_inf is not False else bad
        if bad.any():
            i = np.unravel_index(np.argmax(np.where(bad, np.nan_to_num(err - lim, nan=np.inf, posinf=1e300), -1)), got.shape)
            self.fail(f"{what}: {int(bad.sum())}/{got.size} entries differ; at {tuple(int(x) for x in i)} "
                      f"got {got[i]} expected {want[i]}", key)


def known_keys(prop):
    keys = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding:"):
                f = dict(p.split("=", 1) for p in line.split()[1:3])
                if f.get("property") == prop:
                    keys[f["key"]] = line.split(None, 3)[3]
    return keys


def repo_frames(e):
    """file:function of each frame of the exception that lies in the code under test. TensorFlow raises errors of traced and
    compiled code anew and lists the original frames in the message only."""
    fr = [(f.filename, f.name) for f in traceback.extract_tb(e.__traceback__)]
    fr += re.findall(r'File "([^"]+)", line \d+, in (\S+)', str(e))
    out = []
    for fn, name in fr:
        try:
            if os.path.realpath(fn).startswith(PKG + os.sep):
                out.append(f"{os.path.basename(fn)}:{name}")
        except (OSError, ValueError):
            pass
    return out


def run_case(sub, case, ctx):
    ctx._nt = False
    ctx.evals += 1
    try:
        sub.fn(case, ctx)
    except Violation:
        raise
    except Exception as e:
        if type(e).__module__.startswith("hypothesis"):
            raise
        locs = repo_frames(e)
        if locs and not isinstance(e, MemoryError) and type(e).__name__ != "ResourceExhaustedError":
            loc = locs[-1]
            ctx.fail(f"code under test raised {type(e).__name__} in {loc}: {str(e)[:300]}", key=f"raise:{loc}:{type(e).__name__}")
        else:
            raise HarnessError(f"{sub.name}: {type(e).__name__}: {e}\n" + traceback.format_exc())
    if ctx._nt:
        h = hashlib.sha1((sub.name + json.dumps(case, sort_keys=True)).encode()).hexdigest()[:16]
        if h not in ctx.nontrivial:
            ctx.nontrivial.add(h)
            if len(ctx.nontrivial) in (3, 30, 300):
                ctx.samples.append({"sub": sub.name, "case": _short(case)})


def _short(c):
    s = json.dumps(c)
    return c if len(s) < 900 else s[:900] + "..."


def load(prop):
    import importlib
    for f in sorted(os.listdir(os.path.join(ROOT, "checks"))):
        if f.startswith(prop.lower() + "_") and f.endswith(".py"):
            return importlib.import_module("checks." + f[:-3])
    raise HarnessError("no check for " + prop)


def run_sub(prop, sub, shard, tier, seed, deadline):
    """run one (sub, shard) with Hypothesis; returns a result dict"""
    from . import deps
    deps.ensure()
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.internal.conjecture import engine
    # Hypothesis follows every random example by up to five mutants that duplicate parts of it; with
    # a few hundred expensive cases that skews the classes badly, so every example is drawn afresh.
    if hasattr(engine.ConjectureRunner, "generate_mutations_from"):
        engine.ConjectureRunner.generate_mutations_from = lambda self, data: None
    n = sub.quick if tier == "quick" else sub.thorough
    n = max(1, -(-n // sub.shards))
    ctx = Ctx(prop, known_keys(prop))
    res = {"sub": sub.name, "shard": shard, "violation": None, "error": None, "skipped": 0}
    state = {"fails": [], "t0": None, "skipped": 0}

    def body(case):
        if state["t0"] is None and time.time() > deadline:
            state["skipped"] += 1
            return
        try:
            run_case(sub, case, ctx)
        except Violation as v:
            state["fails"].append((case, str(v)))
            if state["t0"] is None:
                state["t0"] = time.time()
            raise
        finally:
            if state["t0"] is not None and time.time() - state["t0"] > SHRINK_BUDGET:
                raise StopShrink()

    t0 = time.time()
    try:
        if sub.fixed is not None and shard == 0:
            for case in sub.fixed:
                body(case)
        if sub.strategy is not None:
            test = given(sub.strategy())(lambda case: body(case))
            test = settings(max_examples=n, database=None, deadline=None, print_blob=False,
                            report_multiple_bugs=False, derandomize=False,
                            suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                                   HealthCheck.large_base_example],
                            phases=[Phase.generate, Phase.shrink])(test)
            sid = int(hashlib.sha1(f"{prop}/{sub.name}/{shard}/{seed}".encode()).hexdigest()[:12], 16)
            test = hypothesis.seed(sid)(test)
            test()
    except (Violation, StopShrink):
        pass
    except HarnessError as e:
        res["error"] = str(e)
    except hypothesis.errors.HypothesisException as e:
        if not state["fails"]:
            res["error"] = f"{sub.name}: {type(e).__name__}: {e}"
    except Exception as e:
        if not state["fails"]:
            res["error"] = f"{sub.name}: {type(e).__name__}: {e}\n{traceback.format_exc()}"
    if state["fails"]:
        case, msg = min(state["fails"], key=lambda x: (len(json.dumps(x[0])), json.dumps(x[0])))
        res["violation"] = {"case": case, "msg": msg}
    res.update(evals=ctx.evals, nontrivial=sorted(ctx.nontrivial), labels=ctx.labels,
               samples=ctx.samples, known=ctx.known_hits, skipped=state["skipped"],
               wall=round(time.time() - t0, 2))
    return res


def worker(prop, tier, seed, tasks, out, deadline):
    from . import deps
    deps.ensure()
    mod = load(prop)
    subs = {s.name: s for s in mod.SUBS}
    results = []
    for name, shard in tasks:
        try:
            results.append(run_sub(prop, subs[name], shard, tier, seed, deadline))
        except BaseException as e:
            results.append({"sub": name, "shard": shard, "error": f"{type(e).__name__}: {e}\n{traceback.format_exc()}",
                            "violation": None, "evals": 0, "nontrivial": [], "labels": {}, "samples": [],
                            "known": {}, "skipped": 0, "wall": 0})
    with open(out, "w") as f:
        json.dump(results, f)


ENV = dict(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TF_CPP_MIN_LOG_LEVEL="3",
           CUDA_VISIBLE_DEVICES="", MPLBACKEND="Agg", TF_NUM_INTRAOP_THREADS="1",
           TF_NUM_INTEROP_THREADS="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
           TF_ENABLE_ONEDNN_OPTS="0", LANG="C.UTF-8", LC_ALL="C.UTF-8")


def env():
    e = dict(os.environ)
    e.update(ENV)
    return e


def main(prop, tier=None, only=None):
    t0 = time.time()
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from . import deps
    deps.ensure()
    mod = load(prop)
    tasks = []
    for s in mod.SUBS:
        if only and s.name not in only:
            continue
        n = s.quick if tier == "quick" else s.thorough
        for k in range(s.shards):
            tasks.append((s.weight * n / s.shards, s.name, k))
    tasks.sort(key=lambda t: (-t[0], t[1], t[2]))
    nw = min(int(os.environ.get("VERIF_WORKERS", "7")), len(tasks))
    bins = [[0.0, []] for _ in range(nw)]
    for w, n, k in tasks:
        b = min(bins, key=lambda b: b[0])
        b[0] += w
        b[1].append((n, k))
    budget = 480 if tier == "quick" else 3 * 3600
    deadline = t0 + budget
    import tempfile
    tmp = tempfile.mkdtemp(prefix="verif_")
    procs = []
    for i, (_, ts) in enumerate(bins):
        out = os.path.join(tmp, f"{i}.json")
        log = open(os.path.join(tmp, f"{i}.log"), "w")
        p = subprocess.Popen([sys.executable, os.path.join(ROOT, "run.py"), "_worker", prop, tier,
                              str(seed), json.dumps(ts), out, str(deadline)],
                             cwd=ROOT, env=env(), stdout=log, stderr=subprocess.STDOUT)
        procs.append((p, out, log.name, ts))
    results, errors = [], []
    for p, out, log, ts in procs:
        try:
            p.wait(timeout=max(1, deadline + 300 - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        if os.path.exists(out):
            results += json.load(open(out))
        else:
            errors.append(f"worker {ts} died rc={p.returncode}: " + open(log).read()[-2000:])
    import shutil
    shutil.rmtree(tmp, ignore_errors=True)

    errors += [r["error"] for r in results if r["error"]]
    viol = [r for r in results if r["violation"]]
    nont = set()
    labels, known = {}, {}
    samples, per = [], {}
    for r in sorted(results, key=lambda r: (r["sub"], r["shard"])):
        nont |= set(r["nontrivial"])
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        known.update(r["known"])
        p = per.setdefault(r["sub"], {"evaluations": 0, "nontrivial": 0, "wall_s": 0, "not_run_time_budget": 0})
        p["evaluations"] += r["evals"]
        p["nontrivial"] += len(r["nontrivial"])
        p["wall_s"] = round(p["wall_s"] + r["wall"], 2)
        p["not_run_time_budget"] += r["skipped"]
        if r["shard"] == 0:
            samples += r["samples"][:2]
    kk = known_keys(prop)
    for k in sorted(known):
        print(f"KNOWN-FINDING: property={prop} key={k} {kk.get(k, '')} [{known[k][:200]}]")
    os.makedirs(EVID, exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": sum(r["evals"] for r in results), "distinct_nontrivial": len(nont),
                       "rule": mod.RULE, "samples": samples[:12], "per_subcheck": per, "labels": labels},
          "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "known_findings_seen": sorted(known),
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    rc = 0
    if viol:
        os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
        viol.sort(key=lambda r: (r["sub"], r["shard"]))
        done = set()
        for r in viol:
            if r["sub"] in done:
                continue
            done.add(r["sub"])
            path = os.path.join(EVID, "replay", f"{prop}-{r['sub']}.json")
            with open(path, "w") as f:
                json.dump({"property": prop, "sub": r["sub"], "message": r["violation"]["msg"],
                           "case": r["violation"]["case"]}, f, indent=1)
            print(f"  {r['sub']}: {r['violation']['msg'][:600]}")
            print(f"VIOLATION property={prop} replay={path}")
        rc = 1
    elif errors:
        rc = 2
    for e in errors[:2]:
        print("HARNESS-ERROR:", e[:300], "...", e[-700:], file=sys.stderr)
    print(f"{prop} {tier} seed={seed}: {ev['coverage']['evaluations']} cases, {len(nont)} distinct non-trivial, "
          f"{len(viol)} violating sub-checks, {ev['wall_s']} s")
    if os.environ.get("VERIF_VERBOSE"):
        print("; ".join(f"{k}: {v['evaluations']} ({v['nontrivial']} nt) {v['wall_s']}s skipped {v['not_run_time_budget']}" for k, v in per.items()), labels)
    return rc


def replay(path):
    from . import deps
    deps.ensure()
    d = json.load(open(path))
    mod = load(d["property"])
    sub = {s.name: s for s in mod.SUBS}[d["sub"]]
    ctx = Ctx(d["property"], known_keys(d["property"]))
    try:
        run_case(sub, d["case"], ctx)
    except Violation as v:
        print("  " + str(v))
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    print("replay: property held", ctx.known_hits or "")
    return 0
