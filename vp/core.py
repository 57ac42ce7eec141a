"""Property-check engine: generated-input search with Hypothesis, sharded over processes.

A property module (vp/checks/pXX.py) registers sub-checks.  A sub-check is a strategy of
JSON-able *cases* and a `run(case, ctx)` that executes the real code and compares it with an
oracle; any exception it lets out counts as a violation.  Cases being plain JSON, the shrunk
failing case is the replay file.
"""
import argparse
import hashlib
import importlib
import json
import math
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_TIMEOUT = 150  # seconds; a case normally takes well under one


class Violation(AssertionError):
    def __init__(self, key, msg=""):
        super().__init__("%s: %s" % (key, msg))
        self.key = key
        self.msg = msg


class Hang(Exception):
    pass


class Skip(Exception):
    """The case falls outside the sub-check's domain (counted, not judged)."""


class Ctx:
    """Per-case notes for the evidence."""

    def __init__(self):
        self.labels = set()
        self.nontrivial = False

    def label(self, name):
        self.labels.add(str(name))

    def nt(self, cond=True):
        if cond:
            self.nontrivial = True

    def fail(self, key, msg=""):
        raise Violation(key, msg)

    def check(self, cond, key, msg=""):
        if not cond:
            raise Violation(key, msg() if callable(msg) else msg)


class Sub:
    def __init__(self, name, strategy, run, quick, thorough, serial=False, cap=None):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough = quick, thorough
        self.cap = cap


class Prop:
    def __init__(self, pid, rule, assumptions=()):
        self.pid, self.rule = pid, rule
        self.assumptions = list(assumptions)
        self.subs = []
        self.corpus = []  # (subname, case) explicit boundary cases

    def sub(self, name, strategy, quick=200, thorough=4000, cap=None):
        def deco(fn):
            self.subs.append(Sub(name, strategy, fn, quick, thorough, cap=cap))
            return fn

        return deco

    def explicit(self, subname, *cases):
        for c in cases:
            self.corpus.append((subname, c))


def load_prop(pid):
    return importlib.import_module("vp.checks.%s" % pid.lower()).PROP


# ---------------------------------------------------------------- JSON helpers
def _default(o):
    import numpy as np

    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.floating):
        return float(o)
    if isinstance(o, (set, frozenset, tuple)):
        return list(o)
    raise TypeError(type(o))


def dumps(o, **kw):
    return json.dumps(o, default=_default, **kw)


def norm_case(case):
    return json.loads(dumps(case))


def case_hash(case):
    return hashlib.sha256(dumps(case, sort_keys=True).encode("utf-8", "surrogatepass")).hexdigest()[:16]


# ---------------------------------------------------------------- known findings
def load_known(pid):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [k for k in data.get("known", []) if k["property"] == pid]


def match_known(known, sub, exc):
    key = exc.key if isinstance(exc, Violation) else None
    for k in known:
        if k["sub"] == sub and key is not None and key == k["key"]:
            return k
    return None


# ---------------------------------------------------------------- one case
def _alarm(signum, frame):
    raise Hang("case exceeded %d s" % CASE_TIMEOUT)


def run_case(sub, case, ctx=None):
    """Run one case; returns None or the exception that condemns it."""
    from vp import sut

    ctx = ctx or Ctx()
    sut.reset()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        sub.run(norm_case(case), ctx)
        return None
    except Skip:
        ctx.label("skipped")
        return None
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException as e:  # noqa: B902
        if type(e).__module__.startswith("hypothesis"):
            raise
        return e
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def describe(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    where = ["%s:%d %s" % (f.filename, f.lineno, f.name) for f in tb[-4:]]
    return {"type": type(exc).__name__, "key": getattr(exc, "key", type(exc).__name__),
            "message": str(exc)[:3000], "where": where}


# ---------------------------------------------------------------- worker
def worker(pid, tier, seed, shard, nshards, out, wall_cap, only=None):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    prop = load_prop(pid)
    known = load_known(pid)
    from vp import sut  # noqa: F401  (imports dataprofiler)

    t_start = time.time()
    res = {"evaluations": 0, "nontrivial": [], "labels": {}, "samples": [], "subs": {},
           "failures": [], "known_hits": {}, "capped": [], "errors": [], "skipped": 0}
    seen = set()

    def flush():
        r = dict(res)
        with open(out + ".tmp", "w") as f:
            f.write(dumps(r))
        os.replace(out + ".tmp", out)

    def account(sub, case, ctx):
        h = case_hash(case)
        res["evaluations"] += 1
        s = res["subs"].setdefault(sub.name, {"n": 0, "nontrivial": 0})
        s["n"] += 1
        if "skipped" in ctx.labels:
            res["skipped"] += 1
        for lab in ctx.labels:
            k = sub.name + "/" + lab
            res["labels"][k] = res["labels"].get(k, 0) + 1
        if ctx.nontrivial:
            s["nontrivial"] += 1
            if h not in seen:
                seen.add(h)
                res["nontrivial"].append(h)
                txt = dumps(case)
                if len(txt) < 1500 and sum(1 for x in res["samples"] if x["sub"] == sub.name) < 2:
                    if s["nontrivial"] > 5 or s["n"] > 20:
                        res["samples"].append({"sub": sub.name, "case": case})
        return h

    # explicit boundary / regression cases, spread over the shards
    subs = {s.name: s for s in prop.subs}
    corpus = list(prop.corpus)
    cdir = os.path.join(HERE, "corpus", pid)
    if os.path.isdir(cdir):
        for fn in sorted(os.listdir(cdir)):
            with open(os.path.join(cdir, fn)) as f:
                d = json.load(f)
            corpus.append((d["sub"], d["case"]))
    failed_subs = set()
    for i, (sname, case) in enumerate(corpus):
        if i % nshards != shard or (only and sname not in only) or sname in failed_subs:
            continue
        sub = subs[sname]
        ctx = Ctx()
        exc = run_case(sub, case, ctx)
        account(sub, case, ctx)
        if exc is not None:
            k = match_known(known, sname, exc)
            if k:
                res["known_hits"][k["id"]] = res["known_hits"].get(k["id"], 0) + 1
            else:
                failed_subs.add(sname)
                res["failures"].append({"sub": sname, "case": case, "exc": describe(exc)})
    flush()

    for si, sub in enumerate(prop.subs):
        if only and sub.name not in only:
            continue
        if sub.name in failed_subs:
            continue
        total = sub.quick if tier == "quick" else sub.thorough
        n = max(1, math.ceil(total / nshards))
        # each sub may use an equal share of what is left of the wall budget
        left = max(1.0, wall_cap - (time.time() - t_start))
        share = left / max(1, len(prop.subs) - si) * (1.6 if si + 1 < len(prop.subs) else 1.0)
        if sub.cap:
            share = min(share, sub.cap)
        deadline = time.time() + share
        state = {"fail": {}, "last": None, "shrink_until": None, "capped": False}

        def body(case):
            h = None
            if state["shrink_until"] is not None:
                h = case_hash(case)
                if h in state["fail"]:
                    state["last"] = h
                    raise Violation(*state["fail"][h][1])
                if time.time() > state["shrink_until"]:
                    return
            elif time.time() > deadline:
                state["capped"] = True
                return
            ctx = Ctx()
            exc = run_case(sub, case, ctx)
            h2 = account(sub, case, ctx)
            if exc is None:
                return
            k = match_known(known, sub.name, exc)
            if k:
                res["known_hits"][k["id"]] = res["known_hits"].get(k["id"], 0) + 1
                return
            d = describe(exc)
            state["fail"][h2] = ((case, d), (d["key"], d["message"]))
            state["last"] = h2
            if state["shrink_until"] is None:
                state["shrink_until"] = time.time() + (25 if tier == "quick" else 90)
                flush()
            raise Violation(d["key"], d["message"])

        sd = int(hashlib.sha256(("%s/%s/%s/%d" % (pid, sub.name, seed, shard)).encode()).hexdigest()[:12], 16)
        st = sub.strategy() if callable(sub.strategy) else sub.strategy
        test = given(st)(body)
        test = hypothesis.seed(sd)(test)
        test = settings(max_examples=n, deadline=None, database=None, derandomize=False,
                        report_multiple_bugs=False, print_blob=False,
                        phases=[Phase.generate, Phase.shrink],
                        suppress_health_check=list(HealthCheck))(test)
        try:
            with open(os.devnull, "w") as devnull:
                so, sys.stdout = sys.stdout, devnull
                try:
                    test()
                finally:
                    sys.stdout = so
        except BaseException as e:  # noqa: B902
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            if not state["fail"]:
                res["errors"].append({"sub": sub.name, "error": "%s: %s" % (type(e).__name__, str(e)[:2000]),
                                      "tb": traceback.format_exc()[-3000:]})
        if state["fail"]:
            best = state["fail"].get(state["last"]) or next(iter(state["fail"].values()))
            small = min(state["fail"].values(), key=lambda v: len(dumps(v[0][0])))
            pick = small if len(dumps(small[0][0])) < len(dumps(best[0][0])) else best
            (case, d), _ = pick
            res["failures"].append({"sub": sub.name, "case": case, "exc": d})
        if state["capped"]:
            res["capped"].append(sub.name)
        flush()
    res["done"] = True
    flush()


# ---------------------------------------------------------------- parent
def write_evidence(prop, tier, seed, agg, wall, violations, level_extra=None):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {
        "property": prop.pid, "tier": tier, "seed": int(seed), "level": "exploration",
        "coverage": {
            "evaluations": agg["evaluations"],
            "distinct_nontrivial": agg["nontrivial"],
            "rule": prop.rule,
            "samples": agg["samples"][:8],
            "per_subcheck": agg["subs"],
            "labels": agg["labels"],
            "skipped_out_of_domain": agg["skipped"],
            "time_capped_subchecks": agg["capped"],
        },
        "assumptions": prop.assumptions,
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    path = os.path.join(HERE, "evidence", prop.pid + ".json")
    with open(path, "w") as f:
        f.write(dumps(ev, indent=1))


def replay(pid, path):
    prop = load_prop(pid)
    with open(path) as f:
        d = json.load(f)
    sub = {s.name: s for s in prop.subs}[d["sub"]]
    exc = run_case(sub, d["case"])
    if exc is None:
        print("replay: property %s held on %s" % (pid, path))
        return 0
    if match_known(load_known(pid), d["sub"], exc):
        print("KNOWN-FINDING: property=%s %s" % (pid, str(exc)[:300]))
        return 0
    traceback.print_exception(type(exc), exc, exc.__traceback__)
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VERIF_WORKERS", "8")))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--worker", nargs=2)
    ap.add_argument("--cap", type=float)
    a = ap.parse_args(argv)
    pid = a.prop.upper()
    tier = "thorough" if a.tier == "thorough" else "quick"
    try:
        seed = int(a.seed)
    except ValueError:
        seed = int(hashlib.sha256(a.seed.encode()).hexdigest()[:8], 16)
    cap = a.cap or (150.0 if tier == "quick" else 780.0)
    only = set(a.only.split(",")) if a.only else None
    if a.replay:
        return replay(pid, a.replay)
    if a.worker:
        shard, nshards = map(int, a.worker[0].split("/"))
        worker(pid, tier, seed, shard, nshards, a.worker[1], cap, only)
        return 0

    t0 = time.time()
    prop = load_prop(pid)
    tmp = tempfile.mkdtemp(prefix="vp-%s-" % pid)
    procs = []
    hard = cap + 260
    try:
        env = dict(os.environ, VP_TMP=tmp, TMPDIR=tmp)
        for i in range(a.workers):
            out = os.path.join(tmp, "w%d.json" % i)
            cmd = [sys.executable, os.path.join(HERE, "check.py"), pid, "--tier", tier, "--seed", str(seed),
                   "--cap", str(cap), "--worker", "%d/%d" % (i, a.workers), out]
            if a.only:
                cmd += ["--only", a.only]
            log = open(os.path.join(tmp, "w%d.log" % i), "w")
            procs.append((subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=env,
                                           cwd=tmp, start_new_session=True), out, log))
        hung = False
        for p, out, log in procs:
            try:
                p.wait(timeout=max(5, hard - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                hung = True
            log.close()
        for p, out, log in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        agg = {"evaluations": 0, "nontrivial": 0, "samples": [], "subs": {}, "labels": {}, "capped": [],
               "skipped": 0}
        nts, failures, known_hits, errors = set(), [], {}, []
        for i, (p, out, log) in enumerate(procs):
            if not os.path.exists(out):
                tail = open(os.path.join(tmp, "w%d.log" % i)).read()[-3000:]
                errors.append({"sub": "worker", "error": "worker %d died (rc=%s)" % (i, p.poll()), "tb": tail})
                continue
            r = json.load(open(out))
            if not r.get("done"):
                tail = open(os.path.join(tmp, "w%d.log" % i)).read()[-3000:]
                errors.append({"sub": "worker", "error": "worker %d unfinished (rc=%s)" % (i, p.poll()), "tb": tail})
            agg["evaluations"] += r["evaluations"]
            agg["skipped"] += r["skipped"]
            nts.update(r["nontrivial"])
            agg["samples"] += r["samples"]
            for k, v in r["subs"].items():
                s = agg["subs"].setdefault(k, {"n": 0, "nontrivial": 0})
                s["n"] += v["n"]
                s["nontrivial"] += v["nontrivial"]
            for k, v in r["labels"].items():
                agg["labels"][k] = agg["labels"].get(k, 0) + v
            for k, v in r["known_hits"].items():
                known_hits[k] = known_hits.get(k, 0) + v
            failures += r["failures"]
            errors += r["errors"]
            agg["capped"] = sorted(set(agg["capped"]) | set(r["capped"]))
        agg["nontrivial"] = len(nts)
        # spread the samples over the sub-checks
        by = {}
        for s in agg["samples"]:
            by.setdefault(s["sub"], []).append(s)
        agg["samples"] = [v[0] for v in by.values()] + [x for v in by.values() for x in v[1:]]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    vio = []
    rdir = os.path.join(HERE, "replays")
    bysub = {}
    for f in failures:
        cur = bysub.get(f["sub"])
        if cur is None or len(dumps(f["case"])) < len(dumps(cur["case"])):
            bysub[f["sub"]] = f
    for f in bysub.values():
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s-%s.json" % (pid, f["sub"], case_hash(f["case"])))
        with open(path, "w") as fh:
            fh.write(dumps({"property": pid, "sub": f["sub"], "case": f["case"], "violation": f["exc"]}, indent=1))
        vio.append({"sub": f["sub"], "replay": path, "exc": f["exc"]})
    write_evidence(prop, tier, seed, agg, time.time() - t0,
                   [{"replay": v["replay"], "what": v["exc"]["message"][:500]} for v in vio])
    for e in {(x["sub"], x["error"]): x for x in errors}.values():
        print("HARNESS-ERROR sub=%s %s\n%s" % (e["sub"], e["error"], e["tb"][-1500:]), file=sys.stderr)
    for k in load_known(pid):
        print("KNOWN-FINDING: property=%s %s (%s; hit %d times)" % (pid, k["id"], k["what"], known_hits.get(k["id"], 0)))
    print("%s tier=%s seed=%s: %d cases, %d distinct non-trivial, %.1fs%s" % (
        pid, tier, seed, agg["evaluations"], agg["nontrivial"], time.time() - t0,
        " (time-capped: %s)" % ",".join(agg["capped"]) if agg["capped"] else ""))
    for v in vio:
        print("  %s: %s\n    at %s" % (v["sub"], v["exc"]["message"][:1200], " <- ".join(reversed(v["exc"]["where"]))))
    if vio:
        for v in vio:
            print("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
        return 1
    if errors:
        return 2
    return 0
