"""Development aid: confirm planted bugs in a scratch copy of /repo bound over /repo in a private mount namespace.

usage: plant.py make SPEC.py     write seeded/<id>/ for each bug of SPEC.py (BUGS = [dict(id, property, needs, breaks,
                                 edits=[(file, old, new)], demo)])
       plant.py try ID [--no-suite] [--checks P01,P02] [--tier quick]
"""
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
cd /repo || exit 2
export PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1 DATAPROFILER_SEED=0 CUDA_VISIBLE_DEVICES=-1 TF_CPP_MIN_LOG_LEVEL=3
exec /opt/venv/bin/python -W ignore "$D/demo.py"
'''


def scratch(name):
    d = "/tmp/plant/" + name
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/plant", exist_ok=True)
    subprocess.check_call(["cp", "-a", "/repo", d])
    subprocess.check_call("git checkout -q -- . && git clean -fdq", shell=True, cwd=d)
    return d


def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    for b in ns["BUGS"]:
        d = scratch(b["id"])
        for f, old, new, *nth in b["edits"]:
            p = os.path.join(d, f)
            s = open(p).read()
            parts = s.split(old)
            assert nth or len(parts) == 2, (b["id"], f, len(parts) - 1, old)
            k = nth[0] if nth else 1
            open(p, "w").write(old.join(parts[:k]) + new + old.join(parts[k:]))
        diff = subprocess.check_output(["git", "diff"], cwd=d, text=True)
        out = os.path.join(ROOT, "seeded", b["id"])
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.sh", "w").write(SH)
        os.chmod(out + "/demo.sh", 0o755)
        open(out + "/demo.py", "w").write(b["demo"].lstrip())
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(out + "/meta.json", "w"), indent=1)
        shutil.rmtree(d)
        print("made", b["id"])


def ns(d, cmd, **kw):
    return subprocess.run(["unshare", "-m", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (d, cmd)],
                          text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def trial(bug, suite=True, checks=None, tier="quick", fast=None):
    src = os.path.join(ROOT, "seeded", bug)
    meta = json.load(open(src + "/meta.json"))
    d = scratch(bug)
    demo = "bash %s/demo.sh" % src
    res = []
    r = ns(d, demo)
    res.append("clean-demo=%d" % r.returncode)
    if r.returncode:
        print(r.stdout[-1500:])
    subprocess.check_call(["git", "apply", src + "/patch.diff"], cwd=d)
    r = ns(d, demo)
    res.append("bug-demo=%d" % r.returncode)
    if not r.returncode:
        print(r.stdout[-1500:])
    print(bug, "demo:", (r.stdout.strip().splitlines() or ["-"])[-1][:200])
    if suite:
        out = "/tmp/plant/%s.json" % bug
        r = ns(d, "bash /opt/vp/build.sh && bash /opt/vp/test.sh " + out)
        try:
            b = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            ok = set(json.load(open(out))["passed"])
            miss = [t for t in b if t not in ok]
        except Exception as e:
            miss = [repr(e), r.stdout[-500:]]
        res.append("suite=%s" % (("FAIL %d %s" % (len(miss), miss[:4])) if miss else "ok"))
    if fast:
        r = ns(d, "PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 DATAPROFILER_SEED=0 CUDA_VISIBLE_DEVICES=-1 "
                  "timeout 600 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 6 --timeout=300 %s" % fast)
        b = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        bad = [x.split()[1] for x in r.stdout.splitlines() if x.startswith(("FAILED", "ERROR"))]
        bad = [x.split("::") for x in bad]
        bad = [x[0][:-3].replace("/", ".") + "." + "::".join(x[1:]) for x in bad]
        bad = [x for x in bad if x in b]
        res.append("fast=%s" % (("FAIL %d %s" % (len(bad), bad[:4])) if bad else "ok " + r.stdout.splitlines()[-1][:60]))
    for c in checks or [meta["property"]]:
        r = ns(d, "cd %s && VERIF_SEED=1 python3 check.py %s --tier %s" % (ROOT, c, tier))
        v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
        res.append("%s=%s" % (c, {0: "missed", 1: "CAUGHT"}.get(r.returncode, "error %d %s" % (r.returncode, r.stdout[-300:]))))
        for x in v[:2]:
            print("  ", x[:200])
    print(bug, *res, flush=True)
    shutil.rmtree(d)


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2])
    else:
        a = sys.argv[2:]
        ch = a[a.index("--checks") + 1].split(",") if "--checks" in a else None
        tier = a[a.index("--tier") + 1] if "--tier" in a else "quick"
        names = [x for x in a[0].split(",")]
        if names == ["all"]:
            names = sorted(os.listdir(os.path.join(ROOT, "seeded")))
        fast = a[a.index("--fast") + 1] if "--fast" in a else None
        for n in names:
            trial(n, "--no-suite" not in a and not fast, ch, tier, fast)
