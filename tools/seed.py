#!/usr/bin/env python3
"""seed.py [ID...]: (re)confirm planted changes in a scratch copy of /repo.
For each: applies, builds, passes the stable tests, demo 0 without and non-zero with it."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")


def sh(cmd, cwd, env=None):
    r = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, env=env)
    return r.returncode, r.stdout + r.stderr


def env(repo, w):
    e = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GO111MODULE="on")
    for f in ("mod", "sum"):
        shutil.copy(os.path.join(repo, "go." + f), os.path.join(w, "repo." + f))
    e["GOFLAGS"] = "-mod=mod -modfile=" + os.path.join(w, "repo.mod")
    return e


def confirm(i):
    w = tempfile.mkdtemp(prefix="seed-")
    try:
        repo = os.path.join(w, "repo")
        shutil.copytree("/repo", repo)
        e = env(repo, w)
        d = os.path.join(w, "demo")
        shutil.copytree(os.path.join(S, i), d, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
        rc, out = sh("go build ./... && bash %s/demo.sh" % d, repo)
        if rc:
            return "demo fails on the unchanged tree: " + out[-1500:]
        rc, out = sh("git apply --check %s/patch.diff && git apply %s/patch.diff" % ((os.path.join(S, i),) * 2), repo)
        if rc:
            return "does not apply: " + out
        rc, out = sh("go build ./... && go vet . >/dev/null 2>&1; go build ./...", repo, e)
        if rc:
            return "does not build: " + out[-1500:]
        rc, out = sh("find . -name '*_generated.go' -delete; go generate ./... && go test -json -vet=off -count=1 ./...", repo, e)
        res = {}
        for line in out.split("\n"):
            try:
                x = json.loads(line)
            except ValueError:
                continue
            if x.get("Test") and x["Action"] in ("pass", "fail", "skip"):
                res[x["Package"] + "::" + x["Test"]] = x["Action"]
        base = json.load(open("/opt/vp/BASELINE.json"))
        want = base.get("tests") or base.get("stable") or base
        names = want if isinstance(want, list) else list(want)
        bad = [k for k, v in res.items() if v == "fail"]
        if bad:
            return "fails tests: %s" % bad[:5]
        if sum(v == "pass" for v in res.values()) < 60:
            return "too few tests ran: " + out[-800:]
        rc, out = sh("bash %s/demo.sh" % d, repo)
        if rc == 0:
            return "demo does not fail with the change"
        return None
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    ids = sys.argv[1:] or sorted(os.listdir(S))
    for i in ids:
        r = confirm(i)
        print(i, "ok" if r is None else "NOT OK: " + r)
