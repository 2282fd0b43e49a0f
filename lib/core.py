"""Machinery shared by the checks: TLC runs, driver builds, replay and reporting.

A check runs TLC on a specification of /verif/spec; behaviours the specification
allows are written by TLC as vectors (one JSON object per line).  The driver,
built from /repo's current tree, replays every vector in the real code and
reports contradictions.  Only contradictions that reproduce in a fresh process
become violations; everything that goes wrong in the machinery is exit 2."""
import concurrent.futures
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4


class Trouble(Exception):
    """A defect of the machinery: exit 2, never a violation."""


def tla(v):
    """A Python value as a TLA+ constant expression usable in a .cfg file."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla(x) for x in sorted(v)) + "}"
    raise Trouble("no cfg syntax for %r" % (v,))


def torn(path):
    """Whether some line of a vectors file is not a value of its own."""
    with open(path, "rb") as f:
        lines = [l for l in f if len(l) > 1]
    if all(len(l) < 8192 for l in lines):
        return False
    for l in lines:
        try:
            json.loads(l)
        except ValueError:
            return True
    return False


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.states = self.transitions = self.traces = self.vectors = 0
        self.samples, self.notes, self.tlcruns = [], [], []
        self.bad = []                  # (mode, result, binary)
        self.stats = {}
        self.binaries = {}
        self.assumptions = []
        self.known = []

    def path(self, *p):
        return os.path.join(self.scratch, *p)

    def cleanup(self):
        for _ in range(3):
            shutil.rmtree(self.scratch, ignore_errors=True)
            if not os.path.exists(self.scratch):
                return
            time.sleep(0.2)

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    # ------------------------------------------------------------ TLC
    def tlc(self, name, module, consts, sim=None, depth=None, workers=1, invariants=(), properties=(),
            constraint=None, spec="Spec", postcondition=None, timeout=None, heap="3g", seed=0, env=None, out=True,
            files=(), view=None):
        """Run TLC once; returns the vectors file.  sim: number of behaviours (simulation), else exhaustive."""
        d = self.path("tlc-" + name)
        os.makedirs(d)
        vec = os.path.join(d, "vectors.ndjson")
        open(vec, "w").close()
        consts = dict(consts)
        if out:
            consts["OutFile"] = vec
        cfg = ["SPECIFICATION " + spec, "CHECK_DEADLOCK FALSE"]
        cfg += ["INVARIANT " + i for i in invariants] + ["PROPERTY " + p for p in properties]
        if constraint:
            cfg.append("CONSTRAINT " + constraint)
        if postcondition:
            cfg.append("POSTCONDITION " + postcondition)
        if view:
            cfg.append("VIEW " + view)
        if consts:
            cfg.append("CONSTANTS")
            for k, v in consts.items():
                cfg.append("  %s <- %s" % (k, v[1:]) if isinstance(v, str) and v.startswith("<") else "  %s = %s" % (k, tla(v)))
        cfgp = os.path.join(d, module + ".cfg")
        with open(cfgp, "w") as f:
            f.write("\n".join(cfg) + "\n")
        # -Xss: the deep recursion of semantic operators
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + d,
               "-cp", JARS, "tlc2.TLC", "-config", cfgp, "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
               "-workers", str(workers), "-fp", "1"]
        if sim is not None:
            cmd += ["-simulate", "num=%d" % sim, "-depth", str(depth or 100000), "-seed", str(self.seed * 1000 + seed + 1)]
        cmd.append(os.path.join(SPEC, module + ".tla"))
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        limit = timeout or (500 if self.quick else 3000)
        t = time.time()
        logp = os.path.join(d, "log")
        with open(logp, "w") as log:
            p = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, cwd=d, env=e, start_new_session=True)
            try:
                rc = p.wait(limit)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                raise Trouble("TLC %s did not end within %ds" % (name, limit))
        text = open(logp, errors="replace").read()
        if rc != 0:
            raise Trouble("TLC %s failed (rc %d):\n%s" % (name, rc, tail(text)))
        gen = re.findall(r"^([\d,]+) states generated, ([\d,]+) distinct", text, re.M)
        if gen:
            g, s = (int(x.replace(",", "")) for x in gen[-1])
        else:
            m = re.findall(r"number of states generated: ([\d,]+)", text)
            if not m:
                raise Trouble("TLC %s: no statistics\n%s" % (name, tail(text)))
            g = s = int(m[-1].replace(",", ""))
        self.states += s
        self.transitions += g
        self.tlcruns.append({"run": name, "module": module, "mode": "simulation" if sim is not None else "exhaustive",
                             "states": s, "transitions": g, "wall_s": round(time.time() - t, 1),
                             "constants": {k: sorted(v) if isinstance(v, (set, frozenset)) else v for k, v in consts.items() if k != "OutFile"}})
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        if out and workers > 1 and torn(vec):
            # CSVWrite is not atomic beyond 8 KB: the lines of two workers can interleave
            self.states -= s
            self.transitions -= g
            self.tlcruns.pop()
            return self.tlc(name + "-again", module, consts, sim, depth, 1, invariants, properties, constraint, spec, postcondition, timeout, heap, seed, env, out, files, view)
        return vec

    def tlc_many(self, jobs):
        """jobs: list of kwargs dicts for tlc; run in parallel; returns the vector files."""
        res, errs = [], []
        with concurrent.futures.ThreadPoolExecutor(max_workers=max(2, NCPU)) as ex:
            futs = [ex.submit(lambda j=j: self.tlc(**j)) for j in jobs]
            for f in futs:
                try:
                    res.append(f.result())
                except Trouble as t:
                    errs.append(str(t))
        if errs:
            raise Trouble("\n".join(errs))
        return res

    def simjobs(self, name, module, consts, total, procs, **kw):
        """Split a simulation over processes with different seeds."""
        n = max(1, total // procs)
        return [dict(kw, name="%s-%d" % (name, i), module=module, consts=consts, sim=n, seed=kw.get("seed", 0) * 100 + i)
                for i in range(procs)]

    def merge(self, files, name):
        out = self.path(name + ".ndjson")
        n = 0
        with open(out, "wb") as o:
            for f in files:
                with open(f, "rb") as i:
                    for line in i:
                        if len(line) > 1:
                            o.write(line if line.endswith(b"\n") else line + b"\n")
                            n += 1
        if n == 0:
            raise Trouble("no vectors from " + name)
        return out

    def parts(self, vectors, size):
        """A vectors file in pieces of at most size vectors."""
        with open(vectors, "rb") as f:
            lines = f.readlines()
        out = []
        for i in range(0, len(lines), size):
            out.append("%s.%d" % (vectors, i // size))
            with open(out[-1], "wb") as o:
                o.writelines(lines[i:i + size])
        return out

    # ------------------------------------------------------------ driver
    def goenv(self):
        e = dict(os.environ)
        w = self.path("gomod")
        os.makedirs(w, exist_ok=True)
        for f in ("mod", "sum"):
            src = os.path.join(REPO, "go." + f)
            dst = os.path.join(w, "repo." + f)
            if os.path.exists(src) and not os.path.exists(dst):
                shutil.copy(src, dst)
        e.update(GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GO111MODULE="on", CGO_ENABLED=e.get("CGO_ENABLED", "0"),
                 GOFLAGS="-mod=mod -modfile=%s" % os.path.join(w, "repo.mod"))
        e.setdefault("HOME", "/root")
        return e

    def grammar_overlay(self):
        """asn1.y edited but y.go not: build with a regenerated y.go, as the project's build does."""
        def sha(f):
            return hashlib.sha256(open(f, "rb").read()).hexdigest()

        def base(n):
            try:
                return open("/opt/vp/base/%s.sha256" % n).read().split()[0]
            except (OSError, IndexError):
                return None
        y, g = os.path.join(REPO, "asn1.y"), os.path.join(REPO, "y.go")
        if not (os.path.exists(y) and os.path.exists(g)) or base("asn1.y") is None or base("y.go") is None:
            return {}
        if sha(y) == base("asn1.y") or sha(g) != base("y.go"):
            return {}
        out = self.path("y.go")
        r = subprocess.run(["/opt/vp/bin/goyacc", "-o", out, "-v", self.path("y.output"), y], capture_output=True, text=True)
        if r.returncode != 0:
            raise Trouble("goyacc rejects asn1.y: " + r.stderr)
        return {g: out}

    def build(self, name, race=False, extra=None, pkg=None, label=""):
        """Build driver/<name> as a command inside the module, from /repo's current tree."""
        key = name + label + ("-race" if race else "")
        if key in self.binaries:
            return self.binaries[key]
        repl = dict(self.grammar_overlay())
        if pkg is None:
            src = os.path.join(VERIF, "driver", name)
            common = os.path.join(VERIF, "driver", "common")
            for f in sorted(os.listdir(common)):
                repl[os.path.join(REPO, "cmd", name, f)] = os.path.join(common, f)
            for f in sorted(os.listdir(src)):
                if f.endswith(".go"):
                    if f.startswith("inpkg_"):
                        repl[os.path.join(REPO, "zz_" + f)] = os.path.join(src, f)
                    else:
                        repl[os.path.join(REPO, "cmd", name, f)] = os.path.join(src, f)
            pkg = "./cmd/" + name
        repl.update(extra or {})
        ov = self.path("overlay-%s.json" % key)
        json.dump({"Replace": repl}, open(ov, "w"))
        binary = self.path(key)
        e = self.goenv()
        if race:
            e["CGO_ENABLED"] = "1"
        cmd = ["go", "build", "-overlay", ov, "-o", binary] + (["-race"] if race else []) + [pkg]
        r = subprocess.run(cmd, cwd=REPO, env=e, capture_output=True, text=True)
        if r.returncode != 0:
            raise Trouble("driver %s does not build:\n%s" % (key, tail(r.stderr)))
        self.binaries[key] = binary
        return binary

    def drive(self, binary, mode, vectors, args=(), timeout=20, limit=None, env=None, maxbad=200):
        """Replay vectors; collect contradictions.  A driver that dies is narrowed down to one vector."""
        name = "%s-%d" % (mode, len(os.listdir(self.scratch)))
        limit = limit or (400 if self.quick else 3000)
        skip, t0 = 0, time.time()
        while True:
            res = self.path(name + ".res")
            log, rc = self.run([binary, *args, "-timeout", "%ds" % timeout, "-skip", str(skip), "-maxbad", str(maxbad), mode, vectors, res],
                               limit, env)
            lines = [json.loads(x) for x in open(res) if x.strip()] if os.path.exists(res) else []
            summary = [x for x in lines if x.get("summary")]
            if rc == 0 and summary:
                s = summary[0]
                self.vectors += s["vectors"]
                for k, v in s["stats"].items():
                    self.stats[k] = self.stats.get(k, 0) + v
                if os.environ.get("VERIF_TIMES"):
                    print("%s: %d vectors, %.1fs" % (name, s["vectors"], time.time() - t0), flush=True)
                if s["vectors"] == 0:
                    raise Trouble("driver ran no vector of " + vectors)
                for r in lines:
                    if not r.get("summary"):
                        self.bad.append((mode, r, binary, args, env, vectors))
                return s
            if own_fault(rc, log):
                raise Trouble("driver %s: %s" % (mode, tail(log)))
            # died: a fatal error such as stack exhaustion.  One at a time until it dies again.
            jr = self.path(name + ".journal")
            log1, rc1 = self.run([binary, *args, "-timeout", "%ds" % timeout, "-workers", "1", "-journal", jr, "-maxbad", str(maxbad),
                                  mode, vectors, res], limit, env)
            if rc1 == 0 or own_fault(rc1, log1) or not os.path.exists(jr):
                raise Trouble("driver %s ended with %s, not reproduced: %s" % (mode, rc, tail(log)))
            i = int(open(jr).read())
            vec = nth(vectors, i)
            self.bad.append((mode, {"i": i, "findings": [{"props": ["P11", "*"], "msg": "the process dies: " + death(log1)}],
                                    "vec": vec}, binary, args, env, vectors))
            return {"vectors": i}

    def run(self, cmd, limit, env=None):
        e = dict(os.environ, **(env or {}))
        logp = self.path("run.log")
        with open(logp, "w") as log:
            p = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=e, start_new_session=True, cwd=self.scratch)
            try:
                rc = p.wait(limit)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                raise Trouble("%s did not end within %ds" % (os.path.basename(cmd[0]), limit))
        return open(logp, errors="replace").read(), rc

    def sample(self, vectors, n=2):
        """Keep some actual cases for the evidence."""
        try:
            lines = open(vectors, errors="replace").read(2_000_000).split("\n")
        except OSError:
            return
        lines = [x for x in lines[:-1] if x]
        for k in range(n):
            if lines:
                x = lines[(k * 7919 + 17) % len(lines)]
                try:
                    v = json.loads(x)
                    if isinstance(v, str):
                        v = json.loads(v)
                except ValueError:
                    continue
                s = json.dumps(v)
                self.samples.append(v if len(s) < 1500 else s[:1500] + "...")

    # ------------------------------------------------------------ verdict
    def mine(self, r):
        return [f for f in r["findings"] if "*" in f["props"] or self.prop in f["props"]]

    def confirm(self):
        """Contradictions of this property that happen again in a fresh process: the vector alone, or,
        for what depends on what ran before, the whole run."""
        out, tried, lost, reran = [], 0, [], set()
        for mode, r, binary, args, env, vectors in self.bad:
            mine = self.mine(r)
            if not mine:
                continue
            if tried >= 25 or len(out) >= 5:
                break
            tried += 1
            v = self.path("confirm-%d.ndjson" % tried)
            with open(v, "w") as fh:
                fh.write(json.dumps(r["vec"]) + "\n")
            again = self.again(mode, binary, args, env, v, mine, 1)
            if again:
                out.append({"property": self.prop, "mode": mode, "driver": os.path.basename(binary), "args": list(args),
                            "message": again[0]["msg"], "vector": r["vec"]})
            else:
                lost.append((mode, mine, binary, args, env, vectors))
        for mode, mine, binary, args, env, vectors in lost:
            self.notes.append("not reproduced alone: " + mine[0]["msg"][:300])
            if out or "no answer" in mine[0]["msg"] or vectors in reran or not os.path.exists(vectors):
                continue
            reran.add(vectors)
            again = self.again(mode, binary, args, env, vectors, mine, NCPU)
            if again:
                keep = os.path.join(VERIF, "out", "vectors-%s-%s.ndjson" % (self.prop, mode))
                os.makedirs(os.path.dirname(keep), exist_ok=True)
                shutil.copy(vectors, keep)
                out.append({"property": self.prop, "mode": mode, "driver": os.path.basename(binary), "args": list(args),
                            "message": "depends on what ran before: " + again[0]["msg"], "vectors": keep})
        return out

    def again(self, mode, binary, args, env, vectors, mine, workers):
        res = vectors + ".again"
        try:
            log, rc = self.run([binary, *args, "-timeout", "60s", "-workers", str(workers), mode, vectors, res], 300, env)
        except Trouble as t:
            log, rc = str(t), "timeout"
        if own_fault(rc, log):
            raise Trouble("driver %s: %s" % (mode, tail(log)))
        if rc == "timeout":
            return mine if "no answer" in mine[0]["msg"] else []
        if rc != 0:
            return [{"props": ["*"], "msg": "the process dies: " + death(log)}]
        lines = [json.loads(x) for x in open(res) if x.strip()]
        return [f for x in lines if not x.get("summary") for f in self.mine(x)]


def death(log):
    lines = log.split("\n")
    for i, x in enumerate(lines):
        if x.startswith(("fatal error:", "panic:", "runtime: goroutine stack exceeds", "unexpected fault")):
            return "\n".join(lines[i:i + 12])
    return tail(log, 6)


def own_fault(rc, log):
    """The driver gave up because of its own state or input.  (A Go program that crashes ends with 2.)"""
    return rc == 7 or "panic: main.harness(" in log


def nth(path, i):
    seen, k = set(), 0
    for line in open(path):
        if len(line) > 1:
            v = json.loads(line)
            if isinstance(v, str):
                line, v = v, json.loads(v)
            if line in seen:
                continue
            seen.add(line)
            if k == i:
                return v
            k += 1
    raise Trouble("no vector %d in %s" % (i, path))


def tail(s, n=25):
    return "\n".join(s.strip().split("\n")[-n:])[-6000:]
