"""Runs one property's check: model configurations, spec-generated behaviours, drivers
against the real code, and trace validation of what they recorded.  See DESIGN.md."""
import argparse, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time, traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
TLA = "/opt/veriftools/tla"
SO = "interval_arithmetics.cpython-312-x86_64-linux-gnu.so"


class Machinery(Exception):
    """The check itself could not run: neither a pass nor a violation."""


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          errors="replace", **k)


# ---- the code under test ---------------------------------------------------------------
def digest(p):
    try:
        with open(p, "rb") as f:
            return hashlib.sha256(f.read()).hexdigest()
    except OSError:
        return None


def build_impl(work):
    """A private copy of /repo's package with an extension that matches its sources."""
    dst = os.path.join(work, "impl")
    os.makedirs(dst)
    pkg = os.path.join(dst, "intvalpy")
    shutil.copytree(os.path.join(REPO, "intvalpy"), pkg,
                    ignore=shutil.ignore_patterns("__pycache__", "*.cpp"))
    # the stamp that build.sh leaves says which sources the .so was made from
    fresh = False
    so = os.path.join(REPO, "intvalpy/kernel", SO)
    stamp = os.path.join(REPO, "build/ext.stamp")
    try:
        lines = dict(reversed(x.split()) for x in open(stamp).read().splitlines())
        src = ["setup.py", "pyproject.toml", "intvalpy/_version.py"]
        for root, _, files in os.walk(os.path.join(REPO, "intvalpy")):
            for f in files:
                if f.endswith((".pyx", ".pxd", ".pxi", ".h")):
                    src.append(os.path.relpath(os.path.join(root, f), REPO))
        want = set(src) | {"intvalpy/kernel/" + SO}
        fresh = set(lines) == want and all(digest(os.path.join(REPO, f)) == lines[f] for f in want)
    except (OSError, ValueError):
        pass
    if not fresh:
        for f in os.listdir(os.path.join(pkg, "kernel")):
            if f.endswith((".so", ".c", ".cpp")):
                os.unlink(os.path.join(pkg, "kernel", f))
        for f in ("setup.py", "pyproject.toml", "README.md"):
            if os.path.exists(os.path.join(REPO, f)):
                shutil.copy(os.path.join(REPO, f), dst)
        r = sh([PY, "setup.py", "build_ext", "--inplace", "--force", "--build-temp", "bt", "--build-lib", "bl"],
               cwd=dst, timeout=600, env=clean_env())
        if not os.path.exists(os.path.join(pkg, "kernel", SO)):
            raise Machinery("the extension does not build:\n" + r.stdout[-3000:])
    return dst, fresh


def clean_env(**k):
    e = {x: os.environ[x] for x in ("HOME", "LANG") if x in os.environ}
    e.setdefault("HOME", "/root")
    e.update(PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
             PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
             OPENBLAS_NUM_THREADS="1",
             VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER=tier())
    e.update(k)
    return e


def tier():
    return "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"


def scale(q, t):
    return t if tier() == "thorough" else q


# ---- TLC -------------------------------------------------------------------------------
def build_java(work):
    out = os.path.join(work, "classes")
    os.makedirs(out)
    r = sh(["javac", "-nowarn", "-d", out, "-cp", TLA + "/tla2tools.jar"]
           + [os.path.join(VERIF, "java", f) for f in os.listdir(os.path.join(VERIF, "java")) if f.endswith(".java")])
    if r.returncode:
        raise Machinery("javac: " + r.stdout)
    return out


def tlc(work, classes, module, cfg=None, env=None, workers=8, extra=(), timeout=600, heap="6g"):
    """Run TLC on a copy of spec/; returns (output, statistics)."""
    d = tempfile.mkdtemp(prefix="tlc_", dir=work)
    for f in os.listdir(os.path.join(VERIF, "spec")):
        if f.endswith((".tla", ".cfg")):
            shutil.copy(os.path.join(VERIF, "spec", f), d)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + d,
           "-cp", classes + ":" + TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar",
           "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "states"), "-noGenerateSpecTE",
           "-config", cfg or module + ".cfg", *extra, module + ".tla"]
    t = time.time()
    try:
        r = sh(cmd, cwd=d, timeout=timeout, env=clean_env(**(env or {})))
    except subprocess.TimeoutExpired as e:
        raise Machinery("TLC on %s exceeded %ss" % (module, timeout))
    finally:
        shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
    m = None
    for m in re.finditer(r"([\d,]+) states generated,? ?(?:\([^)]*\))?,? ?([\d,]+) distinct states found", r.stdout):
        pass
    st = {"generated": int(m.group(1).replace(",", "")) if m else 0,
          "distinct": int(m.group(2).replace(",", "")) if m else 0,
          "rc": r.returncode, "wall_s": round(time.time() - t, 2)}
    return r.stdout, st


# ---- one property ------------------------------------------------------------------------
class Check:
    def __init__(self, pid, conf, keep=False):
        self.pid, self.conf = pid, conf
        self.viol, self.known, self.notes = [], [], []
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                    "events_validated": 0, "model_configs": [], "trace_specs": [], "samples": []}
        self.t0 = time.time()
        self.keep = keep
        self.work = tempfile.mkdtemp(prefix="vf_%s_" % pid)

    def run(self):
        self.classes = build_java(self.work)
        with ThreadPoolExecutor(8) as ex:
            jobs = [ex.submit(self.model, m) for m in self.conf.get("models", [])]
            self.impl, fresh = build_impl(self.work)
            self.cov["extension"] = "as built by build.sh from these sources" if fresh else "rebuilt from the working tree"
            gens = {g["env"]: ex.submit(self.generate, g) for g in self.conf.get("generate", [])}
            genv = {k: f.result() for k, f in gens.items()}
            for t in self.conf["traces"]:
                self.trace(t, genv)
            for j in jobs:
                j.result()

    def model(self, m):
        out, st = tlc(self.work, self.classes, m["module"], m.get("cfg"), workers=m.get("workers", 4),
                      extra=m.get("extra", ()), timeout=m.get("timeout", 800))
        if st["rc"] != 0 or ("No error has been found" not in out and "-simulate" not in m.get("extra", ())):
            raise Machinery("model %s fails on its own:\n%s" % (m["module"], out[-3000:]))
        self.cov["states"] += st["distinct"]
        self.cov["transitions"] += st["generated"]
        self.cov["model_configs"].append({"module": m["module"], "config": m.get("cfg") or m["module"] + ".cfg",
                                          "what": m.get("what", ""), **st})

    def generate(self, g):
        """Behaviours written by TLC (one JSON record per GEN line), to be replayed in the code."""
        out, st = tlc(self.work, self.classes, g["module"], g.get("cfg"), workers=g.get("workers", 4),
                      extra=g.get("extra", ()), timeout=g.get("timeout", 600))
        path = os.path.join(self.work, g["env"] + ".ndjson")
        n = 0
        seen = set()
        with open(path, "w") as f:
            for line in out.splitlines():
                if line.startswith('"GEN|') and line.endswith('"'):
                    body = json.loads(line)[4:]
                    if body not in seen:
                        seen.add(body)
                        f.write(body + "\n")
                        n += 1
        if n == 0 or "Error:" in out:
            raise Machinery("no behaviours from %s:\n%s" % (g["module"], out[-3000:]))
        self.cov["states"] += st["distinct"]
        self.cov["transitions"] += st["generated"]
        self.cov["model_configs"].append({"module": g["module"], "what": g.get("what", "behaviours generated for replay"),
                                          "behaviours": n, **st})
        return path

    def drive(self, t, genv):
        """The driver's shards, each a process of its own."""
        n = t.get("shards", 8)
        tag = t["driver"] + t.get("part", "")
        procs = []
        for i in range(n):
            out = os.path.join(self.work, "%s.%d.ndjson" % (tag, i))
            env = clean_env(PYTHONPATH=self.impl + ":" + os.path.join(VERIF, "harness"), VERIF_PKG=self.impl,
                            VERIF_SHARD=str(i), VERIF_SHARDS=str(n), VERIF_WORK=self.work,
                            PYTHONFAULTHANDLER="1", **genv)
            log = open(out + ".log", "w")
            d = os.path.join(self.work, "cwd_%s_%d" % (tag, i))
            os.makedirs(d, exist_ok=True)
            procs.append((out, log, subprocess.Popen(
                [PY, os.path.join(VERIF, "harness", t["driver"] + ".py"), out] + t.get("args", []),
                env=env, stdout=log, stderr=log, cwd=d, start_new_session=True)))
        deadline = time.time() + t.get("deadline", scale(450, 3000))
        for out, log, p in procs:
            try:
                p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                p.late = True
            log.close()
        path = os.path.join(self.work, tag + ".ndjson")
        with open(path, "w") as f:
            for out, log, p in procs:
                if os.path.exists(out):
                    with open(out) as g:
                        for line in g:
                            if line.endswith("\n"):
                                f.write(line)
                if not os.path.exists(out + ".done"):
                    self.died(t, out, p)
        return path

    def died(self, t, out, p):
        late_import = lambda text: re.search(r'^    (import|from) ', text, re.M)
        text = open(out + ".log", errors="replace").read()
        where = open(out + ".pending").read() if os.path.exists(out + ".pending") else "?"
        if getattr(p, "late", False):
            self.violation({"run": "driver " + t["driver"] + " at " + where, "clauses": ["NeverReturns"], "detail": text[-2000:]})
        elif p.returncode < 0:
            if p.returncode == -9:
                raise Machinery("driver %s was killed (memory?)" % t["driver"])
            self.violation({"run": "driver " + t["driver"] + " at " + where,
                            "clauses": ["InterpreterDied signal %d" % -p.returncode], "detail": text[-2000:]})
        else:
            frames = re.findall(r'File "([^"]+)"', text)
            if frames and os.path.realpath(frames[-1]).startswith(self.impl) and p.returncode != 3 and "import" not in where:
                self.violation({"run": "driver " + t["driver"] + " at " + where,
                                "clauses": ["UnexpectedException"], "detail": text[-2000:]})
            elif re.search(r"^(TypeError|AttributeError|ValueError|IndexError|KeyError|ZeroDivisionError|OverflowError|AssertionError)\b", text, re.M) \
                    and len(frames) > 1 and "<frozen importlib" not in text and p.returncode == 1 and not late_import(text):
                # the recorder cannot read what the library returned; it can on the tree it was made for
                self.violation({"run": "driver " + t["driver"] + " at " + where, "clauses": ["UnreadableResult"], "detail": text[-2000:]})
            else:
                raise Machinery("driver %s failed:\n%s" % (t["driver"], text[-3000:]))

    def trace(self, t, genv):
        path = self.drive(t, genv)
        lines = open(path).read().splitlines()
        if not lines:
            if self.viol:
                return
            raise Machinery("driver %s recorded nothing" % t["driver"])
        runs = [json.loads(x) for x in lines]
        events = sum(len(r["ev"]) for r in runs)
        part = t.get("max_runs", 10**9)
        tot = {"distinct": 0, "generated": 0, "wall_s": 0.0}
        for k in range(0, len(runs), part):
            chunk = runs[k:k + part]
            p = path + ".part"
            with open(p, "w") as f:
                f.write("\n".join(lines[k:k + part]) + "\n")
            self.judge(t, chunk, p, tot)
        ops = {}
        for r in runs:
            for e in r["ev"]:
                op = e.get("op", "?")
                ops[op] = ops.get(op, 0) + 1
        missing = [o for o in t.get("require", []) if not ops.get(o)]
        if missing and not self.viol:
            raise Machinery("vacuous: no event of kind %s recorded" % missing)
        self.cov["states"] += tot["distinct"]
        self.cov["transitions"] += tot["generated"]
        self.cov["traces_validated_against_impl"] += len(runs)
        self.cov["events_validated"] += events
        self.cov["trace_specs"].append({"spec": t["spec"], "driver": t["driver"], "runs": len(runs), "events": events,
                                        "events_by_kind": dict(sorted(ops.items())), "tlc_wall_s": round(tot["wall_s"], 2)})
        for r in runs[:: max(1, len(runs) // 2)][:2]:
            s = json.dumps({"id": r["id"], "ev": r["ev"][:2]})
            self.cov["samples"].append(s if len(s) < 1500 else s[:1500] + "...")

    def judge(self, t, runs, path, tot):
        expect = sum(len(r["ev"]) + 1 for r in runs)
        out, st = tlc(self.work, self.classes, t["spec"], t.get("cfg"), env={"TRACE": path},
                      timeout=t.get("tlc_timeout", scale(700, 6000)), heap=t.get("heap", "8g"))
        for k in ("distinct", "generated", "wall_s"):
            tot[k] += st[k]
        found = set()
        for m in re.finditer(r'^"VIOL\|(\d+)\|(\d+)\|(.*)"$', out, re.M):
            r, l = int(m.group(1)) - 1, int(m.group(2)) - 1
            cl = tuple(sorted(re.findall(r'\\"([^"\\]+)\\"', m.group(3)))) or (m.group(3),)
            found.add((r, l, cl))
        for r, l, cl in sorted(found):
            ev = runs[r]["ev"]
            self.violation({"run": runs[r]["id"], "event": l, "label": ev[l].get("id", ""), "op": ev[l].get("op", ""), "clauses": list(cl),
                            "trace": {**{k: v for k, v in runs[r].items() if k != "ev"}, "ev": ev[:l + 1]}, "spec": t["spec"]})
        if "Error:" in out or st["rc"] not in (0, 12) or st["distinct"] != expect:
            # a trace the specification cannot even evaluate is not one of its behaviours
            if not found:
                msg = out[out.find("Error:"):][:3000] if "Error:" in out else out[-2000:]
                if "OutOfMemory" in out or "Parsing or semantic" in out or "Error:" not in out:
                    raise Machinery("TLC on %s (%d of %d states):\n%s" % (t["spec"], st["distinct"], expect, msg))
                self.violation({"run": "?", "clauses": ["NotEvaluable"], "detail": msg, "spec": t["spec"]})

    def violation(self, v):
        for k in KNOWN:
            if k.get("status") != "finding" or k["property"] != self.pid:
                continue
            m = k["match"]
            if m["run"] == v["run"] and m.get("label", "") == v.get("label", "") and set(v["clauses"]) <= set(m["clauses"]):
                if k["what"] not in self.known:
                    self.known.append(k["what"])
                return
        self.viol.append(v)

    def finish(self):
        rep = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rep, exist_ok=True)
        for f in os.listdir(rep):
            if f.startswith(self.pid + "-"):
                os.unlink(os.path.join(rep, f))
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        for i, v in enumerate(self.viol[:60]):
            p = os.path.join(rep, "%s-%d.json" % (self.pid, i))
            with open(p, "w") as f:
                json.dump(v, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
            print("   run %s event %s %s: %s" % (v["run"], v.get("event", "-"), v.get("op", ""), ", ".join(v["clauses"])))
        if len(self.viol) > 20:
            print("   ... %d more" % (len(self.viol) - 20))
        kinds = {}
        for v in self.viol:
            k = (v.get("op", ""), ", ".join(v["clauses"]))
            kinds.setdefault(k, []).append(v["run"])
        if len(self.viol) > 3:
            for (op, cl), r in sorted(kinds.items()):
                print("   %4d x %s: %s (%s)" % (len(r), op, cl, r[0]))
        self.cov["known_findings_seen"] = len(self.known)
        ev = {"property": self.pid, "tier": tier(), "seed": int(os.environ.get("VERIF_SEED", "1")),
              "level": "model_checking", "coverage": self.cov,
              "assumptions": self.conf.get("assumptions", []),
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % self.pid)
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", self.pid + ".json"))
        print("%s: %s; %d runs, %d events validated, %d states, %.1f s" % (
            self.pid, "VIOLATED" if self.viol else "holds on everything explored",
            self.cov["traces_validated_against_impl"], self.cov["events_validated"], self.cov["states"],
            time.time() - self.t0))
        return 1 if self.viol else 0


def load_known():
    p = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(p):
        return []
    return [json.loads(x) for x in open(p) if x.strip().startswith("{")]


KNOWN = load_known()


def main(argv):
    import checks
    ap = argparse.ArgumentParser()
    ap.add_argument("property", choices=sorted(checks.CHECKS))
    ap.add_argument("--tier", choices=["quick", "thorough"])
    ap.add_argument("--keep", action="store_true", help="keep the work directory")
    a = ap.parse_args(argv)
    if a.tier:
        os.environ["VERIF_TIER"] = a.tier
    conf = checks.CHECKS[a.property]
    if callable(conf):
        conf = conf(tier())
    c = Check(a.property, conf)
    try:
        c.run()
        return c.finish()
    except Machinery as e:
        if c.viol:
            return c.finish()
        print("ERROR %s: %s" % (a.property, e))
        return 2
    finally:
        if a.keep:
            print("work directory: " + c.work)
        else:
            shutil.rmtree(c.work, ignore_errors=True)
