"""Shared machinery of the checks: run drivers, run TLC, report."""

import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
JAR = ("/opt/veriftools/tla/tla2tools.jar:"
       "/opt/veriftools/tla/CommunityModules-deps.jar")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
THOROUGH = TIER == "thorough"


class Broken(Exception):
    """The machinery itself failed: neither a pass nor a violation."""


class Decided(Broken):
    """There is a violation: nothing else needs to run."""


def pick(quick, thorough):
    return thorough if THOROUGH else quick


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="chk-%s-" % pid)
        self.states = self.transitions = self.traces = self.events = 0
        self.samples = []
        self.models = []
        self.trace_info = []
        self.known = {}
        self.violations = []
        self.assumptions = []
        self.extra = {}

    def undecided(self):
        if self.violations:
            raise Decided()

    # -- model checking ----------------------------------------------------

    def tlc(self, module, cfg, env=None, args=(), workers="4", timeout=600,
            mem="4g"):
        self.undecided()
        meta = tempfile.mkdtemp(dir=self.tmp)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss64m",
               "-Djava.io.tmpdir=" + meta, "-cp", JAR, "tlc2.TLC", "-metadir", meta, "-workers", workers,
               "-noGenerateSpecTE", "-config", cfg, *args, module]
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, timeout=timeout,
                               stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
        except subprocess.TimeoutExpired:
            raise Broken("TLC timed out on %s" % module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        if workers != "1" and p.returncode not in (0, 12, 13):
            # TLC's workers can race to normalise a shared constant record;
            # anything else happens again with one worker
            return self.tlc(module, cfg, env, args, "1", timeout, mem)
        return p.returncode, p.stdout

    def mc(self, module, cfg=None, timeout=600, workers="4", cover=True,
           args=(), min_states=2):
        """Exhaustively check a design model; it must hold."""
        cfg = cfg or module + ".cfg"
        a = list(args) + (["-coverage", "1"] if cover else [])
        rc, out = self.tlc(module + ".tla", cfg, args=a, workers=workers,
                           timeout=timeout)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, "
                      r"0 states left", out)
        if rc != 0 or not m or "No error has been found" not in out:
            raise Broken("model %s/%s not accepted:\n%s"
                         % (module, cfg, out[-4000:]))
        gen, dist = int(m.group(1)), int(m.group(2))
        if dist < min_states:
            raise Broken("model %s/%s explores nothing" % (module, cfg))
        acts = {}
        for a, d, g in re.findall(
                r"<(\w+) line \d+, col \d+ to line \d+, col \d+ of module "
                r"\w+>: (\d+):(\d+)", out):
            acts[a] = max(acts.get(a, 0), int(g))
        self.states += dist
        self.transitions += gen
        never = sorted(a for a, g in acts.items() if g == 0)
        if never:
            raise Broken("model %s/%s never takes %s" % (module, cfg, never))
        self.models.append({"model": module, "config": cfg, "distinct": dist,
                            "generated": gen, "actions": acts})

    def explore(self, module, env, reach=(), timeout=600, workers="4",
                mem="6g"):
        """Exhaustively explore the real program inside a specification.

        The invariant failing is a violation by the program.
        """
        for trace in env.values():
            if trace is None or os.path.exists(trace) and self.raised(trace):
                return
        e = {"PROP": self.pid}
        e.update(env)
        rc, out = self.tlc(module + ".tla", module + ".cfg", env=e,
                           workers=workers, timeout=timeout, mem=mem)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found",
                      out)
        if m:
            self.states += int(m.group(2))
            self.transitions += int(m.group(1))
        if "Invariant Conforms is violated" in out:
            trace = out[out.index("Invariant Conforms is violated"):]
            clauses = set(re.findall(
                r'<<"(\w+)", "([^"]*)">>',
                trace[trace.rindex("/\\ bad"):]))
            path = os.path.join(self.tmp, "counterexample-%s-%d"
                                % (module, len(self.violations)))
            with open(path, "w") as f:
                f.write(trace)
            last = trace[trace.rindex("\nState"):][:1500]
            self.violate({c for c in clauses if c[0] in (self.pid, "X")},
                         path, trace.count("\n"), last)
            return
        if rc != 0 or "No error has been found" not in out:
            raise Broken("%s gave no verdict:\n%s" % (module, out[-5000:]))
        got = set(re.findall(r'<<"REACHED", "(\w+)">>', out))
        if not set(reach) <= got:
            raise Broken("%s reached only %s" % (module, sorted(got)))
        self.traces += 1
        self.events += int(m.group(2))
        self.models.append({"model": module, "of": "the assembled player",
                            "distinct": int(m.group(2)),
                            "generated": int(m.group(1)),
                            "reached": sorted(got)})

    def inductive(self, module, timeout=600):
        """Prove a model's invariant with Apalache, without a bound.

        Init => Inv, Any /\\ Next => Inv' where Any is "any state with Inv",
        and Any is not empty (Never, which is false, must be refuted).
        """
        def run(init, inv, length, n):
            self.undecided()
            d = tempfile.mkdtemp(dir=self.tmp)
            e = dict(os.environ, JVM_ARGS="-Xmx3g -Djava.io.tmpdir=" + d)
            try:
                p = subprocess.run(
                    ["apalache-mc", "check", "--out-dir=" + d,
                     "--init=" + init, "--inv=" + inv, "--length=%d" % length,
                     os.path.join(SPEC, module + ".tla")], cwd=d, env=e,
                    timeout=timeout, stdout=subprocess.PIPE,
                    stderr=subprocess.STDOUT, text=True)
            except subprocess.TimeoutExpired:
                raise Broken("Apalache timed out on %s" % module)
            finally:
                shutil.rmtree(d, ignore_errors=True)
            want = ("The outcome is: NoError" if n else
                    "The outcome is: Error")
            if want not in p.stdout:
                raise Broken("%s: %s => %s in %d steps not settled:\n%s" % (
                    module, init, inv, length, p.stdout[-3000:]))
        self.parallel(lambda: run("Init", "Inv", 0, True),
                      lambda: run("Any", "Inv", 1, True),
                      lambda: run("Any", "Never", 0, False))
        self.models.append({"model": module, "by": "Apalache",
                            "inductive": "Init => Inv, Inv /\\ Next => Inv'"})

    def generate(self, module, cfg, num, depth, env=None, timeout=300):
        """Behaviours of a model, from TLC's simulator, as JSON values.

        The model prints <<"BEHAVIOUR", ToJson(history)>> at the end of each.
        """
        rc, out = self.tlc(module + ".tla", cfg, env=env, workers="1",
                           timeout=timeout,
                           args=["-simulate", "num=%d" % num, "-depth",
                                 str(depth), "-seed", str(SEED * 7919 + 11),
                                 "-deadlock"])
        res = []
        for s in re.findall(r'<<\s*"BEHAVIOUR",\s*"(.*?)"\s*>>', out, re.S):
            res.append(json.loads(
                s.replace('\\"', '"').replace("\\\\", "\\")))
        if not res:
            raise Broken("no behaviours from %s:\n%s" % (module, out[-3000:]))
        self.transitions += sum(len(r) for r in res)
        self.models.append({"model": module, "config": cfg,
                            "behaviours_generated": len(res)})
        return res

    # -- the implementation ------------------------------------------------

    def drive(self, driver, *args, timeout=None, python=PY, data=None):
        """Run a driver against /repo; returns the path of its trace."""
        self.undecided()
        timeout = timeout or pick(400, 1500)
        n = len([f for f in os.listdir(self.tmp) if f.endswith(".ndjson")])
        out = os.path.join(self.tmp, "%s-%d-%d.ndjson" % (
            driver, n, abs(hash((args, time.time()))) % 10 ** 6))
        e = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
                 VERIF_SEED=str(SEED), VERIF_TIER=TIER, TMPDIR=self.tmp)
        if data is not None:
            dp = out + ".in.json"
            with open(dp, "w") as f:
                json.dump(data, f)
            e["VERIF_DATA"] = dp
        cmd = [python, "-W", "ignore",
               os.path.join(HARNESS, "run_driver.py"), driver, out,
               *map(str, args)]
        try:
            p = subprocess.run(cmd, cwd=self.tmp, env=e, timeout=timeout,
                               stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, text=True)
        except subprocess.TimeoutExpired:
            self.violate({("X", "DidNotTerminate")}, out, 0,
                         "%s %s did not finish in %d s"
                         % (driver, args, timeout))
            raise Decided()
        if p.returncode < 0:
            self.violate({("X", "Died")}, out, 0, "%s %s died of signal %d"
                         % (driver, args, -p.returncode))
            raise Decided()
        if p.returncode != 0:
            raise Broken("driver %s %s failed (%d):\n%s\n%s" % (
                driver, args, p.returncode, p.stdout[-2000:],
                p.stderr[-4000:]))
        return out

    def raised(self, trace):
        """Did the code raise, or hang, where nothing allows it to?"""
        with open(trace) as f:
            for i, line in enumerate(f):
                if '"ev": "Exc"' in line or '"ev": "Hang"' in line:
                    ev = json.loads(line)
                    if ev["ev"] in ("Exc", "Hang"):
                        self.violate({("X", ev["ev"])}, trace, i + 1,
                                     line[:1500])
                        return True
        return False

    def validate(self, module, trace, timeout=600, env=None, mem="6g",
                 cfg="Trace.cfg"):
        """Check a recorded trace against a trace specification."""
        if trace is None:
            return
        with open(trace) as f:
            lines = f.read().splitlines()
        if not lines:
            raise Broken("empty trace for %s" % module)
        if self.raised(trace):
            return
        e = {"TRACE": trace, "PROP": self.pid}
        e.update(env or {})
        rc, out = self.tlc(module + ".tla", cfg, env=e, workers="1",
                           timeout=timeout, mem=mem)
        m = re.search(r"(\d+) states generated, (\d+) distinct states", out)
        if m:
            self.states += int(m.group(2))
            self.transitions += int(m.group(1))
        for k in re.findall(r'<<\s*"KNOWN",\s*(\d+),\s*"([^"]*)"\s*>>', out):
            self.known.setdefault(k[1], set()).add((trace, int(k[0])))
        rej = re.search(r'<<\s*"REJECT",\s*(\d+),\s*(\{.*?\}|\S+)\s*>>', out, re.S)
        if rej:
            n = int(rej.group(1))
            clauses = set(re.findall(r'<<"(\w+)", "([^"]*)">>', rej.group(2)))
            det = re.search(r'<<"DETAIL", (.*?)>>\n(?=\S)', out, re.S)
            line = lines[n - 1] if 0 < n <= len(lines) else ""
            self.violate(clauses, trace, n,
                         (("detail %s; " % det.group(1)) if det else "")
                         + "event " + line[:1200])
            return
        acc = re.search(r'<<"ACCEPT", (\d+)>>', out)
        if rc != 0 or not acc or int(acc.group(1)) != len(lines):
            raise Broken("%s gave no verdict on %s (%d lines):\n%s" % (
                module, trace, len(lines), out[-5000:]))
        self.traces += 1
        self.events += len(lines)
        self.trace_info.append({"spec": module, "events": len(lines)})
        if len(self.samples) < 4:
            self.samples.append({
                "spec": module,
                "events": [ln[:300] for ln in
                           (lines[:1] + lines[len(lines) // 2:][:1])]})

    def violate(self, clauses, trace, n, detail):
        rp = os.path.join(VERIF, "evidence",
                          "%s.replay%d.ndjson" % (self.pid,
                                                  len(self.violations)))
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        names = sorted("%s.%s" % c for c in clauses)
        with open(rp, "w") as f:
            f.write(json.dumps({"verdict": names, "event": n,
                                "detail": detail[:4000]}) + "\n")
            if trace and os.path.exists(trace):
                with open(trace) as t:
                    for i, line in enumerate(t):
                        if i >= n or f.tell() > 5 << 20:
                            break
                        f.write(line if len(line) < 200000
                                else line[:2000] + "...\n")
        self.violations.append((names, rp, detail))

    def parallel(self, *jobs, n=4):
        """Run callables concurrently; first exception wins."""
        with concurrent.futures.ThreadPoolExecutor(n) as ex:
            for f in [ex.submit(j) for j in jobs]:
                f.result()

    # -- verdict -----------------------------------------------------------

    def finish(self):
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            listed = {k["tag"]: k for k in json.load(f)["findings"]
                      if k["property"] == self.pid}
        for tag, where in sorted(self.known.items()):
            if tag in listed:
                print("KNOWN-FINDING: property=%s %s (seen at %d events)" % (
                    self.pid, listed[tag]["what"], len(where)))
            else:
                self.violate({(self.pid, "Unlisted:" + tag)}, None, 0,
                             "finding %r is not listed" % tag)
        self.write_evidence()
        shutil.rmtree(self.tmp, ignore_errors=True)
        if self.violations:
            for names, rp, detail in self.violations:
                print("%s rejected: %s" % (self.pid, ", ".join(names)))
                print("  " + detail[:1500])
            print("VIOLATION property=%s replay=%s"
                  % (self.pid, self.violations[0][1]))
            return 1
        print("OK property=%s states=%d transitions=%d traces=%d events=%d "
              "%.1fs" % (self.pid, self.states, self.transitions, self.traces,
                         self.events, time.time() - self.t0))
        return 0

    def write_evidence(self):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "trace_events_validated": self.events,
               "models": self.models, "traces": self.trace_info[:40],
               "samples": self.samples or [v[2][:300]
                                           for v in self.violations[:3]]}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": TIER, "seed": SEED,
              "level": "model_checking", "coverage": cov,
              "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"),
                  "w") as f:
            json.dump(ev, f, indent=1)


def main(registry):
    pid = sys.argv[1]
    c = Check(pid)
    try:
        registry[pid](c)
        rc = c.finish()
    except Exception as e:
        if c.violations:
            sys.exit(c.finish())
        if not isinstance(e, Broken):
            raise
        print("BROKEN %s: %s" % (pid, e))
        shutil.rmtree(c.tmp, ignore_errors=True)
        rc = 2
    sys.exit(rc)
