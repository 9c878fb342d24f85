"""Shared machinery of the checks: build the harness against /repo's working tree, run cases through the
real code, model-check the TLA+ modules and validate recorded events against them with TLC."""
import hashlib
import json
import os
import random
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.path.join(ROOT, "work")
SPEC = os.path.join(ROOT, "spec")
TARGET = os.path.join(ROOT, "target")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
CORES = min(8, os.cpu_count() or 4)


class CheckError(Exception):
    pass


class Unevaluable(CheckError):
    """TLC could not evaluate the specification on an event."""


def tagged_to_json(v):
    """The specification's tagged JSON values to plain JSON."""
    t = v[0]
    if t == "0":
        return None
    if t == "b":
        return v[1] == "true"
    if t == "n":
        return json.loads(v[1])
    if t == "s":
        return v[1]
    if t == "a":
        return [tagged_to_json(x) for x in v[1]]
    return {k: tagged_to_json(x) for k, x in v[1]}


def tagged_text(v):
    """The JSON text of a tagged value, duplicate keys included."""
    if v[0] == "a":
        return "[" + ",".join(tagged_text(x) for x in v[1]) + "]"
    if v[0] == "o":
        return "{" + ",".join(json.dumps(k) + ":" + tagged_text(x) for k, x in v[1]) + "}"
    return v[1] if v[0] == "n" else json.dumps(tagged_to_json(v))


def json_to_tagged(v):
    if v is None:
        return ["0"]
    if isinstance(v, bool):
        return ["b", "true" if v else "false"]
    if isinstance(v, (int, float)):
        return ["n", json.dumps(v)]
    if isinstance(v, str):
        return ["s", v]
    if isinstance(v, list):
        return ["a", [json_to_tagged(x) for x in v]]
    return ["o", [[k, json_to_tagged(x)] for k, x in v.items()]]


def build(features=()):
    env = dict(os.environ)
    target = "-".join([TARGET, *features])
    env.update(CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=target,
               RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
    cmd = ["cargo", "build", "--offline"]
    if features:
        cmd += ["--features", ",".join(features)]
    r = subprocess.run(cmd, cwd=os.path.join(ROOT, "harness"), env=env, capture_output=True, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout + r.stderr)
        raise CheckError("the harness does not build against /repo")
    return os.path.join(target, "debug", "jsonld-harness")


class Run:
    """One check run."""

    def __init__(self, prop, features=()):
        self.prop = prop
        self.t0 = time.time()
        self.dir = os.path.join(WORK, prop + "-" + TIER)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.harness = build(features)
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.violations = []
        self.known = []
        self.samples = []
        self.stats = {}
        self.models = []
        self.nontrivial = set()
        self.evaluations = 0

    def log(self, what):
        if os.environ.get("VERIF_LOG"):
            sys.stderr.write("%6.1f s  %s\n" % (time.time() - self.t0, what))

    # -- TLC ------------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=CORES, timeout=840, heap="6g", extra=()):
        n = len(os.listdir(self.dir))
        cfgp = os.path.join(self.dir, "%s-%d.cfg" % (module, n))
        with open(cfgp, "w") as f:
            f.write(cfg)
        md = os.path.join(self.dir, "md-%d" % n)
        out = os.path.join(self.dir, "%s-%d.out" % (module, n))
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss128m", "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
               "-metadir", md, "-noGenerateSpecTE", "-config", cfgp, *extra, os.path.join(SPEC, module + ".tla")]
        with open(out, "w") as f:
            try:
                r = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, timeout=timeout, cwd=self.dir)
            except subprocess.TimeoutExpired:
                raise CheckError("TLC timed out on " + module)
        shutil.rmtree(md, ignore_errors=True)
        return r.returncode, out

    @staticmethod
    def printed(path):
        """Values printed with PrintT(ToJson(..)) in a TLC log."""
        for line in open(path, errors="replace"):
            if line.startswith('"[') or line.startswith('"{'):
                try:
                    yield json.loads(json.loads(line))
                except ValueError:
                    continue

    @staticmethod
    def counts(path):
        s = d = 0
        for line in open(path, errors="replace"):
            if "states generated" in line and "distinct states found" in line and not line.startswith("Progress"):
                w = line.replace(",", "").split()
                s, d = int(w[0]), int(w[3])
        return s, d

    def model_check(self, module, cfg, what, env=None, timeout=840, heap="6g"):
        """Exhaustive model checking of a design module; returns what it printed."""
        rc, out = self.tlc(module, cfg, env, timeout=timeout, heap=heap)
        self.log("model checked " + what)
        gen, dist = self.counts(out)
        txt = open(out, errors="replace").read()
        if rc != 0 or "Model checking completed. No error has been found" not in txt:
            tail = [x for x in txt.splitlines() if not x.startswith(('"', "Parsing", "Semantic", "Linting"))][-60:]
            sys.stderr.write("\n".join(tail) + "\n")
            raise CheckError("TLC did not complete on %s (see %s)" % (module, out))
        self.states += dist
        self.transitions += gen
        self.models.append({"module": module, "what": what, "distinct_states": dist, "states_generated": gen})
        return list(self.printed(out))

    # -- the real code ----------------------------------------------------------
    halves = 0

    def execute(self, cases, name, case_ms=20000):
        """Runs the cases through the real code; returns the recorded events (same order)."""
        shards = [[] for _ in range(CORES)]
        for i, c in enumerate(cases):
            shards[i % CORES].append((i, json.dumps(c)))
        events = [None] * len(cases)
        env = dict(os.environ, HARNESS_CASE_MS=str(case_ms), RUST_MIN_STACK="268435456",
                   HARNESS_SCRATCH=os.path.join(self.dir, "scratch"))

        crashes = []

        def work(sh):
            k = 0
            while k < len(sh):
                if len(crashes) >= 16:      # enough to report: leave the other cases out
                    return
                p = subprocess.Popen([self.harness], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                     stderr=subprocess.DEVNULL, env=env)
                out, _ = p.communicate(("\n".join(x[1] for x in sh[k:]) + "\n").encode())
                lines = out.decode("utf-8", "replace").split("\n")
                complete = lines[:-1]
                for line in complete:
                    events[sh[k][0]] = line
                    k += 1
                if k < len(sh):
                    # the case after the last complete line hung or crashed the process
                    i, c = sh[k]
                    why = "hang" if p.returncode == 77 else "crash"
                    events[i] = json.dumps({"op": json.loads(c)["op"], "crashed": why})
                    crashes.append(i)
                    k += 1

        with ThreadPoolExecutor(CORES) as ex:
            list(ex.map(work, [s for s in shards if s]))
        for i, e in enumerate(events):
            if e is None:
                events[i] = json.dumps({"op": cases[i]["op"], "crashed": "not run"})
        path = os.path.join(self.dir, name + ".events")
        with open(path, "w") as f:
            for e in events:
                f.write(e + "\n")
        return path, events

    def trace(self, path, dev=(), explain=False, timeout=840):
        """Validates a file of events; returns {index: verdict} of the rejected ones.  An event the
        specification cannot even evaluate (a result of no known form) is singled out and rejected."""
        try:
            return self.trace_(path, dev, explain, timeout)
        except Unevaluable:
            lines = open(path).read().splitlines()
            if len(lines) == 1:
                return {0: ["the result has no meaning for the specification"]}, {}
            bad, exp, k = {}, {}, (len(lines) + 1) // 2
            for a in (0, k):
                if len(bad) >= 5 and not explain:
                    break
                self.halves += 1
                p = "%s.%d" % (path, self.halves)
                with open(p, "w") as f:
                    f.write("\n".join(lines[a:a + k]) + "\n")
                b, x = self.trace(p, dev, explain, timeout)
                bad.update({a + i: v for i, v in b.items()})
                exp.update({a + i: v for i, v in x.items()})
            return bad, exp

    def trace_(self, path, dev, explain, timeout):
        n = sum(1 for _ in open(path))
        if n == 0:
            return {}, {}
        cfg = "SPECIFICATION Spec\nCONSTANT Dev = {%s}\nCHECK_DEADLOCK FALSE\n" % ", ".join('"%s"' % d for d in dev)
        rc, out = self.tlc("Trace", cfg, {"EVENTS": path, "WORKERS": str(CORES), "EXPLAIN": "1" if explain else "0"},
                           timeout=timeout)
        txt_ok = False
        for line in open(out, errors="replace"):
            if "No error has been found" in line:
                txt_ok = True
        gen, _ = self.counts(out)
        if rc != 0 or not txt_ok or gen != n + CORES:
            tail = [x for x in open(out, errors="replace").read().splitlines() if not x.startswith(('"', "Parsing", "Semantic", "Linting"))][-60:]
            sys.stderr.write("\n".join(tail) + "\n")
            if any(m in x for x in tail for m in ("TLC threw an unexpected exception", "evaluat", "Attempted to", "behavior up to this point")):
                raise Unevaluable("trace validation did not complete (%s)" % out)
            raise CheckError("trace validation did not complete (%s)" % out)
        bad, exp = {}, {}
        for v in self.printed(out):
            if v[0] == "FAIL":
                bad[v[1] - 1] = v[2]
            elif v[0] == "EXPECTED":
                exp[v[1] - 1] = v[2]
        if not dev:
            self.states += gen
            self.transitions += n
        return bad, exp

    # -- a whole suite ------------------------------------------------------------
    def conform(self, cases, name, nontrivial=None, limit=5):
        """Run cases in the code, validate the events against the specification."""
        if not cases or len(self.violations) >= 5:
            return
        path, events = self.execute(cases, name)
        self.log("executed %d of %s" % (len(cases), name))
        bad, _ = self.trace(path)
        self.log("validated " + name)
        self.validated += len(cases)
        self.evaluations += len(cases)
        for i, (c, e) in enumerate(zip(cases, events)):
            if nontrivial is None or nontrivial(c, e):
                self.nontrivial.add(hashlib.md5(json.dumps(c, sort_keys=True).encode()).digest())
        self.stats[name] = {"cases": len(cases)}
        if cases:
            k = random.Random(SEED).randrange(len(cases))
            self.samples.append({"suite": name, "case": cases[k], "event": events[k][:1500]})
        if bad:
            devs = known_devs(self.prop)
            sub = sorted(bad)
            p2 = os.path.join(self.dir, name + ".rejected")
            with open(p2, "w") as f:
                for i in sub:
                    f.write(events[i] + "\n")
            still = set(range(len(sub)))
            if devs:
                b2, _ = self.trace(p2, dev=devs)
                still = set(b2)
                for j in sorted(set(range(len(sub))) - still):
                    self.known.append((name, cases[sub[j]]))
            real = [sub[j] for j in sorted(still)]
            real = [i for i in real if '"not run"' not in events[i]]
            real.sort(key=lambda i: len(json.dumps(cases[i])))
            if real:
                p3 = os.path.join(self.dir, name + ".violations")
                top = real[:limit]
                with open(p3, "w") as f:
                    for i in top:
                        f.write(events[i] + "\n")
                _, exp = self.trace(p3, dev=devs, explain=True)
                for j, i in enumerate(top):
                    self.violation({"suite": name, "case": cases[i], "event": json.loads(events[i]),
                                    "verdict": bad[i], "expected": exp.get(j)})
                self.stats[name]["rejected"] = len(real)

    def violation(self, data):
        d = os.path.join(WORK, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.prop, len(self.violations)))
        data["property"] = self.prop
        with open(p, "w") as f:
            json.dump(data, f, indent=1)
        self.violations.append(p)

    def report(self):
        for p in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        return 1 if self.violations else 0

    def finish(self, rule, level="model_checking", assumptions=()):
        kf = [f for f in load_known() if f["property"] == self.prop and f.get("status") == "known"]
        before = len(self.known)
        self.conform([f["case"] for f in kf], "known-findings")
        hit = [c for n, c in self.known[before:]]
        for f in kf:
            if f["case"] in hit:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, f["what"]))
        ev = {
            "property": self.prop, "tier": TIER, "seed": SEED, "level": level,
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.validated,
                "evaluations": self.evaluations, "distinct_nontrivial": len(self.nontrivial), "rule": rule,
                "samples": self.samples[:6], "suites": self.stats, "models": self.models,
                "attributed_to_known_findings": len(self.known),
            },
            "assumptions": list(assumptions),
            "wall_s": round(time.time() - self.t0, 1),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        self.report()
        print("%s %s: %d model states, %d executions validated, %d violations, %.1f s"
              % (self.prop, TIER, self.states, self.validated, len(self.violations), time.time() - self.t0))
        return 1 if self.violations else 0


def load_known():
    p = os.path.join(ROOT, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def known_devs(prop):
    """Every listed deviation: findings recorded under one property may show in another's suite."""
    return sorted({f["dev"] for f in load_known() if f.get("status") == "known" and f.get("dev")})
