"""What a check uses: models, builds, harness runs, validation, evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time, traceback
import vlib
from vlib import CheckError, VERIF, CORES
import demo
import gen


class Ctx:
    def __init__(self, pid, level, tier=None, seed=None):
        self.pid, self.level = pid, level
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.quick = self.tier == "quick"
        try:
            self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="vv-%s-" % pid)
        self.models = []
        self.pending = []          # (trace module, json line, commands, origin)
        self.runs = []
        self.violations = []
        self.known = []
        self.exes = {}
        self.notes = {}
        self.trace_states = self.trace_transitions = self.traces = self.events = 0
        self.samples = []
        self._threads = []
        self._errors = []

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    # ---- specification
    def model(self, module, cfg=None, label=None, timeout=None, workers=None, consts=None, **kw):
        if consts:
            cfg, label = vlib.cfg(module, **consts), label or " ".join("%s=%s" % x for x in sorted(consts.items()))
        r = vlib.model(self.work, module, cfg, timeout or self.pick(400, 3000), workers or CORES, label, **kw)
        self.models.append(r)
        self.log("model", r)
        return r

    def generate(self, module, cfg=None, per=20, label=None, first=(), last=(), consts=None, **kw):
        """Test sessions from a specification: every transition TLC explores is
        printed as a script (commands separated by ;)."""
        if consts:
            cfg, label = vlib.cfg(module, **consts), label or " ".join("%s=%s" % x for x in sorted(consts.items()))
        r = vlib.tlc(self.work, module, cfg, timeout=self.pick(300, 3000), **kw)
        if not r.ok:
            raise CheckError("the specification %s does not check:\n%s" % (module, vlib.errors(r.out)))
        scripts = sorted(set(re.findall(r'^"SCRIPT (.*)"$', r.out, re.M)))
        self.models.append({"spec": module, "config": label or "default", "states": r.distinct, "transitions": r.generated,
                            "scripts": len(scripts), "seconds": round(r.secs, 1)})
        self.log("generated", self.models[-1])
        return [list(first) + sum((x.split(";") + list(last) for x in b), []) for b in gen.chunks(scripts, per)]

    def background(self, f, *a, **kw):
        def go():
            try:
                f(*a, **kw)
            except BaseException as e:
                self._errors.append(e)
        t = threading.Thread(target=go)
        t.start()
        self._threads.append(t)

    def join(self):
        for t in self._threads:
            t.join()
        self._threads = []
        if self._errors:
            raise self._errors[0]

    # ---- implementation
    def build(self, flavour="plain", mains=("drv",), optional=()):
        t = time.time()
        e = vlib.build(self.work, flavour, list(mains), list(optional))
        self.exes.setdefault(flavour, {}).update(e)
        self.log("built", flavour, sorted(e), "in %.1fs" % (time.time() - t))
        return e

    def _harness(self, flavour, args, name, timeout, trace="LibraryTrace", prog="drv", repeat=1, workers=CORES, env=None):
        out = os.path.join(self.work, "o-" + name)
        exe = self.exes[flavour][prog]
        e = vlib.harness_env()
        e.update(env or {})
        t = time.time()
        try:
            p = subprocess.run([exe] + args + [out, str(workers), str(repeat)], env=e, timeout=timeout,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        except subprocess.TimeoutExpired:
            raise CheckError("harness %s did not end" % name)
        if p.returncode:
            raise CheckError("harness %s failed (%d): %s" % (name, p.returncode, p.stdout[-2000:]))
        recs, stat = vlib.collect(out, workers)
        for line, cmds in recs:
            self.pending.append((trace, line, cmds, {"flavour": flavour, "prog": prog, "repeat": repeat, "run": name}))
        stat.update(run=name, flavour=flavour, seconds=round(time.time() - t, 1))
        self.runs.append(stat)
        self.log("ran", stat)
        for f in os.listdir(self.work):
            if f.startswith("o-" + name):
                p = os.path.join(self.work, f)
                shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
        return stat

    def fuzz(self, profile, count, seconds, sample, flavour="plain", repeat=1, salt=0, prog="drv", trace="LibraryTrace", env=None):
        return self._harness(flavour, ["fuzz", profile, str(self.seed + 1000 * salt), str(count), str(seconds), str(sample)],
                             "%s-%s-%d" % (profile, flavour, salt), seconds + 400, repeat=repeat, prog=prog, trace=trace, env=env)

    def run(self, name, sessions, sample=0, flavour="plain", repeat=1, timeout=800, prog="drv", trace="LibraryTrace", env=None):
        f = os.path.join(self.work, "c-" + name)
        gen.write(f, sessions)
        st = self._harness(flavour, ["run", f, str(sample)], name + "-" + flavour, timeout, trace=trace, prog=prog,
                           repeat=repeat, env=env)
        os.unlink(f)
        return st

    def demo(self, name, sessions, flavour="plain"):
        """Histories of the demonstration program."""
        t = time.time()
        recs = demo.run(self.exes[flavour]["demo"], os.path.join(self.work, "demo-" + name), sessions, vlib.harness_env(), CORES)
        for line, cmds in recs:
            self.pending.append(("DemoTrace", line, cmds, {"flavour": flavour, "prog": "demo", "repeat": 1, "run": name}))
        self.runs.append({"run": name, "flavour": flavour, "executed": len(recs), "seconds": round(time.time() - t, 1)})
        self.log("ran", self.runs[-1])
        return recs

    # ---- judgement
    def judge(self, timeout=None):
        """Trace validation of everything recorded so far."""
        by = {}
        for x in self.pending:
            by.setdefault(x[0], []).append(x)
        self.pending = []
        for module, xs in by.items():
            t = time.time()
            s, tr, judged, rej = vlib.validate(self.work, [x[1] for x in xs], module, timeout or self.pick(500, 3000))
            self.trace_states += s
            self.trace_transitions += tr
            self.traces += judged - len(rej)
            n = sum(x[1].count('"op":') for x in xs)
            self.events += n
            self.log("validated %d traces, %d events, with %s in %.1fs; %d rejected" % (judged, n, module, time.time() - t, len(rej)))
            if len(self.samples) < 6:
                for x in xs[:: max(1, len(xs) // 3)][:3]:
                    self.samples.append({"origin": x[3]["run"], "commands": [c[:160] for c in x[2][:6]],
                                         "events": len(json.loads(x[1])["ev"])})
            for k, n, ev, why in rej:
                self.violation(module, xs[k], n, ev, why)

    def violation(self, module, x, n, ev, why):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, "%s-%d.json" % (self.pid, len(self.violations) + 1))
        with open(f, "w") as fh:
            json.dump({"property": self.pid, "spec": module, "why": why, "event_number": n,
                       "event": ev, "origin": x[3], "commands": x[2], "trace": json.loads(x[1])}, fh, indent=1)
        self.violations.append(f)
        self.log("rejected:", why, "event", n, json.dumps(ev)[:400])

    def finish(self):
        self.join()
        self.judge()
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k), flush=True)
        for f in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.pid, f), flush=True)
        self.evidence()
        return 1 if self.violations else 0

    def evidence(self):
        cov = {
            "states": sum(m["states"] for m in self.models) + self.trace_states,
            "transitions": sum(m["transitions"] for m in self.models) + self.trace_transitions,
            "traces_validated_against_impl": self.traces,
            "events_validated": self.events,
            "models": self.models,
            "implementation_runs": self.runs,
            "sessions_executed": sum(r.get("executed", 0) for r in self.runs),
            "samples": self.samples or ["none"],
        }
        cov.update(self.notes)
        if self.level in ("exploration", "fault_enumeration"):
            cov["evaluations"] = cov["sessions_executed"]
        e = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
             "assumptions": ASSUMPTIONS, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as fh:
            json.dump(e, fh, indent=1)

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)


ASSUMPTIONS = [
    "The models are checked within the constants given in coverage.models.",
    "The implementation is judged on the executions listed in coverage.implementation_runs; of large screened runs "
    "TLC judges every session the screening filter finds suspicious and a fixed sample of the others.",
    "g++, libstdc++, protobuf, the JVM, TLC and the harness are trusted.",
]
