"""Building the implementation, running TLC, validating traces, evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, time, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = min(8, os.cpu_count() or 8)


class CheckError(Exception):
    """Something is wrong with the check itself (or the tree does not build)."""


# ------------------------------------------------------------------ building

FLAVOURS = {
    "plain": (["-O2"], []),
    "asan": (["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"], ["-fsanitize=address"]),
    "tsan": (["-O1", "-g1", "-fsanitize=thread"], ["-fsanitize=thread"]),
}


def _run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def repo_sources():
    out = []
    for top in ("src", "third-party"):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            out += [os.path.join(d, f) for f in fs if f.endswith((".cpp", ".cc", ".cxx"))]
    return sorted(out)


def build(work, flavour, mains, optional=()):
    """Compiles the library from /repo's working tree and links it with each of
    the harness programs.  Returns {name: path}; optional programs that do not
    compile are left out."""
    cflags, lflags = FLAVOURS[flavour]
    d = os.path.join(work, "b-" + flavour)
    gen = os.path.join(d, "gen", "liblevenshtein", "proto")
    os.makedirs(gen, exist_ok=True)
    pb = os.path.join(gen, "liblevenshtein.pb.cc")
    if not os.path.exists(pb):
        r = _run(["protoc", "-I" + os.path.join(REPO, "proto"), "--cpp_out=" + gen,
                  os.path.join(REPO, "proto", "liblevenshtein.proto")])
        if r.returncode:
            raise CheckError("protoc failed:\n" + r.stdout)
    inc = ["-I" + os.path.join(REPO, "src"), "-I" + os.path.join(REPO, "third-party"),
           "-I" + os.path.join(d, "gen"), "-I" + gen, "-I" + HARNESS]
    base = ["g++", "-std=c++20", "-w", "-pthread"] + cflags + inc

    lib = []
    jobs = []
    for s in repo_sources() + [pb]:
        o = os.path.join(d, hashlib.md5(s.encode()).hexdigest()[:12] + ".o")
        lib.append(o)
        if not os.path.exists(o):
            jobs.append((s, o, True))
    objs = {}
    for m in list(mains) + list(optional):
        if m == "demo":  # the example project, not a harness
            src = os.path.join(REPO, "example", "src")
            srcs = [os.path.join(src, f) for f in sorted(os.listdir(src)) if f.endswith((".cpp", ".cc", ".cxx"))]
        else:
            srcs = [os.path.join(HARNESS, m + ".cpp")]
        objs[m] = []
        for s in srcs:
            o = os.path.join(d, "main-%s-%s.o" % (m, os.path.basename(s)))
            objs[m].append(o)
            jobs.insert(0, (s, o, m in mains))

    def compile1(j):
        s, o, needed = j
        r = _run(base + ["-c", s, "-o", o])
        if r.returncode and needed and s.startswith(HARNESS):  # iterators that cannot be copied
            r2 = _run(base + ["-DNO_COPIES", "-c", s, "-o", o])
            r = r if r2.returncode else r2
        return s, needed, r

    bad = set()
    with ThreadPoolExecutor(CORES) as ex:
        for s, needed, r in ex.map(compile1, jobs):
            if r.returncode:
                if needed:
                    raise CheckError("cannot compile %s:\n%s" % (s, r.stdout[-4000:]))
                bad.add(os.path.basename(s)[:-4])

    exes = {}

    def link(m):
        e = os.path.join(d, m)
        return m, e, _run(["g++", "-pthread"] + lflags + objs[m] + lib + ["-lprotobuf", "-ldl", "-o", e])

    with ThreadPoolExecutor(CORES) as ex:
        for m, e, r in ex.map(link, [m for m in objs if m not in bad]):
            if r.returncode:
                if m in mains:
                    raise CheckError("cannot link %s:\n%s" % (m, r.stdout[-4000:]))
            else:
                exes[m] = e
    return exes


def harness_env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=77:allocator_may_return_null=0:hard_rss_limit_mb=3500:detect_stack_use_after_return=0"
    e["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1:report_signal_unsafe=0"
    return e


# ----------------------------------------------------------------------- TLC

class TlcResult:
    def __init__(self, out, code, secs):
        self.out, self.code, self.secs = out, code, secs
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated = int(m.group(1)) if m else 0
        self.distinct = int(m.group(2)) if m else 0
        self.ok = "No error has been found" in out and code == 0
        self.deadlock = "Deadlock reached" in out
        m = re.search(r"Invariant (\w+) is violated", out)
        self.invariant = m.group(1) if m else None
        if not m:
            m = re.search(r"Action property (\w+) is violated|Temporal properties were violated", out)
            if m:
                self.invariant = m.group(1) or "temporal"
        self.finished = self.ok or self.deadlock or self.invariant is not None


def tlc(work, module, cfg=None, timeout=600, workers=CORES, extra=(), files=None, mem="6g", simulate=None):
    """Runs TLC on a copy of spec/ in a directory of its own."""
    d = tempfile.mkdtemp(prefix="tlc-", dir=work)
    for f in os.listdir(SPEC):
        if f.endswith((".tla", ".cfg")):
            shutil.copy(os.path.join(SPEC, f), d)
    for name, path in (files or {}).items():
        os.symlink(path, os.path.join(d, name))
    if cfg is not None and "\n" in cfg:
        with open(os.path.join(d, "run.cfg"), "w") as fh:
            fh.write(cfg)
        cfg = "run.cfg"
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss256m", "-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-config", cfg or module + ".cfg", "-metadir", os.path.join(d, "states"),
           "-noGenerateSpecTE"]
    cmd += list(extra) + [module + ".tla"]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        out, code = p.stdout, p.returncode
    except subprocess.TimeoutExpired as e:
        out = e.stdout or ""
        if isinstance(out, bytes):
            out = out.decode(errors="replace")
        code = -9
    r = TlcResult(out, code, time.time() - t)
    r.dir = d
    if r.ok:
        shutil.rmtree(d, ignore_errors=True)
    return r


def errors(out):
    """The interesting part of TLC's output."""
    k = out.find("Error:")
    return out[max(0, k):][:2500] if k >= 0 else out[-2500:]


def cfg(module, **constants):
    """The default configuration of a module with other constants."""
    with open(os.path.join(SPEC, module + ".cfg")) as fh:
        text = fh.read()
    for k, v in constants.items():
        text, n = re.subn(r"(?m)^(\s*(?:CONSTANTS\s+)?%s\s*)(=|<-).*$" % k,
                          lambda m: m.group(1) + (v if v.startswith("<-") else "= " + v), text)
        if n != 1:
            raise CheckError("no constant %s in %s.cfg" % (k, module))
    return text


def model(work, module, cfg=None, timeout=600, workers=CORES, label=None, **kw):
    """Model-checks a specification; the design must satisfy its invariants."""
    r = tlc(work, module, cfg, timeout, workers, **kw)
    if not r.ok:
        raise CheckError("the specification %s does not check:\n%s" % (module, errors(r.out)))
    return {"spec": module, "config": label or "default", "states": r.distinct, "transitions": r.generated,
            "seconds": round(r.secs, 1)}


# ------------------------------------------------------------ trace checking

STATE_VAR = re.compile(r"^/\\ (sid|l) = (-?\d+)", re.M)


def steady(work, module, timeout, workers, f):
    """TLC on a trace; once more if it could not finish (its stack, say)."""
    for _ in range(3):
        r = tlc(work, module, timeout=timeout, workers=workers, files={"trace.ndjson": f})
        if r.finished or r.code == -9:
            break
    return r


def validate(work, lines, module="LibraryTrace", timeout=600, workers=CORES):
    """lines: list of session records (JSON text).  Returns (states, transitions,
    judged, rejected) where rejected is a list of (index, event number, event, why)."""
    live = list(range(len(lines)))
    # What the screening filter finds suspicious first, small sessions first.  If
    # some of it is rejected, that is the answer.
    odd = [k for k in live if '"x":1' in lines[k][:40]]
    if odd:
        odd.sort(key=lambda k: len(lines[k]))
        odd = odd[:24]
        small = [k for k in odd if len(lines[k]) < 200000]
        for group in (small, odd[len(small):]):
            if group:
                st, tr, rej = _validate(work, lines, group, module, timeout, workers)
                if rej:
                    return st, tr, len(group), rej
    st, tr, rej = _validate(work, lines, live, module, timeout, workers)
    return st, tr, len(live), rej


def _validate(work, lines, live, module, timeout, workers):
    live = list(live)
    rejected = []
    states = transitions = 0
    for _ in range(3):  # find a few rejected sessions, not all
        if not live:
            break
        f = os.path.join(work, "trace-%d.ndjson" % (time.time_ns()))
        with open(f, "w") as fh:
            for k in live:
                fh.write(lines[k].rstrip("\n") + "\n")
        r = steady(work, module, timeout, workers, f)
        states += r.distinct
        transitions += r.generated
        if r.ok:
            os.unlink(f)
            break
        if not (r.deadlock or r.invariant):
            raise CheckError("trace validation with %s failed:\n%s" % (module, errors(r.out)))
        vals = {}
        for m in STATE_VAR.finditer(r.out):
            vals[m.group(1)] = int(m.group(2))
        k = live[vals["sid"] - 1]
        rec = json.loads(lines[k])
        # a rejection counts only if checking that session alone repeats it
        with open(f, "w") as fh:
            fh.write(lines[k].rstrip("\n") + "\n")
        r2 = steady(work, module, timeout, 1, f)
        if r2.ok:
            raise CheckError("a rejection by %s was not repeated" % module)
        if not (r2.deadlock or r2.invariant):
            raise CheckError("trace validation with %s failed:\n%s" % (module, errors(r2.out)))
        vals = {}
        for m in STATE_VAR.finditer(r2.out):
            vals[m.group(1)] = int(m.group(2))
        n = vals.get("l", 1)
        if module == "SubsumeTrace":  # two steps per event
            n = (n + 1) // 2
        ev = rec["ev"][n - 1] if 0 < n <= len(rec["ev"]) else None
        rejected.append((k, n, ev, r2.invariant or "not a behaviour of the specification"))
        live.remove(k)
        os.unlink(f)
    return states, transitions, rejected


# ------------------------------------------------------------------ sessions

def read_cmds(path):
    """{session number: [commands]} of a .cmds file"""
    out, cur = {}, None
    with open(path) as fh:
        for line in fh:
            line = line.rstrip("\n")
            if line.startswith("S "):
                cur = int(line[2:])
                out[cur] = []
            elif cur is not None and line:
                out[cur].append(line)
    return out


def collect(prefix, workers):
    """The records a harness run left: [(json line, commands)]"""
    recs = []
    for w in range(workers):
        p = "%s.%d" % (prefix, w)
        if not os.path.exists(p):
            continue
        cmds = read_cmds(p + ".cmds") if os.path.exists(p + ".cmds") else {}
        with open(p) as fh:
            for line in fh:
                line = line.rstrip("\n")
                if line:
                    k = int(re.match(r'\{"s":(-?\d+)', line).group(1))
                    recs.append((line, cmds.get(k, [])))
    stat = {}
    if os.path.exists(prefix + ".stat"):
        stat = json.load(open(prefix + ".stat"))
    return recs, stat


def hex_(b):
    return b.hex() if b else "-"
