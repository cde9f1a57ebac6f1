"""Runs of the demonstration program (example/), recorded for DemoTrace.tla."""
import json, os, re, resource, shutil, signal, subprocess
from concurrent.futures import ThreadPoolExecutor

ALGS = {"standard": "--standard", "transposition": "--transposition", "merge_and_split": "--merge-and-split"}
SHOWN = {b"standard": "standard", b"transposition": "transposition", b"merge-and-split": "merge_and_split"}
TEXT = {0: "../resources/programming-languages.txt", 1: "one.txt", 2: "two words.txt"}
SAVED = {0: "programming-languages.pb", 1: "one.pb", 2: "two words.pb"}


def unhex(h):
    return b"" if h == "-" else bytes.fromhex(h)


def term(b):
    return list(b)


def limits():
    resource.setrlimit(resource.RLIMIT_FSIZE, (16 << 20, 16 << 20))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class History:
    """The commands of one session, executed in a directory of its own."""

    def __init__(self, exe, top, env, seconds):
        self.exe, self.top, self.env, self.seconds = exe, top, env, seconds
        self.cwd = os.path.join(top, "cwd")
        os.makedirs(self.cwd)
        os.makedirs(os.path.join(top, "resources"))
        self.ev = []
        self.bad = False

    def path(self, name):
        return os.path.normpath(os.path.join(self.cwd, name))

    def execute(self, cmds):
        for c in cmds:
            w = c.split(" ")
            getattr(self, "do_" + w[0])(*w[1:])
            if self.bad:
                break
        return self.ev

    def do_text(self, f, *ws):
        """text F[!] LINE...: the last line without its newline if !"""
        lines = [unhex(x) for x in ws]
        cut = f.endswith("!") and lines and lines[-1]
        f = int(f.rstrip("!"))
        data = b"".join(x + b"\n" for x in lines)
        with open(self.path(TEXT[f]), "wb") as fh:
            fh.write(data[:-1] if cut else data)
        self.ev.append({"op": "Text", "f": f, "lines": [term(x) for x in lines]})

    def do_notext(self, f):
        if os.path.exists(self.path(TEXT[int(f)])):
            os.unlink(self.path(TEXT[int(f)]))
        self.ev.append({"op": "NoText", "f": int(f)})

    def do_nosave(self, f):
        if os.path.exists(self.path(SAVED[int(f)])):
            os.unlink(self.path(SAVED[int(f)]))
        self.ev.append({"op": "NoSave", "f": int(f)})

    def do_tear(self, f, k):
        p = self.path(SAVED[int(f)])
        if not os.path.exists(p):
            return
        n = os.path.getsize(p)
        k = min(int(k) % (n + 1), n)
        os.truncate(p, k)
        self.ev.append({"op": "Tear", "f": int(f), "lossless": k == n})

    def do_run(self, end, *ws):
        k = ws.index(":")
        argv, args = [], []
        for o in ws[:k]:
            name, _, val = o.partition(":")
            if name == "help":
                argv.append("-h" if len(argv) % 2 else "--help")
                args.append({"a": "help"})
            elif name == "bad":
                argv.append("--no-such-option")
                args.append({"a": "bad"})
            elif name == "dict":
                argv += ["--dictionary-path", TEXT[int(val)]]
                args.append({"a": "dict", "f": int(val)})
            elif name == "ser":
                argv += ["--serialization-path", SAVED[int(val)]]
                args.append({"a": "ser", "f": int(val)})
            elif name == "alg":
                argv.append(ALGS[val])
                args.append({"a": "alg", "alg": val})
            elif name == "dist":
                argv += ["--max-distance", val]
                args.append({"a": "dist", "n": min(int(val), 10 ** 9)})
            elif name == "open":
                argv.append({"dict": "--dictionary-path", "ser": "--serialization-path", "dist": "--max-distance"}[val])
                args.append({"a": "open", "opt": val})
        qs = [unhex(x) for x in ws[k + 1:]]
        data = b"".join(q + b"\n" for q in qs)
        if end == "line":
            data += b"\nab\n"
            asked = qs + [b"", b"ab"]
        else:
            asked = qs
            if end == "cut" and qs and qs[-1]:  # the input ends in the middle of a line
                data = data[:-1]
        out = os.path.join(self.top, "out")
        with open(out, "wb") as fh:
            try:
                p = subprocess.run([self.exe] + argv, cwd=self.cwd, input=data, stdout=fh, stderr=subprocess.PIPE,
                                   timeout=self.seconds, env=self.env, preexec_fn=limits)
                code, err = p.returncode, p.stderr
            except subprocess.TimeoutExpired:
                code, err = None, b""
        if code == -signal.SIGXFSZ:  # it goes on and on
            self.bad = True
            with open(out, "rb") as fh:
                text = fh.read(1 << 20)
            text = text[:text.rfind(b"query> ")]
            self.ev.append({"op": "Endless", "args": args, "queries": [term(q) for q in asked], "cut": end == "cut",
                            "answers": self.answers(text, asked + asked[-1:] * 30)[:len(asked) + 20]})
            return
        if code is None or code < 0 or code == 77:
            self.bad = True
            msg = "".join(chr(c) if 32 <= c < 127 and chr(c) not in '"\\' else " " for c in err[-300:])
            self.ev.append({"op": "Hang" if code is None else "Crash", "status": code or 0, "msg": msg})
            return
        with open(out, "rb") as fh:
            text = fh.read()
        self.ev.append({"op": "Run", "args": args, "queries": [term(q) for q in asked], "code": code,
                        "config": self.config(text), "answers": self.answers(text, asked)})

    def config(self, text):
        got = dict(re.findall(rb"^  ([a-z-]+): (.*)$", text.split(b"query> ")[0], re.M))
        if not got:
            return []
        d = {b'"%s"' % v.encode(): k for k, v in TEXT.items()}
        s = {b'"%s"' % v.encode(): k for k, v in SAVED.items()}
        n = got.get(b"max-distance", b"")
        return [d.get(got.get(b"dictionary-path"), 99), s.get(got.get(b"serialization-path"), 99),
                SHOWN.get(got.get(b"algorithm"), "?"), min(int(n), 10 ** 9) if n.isdigit() else 99]

    def answers(self, text, asked):
        parts = text.split(b"query> ")[1:]
        if not parts:
            return []
        res = []
        for k, part in enumerate(parts[:-1]):  # the last prompt is that of the end
            q = asked[k] if k < len(asked) else b""
            head = b'd("' + q + b'", "'
            a = []
            for line in part.split(b"\n"):
                m = re.match(re.escape(head) + rb'(.*)"\) = (\d+)$', line, re.S)
                if m:
                    a.append([term(m.group(1)), min(int(m.group(2)), 10 ** 9)])
                elif line.startswith(b'd("'):
                    a.append([[999], 0])
            res.append(a)
        if b'd("' in parts[-1]:
            res.append([[[998], 0]])
        return res


def run(exe, work, sessions, env=None, workers=8, seconds=60):
    """[(json line, commands)]"""
    top = os.path.join(work, "demo")
    e = dict(os.environ)
    e.update(env or {})

    def one(k):
        d = os.path.join(top, "s%d" % k)
        os.makedirs(d)
        h = History(exe, d, e, seconds)
        try:
            ev = h.execute(sessions[k])
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return json.dumps({"s": k, "x": 1 if h.bad else 0, "ev": ev}, separators=(",", ":")), sessions[k]

    with ThreadPoolExecutor(workers) as ex:
        return list(ex.map(one, range(len(sessions))))


def histories(r, count):
    """Random histories."""
    out = []
    for _ in range(count):
        al = r.choice([b"ab", b"abc", b"abcdefgh", b"a\"", b"a\r\t ", bytes([97, 128, 255]), b"a\0"])

        def word(n):
            return bytes(r.choice(al) for _ in range(r.randrange(n)))

        def hx(b):
            return b.hex() or "-"

        cmds = []
        vocab = [word(r.choice([3, 5, 9])) for _ in range(r.randrange(1, 30))]
        if r.random() < 0.8:
            cmds.append("text 0 " + " ".join(hx(w) for w in vocab))
        for _ in range(r.randrange(3, 12)):
            z = r.random()
            f = r.randrange(3)
            if z < 0.2:
                ws = [r.choice(vocab) if r.random() < 0.7 else word(6) for _ in range(r.randrange(0, 25))]
                cmds.append(" ".join(["text %d%s" % (f, "!" if r.random() < 0.3 else "")] + [hx(w) for w in ws]))
            elif z < 0.25:
                cmds.append("notext %d" % f)
            elif z < 0.3:
                cmds.append("nosave %d" % f)
            elif z < 0.45:
                cmds.append("tear %d %d" % (f, r.randrange(4000)))
            else:
                o = []
                for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
                    o.append(r.choice(["dict:%d" % r.randrange(3), "ser:%d" % r.randrange(3), "alg:" + r.choice(sorted(ALGS)),
                                       "dist:%d" % r.choice([0, 1, 2, 3, 5, 20, 2 ** 32, 2 ** 64 - 1]), "alg:" + r.choice(sorted(ALGS))]))
                if r.random() < 0.1:
                    o.insert(r.randrange(len(o) + 1), r.choice(["help", "bad"]))
                if r.random() < 0.05:
                    o.append("open:" + r.choice(["dict", "ser", "dist"]))
                qs = [q for q in ((r.choice(vocab) + word(2) if r.random() < 0.5 else word(7)) for _ in range(r.randrange(5)))]
                if r.random() < 0.8:
                    qs = [q for q in qs if q]
                cmds.append(" ".join(["run", r.choice(["line", "eof"])] + o + [":"] + [hx(q) for q in qs]))
        out.append(cmds)
    return out
