"""One function per property."""
import json, os, random, re, sys, traceback
import demo
import gen
from vlib import CheckError, VERIF
from ctx import Ctx

REG = {}


def check(pid, level="model_checking"):
    def deco(f):
        REG[pid] = (f, level)
        return f
    return deco


def known_findings(pid):
    """The listed findings of a property: the input that fails, and what fails."""
    with open(os.path.join(VERIF, "known-findings.txt")) as fh:
        for line in fh:
            m = re.match(r"known: property=(\S+) input=(.*?) \| (.*)$", line.strip())
            if m and m.group(1) == pid:
                yield m.group(2), m.group(3)


def masks(c, bits, count, salt=0):
    """A reproducible sample of subsets, always with the empty and the full one."""
    r = random.Random(c.seed * 7919 + salt)
    return [0, (1 << bits) - 1] + [r.getrandbits(bits) for _ in range(count)]


# ------------------------------------------------------------------ searches

ALGS = ("standard", "transposition", "merge_and_split")


def lev_models(c, algs, queries=True):
    """The automaton accepts exactly the words within the distance."""
    names = ", ".join('"%s"' % ALGS[a] for a in algs)
    c.model("LevModel", consts={"Algs": "{%s}" % names})
    if not c.quick:
        c.model("LevModel", consts={"Algs": "{%s}" % names, "MaxQuery": "4", "MaxN": "4", "MaxWord": "7"})
        c.model("LevModel", consts={"Algs": "{%s}" % names, "Chars": "{1, 2}", "MaxQuery": "6", "MaxN": "4", "MaxWord": "8"})
    if queries:
        c.model("QueryModel", consts={"Algs": "{%s}" % names})
        if not c.quick:
            c.model("QueryModel", consts={"Algs": "{%s}" % names, "MaxTerms": "4", "MaxQuery": "3"}, timeout=2500)


def search_check(c, alg):
    c.background(lev_models, c, [alg])
    c.build("plain")
    c.run("abc", gen.allwords_sessions(alg, "abc", 5, 5, range(0, 7), per=3), sample=c.pick(2, 0))
    c.run("ab", gen.allwords_sessions(alg, "ab", c.pick(7, 9), c.pick(7, 9), range(0, 10), per=4), sample=40)
    c.run("abcd", gen.allwords_sessions(alg, "abcd", c.pick(4, 5), c.pick(4, 5), range(0, 6), per=4), sample=c.pick(8, 20))
    large(c, str(alg), alg)
    c.fuzz("search%d" % alg, c.pick(40000, 3000000), c.pick(12, 900), c.pick(100, 2000))


def large(c, what, salt):
    """Sizes and shapes at which a limit, a hash collision or a growing table
    would show; TLC judges them only if the screening filter objects."""
    c.run("large", gen.large(random.Random(c.seed * 101 + salt), c.pick([2500, 25000], [2500, 25000, 66000, 140000]), what), sample=1000000)


@check("C01")
def c01(c):
    search_check(c, 0)


@check("C02")
def c02(c):
    search_check(c, 1)


@check("C03")
def c03(c):
    search_check(c, 2)


@check("C04")
def c04(c):
    c.background(lev_models, c, [0, 1, 2], False)
    c.build("plain")
    large(c, "012", 4)
    for alg in range(3):
        c.run("abc%d" % alg, gen.allwords_sessions(alg, "abc", 4, 4, list(range(0, 6)) + [100], kinds="cs", per=4))
    c.fuzz("search", c.pick(40000, 3000000), c.pick(12, 900), c.pick(100, 2000))


def iteration_tours(c, kinds, salt, copies=False, flavour="plain"):
    """Every transition of two interleaved iterations."""
    k = 0
    for terms, query, n in c.pick([("T3", "Q1", 1)], [("T3", "Q1", 1), ("T1", "Q1", 1), ("T5", "Q1", 2), ("T5", "Q1", 1)]):
        for alg in ALGS if not c.quick else [ALGS[(c.seed + salt) % 3]]:
            k += 1
            g = c.generate("IterGen", per=10, last=["iz 1", "iz 2", "in 1", "ie 1", "ie 2"],
                           consts={"Alg": '"%s"' % alg, "Terms0": "<- " + terms, "Query": "<- " + query, "Limit": str(n), "Kinds": kinds,
                                   "Copies": "TRUE" if copies else "FALSE"})
            c.run("tour%d" % k, g, sample=c.pick(60 if copies else 6, 400 if copies else 40), flavour=flavour)


@check("C05")
def c05(c):
    c.background(c.model, "QueryModel")
    c.background(c.model, "EnumModel")
    c.build("plain")
    iteration_tours(c, '{"c", "s"}', 0)
    large(c, "012", 5)
    c.fuzz("iterate", c.pick(60000, 3000000), c.pick(12, 900), c.pick(150, 2000))


@check("C06")
def c06(c):
    c.background(c.model, "QueryModel")
    c.build("plain")
    iteration_tours(c, '{"c", "e"}', 1)
    large(c, "012", 6)
    c.fuzz("iterate", c.pick(60000, 3000000), c.pick(12, 900), c.pick(150, 2000), salt=6)


# -------------------------------------------------------------- dictionaries

def dictionary_models(c, enum=False):
    c.model("DawgModel")
    if enum:
        c.model("EnumModel")
    if not c.quick:
        c.model("DawgModel", consts={"Chars": "{1, 2, 3}", "MaxTerms": "13", "Dups": "FALSE"}, timeout=2500)
        c.model("DawgModel", consts={"MaxLen": "3", "MaxTerms": "15", "Dups": "FALSE"}, timeout=2500)


def histories(c, vocabulary="W3", sample=400):
    """Every transition of two dictionaries and a file."""
    g = c.generate("LibGen", per=20, consts={"Vocabulary": "<- " + vocabulary, "MaxSeq": "2"},
                   last=["probe 1", "probe 2", "eq 1 2", "con 1 - 61 62 6161 6162 6262", "con 2 - 61 62 6161 6162 6262", "des 1 1 c", "probe 1",
                         "drop 1", "drop 2", "rmf 1"])
    c.run("histories", g, sample=sample)


@check("C07")
def c07(c):
    c.background(dictionary_models, c)
    c.build("plain")
    large(c, "d", 7)
    c.run("ab2", gen.every_dictionary("ab", 2, 4, probe_len=3))
    c.run("ab3", gen.every_dictionary("ab", 3, 32, probe_len=4, masks=None if not c.quick else masks(c, 15, 12000, 7)), sample=40)
    c.run("abc3", gen.every_dictionary("abc", 3, 8, probe_len=4, masks=masks(c, 40, c.pick(1500, 60000), 8)), sample=15)
    c.fuzz("dictionary", c.pick(40000, 2000000), c.pick(10, 900), c.pick(200, 2000))


@check("C08")
def c08(c):
    c.background(dictionary_models, c, True)
    c.build("plain")
    large(c, "d", 8)
    c.run("seq", gen.every_sequence("ab", 1, 4, 8))
    c.run("ab3", gen.every_dictionary("ab", 3, 32, probe_len=1, masks=None if not c.quick else masks(c, 15, 12000, 7)), sample=40)
    iteration_tours(c, '{"e"}', 2)
    c.fuzz("dictionary", c.pick(40000, 2000000), c.pick(10, 900), c.pick(200, 2000), salt=8)


@check("C09")
def c09(c):
    c.background(dictionary_models, c)
    c.build("plain")
    large(c, "d", 9)
    c.run("seq1", gen.every_sequence("ab", 1, 5, 8), sample=c.pick(3, 1))
    c.run("seq2", gen.every_sequence("ab", 2, c.pick(4, 5), 8), sample=30)
    histories(c)
    c.fuzz("dictionary", c.pick(40000, 2000000), c.pick(10, 900), c.pick(200, 2000), salt=9)


@check("C10")
def c10(c):
    c.background(dictionary_models, c)
    c.background(c.model, "GraphModel")
    c.build("plain")
    large(c, "d", 10)
    c.run("ab2", gen.every_dictionary("ab", 2, 4, probe_len=0))
    c.run("ab3", gen.every_dictionary("ab", 3, 32, probe_len=0), sample=40)
    c.run("ab4", gen.every_dictionary("ab", 4, 16, probe_len=0, masks=masks(c, 31, c.pick(5000, 200000), 10)), sample=20)
    c.fuzz("dictionary", c.pick(40000, 2000000), c.pick(10, 900), c.pick(200, 2000), salt=10)


@check("C11")
def c11(c):
    c.background(dictionary_models, c)
    c.build("plain")
    large(c, "e", 11)
    c.run("ab2", gen.every_pair("ab", 2, 1), sample=6)
    histories(c, sample=300)
    c.fuzz("twins", c.pick(60000, 2000000), c.pick(12, 900), c.pick(150, 2000))


# ------------------------------------------------------------- serialization

def serial_models(c):
    c.model("SerialModel")
    if not c.quick:
        c.model("SerialModel", consts={"Buffer": "4", "Width": "3"}, timeout=2500)


@check("C12")
def c12(c):
    c.background(serial_models, c)
    c.build("plain")
    large(c, "s", 12)
    c.run("ab2", gen.every_roundtrip("ab", 2, 2))
    c.run("ab3", gen.every_roundtrip("ab", 3, 8, masks=masks(c, 15, c.pick(3000, 60000), 12)), sample=20)
    histories(c, sample=300)
    c.fuzz("roundtrip", c.pick(30000, 1000000), c.pick(12, 900), c.pick(100, 2000))


@check("C13")
def c13(c):
    c.background(serial_models, c)
    c.build("plain")
    c.build("asan")
    c.run("ab2", gen.every_tear("ab", 2, 1), sample=3)
    c.fuzz("incomplete", c.pick(20000, 600000), c.pick(12, 900), c.pick(100, 2000))
    c.fuzz("incomplete", c.pick(1500, 60000), c.pick(8, 600), 1000000, flavour="asan", salt=13)


@check("C14")
def c14(c):
    c.background(serial_models, c)
    c.build("plain")
    c.run("ab2", gen.every_fault("ab", 2, 1), sample=3)
    histories(c, sample=300)
    c.fuzz("faults", c.pick(20000, 600000), c.pick(12, 900), c.pick(100, 2000))


@check("C26")
def c26(c):
    r = random.Random(c.seed * 31 + 26)
    c.background(c.model, "GraphModel")
    c.build("plain")
    graphs = sum(c.generate("FormatGen", consts=None if c.quick else {"MaxNodes": "5"}, per=1000), [])
    r.shuffle(graphs)
    c.run("written", gen.messages(graphs[:c.pick(1200, 40000)], r, 10, c.pick(4, 6)), sample=c.pick(8, 40))
    c.run("ab3", gen.every_message("ab", 3, 40, masks=masks(c, 15, c.pick(3000, 30000), 26)), sample=c.pick(4, 10))
    large(c, "m", 26)
    c.fuzz("message", c.pick(30000, 1000000), c.pick(10, 900), c.pick(100, 2000))


# ----------------------------------------------------------------- distances

def edit_models(c):
    c.model("EditModel")
    if not c.quick:
        c.model("EditModel", consts={"Chars": "{1, 2, 3}"}, timeout=2500)
        c.model("EditModel", consts={"MaxLen": "6"}, timeout=2500)


@check("C15")
def c15(c):
    c.background(edit_models, c)
    c.build("plain")
    for alg in range(3):
        c.run("abc3-%d" % alg, gen.every_distance(alg, "abc", 3, per=60))
        c.run("abc5-%d" % alg, gen.every_distance(alg, "abc", c.pick(4, 5), per=200), sample=20)
        c.run("ab6-%d" % alg, gen.every_distance(alg, "ab", c.pick(6, 7), per=200), sample=30)
    c.fuzz("distances", c.pick(40000, 2000000), c.pick(10, 900), c.pick(150, 2000))
    # one object that has computed thousands of distances
    c.run("history", gen.long_histories(random.Random(c.seed), c.pick(3, 24), c.pick(6000, 40000)), sample=1000)


@check("C16")
def c16(c):
    c.background(edit_models, c)
    c.build("plain")
    for cmd, text in known_findings("C16"):
        c.run("known", [[cmd]])
        r = json.loads(c.pending[-1][1])["ev"][0].get("cases", [[0, 0, 0, 0, [0] * 8]])[0][4]
        if r[3] > r[0] + r[2]:
            c.known.append(text)
    for alg in range(3):
        c.run("ab-%d" % alg, gen.every_axiom(alg, "ab", 2, per=49))
    c.fuzz("axioms", c.pick(40000, 2000000), c.pick(10, 900), c.pick(150, 2000))


# ------------------------------------------------------------------- threads

@check("C17")
def c17(c):
    def models():
        c.model("MemoModel", consts={"Alg": '"%s"' % ALGS[c.seed % 3]} if c.quick else None)
        if not c.quick:
            for a in ALGS:
                c.model("MemoModel", consts={"Alg": '"%s"' % a}, timeout=2500)
    c.build("plain", ["thr"])
    for k, a in enumerate(ALGS):
        g = c.generate("MemoGen", consts={"Alg": '"%s"' % a, "MaxTotal": c.pick("5", "6")}, per=1)
        c.run("schedules-%d" % k, g, prog="thr", sample=c.pick(60, 200))
    c.background(models)
    c.fuzz("memo", c.pick(100000, 4000000), c.pick(8, 900), c.pick(400, 4000), prog="thr")
    c.fuzz("sweep", c.pick(100000, 4000000), c.pick(6, 600), c.pick(200, 4000), prog="thr")
    c.build("tsan", ["thr"])
    c.fuzz("memo", c.pick(100000, 4000000), c.pick(10, 900), c.pick(1000, 8000), "tsan", prog="thr", salt=17)


@check("C18")
def c18(c):
    c.background(c.model, "QueryModel")
    c.build("plain", ["thr"])
    c.fuzz("readers", c.pick(100000, 4000000), c.pick(10, 900), c.pick(300, 4000), prog="thr")
    c.build("tsan", ["thr"])
    c.fuzz("readers", c.pick(100000, 4000000), c.pick(14, 900), c.pick(300, 4000), "tsan", prog="thr", salt=18)


# -------------------------------------------------------------------- memory

@check("C19")
def c19(c):
    c.background(c.model, "DawgModel")
    c.build("asan")
    c.fuzz("lifecycle", c.pick(4000, 400000), c.pick(40, 1500), c.pick(60, 500), flavour="asan", repeat=2)


# ------------------------------------------------------- parts of the library

@check("C27")
def c27(c):
    r = random.Random(c.seed * 31 + 27)
    c.background(c.model, "GraphModel")
    c.build("plain")
    graphs = sum(c.generate("FormatGen", consts=None if c.quick else {"MaxNodes": "5"}, per=1000), [])
    r.shuffle(graphs)
    c.run("made", gen.hand_made(graphs[:c.pick(1200, 40000)], r, 10, c.pick(2, 4)), sample=c.pick(8, 40))
    c.run("below", gen.every_part("ab", 3, 30, masks=masks(c, 15, c.pick(600, 30000), 27)), sample=c.pick(4, 10))
    c.fuzz("parts", c.pick(30000, 1000000), c.pick(10, 900), c.pick(100, 2000))


@check("C28")
def c28(c):
    c.background(c.model, "QueryModel")
    c.background(c.model, "EnumModel")
    c.build("plain")
    iteration_tours(c, '{"c", "e"}', 1, copies=True)
    c.fuzz("copies", c.pick(60000, 3000000), c.pick(8, 900), c.pick(150, 2000))
    c.build("asan")
    c.fuzz("copies", c.pick(6000, 400000), c.pick(10, 900), c.pick(200, 2000), flavour="asan", repeat=2, salt=28)


@check("C29")
def c29(c):
    r = random.Random(c.seed * 31 + 29)
    c.background(lev_models, c, [0, 1, 2])
    c.build("plain")
    c.run("ab", gen.every_exploration(r, "ab", 6, 4, [0, 1, 2], c.pick([0, 30], [0, 10, 30, 60, 80]), 2), sample=c.pick(5, 3))
    c.run("abc", gen.every_exploration(r, "abc", c.pick(5, 6), c.pick(3, 4), [0, 1, 2, 3], c.pick([0, 20], [0, 5, 20, 50]), 2), sample=c.pick(10, 10))
    c.fuzz("pages", c.pick(60000, 3000000), c.pick(10, 900), c.pick(120, 2000))


# -------------------------------------------------------------------- limits

@check("C20")
def c20(c):
    r = random.Random(c.seed * 31 + 20)
    env = {"SESSION_SECONDS": "150"}
    c.background(lev_models, c, [0, 1, 2], False)
    c.build("plain")
    c.run("huge", gen.huge_limits(r, c.pick(150, 3000)), env=env)
    c.run("query", gen.long_query(r, c.pick([300, 70001], [300, 1000, 5000, 32768, 65535, 65536, 70001])), env=env)
    c.run("words", gen.long_words(r, [63, 64, 65, 127, 128, 129], c.pick(4, 10), 1, [0, 1, 2, 3]), sample=c.pick(3, 1), env=env)
    c.run("longer", gen.long_words(r, c.pick([255, 256, 257, 700, 1030], [255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2000]), c.pick(4, 10), 2, [0, 1, 2, 3]), sample=1000, env=env)
    c.run("apart", gen.far_apart(r, c.pick(20, 400)), sample=c.pick(4, 10), env=env)
    c.run("wide", gen.wide_windows(r, c.pick([31, 32, 33, 63, 64, 65, 66, 128, 256, 65533, 65540], [65533, 65535, 65536, 65540, 15, 16, 17, 30, 31, 32, 33, 62, 63, 64, 65, 66, 100, 127, 128, 129, 200, 255, 256, 257, 300])), sample=c.pick(9, 3), env=env)
    c.run("big", gen.big_dictionaries(r, [3000, 9000]), env=env)
    c.run("bigger", gen.big_dictionaries(r, c.pick([70000], [30000, 70000, 140000])), sample=1000, env=env)
    c.run("long", gen.long_distances(r, c.pick(12, 200)), sample=c.pick(4, 20), env=env)


@check("C21")
def c21(c):
    r = random.Random(c.seed * 31 + 21)
    c.background(edit_models, c)
    c.build("plain")
    c.run("each", gen.every_byte(r, c.pick(1, 6)), sample=c.pick(4, 12))
    c.run("fan", gen.fan_out(r, c.pick(8, 100)), sample=c.pick(0, 4))
    for k, profile in enumerate(["b:search", "b:dictionary", "b:roundtrip", "b:distances"]):
        c.fuzz(profile, c.pick(20000, 800000), c.pick(4, 400), c.pick(150, 2000), salt=21 + k)


# ----------------------------------------------------------------- internals

@check("C22")
def c22(c):
    c.build("plain", ["pos"])
    g = c.generate("PosListGen", c.pick(None, "PosListGenThorough.cfg"))
    c.run("gen", g, prog="pos", trace="PosListTrace", sample=c.pick(0, 10))
    c.fuzz("list", c.pick(300000, 10000000), c.pick(10, 900), c.pick(400, 4000), prog="pos", trace="PosListTrace")
    c.fuzz("merge", c.pick(300000, 10000000), c.pick(10, 900), c.pick(400, 4000), prog="pos", trace="PosListTrace")
    c.build("asan", ["pos"])
    c.fuzz("list", c.pick(10000, 400000), c.pick(6, 600), 1000000, "asan", 2, prog="pos", trace="PosListTrace")


@check("C23")
def c23(c):
    def models():
        c.model("SubsumeModel")
        if not c.quick:
            c.model("SubsumeModel", "SubsumeModelThorough.cfg", label="thorough")
    c.background(models)
    exes = c.build("plain", ["drv"], optional=["sub"])
    kw = dict(prog="sub", trace="SubsumeTrace")
    if "sub" in exes:
        n, m = c.pick((3, 3), (4, 5))
        c.run("rel", [["rel %d %d %d" % (a, e, l)] for a in range(3) for e in range(n + 1) for l in range(m + 1)] +
              ([["rel %d 2 4" % a] for a in range(3)] if c.quick else []), **kw)
        c.run("uns", gen.states(random.Random(c.seed), c.pick(300, 6000)), **kw)
        c.fuzz("at", c.pick(200000, 4000000), c.pick(6, 600), c.pick(2000, 20000), **kw)
        c.fuzz("unsat", c.pick(200000, 4000000), c.pick(6, 600), c.pick(2000, 20000), **kw)
    else:
        c.log("the subsumption functions are gone; searches only")
    c.fuzz("search", c.pick(20000, 1000000), c.pick(5, 600), c.pick(200, 2000), salt=23)


@check("C24")
def c24(c):
    c.background(c.model, "GraphModel")
    c.build("plain", ["node"])
    kw = dict(prog="node", trace="NodesTrace")
    c.run("gen", c.generate("NodesGen", per=1), **kw)
    c.fuzz("nodes", c.pick(100000, 4000000), c.pick(8, 900), c.pick(200, 4000), **kw)
    c.fuzz("deep", c.pick(100000, 4000000), c.pick(8, 900), c.pick(200, 4000), **kw)
    c.build("asan", ["node"])
    c.fuzz("nodes", c.pick(20000, 400000), c.pick(6, 600), 1000000, "asan", 2, salt=24, **kw)


# --------------------------------------------------------- the demonstration

@check("C25")
def c25(c):
    r = random.Random(c.seed * 31 + 25)
    g = c.generate("DemoGen", consts=None if c.quick else {"Contents": "<- C3"}, per=1)
    r.shuffle(g)
    c.build("plain", ["demo"])
    for cmd, text in known_findings("C25"):
        if any('"Endless"' in line for line, _ in c.demo("known", [cmd.split(";")])):
            c.known.append(text)
    c.demo("gen", g[:c.pick(1500, 20000)])
    c.demo("histories", demo.histories(r, c.pick(500, 8000)))
    c.build("asan", ["demo"])
    c.demo("asan", demo.histories(r, c.pick(60, 1000)), "asan")


def setup():
    """The tools the checks need are there; nothing is kept from this."""
    import shutil
    for t in ("java", "g++", "protoc"):
        if shutil.which(t) is None:
            print("missing:", t)
            return 1
    c = Ctx("setup", "other")
    try:
        c.build("plain")
    finally:
        c.cleanup()
    return 0


def main(argv):
    if argv and argv[0] == "setup":
        return setup()
    if not argv or argv[0] not in REG:
        print("usage: run.py", " ".join(sorted(REG)))
        return 2
    pid = argv[0]
    f, level = REG[pid]
    c = Ctx(pid, level)
    try:
        f(c)
        return c.finish()
    except CheckError as e:
        print("ERROR in the check %s: %s" % (pid, e), file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        c.cleanup()
