"""Systematic command files for the harness."""
import itertools

ALG = {"standard": 0, "transposition": 1, "merge_and_split": 2}


def words(alphabet, maxlen):
    for n in range(maxlen + 1):
        for t in itertools.product(alphabet, repeat=n):
            yield bytes(t)


def canonical(w):
    """Letters appear for the first time in alphabetical order: one word of
    every class of words that are renamings of one another."""
    seen = 0
    order = {}
    for c in w:
        if c not in order:
            order[c] = len(order)
    return list(order.keys()) == sorted(order.keys())


def hx(b):
    return b.hex() if b else "-"


def join(ws):
    return " ".join(hx(w) for w in ws)


def chunks(xs, n):
    xs = list(xs)
    return [xs[k:k + n] for k in range(0, len(xs), n)]


def allwords_sessions(alg, letters, dict_len, query_len, limits, kinds="c", per=4, dict_words=None, first=None):
    """Every canonical query against the dictionary of all words."""
    letters = [ord(c) for c in letters]
    ws = sorted(dict_words if dict_words is not None else words(letters, dict_len))
    qs = []
    for q in words(letters, query_len):
        # letters in order of first occurrence
        seen = []
        for c in q:
            if c not in seen:
                seen.append(c)
        if seen == letters[:len(seen)]:
            qs.append(q)
    out = []
    ns = ",".join(str(n) for n in limits)
    for qq in chunks(qs, per):
        out.append(["build 1 v " + join(ws)] + ["search %d 1 %s %s %s" % (alg, kinds, hx(q), ns) for q in qq])
    return out


def write(path, sessions):
    with open(path, "w") as fh:
        for k, s in enumerate(sessions):
            fh.write("S %d\n" % k)
            for c in s:
                fh.write(c + "\n")
    return len(sessions)


# ------------------------------------------------------------- dictionaries

def subsets(ws, masks=None):
    for m in (range(1 << len(ws)) if masks is None else masks):
        yield [w for k, w in enumerate(ws) if m >> k & 1]


def _batched(bodies, per):
    return [sum(b, []) for b in chunks(bodies, per)]


def every_dictionary(letters, maxlen, per, masks=None, probe_len=None, src="vls", extra=()):
    """Every set of words (or those given by masks): contains every word, size, enumeration, graph."""
    al = [ord(c) for c in letters]
    ws = sorted(words(al, maxlen))
    probes = join(words(al, probe_len if probe_len is not None else maxlen + 1))
    bodies = []
    for k, d in enumerate(subsets(ws, masks)):
        bodies.append(["build 1 %s %s" % (src[k % len(src)], join(d)), "con 1 " + probes, "probe 1"] + list(extra))
    return _batched(bodies, per)


def every_sequence(letters, maxlen, length, per):
    """Every sequence of words, sorted or not, built at once and term by term."""
    al = [ord(c) for c in letters]
    ws = sorted(words(al, maxlen))
    probes = join(words(al, maxlen + 1))
    bodies = []
    k = 0
    for n in range(length + 1):
        for s in itertools.product(ws, repeat=n):
            k += 1
            bodies.append(["drop 1", "drop 2", "build 1 %s %s" % ("vl"[k % 2], join(s)), "size 1", "con 1 " + probes, "enum 1", "open 2"] +
                          ["add 2 " + hx(w) for w in s] + ["finish 2", "probe 2", "con 2 " + probes] +
                          ["add 2 " + hx(w) for w in (ws[k % len(ws)], ws[-1], ws[-1] + b"z")] +
                          ["size 2", "con 2 " + probes, "enum 2"])
    return _batched(bodies, per)


def every_pair(letters, maxlen, per, masks=None):
    """Compares every two dictionaries, built and loaded."""
    al = [ord(c) for c in letters]
    ws = sorted(words(al, maxlen))
    ds = list(subsets(ws, masks))
    bodies = []
    for a in range(len(ds)):
        body = ["build 1 v " + join(ds[a]), "ser 1 1 c -1", "des 1 2 c"]
        for b in range(a, len(ds)):
            body += ["build 3 l " + join(ds[b]), "eq 1 3", "eq 3 1", "eq 2 3"]
        bodies.append(body)
    return _batched(bodies, per)


def every_roundtrip(letters, maxlen, per, masks=None):
    al = [ord(c) for c in letters]
    ws = sorted(words(al, maxlen))
    probes = join(words(al, maxlen + 1))
    bodies = []
    for k, d in enumerate(subsets(ws, masks)):
        w, r = "cpso"[k % 4], "cpso"[k // 4 % 4]
        bodies.append(["build 1 v " + join(d), "ser 1 1 %s -1" % w, "des 1 2 " + r, "probe 2", "con 2 " + probes, "eq 1 2",
                       "search %d 2 c %s 0,1,2" % (k % 3, hx(ws[k % len(ws)])), "ser 2 1 %s -1" % r, "des 1 3 " + w, "eq 1 3", "probe 3", "probe 1"])
    return _batched(bodies, per)


def language(nodes):
    """The terms of a graph as FormatGen prints it."""
    out = []

    def go(k, w):
        parts = nodes[k - 1].split(",")
        if parts[0] == "1":
            out.append(w)
        for e in parts[1:]:
            c, t = e.split(">")
            go(int(t), w + bytes.fromhex(c))
    go(1, b"")
    return sorted(out)


def messages(graphs, r, per, times):
    """Files another program wrote, in many of the ways the format leaves open."""
    bodies = []
    for g in graphs:
        ts = language(g.split())
        for _ in range(times):
            how = "cpso"[r.randrange(4)]
            probes = join(sorted(set(ts) | {t[:-1] for t in ts} | {t + b"\xff" for t in ts[:4]}))
            bodies.append(["build 1 v " + join(ts), "msgof 1", "msg 1 %d %s" % (r.randrange(65536), g.strip()), "des 1 2 " + how, "probe 2", "eq 1 2",
                           "con 2 " + probes, "search %d 2 c 61ff 1" % r.randrange(3), "ser 2 1 %s -1" % how, "msgof 2", "des 1 3 c", "probe 3"])
    r.shuffle(bodies)
    return _batched(bodies, per)


def hand_made(graphs, r, per, times):
    """Graphs made node by node: searched, listed, and the same for each part."""
    bodies = []
    for g in graphs:
        ts = language(g.split())
        starts = sorted({t[:k] for t in ts for k in range(1, len(t) + 1)})
        for _ in range(times):
            q = bytes(r.choice(b"a\xff\x00") for _ in range(r.randrange(4)))
            k = r.randrange(3)
            body = ["hand 1 %d %s" % (r.randrange(8), g.strip()), "probe 1", "enum 1", "con 1 " + join(sorted(set(ts) | set(starts))),
                    "search %d 1 cs %s 0,1,2" % (k, hx(q))]
            for p in r.sample(starts, min(3, len(starts))):
                body += ["view 2 1 " + hx(p), "graph 2", "enum 2", "search %d 2 cs %s 1" % (r.randrange(3), hx(q))]
            bodies.append(body + ["probe 1"])
    r.shuffle(bodies)
    return _batched(bodies, per)


def every_exploration(r, letters, maxlen, qlen, limits, dicts, per):
    """Which nodes are looked at, for every query and look-up."""
    al = [ord(c) for c in letters]
    ws = sorted(words(al, maxlen))
    bodies = []
    for d in dicts:
        ts = ws if d == 0 else r.sample(ws, max(1, len(ws) * d // 100))
        for k, qs in enumerate(chunks(words(al, qlen), per)):
            bodies.append(["paged 1 " + join(ts)] + ["explore %d 1 %s %s" % (a, hx(q), ",".join(map(str, limits))) for q in qs for a in range(3)] +
                          ["lazy %d 1 %s %s" % (a, hx(q), ",".join(map(str, limits))) for q in qs for a in range(3)] +
                          ["look 1 " + join(qs), "lazy 3 1 - 0"])
    return bodies


def every_part(letters, maxlen, per, masks=None):
    """Everything below every string."""
    al = [ord(c) for c in letters]
    ws = sorted(words(al, maxlen))
    bodies = []
    for k, d in enumerate(subsets(ws, masks)):
        body = ["build 1 v " + join(d)]
        for m, w in enumerate(words(al, maxlen)):
            body += ["view 2 1 " + hx(w), "enum 2", "search %d 2 %s %s 0,1" % ((k + m) % 3, "cs"[(k + m) % 2], hx(ws[(k * 7 + m) % len(ws)]))]
        bodies.append(body)
    return _batched(bodies, per)


def every_message(letters, maxlen, per, masks=None):
    al = [ord(c) for c in letters]
    ws = sorted(words(al, maxlen))
    return _batched([["build 1 v " + join(d), "msgof 1", "drop 1"] for d in subsets(ws, masks)], per)


def every_tear(letters, maxlen, per, masks=None):
    al = [ord(c) for c in letters]
    ws = sorted(words(al, maxlen))
    bodies = []
    for k, d in enumerate(subsets(ws, masks)):
        bodies.append(["build 1 v " + join(d), "tears 1 %s 1 0 -1" % "cpso"[k % 4]] +
                      ["mangle 1 %d %d" % (m, k) for m in range(8)])
    return _batched(bodies, per)


def every_fault(letters, maxlen, per, masks=None):
    al = [ord(c) for c in letters]
    ws = sorted(words(al, maxlen))
    bodies = []
    for k, d in enumerate(subsets(ws, masks)):
        bodies.append(["build 1 v " + join(d), "faults 1 %s 1 0 -1" % "cpso"[k % 4],
                       "ser 1 2 %s -1 /dev/full" % "cps"[k % 3], "des 2 3 c", "ser 1 2 %s -1" % "cpso"[k % 4], "des 2 3 c", "eq 1 3"])
    return _batched(bodies, per)


# ---------------------------------------------------------------- distances

def every_distance(alg, letters, maxlen, per=40, objects=1):
    al = [ord(c) for c in letters]
    ws = list(words(al, maxlen))
    ps = [(v, w) for v in ws for w in ws]
    out = []
    for ch in chunks(ps, per):
        out.append(["dist %d 0 %s" % (alg, " ".join(hx(v) + " " + hx(w) for v, w in ch))])
    return out


def every_axiom(alg, letters, maxlen, per=40):
    al = [ord(c) for c in letters]
    ws = list(words(al, maxlen))
    xs = [b"", bytes(al[:1]), bytes(al[-1:]), bytes(al)]
    cases = [(u, v, w, xs[(i + j + k) % 4]) for i, u in enumerate(ws) for j, v in enumerate(ws) for k, w in enumerate(ws)]
    return [["axioms %d 0 %s" % (alg, " ".join(hx(t) for c in ch for t in c))] for ch in chunks(cases, per)]


# ------------------------------------------------------------------- limits

HUGE = [255, 256, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**63 - 1, 2**63, 2**64 - 2, 2**64 - 1]


def _edits(r, w, letters, count):
    w = bytearray(w)
    for _ in range(count):
        k = r.randrange(len(w)) if w else 0
        # the ends are as interesting as the middle
        if w and r.random() < 0.4:
            k = r.choice([0, len(w) - 1])
        op = r.randrange(6)
        ch = r.choice(letters)
        if op == 0 or not w:
            w.insert(r.choice([k, len(w)]) if w else 0, ch)
        elif op == 1:
            del w[k]
        elif op == 2:
            w[k] = ch
        elif op == 3 and len(w) > 1:
            k = min(k, len(w) - 2)
            w[k], w[k + 1] = w[k + 1], w[k]
        elif op == 4 and len(w) > 1:
            k = min(k, len(w) - 2)
            w[k:k + 2] = [ch]
        elif op == 5:
            w[k:k + 1] = [ch, r.choice(letters)]
    return bytes(w)


def long_words(r, lengths, variants, queries, limits):
    """Dictionaries of variants of one long word; all three algorithms."""
    out = []
    for n in lengths:
        for letters in (b"ab", b"abcdefghijklmnopqrstuvwxyz", bytes(range(256)), b"a"):
            w = bytes(r.choice(letters) for _ in range(n))
            ts = {w, w[:-1], w[1:], w + w[-1:], w[:n // 2], w[:63], w[:64], w[:65]} | {_edits(r, w, letters, r.randrange(1, 5)) for _ in range(variants)}
            ts = sorted(ts)
            s = ["build 1 v " + join(ts), "con 1 " + join(ts + [_edits(r, w, letters, 1) for _ in range(4)]), "probe 1", "enum 1"]
            for alg in range(3):
                for _ in range(queries):
                    q = _edits(r, r.choice(ts), letters, r.randrange(4))
                    s.append("search %d 1 c %s %s" % (alg, hx(q), ",".join(str(x) for x in limits)))
            out.append(s)
    return out


def huge_limits(r, count):
    """Small dictionaries, maximum distances up to the largest there is."""
    out = []
    for k in range(count):
        letters = r.choice([b"ab", b"abc", b"xyz\0\xff"])
        ts = sorted({bytes(r.choice(letters) for _ in range(r.randrange(0, 6))) for _ in range(r.randrange(0, 9))})
        s = ["build 1 v " + join(ts)]
        for alg in range(3):
            q = bytes(r.choice(letters) for _ in range(r.randrange(0, 6)))
            s.append("search %d 1 %s %s %s" % (alg, "cs", hx(q), ",".join(str(x) for x in [len(q), 7, 8] + HUGE)))
        out.append(s)
    return out


def long_query(r, lengths):
    """A query far longer than any term of a small dictionary, and the reverse."""
    out = []
    for n in lengths:
        ts = [b"", b"a", b"ab", b"abba", b"b", b"ba"]
        q = bytes(r.choice(b"ab") for _ in range(n))
        far = ",".join("%d" % x for x in (0, 2, n - 5, n - 4, n - 3, n - 2, n - 1, n, n + 1, 2**64 - 1) if x >= 0)
        for alg in range(3):
            out.append(["build 1 v " + join(ts), "search %d 1 c %s %s" % (alg, hx(q), far)])
        if n < 2000:
            out.append(["build 1 v " + join(sorted([b"", q, q[1:], b"b"])), "con 1 %s %s %s" % (hx(q), hx(q[:-1]), hx(q + b"a")), "size 1", "enum 1"] +
                       ["search %d 1 c %s %s" % (alg, hx(t), far) for alg in range(3) for t in (b"", b"ab")] +
                       ["search %d 1 c %s 0,1,2" % (alg, hx(q)) for alg in range(3)])
    return out


def big_dictionaries(r, sizes):
    out = []
    for n in sizes:
        ts = set()
        stems = [bytes(r.choice(b"abcdefghij") for _ in range(r.randrange(1, 6))) for _ in range(max(1, n // 30))]
        while len(ts) < n:
            ts.add(r.choice(stems) + bytes(r.choice(b"abcdefghijklmnopqrstuvwxyz") for _ in range(r.randrange(0, 4))))
        ts = sorted(ts)
        probes = [r.choice(ts) for _ in range(40)]
        probes += [_edits(r, t, b"abcxyz", 1) for t in probes]
        s = ["build 1 v " + join(ts), "size 1", "con 1 " + join(probes), "probe 1"]
        for alg in range(3):
            s.append("search %d 1 c %s 0,1,2" % (alg, hx(_edits(r, r.choice(ts), b"abcxyz", 2))))
        s += ["ser 1 1 c -1", "des 1 2 s", "size 2", "eq 1 2", "eq 2 1", "con 2 " + join(probes)]
        s.append("search %d 2 c %s 1" % (n % 3, hx(_edits(r, r.choice(ts), b"abcxyz", 1))))
        s.append("search %d 1 s - 100" % (n % 3))
        out.append(s)
    return out


def large_sets(r, size):
    """Term sets of about `size` terms, of different shapes."""
    low = b"abcdefghijklmnopqrstuvwxyz"
    yield {bytes(r.choice(low) for _ in range(r.randrange(1, 9))) for _ in range(size)}
    k = 1
    while (k + 1) ** 4 <= size and k < 250:
        k += 1
    cube = {bytes(t) for t in itertools.product(range(97, 97 + k) if k < 26 else range(k), repeat=4)}
    yield cube
    yield {t for t in cube if r.random() < 0.8}
    yield {b"%d" % x for x in range(size)} | {b"x%07d" % (x * 7) for x in range(size // 4)}
    stems = [bytes(r.choice(b"abcd") for _ in range(r.randrange(2, 9))) for _ in range(int(size ** 0.5) + 1)]
    ends = [bytes(r.choice(b"abcd") for _ in range(r.randrange(1, 9))) for _ in range(int(size ** 0.5) + 1)]
    yield {a + b for a in stems for b in ends if r.random() < 0.97}
    lead = bytes(r.choice(b"ab") for _ in range(40))
    yield {lead[:r.randrange(41)] + bytes(r.choice(b"ab") for _ in range(14)) for _ in range(size)}


def large(r, sizes, what):
    """Few sessions with many terms.  what: d dictionaries, s serialization,
    q searches, e equality.  The first session is small: it is the one TLC sees
    in any case."""
    out = [["build 1 v 61 62"]]
    for size in sizes:
        for ts in large_sets(r, size):
            ts = sorted(ts)
            s = ["build 1 %s %s" % (r.choice("vls"), join(ts)), "size 1"]
            probes = [r.choice(ts) for _ in range(60)]
            probes += [_edits(r, t, b"abc1", 1) for t in probes] + [t[:-1] for t in probes]
            if "d" in what:
                s += ["probe 1", "con 1 " + join(probes)]
                t, u = sorted(r.sample(range(len(ts)), 2))
                bad = list(ts)
                bad[t], bad[u] = bad[u], bad[t]
                s.append("build 2 v " + join(bad))
            if "e" in what:
                other = list(ts)
                del other[r.randrange(len(ts))]
                s += ["build 2 v " + join(ts), "eq 1 2", "build 3 v " + join(other), "eq 1 3", "eq 3 1"]
            if "s" in what:
                s += ["ser 1 1 %s -1" % r.choice("cpso"), "des 1 4 %s" % r.choice("cpso"), "eq 1 4", "probe 4", "con 4 " + join(probes)]
            if "m" in what:
                s.append("msgof 1")
            for alg in "012":
                if alg in what:
                    q = _edits(r, r.choice(ts), b"abc1", 2)
                    longest = max(len(t) for t in ts)
                    s.append("search %s 1 %s %s 0,1,2,%d" % (alg, r.choice(["c", "s", "cs"]), hx(q), longest + len(q) if longest < 10 else 3))
            out.append(s)
    return out


def far_apart(r, count):
    """Queries and terms of very different lengths, limits just around the distances."""
    out = []
    for k in range(count):
        letters = r.choice([b"a", b"ab", b"abc"])
        ts = sorted({bytes(r.choice(letters) for _ in range(r.choice([0, 1, 2, 5, 9, 17, 33, 65, 130]))) for _ in range(6)})
        q = bytes(r.choice(letters) for _ in range(r.choice([0, 1, 3, 16, 20])))
        lim = sorted({abs(len(t) - len(q)) + d for t in ts for d in (-1, 0, 1, 2)} - {-1})
        lim = [x for x in lim if x <= 40 or letters == b"a"] + [2**32 + 3 if len(q) < 4 else 40]
        out.append(["build 1 v " + join(ts)] + ["search %d 1 c %s %s" % (alg, hx(q), ",".join(map(str, lim))) for alg in range(3)])
    return out


def wide_windows(r, lengths):
    """The only matching characters of the query lie far ahead: at the limit's
    edge, beyond a machine word's bits, ..."""
    out = []
    for k in lengths:
        for filler in (b"x", b"xyz", b"xa"):
            tail = bytes(r.choice(b"abc") for _ in range(r.randrange(1, 7)))
            q = bytes(r.choice(filler) for _ in range(k)) + tail
            if r.random() < 0.4:
                q += bytes(r.choice(filler) for _ in range(r.choice([1, k])))
            ts = {tail, tail[:2], tail[1:], tail[::-1], b"b", b"cab"} | {_edits(r, tail, b"abc", 1) for _ in range(3)}
            ts = sorted(ts)
            base = len(q) - len(tail)
            lim = sorted({base + d for d in (-1, 0, 1, 2)} | {len(q) - 1, len(q), len(q) + 1}) if filler != b"xa" else [0, 1, 2, 5]
            s = ["build 1 v " + join(ts)]
            for alg in range(3):
                s.append("search %d 1 c %s %s" % (alg, hx(q), ",".join(map(str, lim))))
                # and the terms long, the query short
            if k < 2000:
                s.append("build 2 v " + join(sorted({q, q[1:], q[k:], q[:k], b"x" + q})))
            for alg in range(3 if k < 2000 else 0):
                s.append("search %d 2 c %s %s" % (alg, hx(tail), ",".join(map(str, lim))))
            out.append(s)
    return out


def long_distances(r, count):
    out = []
    for k in range(count):
        letters = r.choice([b"a", b"ab", b"abcdefgh", bytes(range(256))])
        n = r.choice([63, 64, 65, 90, 127, 128, 129, 150])
        w = bytes(r.choice(letters) for _ in range(n))
        ps = []
        for _ in range(2):
            v = _edits(r, w, letters, r.randrange(0, 4))
            ps += [(v, w), (w, v)]
        ps += [(b"", w), (w, b""), (w, w), (w[:5], w), (w, w[-5:]), (b"", bytes(r.choice(letters) for _ in range(5000))), (w + w, w)]
        out.append(["dist %d 0 %s" % (k % 3, " ".join(hx(a) + " " + hx(b) for a, b in ps))])
    return out


def long_histories(r, count, pairs):
    """Thousands of pairs, again and again, with one function object."""
    out = []
    for k in range(count):
        ws = list(words([97, 98, 99], 5)) + [bytes(r.choice(b"abcdef") for _ in range(r.randrange(4, 9))) for _ in range(40)]
        s = []
        for _ in range(10):
            ps = [(r.choice(ws), r.choice(ws)) for _ in range(pairs // 10)]
            s.append("dist %d 0 %s" % (k % 3, " ".join(hx(a) + " " + hx(b) for a, b in ps)))
        out.append(s)
    return out


def every_byte(r, rounds):
    """Small alphabets around each byte value."""
    out = []
    for k in range(rounds):
        for b in range(256):
            others = [b ^ 0x80, (b + 1) % 256, 0, 255, ord("a"), r.randrange(256), b ^ 0x20]
            x = b
            y = r.choice([o for o in others if o != x])
            z = r.choice([o for o in range(256) if o not in (x, y)])
            al = sorted([x, y, z])
            ws = sorted(words(al, 2))
            ts = sorted({w for w in ws if r.random() < 0.7} | {bytes([x]), bytes([y, x])})
            probes = ws + [bytes([c]) for c in others] + [bytes([x, c]) for c in others]
            s = ["build 1 v " + join(ts), "con 1 " + join(probes), "probe 1", "ser 1 1 %s -1" % "cpso"[b % 4], "des 1 2 %s" % "cpso"[b // 4 % 4],
                 "probe 2", "con 2 " + join(probes), "eq 1 2"]
            for alg in range(3):
                q = bytes(r.choice([x, x, y, z]) for _ in range(r.randrange(1, 4)))
                s.append("search %d %d cs %s 0,1,2" % (alg, 1 + b % 2, hx(q)))
                s.append("dist %d 0 %s" % (alg, " ".join(hx(r.choice(ws)) + " " + hx(bytes([x]) + r.choice(ws)) for _ in range(6))))
            # order is that of unsigned bytes
            s.append("build 3 v %s %s" % (hx(bytes([x])), hx(bytes([y]))))
            s.append("build 3 v %s %s" % (hx(bytes([y])), hx(bytes([x]))))
            out.append(s)
    return out


def fan_out(r, count):
    """Nodes with an edge for every byte."""
    al = list(range(256))
    out = []
    for k in range(count):
        ts = {bytes([c]) for c in al}
        ts |= {bytes([r.randrange(256), c]) for c in al} if k % 2 else {bytes([c, 0]) for c in al} | {bytes([c, 255]) for c in al}
        if k % 3 == 0:
            ts |= {bytes([7, c, 9]) for c in al}
        ts = sorted(ts | {b""})
        s = ["build 1 v " + join(ts), "con 1 " + join([bytes([c]) for c in al] + [bytes([c, r.randrange(256)]) for c in al]), "probe 1",
             "ser 1 1 c -1", "des 1 2 s", "probe 2", "eq 1 2"]
        for alg in range(3):
            s.append("search %d 1 c %s 0,1,2" % (alg, hx(bytes([r.randrange(256), r.randrange(256)]))))
        out.append(s)
    return out


def states(r, count):
    """Random states, for all queries of a length."""
    out = []
    for k in range(count):
        alg, n, ln = k % 3, r.randrange(1, 4), r.randrange(0, 4)
        ps = set()
        for _ in range(r.randrange(1, 8)):
            i, e = r.randrange(ln + 1), r.randrange(n + 1)
            sp = alg and e > 0 and i + (2 if alg == 1 else 1) <= ln and r.random() < 0.4
            ps.add((i, e, 1 if sp else 0))
        ps = list(ps)
        r.shuffle(ps)
        if r.random() < 0.7:
            ps.sort(key=lambda p: (p[1], p[0], p[2]))
        out.append(["uns %d %d %d %s" % (alg, n, ln, " ".join("%d.%d.%d" % p for p in ps))])
    return out
