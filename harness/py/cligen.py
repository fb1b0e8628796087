"""Runs of huff to record. They only say what to run: what has to come of it
is worked out by TLC from spec/TraceCli.tla."""
import errno, heapq, json, os, random
import vlib
from cli import LONG, Huge, Bench, Session, in_parallel, FILE, DIR, LINK, HARD, FIFO, SOCK


# ---------------------------------------------------------------- contents

def hff_parts(content):
    """(tree padding, data padding, tree, data) of some file that restores content"""
    cnt = {}
    for b in content:
        cnt[b] = cnt.get(b, 0) + 1
    heap = [(w, k, b) for k, (b, w) in enumerate(sorted(cnt.items()))]
    heapq.heapify(heap)
    k = 1000
    while len(heap) > 1:
        a, b = heapq.heappop(heap), heapq.heappop(heap)
        heapq.heappush(heap, (a[0] + b[0], k, (a[2], b[2])))
        k += 1
    code, bits = {}, []

    def walk(t, path):
        if isinstance(t, tuple):
            bits.append("1")
            walk(t[0], path + "0")
            walk(t[1], path + "1")
        else:
            bits.append("0" + bin(256 + t)[3:])
            code[t] = path or "0"
    walk(heap[0][2], "")
    tree = "".join(bits)
    data = "".join(code[b] for b in content)
    tp, dp = -len(tree) % 8, -len(data) % 8
    pack = lambda s: bytes(int(s[i:i + 8], 2) for i in range(0, len(s), 8))
    return tp, dp, pack(tree + "0" * tp), pack(data + "0" * dp)


def hff_join(tp, dp, tree, data, tl=None):
    return bytes([tp * 16 + dp]) + (len(tree) if tl is None else tl).to_bytes(4, "big") + tree + data


def hff(content):
    return hff_join(*hff_parts(content))


def comb_hff(depth, rng):
    """A header whose tree is nested depth levels deep"""
    bits = "1" * depth + "".join("0" + format(rng.randrange(256), "08b") for _ in range(depth + 1))
    tp = -len(bits) % 8
    bits += "0" * tp
    tree = bytes(int(bits[i:i + 8], 2) for i in range(0, len(bits), 8))
    return hff_join(tp, 0, tree, bytes(rng.randrange(256) for _ in range(20)))


def fib_bytes(k):
    a, b, out = 1, 1, b""
    for i in range(k):
        out += bytes([i * 37 % 256]) * a
        a, b = b, a + b
    return out


def mix(rng, data):
    d = list(data)
    rng.shuffle(d)
    return bytes(d)


def rand_bytes(rng, n, k=256, skew=0):
    al = rng.sample(range(256), k)
    if skew:
        return bytes(rng.choices(al, [1.0 / (j + 1) ** skew for j in range(k)], k=n))
    return bytes(rng.choice(al) for _ in range(n))


def contents(rng, full):
    out = [b"a" * n for n in (1, 2, 7, 8, 9, 16)]
    out += [b"ab" * 4, b"ab" * 4 + b"a", b"\0", b"\xff\0\xff", b"hello, world\n", bytes(range(256)), mix(rng, bytes(range(256)) * 3)]
    for n in range(1, 20):                     # every padding
        out.append(rand_bytes(rng, n, 3) + b"\0" * (n % 3))
    out += [fib_bytes(12), mix(rng, fib_bytes(17))]
    for _ in range(30 if full else 8):
        out.append(rand_bytes(rng, rng.choice([30, 100, 255, 256, 257, 700]), rng.choice([2, 3, 5, 17, 60]), rng.choice([0, 1, 2])))
    return out


def sizes(rng, n, k):
    """Block sizes around everything a file of n bytes makes special"""
    pool = [1, 2, 3, 5, 7, 8, 9, 12, 13, max(1, n // 2), max(1, n // 3), max(1, n - 1), n, n + 1, 2 * n, 8191, 8192, 8193]
    if n > 3000:
        pool = [97, 255, 256, 1000, n // 2, n - 1, n, n + 1, 4096, 8191, 8192, 8193, 16384]
    return [str(x) for x in rng.sample(sorted(set(pool)), min(k, len(set(pool))))]


# ---------------------------------------------------------------- sessions

class Gen:
    def __init__(self, rng, full, kinds=False):
        self.rng, self.full = rng, full
        self.bench = Bench(kinds)
        self.benches = []
        self.jobs = []
        self.n = 0
        self.lib_cases = []

    def add(self, tag, files, steps, cwd="", of=(), bench=None):
        """steps: a function that is given the session"""
        bench = bench or self.bench
        self.n += 1
        sid = "%s-%d" % (tag, self.n)

        def job():
            s = Session(bench, sid, files, cwd, of)
            steps(s)
            s.close()
            return s
        self.jobs.append(job)

    def record(self):
        return in_parallel(self.jobs)

    def apart(self):
        """A bench for runs that are longer and larger than others"""
        self.benches.append(Bench(self.bench.kinds))
        self.benches[-1].huge = True
        return self.benches[-1]

    def close(self):
        for b in [self.bench] + self.benches:
            b.close()


BYTES = "\udcff\udc80"        # a name that is no text: the bytes ff 80


def one(**kw):
    return lambda s: s.run(**kw)


# -- everything the model's runs can start from

YES = ["y\n", "Y\n", "yes\n", "Yes", "y", "Yep\n", "YES\n", "yn\n"]
NO = ["n\n", "N\n", "no\n", "\n", " y\n", "maybe\n", "oui\n", "0\n", "1\n", "ny\n", "q", "true\n", "\ty\n"]


def bad_hffs(rng, content):
    """Files that are no hff files, by what is wrong with them"""
    tp, dp, tree, data = hff_parts(content)
    whole = hff_join(tp, dp, tree, data)
    out = [("cut%d" % n, whole[:n]) for n in range(1, 5 + len(tree))]
    out += [("dpad%d" % d, hff_join(tp, d, tree, data)) for d in (8, 9, 12, 15)]
    out += [("tpad%d" % t, hff_join(t, dp, tree, data)) for t in range(8) if t != tp]
    out += [("tlen%d" % l, hff_join(tp, dp, tree, data, l)) for l in (0, 1, len(tree) - 1, len(tree) + 1, 1 << 16, (1 << 31) + 5, (1 << 32) - 1)
            if l != len(tree)]
    out += [("tree", hff_join(tp, dp, bytes(rng.randrange(256) for _ in tree), data)) for _ in range(3)]
    out += [("ones", hff_join(0, 0, b"\xff" * 40, data)), ("zeros", hff_join(0, 0, b"\0" * 3, data)), ("text", b"this is no hff file, just some text\n" * 3)]
    return out


def from_model(g):
    rng = g.rng
    content = b"abracadabra, said the fox"
    good = hff(content)
    vec = vlib.vectors("Huff", dict(Chunks=1, MaxFaults=0))
    for v in vec:
        d, sk, dk = v["decomp"], v["srcKind"], v["dstKind"]
        name = "s.dat" if sk == "badext" else "s.hff" if d else rng.choice(["s", "s.dat", "s.hff"])
        if dk == "same" and not d:
            name = "s.hff"
        data = good if d else content
        if sk == "empty":
            data = b""
        if sk == "nodata":
            tp, dp, tree, _ = hff_parts(content)
            data = hff_join(tp, dp, tree, b"")
        if sk == "badheader":
            data = rng.choice(bad_hffs(rng, content))[1]
        files = [] if sk == "missing" else [(name, (DIR,))] if sk == "dir" else [(name, (FILE, data))]
        out = "o"
        if dk == "same":
            if not d:
                out = "s"
            elif sk == "dir":
                out = name
            else:
                out = "alias"
                files.append((out, rng.choice([(HARD, name), (LINK, name), (LINK, "@ROOT@/" + name)])))
        if dk == "old":
            files.append((out if d else out + ".hff", (FILE, b"what was here before")))
        if dk == "dir":
            files.append((out if d else out + ".hff", (DIR,)))
        answer = {"yes": rng.choice(YES), "no": rng.choice(NO), "none": ""}[v["answer"]]
        size = rng.choice(["1", "3", "7", "1k", "64Ki", None]) if v["sizeOk"] else rng.choice(["0", "x", "-1", "1kk", "1b", "1.5", "0k", "k", "99999999999999999999", "1 k"])
        kw = dict(src=name, dst=out, d=d, n=v["noask"], r=v["replace"], b=size, answer=answer, style=rng.randrange(3))
        if size == "-1":
            kw["style"] = 1
        g.add("model", files, one(**kw))


# -- C11, C12

def long_contents(rng, full):
    """Longer than any buffer; letters more often than 16 bits count"""
    mb = 1 << 20
    out = [rand_bytes(rng, 150_001, 256), rand_bytes(rng, 300_007, 30, 2), b"\0" * (mb + 3),
           rand_bytes(rng, 70_000, 5) * 3 + bytes(range(256)), rand_bytes(rng, 1 << 16, 7) * 40 + b"\xff"]
    if full:
        out += [rand_bytes(rng, 5 * mb + 1, 256, 1), bytes(range(256)) * 4096 + b"!", rand_bytes(rng, 2 * mb, 2), b"ab" * (9 * mb),
                rand_bytes(rng, 131_072, 100, 1), mix(rng, fib_bytes(27))]
    return out


def long_trips(g, lib=False):
    """Long files there and back, in blocks small, large and larger than the file"""
    rng = g.rng
    for c in long_contents(rng, g.full):
        n = len(c)
        bs = [None] + rng.sample([str(n // 200 + 1), str(n // 7), str(n - 1), str(n), "64Ki", "100k", "1Mi", "65537", "1G", "17000000000000000000"], 5 if g.full else 3)

        def steps(s, bs=bs, back=g.rng.sample(bs, len(bs))):
            for k, b in enumerate(bs):
                s.run(src="f", dst="o%d" % k, b=b)
            for k, b in enumerate(back):
                s.run(src="o%d.hff" % k, dst="r", d=True, n=True, b=b)
            s.lib_data = [read(s, "o0.hff")] if lib else []
        g.add("long", [("f", (FILE, c))], steps)


def huge_trip(g):
    """A file whose length takes more than 32 bits. (Its codes leave an eighth of it.)"""
    if g.full:
        tail = rand_bytes(g.rng, 70_001, 3)

        def steps(s):
            s.run(src="f", dst="o", b="48Mi")
            s.run(src="o.hff", dst="r", d=True, n=True, b="7Mi")
        g.add("huge", [("f", (FILE, Huge((1 << 32) + 70_077, tail)))], steps, bench=g.apart())


def round_trips(g, lib=False):
    rng = g.rng

    def trip(content, b1s, b2s, tag="trip", name="f"):
        def steps(s):
            for k, b in enumerate(b1s):
                s.run(src=name, dst="o%d" % k, b=b)
            for k in range(len(b1s)):
                for j, b in enumerate(b2s[k]):
                    s.run(src="o%d.hff" % k, dst="r%d" % k, d=True, n=True, b=b)
            s.lib_of = [f for f in ("o0.hff",) if lib]
            s.lib_data = [read(s, f) for f in s.lib_of]
        g.add(tag, [(name, (FILE, content))], steps)
    byte = lambda src: bytes((97, 0, 255, 10)[x - 1] for x in src)
    by_src = {}
    for v in vlib.vectors("Blocks", dict(W=3, NL=3, MaxLen=5)):
        by_src.setdefault(tuple(v["src"]), set()).add((v["b1"], v["b2"]))
    srcs = sorted(by_src)
    for src in srcs if g.full else rng.sample(srcs, 90):
        b1s = sorted({b for b, _ in by_src[src]})
        b2s = sorted({b for _, b in by_src[src]})
        trip(byte(src), [str(b) for b in b1s], [[str(b) for b in rng.sample(b2s, min(2, len(b2s)))] for _ in b1s], "mc")
    for c in contents(rng, g.full):
        b1s = sizes(rng, len(c), 5 if not g.full else 9)
        trip(c, b1s, [sizes(rng, len(c) // 2 + 6, 2) for _ in b1s])
    for name in ["f.f", " ", "-f", "ф", BYTES, BYTES + ".hff"]:
        trip(rng.choice([b"a name", b"aaaa"]), ["3"], [["2"]], "name", "./-f" if name == "-f" else name)
    # codes longer than a block, and ended by blocks at any of their bits
    for k in rng.sample(range(11, 18), 7 if g.full else 3):
        for c in [mix(rng, fib_bytes(k)), fib_bytes(k)[::-1], fib_bytes(k)[:9] * 12 + fib_bytes(k)]:
            trip(c, [rng.choice("23579"), "64"], [["1", "2"], ["3", "5", "7"]], "codes")
    # across the buffers of the program and of the operating system's calls
    for n in [8191, 8192, 8193, 20000] + ([8180, 8187, 16384, 16385, 24576] if g.full else []):
        c = rand_bytes(rng, n, rng.choice([6, 50]), 1)
        b1s = sizes(rng, n, 3)
        trip(c, b1s, [sizes(rng, n // 2, 1) for _ in b1s], "buf")


def read(s, path):
    try:
        return s.data(path)
    except OSError:
        return None


def library_files(recorder, op, datas):
    """The library compressing and serialising ("write"), or reading and restoring
    ("read"), each of some files: pairs of how that ended and what it gave"""
    cases, outs = [], []
    for k, d in enumerate(datas):
        i, o = os.path.join(vlib.scratch(), "lib%d.in" % k), os.path.join(vlib.scratch(), "lib%d.out" % k)
        with open(i, "wb") as f:
            f.write(d)
        cases.append(("f%d" % k, "u8", ["file%s %s %s" % (op, i, o)]))
        outs.append((i, o))
    res = []
    for (i, o), line in zip(outs, vlib.record(recorder, cases, vlib.scratch()) if cases else []):
        r = json.loads(line)["ev"][-1]["res"]
        data = b""
        if r == "ok":
            with open(o, "rb") as f:
                data = f.read()
            os.unlink(o)
        os.unlink(i)
        res.append((r, data))
    return res


def with_library(g, sessions, recorder):
    """What the library makes of files the program wrote"""
    todo = [(s, data) for s in sessions for data in getattr(s, "lib_data", []) if data is not None]
    long = [(s, data) for s, data in todo if len(data) > LONG]
    for (s, data), (res, back) in zip(long, library_files(recorder, "read", [d for _, d in long])):
        s.lib(res, data, back)
    todo = [(s, data) for s, data in todo if len(data) <= LONG]
    cases = [("l%d" % k, "u8", ["bytes " + (d.hex() or "-"), "frombytes 1", "decomp 2"]) for k, (_, d) in enumerate(todo)]
    if not cases:
        return
    for (s, data), line in zip(todo, vlib.record(recorder, cases, vlib.scratch())):
        ev = json.loads(line)["ev"]
        res = "ok" if ev[-1]["op"] == "decomp" and ev[-1]["res"] == "ok" else ev[-1]["op"] + " " + ev[-1]["res"]
        s.lib(res, data, bytes(l[0] for l in ev[-1].get("letters", [])) if res == "ok" else b"")


def from_library(g, recorder):
    """Files the library serialised, restored by the program"""
    cs = contents(g.rng, g.full)
    cases = [("s%d" % k, "u8", ["comp " + " ".join("%02x" % b for b in c), "tobytes 1"]) for k, c in enumerate(cs)]
    for c, line in zip(cs, vlib.record(recorder, cases, vlib.scratch())):
        ev = json.loads(line)["ev"]
        if ev[-1]["op"] != "tobytes" or ev[-1]["res"] != "ok":
            continue                    # the library's own checks are about that
        data = bytes(ev[-1]["bytes"])
        bs = sizes(g.rng, len(data), 2) + [None]

        def steps(s, bs=bs):
            for k, b in enumerate(bs):
                s.run(src="x.hff", dst="r%d" % k, d=True, b=b)
        g.add("fromlib", [("x.hff", (FILE, data))], steps, of=[(data, c)])
    from_long_library(g, recorder)
    from_deep_library(g, recorder)


def from_long_library(g, recorder):
    cs = long_contents(g.rng, g.full)
    for c, (res, data) in zip(cs, library_files(recorder, "write", cs)):
        if res != "ok":
            continue

        def steps(s, n=len(data)):
            for k, b in enumerate([None, str(n // 3 + 1), "64Ki"]):
                s.run(src="x.hff", dst="r%d" % k, d=True, b=b)
        g.add("fromlong", [("x.hff", (FILE, data))], steps, of=[(data, c)])


def from_deep_library(g, recorder):
    """Trees made of weights that are not the content's: codes of up to 80 bits"""
    for k in ([20, 33, 60, 70, 90] if g.full else [33, 80]):
        letters = g.rng.sample(range(256), k)
        a, b, pairs = 1, 1, []
        for l in letters:
            pairs.append("%02x:%d" % (l, a))
            a, b = b, a + b
        c = bytes(g.rng.choice(letters) for _ in range(200)) + bytes(letters)
        case = [("d", "u8", ["build list " + " ".join(pairs), "compt 1 " + " ".join("%02x" % x for x in c), "tobytes 2"])]
        ev = json.loads(vlib.record(recorder, case, vlib.scratch())[0])["ev"]
        if ev[-1]["op"] != "tobytes" or ev[-1]["res"] != "ok":
            continue
        data = bytes(ev[-1]["bytes"])

        def steps(s, n=len(data)):
            for j, b in enumerate([None, "1", "2", str(n // 2), "7"]):
                s.run(src="x.hff", dst="r%d" % j, d=True, b=b)
        g.add("fromdeep", [("x.hff", (FILE, data))], steps, of=[(data, c)])


# -- C13, C14: moments and faults

def scenes(g):
    """(files, run): runs to be killed or disturbed at every operation"""
    rng = g.rng
    small = b"she sells sea shells"
    mid = rand_bytes(rng, 9000, 40, 1)
    out = []
    for content, bs in [(small, ["1", "7", None]), (b"zzzzzzzz", ["3"]), (mid, ["4000", None])] + ([(rand_bytes(rng, 17000, 200), ["5000"])] if g.full else []):
        for b in bs:
            for d in (False, True):
                data = hff(content) if d else content
                name = "s.hff" if d else "s"
                for old in (None, b"old contents", b"o" * 30000):
                    for r in (False, True):
                        if len(content) > 1000 and old and not g.full and (r or len(old) < 100):
                            continue
                        files = [(name, (FILE, data))] + ([("o" if d else "o.hff", (FILE, old))] if old else [])
                        ask = old and rng.random() < .5
                        out.append((files, dict(src=name, dst="o", d=d, r=r, b=b, n=bool(old) and not ask, answer="y\n" if ask else None)))
    # a long file, in blocks of which there are many, one, and less than one
    for d in (False, True):
        long = rand_bytes(rng, 250_000, 90, 1)
        for b in ["20k", None] if g.full else [rng.choice(["20k", "64Ki", None])]:
            out.append(([("s.hff" if d else "s", (FILE, hff(long) if d else long))], dict(src="s.hff" if d else "s", dst="o", d=d, r=True, b=b)))
    # the default destination, which lies next to the source
    out.append(([("s", (FILE, small))], dict(src="s", r=True, b="5")))
    out.append(([("s.hff", (FILE, hff(small)))], dict(src="s.hff", d=True, r=True, b="5")))
    # links to and from the source
    out.append(([("real", (FILE, small)), ("s", (LINK, "real"))], dict(src="s", dst="o", r=True, b="6")))
    out.append(([("s", (FILE, small)), ("l.hff", (LINK, "t")), ("t", (FILE, b"old"))], dict(src="s", dst="l", r=True, n=True)))
    return out


def disturbed(g, kill, fail):
    for files, kw in scenes(g):
        def steps(s, kw=kw):
            ops = s.run(log=True, fresh=True, **kw)
            n = len(ops)
            ks = list(range(1, n + 1))
            if n > 60 and not g.full:
                ks = ks[:20] + ks[20:-15:max(1, n // 25)] + ks[-15:]
            if kill:
                for k in ks:
                    s.run(env={"HSHIM_KILL": str(k)}, fresh=True, killed=True, **kw)
                    if ops[k - 1][1] == "write":
                        s.run(env={"HSHIM_KILL": "%d.5" % k}, fresh=True, killed=True, **kw)
            if fail:
                for k in ks:
                    op = ops[k - 1][1]
                    es = {"read": [errno.EIO], "write": [errno.ENOSPC], "create": [errno.EACCES], "open": [errno.EMFILE]}.get(op, [errno.EIO])
                    if g.full and op in ("read", "write"):
                        es.append({"read": errno.EISDIR, "write": errno.EIO}[op])
                    for e in es:
                        s.run(env={"HSHIM_FAIL": "%d:%d" % (k, e)}, fresh=True, fault=True, must=op != "unlink", **kw)
                    if op == "write":
                        s.run(env={"HSHIM_FULL": str(k)}, fresh=True, fault=True, **kw)
                for k in range(1, 8):
                    s.run(env={"HSHIM_META": "%d:%d" % (k, errno.EIO)}, fresh=True, fault=True, must=False, **kw)
        g.add("moment", files, steps)


def split_io(g):
    """Reads and writes cut short and interrupted"""
    for files, kw in scenes(g):
        def steps(s, kw=kw):
            for k in range(1, 9 if g.full else 4):
                s.run(env={"HSHIM_SHORT": str(k)}, fresh=True, **kw)
                s.run(env={"HSHIM_EINTR": str(k)}, fresh=True, **kw)
                s.run(env={"HSHIM_SHORT": str(k + 50), "HSHIM_EINTR": str(k + 70)}, fresh=True, **kw)
            s.run(log=True, fresh=True, **kw)
        g.add("split", files, steps)


def aliases(g):
    """Destinations that lead to the source, by every kind of path and link"""
    c = b"do not lose me, do not lose me"
    for r in (False, True):
        for n in (False, True):
            kw = dict(r=r, n=n, answer="y\n", b=g.rng.choice(["4", None]))
            base = [("s.hff", (FILE, c)), ("d", (DIR,)), ("d/s.hff", (FILE, b"another one"))]
            for dst in ["s", "./s", "d/../s", "@ROOT@/s", "@ROOT@/d/../s"]:
                g.add("alias", base, one(src="s.hff", dst=dst, **kw))
            g.add("alias", base + [("l.hff", (LINK, "s.hff"))], one(src="s.hff", dst="l", **kw))
            g.add("alias", base + [("l.hff", (LINK, "@ROOT@/s.hff"))], one(src="s.hff", dst="l", **kw))
            g.add("alias", base + [("d/l.hff", (LINK, "../s.hff"))], one(src="s.hff", dst="d/l", **kw))
            g.add("alias", base + [("h.hff", (HARD, "s.hff"))], one(src="s.hff", dst="h", **kw))
            g.add("alias", base + [("e", (LINK, "d"))], one(src="d/s.hff", dst="e/s", **kw))
            g.add("alias", base + [("l", (LINK, "s.hff"))], one(src="l", dst="s", **kw))
            g.add("alias", base, one(src="../s.hff", dst="../s", **kw), cwd="d")
            # the source under a name whose default destination is itself
            g.add("alias", [("s", (FILE, c)), ("s.hff", (LINK, "s"))], one(src="s", **kw))
            g.add("alias", [("s", (FILE, c)), ("s.hff", (HARD, "s"))], one(src="s", **kw))
            h = [("s.hff", (FILE, hff(c))), ("d", (DIR,))]
            for alias in [("a", (LINK, "s.hff")), ("a", (HARD, "s.hff")), ("a", (LINK, "@ROOT@/s.hff")), ("d/a", (LINK, "../s.hff"))]:
                g.add("alias", h + [alias], one(src="s.hff", dst=alias[0], d=True, **kw))
            for dst in [None, "s.hff", "./s.hff", "d/../s.hff", "@ROOT@/s.hff"]:
                g.add("self", h, one(src="s.hff", dst=dst, d=True, **kw))
                g.add("self", h + [("s", (FILE, b"was here"))], one(src="s.hff", dst=dst, d=True, **kw))
                g.add("self", h + [("s", (LINK, "s.hff"))], one(src="s.hff", dst=dst, d=True, **kw))
                g.add("self", h + [("s", (HARD, "s.hff"))], one(src="s.hff", dst=dst, d=True, **kw))


def forbidden(g):
    """Files and directories that the user may not read, write or change"""
    if not g.bench.as_user:
        return
    c = b"secret"
    for d in (False, True):
        s_, o = ("s.hff", "o") if d else ("s", "o.hff")
        data = hff(c) if d else c
        for r in (False, True):
            for n in (False, True):
                kw = dict(dst="d/o", d=d, r=r, n=n, answer="y\n", fault=True, style=g.rng.randrange(3))
                files = [(s_, (FILE, data)), ("d", (DIR,)), ("e", (DIR,)), ("e/" + s_, (FILE, data))]
                old = [("d/" + o, (FILE, b"old"))]
                for f in (files, files + old):
                    g.add("mode", f, one(src=s_, modes=[(s_, 0)], **kw))
                    g.add("mode", f, one(src="e/" + s_, modes=[("e", 0)], **kw))
                    g.add("mode", f, one(src=s_, modes=[("d", 0)], **kw))
                    g.add("mode", f, one(src="e/" + s_, modes=[("e", 0o555)], must=False, **kw))
                g.add("mode", files, one(src=s_, modes=[("d", 0o555)], **kw))
                g.add("mode", files + old, one(src=s_, modes=[("d", 0o555)], must=False, **kw))
                g.add("mode", files + old, one(src=s_, modes=[("d/" + o, 0o444)], **kw))
                g.add("mode", files + old, one(src=s_, modes=[("d/" + o, 0)], **kw))


def failing(g):
    """Operations that the operating system refuses"""
    for files, kw in g.rng.sample(scenes(g), 40 if g.full else 12):
        def steps(s, kw=kw):
            ops = s.run(log=True, fresh=True, **kw)
            ks = list(range(1, len(ops) + 1))
            for k in ks[:30] + ks[30:][-10:]:
                s.run(env={"HSHIM_FAIL": "%d:%d" % (k, errno.EIO)}, fresh=True, fault=True, **kw)
                if ops[k - 1][1] == "write":
                    s.run(env={"HSHIM_FULL": str(k)}, fresh=True, fault=True, **kw)
            for k in range(1, 8):
                s.run(env={"HSHIM_META": "%d:%d" % (k, errno.EIO)}, fresh=True, fault=True, must=False, **kw)
            for t in (False, True):
                s.run(full=True, fresh=True, fault=True, must=False, **dict(kw, t=t))
        g.add("failing", files, steps)
    forbidden(g)
    # nothing can be written to the standard output, nor the source removed
    c = b"some words to work on"
    for d in (False, True):
        for n in (False, True):
            for t in (False, True):
                for r in (False, True):
                    files = [("s.hff", (FILE, hff(c))), ("o", (FILE, b"old"))] if d else [("s", (FILE, c)), ("o.hff", (FILE, b"old"))]
                    def steps(s, kw=dict(src="s.hff" if d else "s", dst="o", d=d, n=n, t=t, r=r, answer="y\n")):
                        s.run(full=True, fresh=True, fault=True, must=False, **kw)
                    g.add("mute", files, steps)


# -- C15

def asking(g):
    rng = g.rng
    c = b"some thing to compress"
    answers = YES + NO + ["", "\0", "yes please\n", "y\nn\n", "n\ny\n", "Ja\n", "-y\n", "Y" * 5000, "n" * 5000 + "\n", b"\xff\xfe\n"]
    for d in (False, True):
        name = "s.hff" if d else "s"
        data = hff(c) if d else c
        at = "o" if d else "o.hff"
        for stdin in ("closed", "dir"):
            for r in (False, True):
                for n in (False, True):
                    for old in ([], [(at, (FILE, b"old"))]):
                        g.add("unanswered", [(name, (FILE, data))] + old, one(src=name, dst="o", d=d, n=n, r=r, stdin=stdin))
        for a in answers:
            for r in (False, True):
                kw = dict(src=name, dst="o", d=d, r=r, answer=a, style=rng.randrange(3), t=rng.random() < .3)
                for old in [b"old", b""]:
                    g.add("ask", [(name, (FILE, data)), (at, (FILE, old))], one(**kw))
        # links to what is there, what is not and what cannot be, and no files at all
        for to in ["t", "@ROOT@/t", "e/t", "e/no/t", "l2"]:
            for there in (False, True):
                for a in ["n\n", "y\n", ""]:
                    for n in (False, True):
                        files = [(name, (FILE, data)), ("e", (DIR,)), (at, (LINK, to)), ("l2", (LINK, "e/u"))]
                        if there and "no" not in to:
                            files.append(({"@ROOT@/t": "t", "l2": "e/u"}.get(to, to), (FILE, b"old")))
                        g.add("link", files, one(src=name, dst="o", d=d, n=n, r=rng.random() < .3, answer=a))
        for n in (False, True):
            for t in (False, True):
                for r in (False, True):
                    for a in ["n\n", "y\n", ""]:
                        kw = dict(src=name, dst="o", d=d, r=r, n=n, t=t, answer=a, style=rng.randrange(3))
                        g.add("flags", [(name, (FILE, data))], one(**kw))
                        g.add("flags", [(name, (FILE, data)), (at, (FILE, b"old"))], one(**kw))
                        g.add("flags", [(name, (FILE, data)), (at, (LINK, "t")), ("t", (FILE, b"old"))], one(**kw))
                        g.add("flags", [(name, (FILE, data)), (at, (HARD, "t"))] if False else
                              [(name, (FILE, data)), ("t", (FILE, b"old")), (at, (HARD, "t"))], one(**kw))
                        # by default, next to or away from the source
                        dn = dict(kw, dst=None)
                        g.add("default", [(name, (FILE, data)), ("s" if d else "s.hff", (FILE, b"old"))], one(**dn))
                        g.add("default", [("d", (DIR,)), ("d/" + name, (FILE, data)), ("s.hff", (FILE, b"old"))], one(**dict(dn, src="d/" + name)))

        # a second run over what the first left, with different answers
        def twice(s, d=d, name=name):
            s.run(src=name, dst="o", d=d)
            s.run(src=name, dst="o", d=d, answer="n\n")
            s.run(src=name, dst="o", d=d, answer="Y\n")
            s.run(src=name, dst="o", d=d, answer="", r=True)
            s.run(src=name, dst="o", d=d, n=True, r=True)
        g.add("twice", [(name, (FILE, data))], twice)


# -- C16

def unusable(g):
    rng = g.rng
    old = [("o", (FILE, b"old")), ("o.hff", (FILE, b"old"))]
    combos = [(r, n, a) for r in (False, True) for n, a in [(True, None), (False, "y\n"), (False, "n\n")]]
    for content in [b"abracadabra", b"zzz"]:
        for why, data in bad_hffs(rng, content):
            for r, n, a in combos if g.full else rng.sample(combos, 2):
                g.add("bad-" + why, [("s.hff", (FILE, data))] + rng.choice([[], old]),
                      one(src="s.hff", dst=rng.choice(["o", "o", None]), d=True, r=r, n=n, answer=a, b=rng.choice([None, "1", "3", "1k"])))
        tp, dp, tree, data = hff_parts(content)
        for r, n, a in combos:
            kw = dict(r=r, n=n, answer=a, b=rng.choice([None, "1", "2"]))
            for pre in ([], old):
                g.add("nodata", [("s.hff", (FILE, hff_join(tp, dp, tree, b"")))] + pre, one(src="s.hff", dst="o", d=True, **kw))
                g.add("empty", [("s", (FILE, b""))] + pre, one(src="s", dst="o", **kw))
                g.add("empty", [("s.hff", (FILE, b""))] + pre, one(src="s.hff", dst="o", d=True, **kw))
                for d in (False, True):
                    g.add("missing", pre, one(src="s.hff", dst="o", d=d, **kw))
                    g.add("missing", pre + [("s.hff", (LINK, "nowhere"))], one(src="s.hff", dst="o", d=d, **kw))
                    g.add("missing", pre, one(src="nodir/s.hff", dst="o", d=d, **kw))
                    g.add("dir", pre + [("s.hff", (DIR,))], one(src="s.hff", dst="o", d=d, **kw))
                    g.add("dir", pre + [("s.hff", (DIR,)), ("t.hff", (LINK, "s.hff"))], one(src="t.hff", dst="o", d=d, **kw))
                    for node in [(FIFO, hff(content)), (FIFO, hff(content)[:rng.randint(0, 8)]), (SOCK,)]:
                        g.add("node", pre + [("s.hff", node)], one(src="s.hff", dst=rng.choice(["o", "o", None]), d=d, **kw))
                    g.add("dir", pre, one(src=rng.choice([".", "..", "/", "./"]), dst=rng.choice(["o", None]), d=d, **kw))
                for ext in ["s", "s.hf", "s.HFF", "s.hff.gz", ".hff", "s.hffx", "hff", "s.xhff", "s.Hff", BYTES, "s." + BYTES, "s.hff" + BYTES]:
                    g.add("ext", pre + [(ext, (FILE, hff(content)))], one(src=ext, dst="o", d=True, **kw))
        # and what must not be refused
        for t in range(1, 9):
            c = bytes(range(97, 97 + t)) * 2
            g.add("good", [("s.hff", (FILE, hff(c)))], one(src="s.hff", dst="o", d=True))
        for name in ["a.b.hff", "x .hff", "ü.hff", "..x.hff", BYTES + ".hff"]:
            g.add("good", [(name, (FILE, hff(content)))], one(src=name, dst="o", d=True))
        g.add("good", [("s.hff", (FILE, hff_join(tp, dp, tree, data + b"\x12\x34")))], one(src="s.hff", dst="o", d=True))
        for d in range(8):
            g.add("good", [("s.hff", (FILE, hff_join(tp, d, tree, data[:1])))], one(src="s.hff", dst="o", d=True))
            g.add("good", [("s.hff", (FILE, hff_join(tp, d, tree, data)))], one(src="s.hff", dst="o", d=True, b="1"))
    for depth in [100, 254, 255, 256, 300, 1000, 1001, 5000, 20000]:
        g.add("deep", [("s.hff", (FILE, comb_hff(depth, rng)))] + rng.choice([[], old]), one(src="s.hff", dst="o", d=True, n=True))
    g.add("deep", [("s.hff", (FILE, hff_join(0, 0, b"\xff" * 30000, b"\1")))] + old, one(src="s.hff", dst="o", d=True, n=True))
    for n in (1, 2, 3):
        g.add("good", [("s", (FILE, b"x" * n))], one(src="s", dst="o"))
        g.add("good", [(BYTES, (FILE, b"xyz" * n))], one(src=BYTES, dst=rng.choice([None, BYTES * 2])))


# -- C17

def block_sizes(g):
    rng = g.rng
    c = b"a block of bytes or two, no more"
    W = 1 << 64
    valid = ["1", "7", "01", "007", "32", "33", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808",
             "18446744073709551615", "18446744073709551614", "00000000000000000000000000000009"]
    for u, f in [("k", 1000), ("m", 10 ** 6), ("g", 10 ** 9), ("ki", 1 << 10), ("mi", 1 << 20), ("gi", 1 << 30)]:
        top = (W - 1) // f
        for unit in sorted({u, u.upper(), u.capitalize(), u[0] + u[1:].upper()}):
            valid += ["1" + unit, "2" + unit, "%d%s" % (top, unit), "%d%s" % (top + 1, unit), "%d%s" % (W // f + 1, unit), "%d%s" % (top * 2, unit),
                      "0" + unit, "00" + unit, "05" + unit, "%d%s" % (W - 1, unit), "%d%s" % (W // f + W // 2, unit), unit]
    invalid = ["0", "00", "", "x", "1x", "1kk", "1kb", "1kib", "1b", "1B", "1.5", "1.5k", "1,000", "1_000", " 1", "1 ", "1 k", "+1", "0x10", "1e3",
               "k1", "1k1", "1i", "1ik", "1t", "1ti", "1p", "18446744073709551616", "18446744073709551617", "36893488147419103233", "99999999999999999999999",
               "٣", "1٣", "１", "1Кi", "two", "1gig", "1mI ", "1\tk", "-", "1-", "1k-", "k", "ki", "%", "1%", "1kİ", "\udcff", "1\udcff", "1k\udc80", "\udcc31", "1\udced\udca0\udc80"]
    odd = ["-1", "-5k", "--"]
    for b in valid + invalid + odd:
        for d in (False, True) if g.full else (rng.random() < .5,):
            name = "s.hff" if d else "s"
            files = [(name, (FILE, hff(c) if d else c)), ("o" if d else "o.hff", (FILE, b"old"))]
            g.add("size", files, one(src=name, dst="o", d=d, n=True, r=rng.random() < .3, b=b, style=1 if b.startswith("-") or b == "" else rng.choice([0, 1])))
    for _ in range(300 if g.full else 60):
        f = rng.choice([("", 1), ("k", 1000), ("Mi", 1 << 20), ("G", 10 ** 9), ("Ki", 1024), ("gI", 1 << 30)])
        near = W // f[1] + rng.randint(-2, 2)
        b = rng.choice([str(rng.getrandbits(rng.randint(1, 70))), str(near), str(rng.randint(1, 40))]) + f[0]
        g.add("size", [("s", (FILE, c))], one(src="s", dst="o", b=b))
    # the bound on reads needs a file larger than any small buffer
    big = rand_bytes(rng, 36000, 256)
    low = rand_bytes(rng, 70000, 5, 1)
    for b in ["1k", "9000", "20000", "33000"] if not g.full else ["100", "1k", "8192", "8193", "9000", "20000", "32768", "33000", "35999"]:
        g.add("reads", [("s", (FILE, low))], one(src="s", dst="o", b=b, log=True))
        if b != "100":
            g.add("reads", [("s.hff", (FILE, hff(big)))], one(src="s.hff", dst="o", d=True, b=b, log=True))
    # nor may it keep what it has read, or is to write, of a larger one
    def held(b, data):
        def go(s):
            s.run(src="s", dst="o", b=b, log=True, mem=True)
            s.run(src="o.hff", dst="p", d=True, b=b, log=True, mem=True)
        g.add("held", [("s", (FILE, data))], go)
    held("64Ki", rng.randbytes(24_000_000))
    if g.full:
        for b in ("16384", "100k", "256Ki"):
            held(b, rng.randbytes(24_000_000))
        held("128k", rng.randbytes(3_000_000).translate(bytes(k % 7 for k in range(256))) * 16)
    # many small reads and writes
    for b in ["1", "2", "3", "5"]:
        g.add("tiny", [("s", (FILE, c))], one(src="s", dst="o", b=b, log=True))
        g.add("tiny", [("s.hff", (FILE, hff(c)))], one(src="s.hff", dst="o", d=True, b=b, log=True))


# -- C18

def places(g):
    rng = g.rng
    c = b"where does this go, one wonders"
    dirs = [("d", (DIR,)), ("d/e", (DIR,)), ("x.d", (DIR,)), ("ld", (LINK, "d"))]
    plain = ["s", "s.txt", "a.b.c", ".hid", ".hid.txt", "with space", "ünï.çode", BYTES, BYTES + ".t" + BYTES, "s.hff", "x..y", "d/s", "d/e/s.txt", "x.d/s", "SRC_FILE"]
    hffs = ["s.hff", "s.txt.hff", ".hid.hff", "a b.hff", "ü.hff", BYTES + ".hff", "x..hff", "s.hff.hff", "d/s.hff", "d/e/s.txt.hff", "x.d/s.hff", "SRC_FILE.hff"]
    dsts = [None, "o", "o.txt", "o.tar.gz", ".o", ".o.txt", "o.hff", "o.txt.hff", "d/o", "d/o.txt", "./o", "d/../o", "d/e/../o", "../@/o", "@ROOT@/o", "@ROOT@/d/o.x", "ld/o", "x.d/o", "o p", "öö", BYTES + "o", "d/o." + BYTES, "nodir/o", "d", "x.d", "SRC_FILE", "SRC_FILE.hff", "./SRC_FILE", "d/e/o.hff"]
    for d in (False, True):
        for k, src in enumerate(hffs if d else plain):
            for dst in dsts:
                if dst and "@/" in dst:
                    continue
                if not g.full and dst and rng.random() < .55:
                    continue
                for r in ((False, True) if g.full or dst is None else (rng.random() < .4,)):
                    others = [("bystander", (FILE, b"leave me alone")), ("d/bystander.hff", (FILE, b"me too"))]
                    if rng.random() < .4 and dst and dst not in ("d", "x.d") and not dst.startswith("nodir"):
                        at = dst.replace("@ROOT@/", "").replace("ld/", "d/").replace("d/e/../", "d/").replace("d/../", "") + ("" if d else ".hff")
                        others.append((at, (FILE, b"old, old, old, old, old, old, old, old, old, old, old, old, old, old")))
                    data = hff(c) if d else c
                    seen, files = set(), []
                    for f in dirs + [(src, (FILE, data))] + others:
                        key = f[0].replace("./", "")
                        if key not in seen:
                            seen.add(key)
                            files.append((key, f[1]))
                    via = rng.choice(["", "", "./", "@ROOT@/", "d/../", "d/e/../../"])
                    g.add("place", files, one(src=via + src, dst=dst, d=d, r=r, n=True, b=rng.choice([None, "5"]), style=rng.randrange(3)))
        # from another directory
        for src in (["../s.hff", "../d/s.hff", "@ROOT@/s.hff", "e/../s.hff"] if d else ["../s.txt", "../d/s.txt", "@ROOT@/s.txt", "e/../s.txt"]):
            for dst in [None, "o", "../o", "e/o", "@ROOT@/o.y", ".."]:
                n = "s.hff" if d else "s.txt"
                data = hff(c) if d else c
                files = dirs + [(n, (FILE, data)), ("d/" + n, (FILE, data))]
                if dst == ".." and not d:
                    continue
                for r in (False, True):
                    g.add("cwd", files, one(src=src, dst=dst, d=d, r=r, n=True), cwd="d")
        # links
        for r in (False, True):
            data = hff(c) if d else c
            n = "s.hff" if d else "s"
            at = "o" if d else "o.hff"
            g.add("link", dirs + [("real", (FILE, data)), (n, (LINK, "real"))], one(src=n, dst="o", d=d, r=r))
            g.add("link", dirs + [("d/real.hff", (FILE, data)), (n, (LINK, "d/real.hff"))], one(src=n, d=d, r=r))
            g.add("link", dirs + [(n, (FILE, data)), ("t", (FILE, b"old")), (at, (LINK, "t"))], one(src=n, dst="o", d=d, r=r, n=True))
            g.add("link", dirs + [(n, (FILE, data)), (at, (LINK, "t"))], one(src=n, dst="o", d=d, r=r, n=True))
            g.add("link", dirs + [(n, (FILE, data)), (at, (LINK, "nodir/t"))], one(src=n, dst="o", d=d, r=r, n=True))
            g.add("link", dirs + [(n, (FILE, data)), (at, (LINK, "d/t"))], one(src=n, dst="o", d=d, r=r, n=True))
            g.add("link", dirs + [(n, (FILE, data)), ("n", (HARD, n))], one(src=n, dst="o", d=d, r=r, n=True))
            g.add("link", dirs + [(n, (FILE, data)), ("t", (FILE, b"old")), (at, (HARD, "t"))], one(src=n, dst="o", d=d, r=r, n=True))

    # compress, restore in another place, compress again
    def chain(s):
        s.run(src="s.txt", dst="d/o", r=True)
        s.run(src="d/o.hff", dst="s.txt", d=True, r=True)
        s.run(src="s.txt", r=True)
        s.run(src="s.txt.hff", d=True)
        s.run(src="s.txt.hff", d=True, n=True, r=True)
        s.run(src="s.txt", dst="s.txt")
        s.run(src="s.txt.hff", dst="s", t=True)
        s.run(src="s.hff.hff", d=True, t=True)
        s.run(src="s.hff", d=True, n=True, t=True, r=True)
    g.add("chain", dirs + [("s.txt", (FILE, c))], chain)


# -- C23

def side_by_side(g):
    rng = g.rng
    text = {"a": b"what comes first is a long text", "b": b"bbbbb and something else, longer than the first one"}
    # the model's runs: where they read and write, and where they are interrupted. Several ways to name the files
    worlds = [
        dict(a="a.txt", b="b.txt", c="c", d="d"),
        dict(a="n.a", b="n.b", c="n.c", d="n.d"),               # only extensions differ
        dict(a="p/n", b="q/n", c="r/n", d="n"),                 # only directories differ
        dict(a="@ROOT@/p/a", b="./b", c="q/c", d="p/d"),
    ]
    dirs = [(n, (DIR,)) for n in "pqr"]
    name = lambda p: p.replace("@ROOT@/", "").replace("./", "")
    vectors = [v for v in vlib.vectors("Pair", dict(LenA=2, LenB=3, Tie=1, Switches=2))]
    by_runs = {}
    for v in vectors:
        by_runs.setdefault(json.dumps(v["runs"]), []).append(v["stops"])
    for rs in sorted(by_runs):
        runs = json.loads(rs)
        for w in worlds if g.full else rng.sample(worlds, 2):
            for modes in [(False, False), (True, True), (False, True), (True, False)] if g.full else rng.sample([(False, False), (True, True), (False, True)], 2):
                srcs, kws, files = {}, [], {}
                for r, d in zip(runs, modes):
                    # a source of a run that restores is an hff file
                    path = w[r["src"]] + (".hff" if d else "")
                    files[name(path)] = hff(text[r["src"]]) if d else text[r["src"]]
                    kws.append(dict(src=path, dst=w[r["dst"]] + (".x" if r["dst"] in "ab" else ""), d=d, r=r["replace"], n=True, b=rng.choice(["3", "7", None, "20"])))
                files.setdefault(name(w["d"]), b"old")
                files.setdefault(name(w["d"]) + ".hff", b"older")
                stops = by_runs[rs] if g.full else rng.sample(by_runs[rs], min(9, len(by_runs[rs])))

                def steps(s, kws=kws, stops=stops):
                    ops = [s.run(log=True, fresh=True, **kw) for kw in kws]
                    seen = set()
                    for st in stops:
                        at = []
                        for k in range(2):
                            want = st[k] if k < len(st) else None
                            of = {"open": "open", "create": "create", "scan": "read", "read": "read", "write": "write", "remove": "unlink"}
                            at.append(0)
                            if want and want["op"] in of:
                                nos = [o[0] for o in ops[k] if o[1] == of[want["op"]]]
                                if nos:
                                    at[k] = nos[0] if want["op"] == "scan" else nos[min(want["nth"], len(nos)) - 1] if want["nth"] < 2 else nos[-1]
                        if tuple(at) not in seen and at[0]:
                            seen.add(tuple(at))
                            s.together(kws, at)
                g.add("mc", dirs + [(p, (FILE, c)) for p, c in sorted(files.items())], steps)
    # every operation of one, then of both, and three at once
    def woven(files, kws, count):
        def steps(s):
            n = [len(s.run(log=True, fresh=True, **kw)) for kw in kws]
            if len(kws) == 2:
                for k in range(1, n[0] + 1):
                    s.together(kws, [k, 0])
                    s.together(kws[::-1], [rng2.randint(1, n[1]), k])
            for _ in range(count):
                s.together(kws, [rng2.randint(1, x) for x in n])
        rng2 = random.Random(rng.random())
        g.add("woven", files, steps)
    for _ in range(12 if g.full else 3):
        big = rand_bytes(rng, 12000, 40, 1)
        c = rng.sample([b"one", b"abracadabra" * 40, big, b"zz"], 3)
        f = [("s.txt", (FILE, c[0])), ("s.md", (FILE, c[1])), ("s", (FILE, c[2])), ("t.hff", (FILE, hff(c[0]))), ("u.hff", (FILE, hff(c[1]))), ("p", (DIR,)), ("p/s.txt", (FILE, c[1]))]
        b = lambda: rng.choice(["9", "4096", None, "100"]) if len(c[0]) < 1000 > len(c[1]) else rng.choice(["4000", "9k", None])
        woven(f, [dict(src="s.txt", b=b()), dict(src="s.md", b=b())], 10)
        woven(f, [dict(src="s.txt", r=True, b=b()), dict(src="p/s.txt", dst="p/s.txt", b=b())], 10)
        woven(f, [dict(src="t.hff", d=True, b=b()), dict(src="u.hff", d=True, r=True, b=b())], 10)
        woven(f, [dict(src="s.txt", dst="o1", b=b()), dict(src="s.txt", dst="o2", b=b())], 10)
        woven(f, [dict(src="t.hff", dst="o1", d=True, b=b()), dict(src="t.hff", dst="o2", d=True, b=b())], 10)
        woven(f, [dict(src="s.txt", b=b()), dict(src="u.hff", dst="v", d=True, b=b()), dict(src="s.md", dst="p/o", b=b())], 20)


# -- C24

def command_lines(g):
    rng = g.rng
    c = b"some words on a line"
    worlds = [
        [("s", (FILE, c)), ("o.hff", (FILE, hff(b"other"))), ("5", (FILE, b"five")), ("-", (FILE, b"dash"))],
        [("s", (FILE, c)), ("s.hff", (FILE, b"old")), ("5.hff", (FILE, b"old")), ("o", (FILE, b"an o"))],
        [("s", (DIR,)), ("o", (FILE, c)), ("5", (FILE, c))],
    ]
    # in the model's words s and o may be anything
    names = [{}, {}, {"s": "s.hff", "o": "p"}, {"s": "./s", "o": "d/o"}, {"s": "o.hff", "o": "x y"}, {"s": "-x.hff", "o": "-n"}]
    vs = vlib.vectors("ArgForms", dict(MaxWords=3))
    text = lambda w: bytes(w).decode()
    lines = [[text(w) for w in v["argv"]] for v in vs]
    short = [l for l in lines if len(l) < 3]
    rest = [l for l in lines if len(l) == 3]
    picked = short + (rng.sample(rest, min(len(rest), 30000)) if g.full else rng.sample(rest, 900))
    words = sorted({w for l in short for w in l})
    for _ in range(4000 if g.full else 600):          # longer ones, most of which mean something
        l = rng.sample(["-d", "--decompress", "-n", "--noask", "-r", "--replace", "-t", "--time", "-tn", "-b5", "--block-size=1k", "-b=7"], rng.randint(1, 4)) + ["s"] + rng.choice([[], [], ["o"], ["o"], ["o", ""], [""]])
        if rng.random() < .3:
            l.append(rng.choice(words))
        rng.shuffle(l)
        if rng.random() < .2:
            l.insert(rng.randrange(len(l)), "--")
        if rng.random() < .2:
            k = rng.randrange(len(l) + 1)
            l[k:k] = [rng.choice(["-b", "--block-size", "-nb"]), rng.choice(["5", "1Ki", "0", "x", "s"])]
        picked.append(l)
    rng.shuffle(picked)
    n = 40
    for k in range(0, len(picked), n):
        w = rng.choice(worlds)
        nm = rng.choice(names)
        f = list(w) + [("d", (DIR,))]
        if nm.get("s", "").startswith("-") or nm.get("s") == "s.hff":
            f = [x for x in f if x[0] != nm["s"]] + [(nm["s"], (FILE, hff(c)))]

        def steps(s, k=k, nm=nm):
            for l in picked[k:k + n]:
                s.raw([nm.get(x, x) for x in l], rng2.choice(["", "", "y\n", "n\n"]))
        rng2 = random.Random(rng.random())
        g.add("line", f, steps)


def c12(g):
    rng = g.rng
    round_trips(g, lib=True)
    long_trips(g, lib=True)
    for c in rng.sample(contents(rng, True), 25 if g.full else 10):
        def again(s, bs=sizes(rng, len(c), 4) + [None, None]):
            for b in bs:
                s.run(src="f", dst="o", b=b, n=True)
            s.run(src="f", dst="d/p.q", b="2")
            s.run(src="g", dst="g", b="3")
        g.add("again", [("f", (FILE, c)), ("g", (FILE, c)), ("d", (DIR,))], again)


PLAN = {
    "C11": lambda g: (huge_trip(g), round_trips(g), long_trips(g)),
    "C12": c12,
    "C13": lambda g: (aliases(g), disturbed(g, True, True), from_model(g), asking(g)),
    "C14": lambda g: (split_io(g), forbidden(g), disturbed(g, False, True), round_trips(g)),
    "C15": lambda g: (asking(g), from_model(g)),
    "C16": lambda g: (unusable(g), from_model(g)),
    "C17": lambda g: (block_sizes(g), from_model(g)),
    "C22": lambda g: (unusable(g), from_model(g), block_sizes(g), places(g), aliases(g), failing(g)),
    "C23": side_by_side,
    "C24": command_lines,
    "C18": lambda g: (places(g), from_model(g), aliases(g)),
}

HUFF = lambda q, inv, props: ("Huff", dict(Chunks=3 if q else 6, MaxFaults=1 if q else 2), inv, props)
MODELS = {
    "C11": lambda q: [("Blocks", dict(W=3, NL=4, MaxLen=4 if q else 6), ["SameFile", "Restored", "OneData"], ["Terminates"] if q else [])],
    "C12": lambda q: [("Blocks", dict(W=3, NL=4, MaxLen=4 if q else 5), ["SameFile", "OneData"], []),
                      ("Container", dict(MaxLen=8), ["ParseAgrees", "WriteReads"], [])],
    "C13": lambda q: [HUFF(q, ["SourceSafe"], ["FsSteps", "Terminates"])],
    "C14": lambda q: [HUFF(q, ["Honest"], ["FsSteps"])],
    "C15": lambda q: [HUFF(q, ["Consent"], [])],
    "C16": lambda q: [HUFF(q, ["Refusal", "Accepted"], [])],
    "C17": lambda q: [HUFF(q, ["BadSize", "Accepted"], [])],
    "C22": lambda q: [HUFF(q, ["Refusal", "BadSize", "Accepted"], [])],
    "C23": lambda q: [("Pair", dict(LenA=2 if q else 4, LenB=3 if q else 5, Tie=0, Switches=0), ["AsAlone", "Own", "Rest"], ["Terminates"] if q else [])],
    "C24": lambda q: [("ArgForms", dict(MaxWords=3 if q else 4), ["Moves", "Forms", "Sourced"], ["Final"])],
    "C18": lambda q: [HUFF(q, ["SourceSafe", "Consent"], ["FsSteps"])],
}


def run(ck):
    g = Gen(ck.rng, not ck.quick, ck.prop == "C22")
    try:
        recorder = vlib.build_recorder() if ck.prop == "C12" else None
        for m in MODELS[ck.prop](ck.quick):
            ck.model(*m)
        PLAN[ck.prop](g)
        if ck.prop == "C12":
            from_library(g, recorder)
        ck.say("%d sessions" % len(g.jobs))
        sessions = g.record()
        if ck.prop == "C12":
            with_library(g, sessions, recorder)
        ck.say("recorded, %d runs" % sum(len(s.events) for s in sessions))
        if not g.bench.as_user:
            ck.assumptions.append("the program ran as the user of the check, not as an unprivileged one")
        lines = [json.dumps(s.record(), separators=(",", ":")).encode() for s in sessions]
        for k in range(0, len(sessions), max(1, len(sessions) // 8)):
            ck.sample({"session": sessions[k].sid, "runs": sessions[k].script[:4]})
        ck.judge("TraceCli", lines, {s.sid: {"files": [[p, w[0], w[1].hex() if w[0] in (FILE, FIFO) else w[1] if len(w) > 1 else ""] for p, w in s.files],
                                             "cwd": s.cwd, "runs": s.script} for s in sessions})
    finally:
        g.close()
