"""Scenarios for the library. They only say what to call: what has to come of
it is worked out by TLC from spec/TraceLib.tla and spec/TraceWeights.tla."""
import json
import vlib

SIZES = {"u8": 1, "u16": 2, "u32": 4, "u64": 8, "u128": 16, "usize": 8,
         "i8": 1, "i16": 2, "i32": 4, "i64": 8, "i128": 16, "isize": 8}
INTS = list(SIZES)
BYTES = INTS + ["fal", "unit", "tri"]        # letters with a binary form
TEXT = ["char", "str", "string"]
ALL = BYTES + TEXT
SIZES.update(fal=1, unit=0, tri=3)
CHARS = ["a", "b", "\0", "é", "ß", "—", "😀", "𝄞", "\U0010ffff", "z", "~", "0", "\n", "ä", "中"]


class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.cases = []
        self.n = 0

    def add(self, tag, ty, lines):
        self.n += 1
        self.cases.append(("%s-%d" % (tag, self.n), ty, lines))

    # letters are hex words
    def letter(self, ty):
        r = self.rng
        if ty == "unit":
            return "-"
        if ty == "char":
            return r.choice(CHARS).encode().hex()
        if ty in ("str", "string"):
            s = "".join(r.choice(CHARS) for _ in range(r.choice([0, 1, 1, 2, 3, 7])))
            return s.encode().hex() or "-"
        n = SIZES[ty]
        k = r.random()
        if k < 0.25:
            v = r.choice([0, 1, 2, (1 << (8 * n)) - 1, 1 << (8 * n - 1), (1 << (8 * n - 1)) - 1])
        elif k < 0.4:
            v = 1 << r.randrange(8 * n)
        else:
            v = r.getrandbits(8 * n)
        if ty == "fal":
            v %= 240
        return v.to_bytes(n, "big").hex()

    def alphabet(self, ty, k):
        if ty == "unit":
            k = 1
        if ty == "char":
            k = min(k, len(CHARS))
        if ty in ("u8", "i8"):
            k = min(k, 256)
        if ty == "fal":
            k = min(k, 240)
        if ty in ("u8", "i8", "fal") and k > 64:
            pool = ["%02x" % b for b in range(240 if ty == "fal" else 256)]
            self.rng.shuffle(pool)
            return pool[:k]
        seen, misses = {}, 0
        while len(seen) < k and misses < 1000:
            w = self.letter(ty)
            misses += w in seen
            seen[w] = 1
        out = list(seen)
        self.rng.shuffle(out)
        return out

    def sequence(self, letters, n, shape=None):
        """n letters out of the alphabet, in one of several distributions"""
        r = self.rng
        shape = shape or r.choice(["flat", "skew", "runs", "steep", "first"])
        if shape == "flat":
            return [r.choice(letters) for _ in range(n)]
        if shape == "skew":
            w = [1.0 / (k + 1) for k in range(len(letters))]
            return r.choices(letters, w, k=n)
        if shape == "steep":
            w = [0.5 ** min(k, 40) for k in range(len(letters))]
            return r.choices(letters, w, k=n)
        if shape == "runs":
            out = []
            while len(out) < n:
                out += [r.choice(letters)] * r.choice([1, 2, 3, 8, 20])
            return out[:n]
        out = list(letters)[:n]
        return out + [letters[0]] * (n - len(out))

    def weights(self, k, kind=None, zero=True):
        r = self.rng
        kind = kind or r.choice(["flat", "small", "fib", "pow", "big", "mixed", "linear"])
        if kind == "flat":
            return [r.choice([1, 1, 7])] * k if r.random() < .5 else [5] * k
        if kind == "small":
            return [r.randint(0 if zero else 1, 4) for _ in range(k)]
        if kind == "fib":
            a, b, out = 1, 1, []
            for _ in range(k):
                out.append(a)
                a, b = (b, a + b) if a + b < 1 << 60 else (1, 1)
            return self.shuffled(out)
        if kind == "pow":
            return self.shuffled([1 << (j % 56) for j in range(k)])
        if kind == "big":
            return [r.randint(1, (1 << 63) // k) for _ in range(k)]
        if kind == "linear":
            return self.shuffled(list(range(1, k + 1)))
        return [r.choice([1, 2, 255, 256, 65535, 65536, (1 << 32) - 1, 1 << 32, (1 << 40) + 1]) for _ in range(k)]

    def shuffled(self, xs):
        xs = list(xs)
        self.rng.shuffle(xs)
        return xs

    @staticmethod
    def safe(ws):
        """weight sums must fit in a word"""
        return ws if sum(ws) < 1 << 64 else [w >> 10 or 1 for w in ws]

    def pairs(self, letters, ws):
        return " ".join("%s:%d" % p for p in zip(letters, self.safe(ws)))

    def via(self, ty, ws):
        c = ["list", "map"] + (["bytes"] if ty == "u8" and all(ws) else [])
        return self.rng.choice(c)


def seqs(g, ty, many):
    """Sequences that between them reach every padding, exact bytes, one letter,
    few and all letters"""
    out = []
    one = g.alphabet(ty, 1)
    for n in [1, 2, 7, 8, 9, 16, 17]:
        out.append(one * n)
    two = g.alphabet(ty, 2)
    for n in range(1, 18):
        out.append(g.sequence(two, n, "flat"))
    for _ in range(many):
        k = g.rng.choice([2, 3, 4, 5, 8, 13, 30])
        out.append(g.sequence(g.alphabet(ty, k), g.rng.choice([1, 2, 3, 5, 8, 21, 60, 200])))
    return [s for s in out if s]


def fib_seq(letters, k):
    """k letters occurring Fibonacci often: codes of up to k-1 bits"""
    a, b, out = 1, 1, []
    for l in letters[:k]:
        out += [l] * a
        a, b = b, a + b
    return out


def fib_weights(k):
    out = [1, 1]
    while len(out) < k:
        out.append(out[-1] + out[-2])
    return out[:k]


def bigs(g, full, then=()):
    """Sequences too long to be written out, in every shape; up to the sizes where
    counters, buffers and lengths could change their ways"""
    out = []
    sizes = [65535, 65536, 65537, 100003, 262145, 1048577] + ([3000017, 9000001] if full else [])
    shapes = ["flat", "steep", "skew", "runs", "last", "phases"]
    types = ["u8", "u8", "i8", "u16", "u32", "u64", "u128", "i64", "tri", "char", "string"]
    for n in sizes:
        for _ in range(4 if full else 2):
            ty = g.rng.choice(types if n < 300000 else ["u8", "u8", "u16"])
            al = g.alphabet(ty, g.rng.choice([1, 2, 3, 17, 40, 256]))
            out.append((ty, al, "%d %d %s" % (g.rng.getrandbits(60), n, g.rng.choice(shapes))))
    for shape in shapes:
        out.append(("u8", g.alphabet("u8", 256 if shape != "last" else 30), "%d %d %s" % (g.rng.getrandbits(60), 70001 + g.rng.randrange(9), shape)))
    # a letter more often than fits in 16 bits, in 20, in 24
    for n in [65536, 1 << 20] + ([1 << 24] if full else []):
        out.append(("u8", g.alphabet("u8", 3), "1 %d last" % (n + 2)))
    for ty, al, spec in out:
        g.add("big", ty, ["big 0 %s %s" % (spec, " ".join(al))] + list(then))


def bigtrees(g, full):
    """... with trees made before, of letters weighted differently, and with
    letters that no tree has, far behind"""
    for k in range(20 if full else 6):
        ty = g.rng.choice(["u8", "u16", "u64", "char"])
        al = g.alphabet(ty, g.rng.choice([4, 5, 30, 60]))
        ws = g.weights(len(al))
        n = g.rng.choice([65537, 70001, 131073, 400001])
        have = len(al) - k % 3
        lines = ["build list " + g.pairs(al[:have], ws[:have])]
        for shape in ["last", "steep", "phases"]:
            g.add("bigtree", ty, lines + ["big 1 %d %d %s %s" % (g.rng.getrandbits(60), n, shape, " ".join(al if shape == "last" else al[:have]))])


def whole(g, full, what):
    """More letters than 16 bits number: every number of 16 bits, and others"""
    for ty, n in [("u16", 65536)] + ([("u32", 70001)] if full else []):
        z = SIZES[ty]
        odd = g.rng.randrange(1, 256 ** z, 2)
        al = [(b * odd % 256 ** z).to_bytes(z, "big").hex() for b in range(n)]
        if what == "comp":
            g.add("whole", ty, ["big 0 %d %d flat %s" % (g.rng.getrandbits(60), 2 * n, " ".join(al))])
        else:
            top = g.rng.choice([1, 9, 999])
            build = "build %s %s" % (g.rng.choice(["list", "map"]), " ".join("%s:%d" % (a, 1 + g.rng.randrange(top)) for a in al))
            g.add("whole", ty, [build] + (["asbin 1", "frombin 2"] if what == "bin" else []))


def comb(g, ty, depth, kind, then):
    """A tree one letter short of depth + 1 levels read from its binary form,
    and letters of every depth compressed with it"""
    al = g.shuffled(g.alphabet(ty, depth + 1))
    if "-" in al:
        return
    depth = len(al) - 1
    bits = encode(random_shape(g.rng, depth + 1, kind), [bin(int("1" + l, 16))[3:] for l in al])
    s = al[:3] + al[-3:] + g.shuffled(al)[:25]
    g.add("comb", ty, ["bits 0 " + bits, "frombin 1", "compt 2 " + " ".join(g.shuffled(s))] + then)


# ------------------------------------------------------------------ C01, C10

def from_codec(g, full):
    """The model's vectors: every tree over up to 3 letters, every short sequence"""
    vec = vlib.vectors("Codec", dict(W=3, NL=3, MaxLen=4))
    if not full:
        vec = g.rng.sample(vec, min(len(vec), 1500))
    for v in vec:
        bits = "".join(map(str, v["tree"]))
        ls = " ".join("%02x" % l for l in v["src"])
        g.add("codec", g.rng.choice(["u8", "i8", "fal"]), ["bits 0 " + bits, "frombin 1", "compt 2 " + ls, "decomp 3"])


def c01(g, full):
    whole(g, full, "comp")
    from_codec(g, full)
    for ty in ALL:
        for s in seqs(g, ty, 60 if full else 12):
            g.add("own", ty, ["comp " + " ".join(s), "decomp 1"])
        for _ in range(60 if full else 12):
            k = g.rng.choice([1, 2, 3, 5, 17])
            al = g.alphabet(ty, k)
            ws = g.weights(len(al))
            s = g.sequence(al, g.rng.choice([1, 3, 8, 33, 100]))
            lines = ["build %s %s" % (g.via(ty, ws), g.pairs(al, ws))]
            if ty in BYTES and g.rng.random() < .5:
                lines += ["asbin 1", "frombin 2", "compt 3 " + " ".join(s), "decomp 4", "compt 1 " + " ".join(s), "decomp 6"]
            else:
                lines += ["compt 1 " + " ".join(s), "decomp 2", "compt 2 " + " ".join(s[:5]), "decomp 4"]
            g.add("tree", ty, lines)
    # long codes: more than one byte, more than one word
    for ty in ["u8", "u32", "string"]:
        al = g.alphabet(ty, 20)
        g.add("fib", ty, ["comp " + " ".join(g.shuffled(fib_seq(al, 17))), "decomp 1"])
        al = g.alphabet(ty, 85)
        g.add("deep", ty, ["build list " + g.pairs(al, fib_weights(len(al))), "compt 1 " + " ".join(al + al[:3] + al[::-1]), "decomp 2"])
    for ty in BYTES:
        for kind in ["left", "right"]:
            for depth in [33, 70, 129, 255]:
                comb(g, ty, depth, kind, ["decomp 3"])
    al = ["%02x" % b for b in range(256)]
    g.add("all", "u8", ["comp " + " ".join(g.shuffled(al * 3)), "decomp 1"])
    g.add("all", "i8", ["comp " + " ".join(g.shuffled(al)), "decomp 1"])
    al = ["%04x" % b for b in range(1500)]
    g.add("many", "u16", ["comp " + " ".join(g.shuffled(al + al[:700])), "decomp 1"])
    for n in ([20000, 70000] if full else [20000]):
        g.add("long", "u8", ["comp " + " ".join(g.sequence(g.alphabet("u8", 60), n, "skew")), "decomp 1"])
    bigs(g, full)
    bigtrees(g, full)


def c10(g, full):
    from_codec(g, full)
    bigtrees(g, full)
    for ty in ALL:
        for _ in range(150 if full else 40):
            k = g.rng.choice([1, 2, 3, 6, 20])
            al = g.alphabet(ty, k + 3)
            have = al[:max(1, len(al) - 3)]
            lack = al[len(have):]
            ws = g.weights(len(have))
            s = g.sequence(have, g.rng.choice([1, 2, 5, 9, 40]))
            if lack and g.rng.random() < .85:
                for _ in range(g.rng.choice([1, 1, 2, 5])):
                    s.insert(g.rng.choice([0, len(s), g.rng.randint(0, len(s))]), g.rng.choice(lack))
                if g.rng.random() < .2:
                    s = [g.rng.choice(lack)]
            lines = ["build %s %s" % (g.via(ty, ws), g.pairs(have, ws))]
            reg = 1
            if ty in BYTES and g.rng.random() < .3:
                lines += ["asbin 1", "frombin 2"]
                reg = 3
            g.add("miss", ty, lines + ["compt %d %s" % (reg, " ".join(s)), "decomp %d" % (reg + 1)])
    # the letter of a neighbouring code, of the all-zero code, next to present ones
    for b in range(0, 256, 1 if full else 5):
        have = ["%02x" % x for x in (1, 2, 254, 255, 128) if x != b]
        g.add("byte", "u8", ["build list " + g.pairs(have, [3] * len(have)), "compt 1 %s %02x %s" % (have[0], b, have[1])])


# ------------------------------------------------------------------ C02, C03

def trees(g, full):
    whole(g, full, "tree")
    bigs(g, full)
    vec = vlib.vectors("HuffBuild", dict(MaxLetters=5, MaxWeight=4))
    if full:
        vec += vlib.vectors("HuffBuild", dict(MaxLetters=6, MaxWeight=5))
    for ws in vec:
        for _ in range(2):
            ty = g.rng.choice(["u8", "u16", "i32", "string"])
            ws = g.shuffled(ws)
            al = g.alphabet(ty, len(ws))
            g.add("mc", ty, ["build %s %s" % (g.via(ty, ws), g.pairs(al, ws))])
    for ty in ALL:
        for _ in range(60 if full else 14):
            al = g.alphabet(ty, g.rng.choice([1, 2, 3, 4, 5, 9, 16, 17, 33]))
            ws = g.weights(len(al))
            g.add("tree", ty, ["build %s %s" % (g.via(ty, ws), g.pairs(al, ws))])
        for s in seqs(g, ty, 10 if full else 3)[::1 if full else 4]:
            g.add("count", ty, ["buildl " + " ".join(s)])
            g.add("comp", ty, ["comp " + " ".join(s)])
    every = ["%02x" % b for b in range(256)]
    for kind in ["flat", "small", "fib", "pow", "big", "mixed", "linear"]:
        ws = [w or 1 for w in g.weights(256, kind)]
        for via in ["bytes", "map", "list"]:
            g.add("all-" + kind, "u8", ["build %s %s" % (via, g.pairs(every, ws))])
        for ends in (["00"], ["ff"], ["00", "ff"], ["00", "01", "fe", "ff"]):
            g.add("ends", "u8", ["build bytes " + g.pairs(ends, ws)])
    g.add("every", "u8", ["buildl " + " ".join(g.shuffled(every + every[:90] + ["00"] * 50))])
    # as deep as a tree with weights in a word gets
    fib = [1, 1]
    while sum(fib) + fib[-1] + fib[-2] < 1 << 63:
        fib.append(fib[-1] + fib[-2])
    for ty in ["u8", "u64", "string"]:
        al = g.alphabet(ty, len(fib))[:len(fib)]
        for via in ["list", "map"] + (["bytes"] if ty == "u8" else []):
            g.add("fib", ty, ["build %s %s" % (via, g.pairs(g.shuffled(al), fib[:len(al)]))])
    for n in ([700, 3000, 6000] if full else [700, 2000]):
        al = ["%04x" % (b * 7 % 65536) for b in range(n)]
        g.add("many", "u16", ["build list " + g.pairs(al, g.weights(n, "small"))])
        g.add("many", "u16", ["build map " + g.pairs(al, g.weights(n, "linear"))])


# ------------------------------------------------------------------ C04

def c04(g, full):
    whole(g, full, "bin")
    for ty in INTS:
        for _ in range(80 if full else 25):
            al = g.alphabet(ty, g.rng.choice([1, 2, 3, 4, 5, 8, 9, 16, 31, 60]))
            ws = g.weights(len(al), zero=False)
            g.add("tree", ty, ["build %s %s" % (g.via(ty, ws), g.pairs(al, ws)), "asbin 1", "frombin 2", "asbin 3", "frombin 4"])
        for s in seqs(g, ty, 4)[::5]:
            g.add("comp", ty, ["comp " + " ".join(s), "asbin 1", "frombin 2"])
        n = SIZES[ty]
        if n > 1:     # letters that differ in one byte only, every place
            al = [(1 << (8 * k)).to_bytes(n, "big").hex() for k in range(n)] + ["00" * n, "ff" * n, "7f" + "ff" * (n - 1), "80" + "00" * (n - 1)]
            g.add("places", ty, ["build list " + g.pairs(al, g.weights(len(al), "linear")), "asbin 1", "frombin 2"])
    every = ["%02x" % b for b in range(256)]
    for ty in ["u8", "i8"]:
        for kind in ["flat", "linear", "fib", "pow"]:
            g.add("all", ty, ["build map " + g.pairs(every, g.weights(256, kind)), "asbin 1", "frombin 2"])
    fib = [1, 1]
    while len(fib) < 85:
        fib.append(fib[-1] + fib[-2])
    for ty in INTS:
        al = g.alphabet(ty, 85)
        g.add("deep", ty, ["build list " + g.pairs(al, fib[:len(al)]), "asbin 1", "frombin 2"])
    for ty, n in [("u16", 3000), ("u128", 1000)] + ([("u32", 9000), ("i64", 4000)] if full else []):
        al = [(b * 2654435761 % (1 << (8 * SIZES[ty]))).to_bytes(SIZES[ty], "big").hex() for b in range(n)]
        al = sorted(set(al))
        g.add("many", ty, ["build map " + g.pairs(al, g.weights(len(al), "linear")), "asbin 1", "frombin 2"])


# ------------------------------------------------------------------ C05

def encode(shape, letters):
    """The bits of a shape given as nested pairs; leaves are None"""
    out, todo, it = [], [shape], iter(letters)
    while todo:
        t = todo.pop()
        if t is None:
            out.append("0" + next(it))
        else:
            out.append("1")
            todo += [t[1], t[0]]
    return "".join(out)


def random_shape(rng, leaves, kind="any"):
    if kind == "left" or kind == "right":
        t = None
        for _ in range(leaves - 1):
            t = (t, None) if kind == "left" else (None, t)
        return t
    if leaves == 1:
        return None
    a = rng.randint(1, leaves - 1)
    return (random_shape(rng, a), random_shape(rng, leaves - a))


def leaf_bits(g, ty):
    w = g.letter(ty)
    return "" if w == "-" else bin(int("1" + w, 16))[3:]


def valid_bits(g, ty, leaves, kind="any"):
    return encode(random_shape(g.rng, leaves, kind), [leaf_bits(g, ty) for _ in range(leaves)])


def c05(g, full):
    whole(g, full, "bin")
    def tree(tag, ty, bits, off=0):
        g.add(tag, ty, ["bits %d %s" % (off, bits or "-"), "frombin 1"])
    # every bit vector up to 13 bits (longer ones in the thorough tier), as
    # printed by the model: for letters of no bits, and of 8
    for ty, size, n in [("unit", 0, 15 if full else 11), ("u8", 1, 14 if full else 11)]:
        for v in vlib.vectors("TreeBin", dict(Size=size, W=8, MaxBits=n, LastInvalid=False)):
            tree("mc", ty, "".join(map(str, v)), g.rng.choice([0, 0, 0, 1, 5, 7]))
    for ty in BYTES:
        for _ in range(40 if full else 12):
            b = valid_bits(g, ty, g.rng.choice([1, 2, 2, 3, 4, 6, 11]))
            tree("ok", ty, b, g.rng.randrange(8))
            for _ in range(6):
                k = g.rng.randrange(7)
                if k == 0:
                    tree("cut", ty, b[:g.rng.randrange(len(b))])
                elif k == 1:
                    tree("cut1", ty, b[:-1])
                elif k == 2:
                    tree("more", ty, b + g.rng.choice(["0", "1", "00000000", "10", b]))
                elif k == 3:
                    x = g.rng.randrange(len(b))
                    tree("flip", ty, b[:x] + "10"[int(b[x])] + b[x + 1:])
                elif k == 4:
                    x = g.rng.randrange(len(b))
                    tree("drop", ty, b[:x] + b[x + 1:])
                elif k == 5:
                    tree("rand", ty, "".join(g.rng.choice("01") for _ in range(g.rng.randrange(60))))
                else:
                    tree("front", ty, g.rng.choice(["1", "0"]) + b)
        # a valid encoding cut at every place and followed by every byte boundary
        b = valid_bits(g, ty, 3)
        for n in range(0, len(b), 1 if full or len(b) < 80 else 7):
            tree("every-cut", ty, b[:n])
        for n in range(1, 18):
            tree("tail", ty, b + "0" * n)
        for kind in ["left", "right"]:
            depths = [100] + ([254, 255, 256, 257, 3000] if ty in ("u8", "unit", "tri") else [])
            if ty == "u8" or (full and ty in ("u16", "unit")):
                depths += [600, 999, 1000, 1001, 1002, 20000]
            for depth in depths:
                tree("comb-%s-%d" % (kind, depth), ty, valid_bits(g, ty, depth + 1, kind))
        for n in [255, 256, 257, 1000, 1001] + ([40000, 65536] if ty in ("u8", "unit", "u64") else []):
            tree("ones-%d" % n, ty, "1" * n)
        if ty in ("unit", "u8"):
            # beginnings of a tree nested deep on the right, deeper than a stack goes
            for n in [1000, 20000] + ([200000] if ty == "unit" else []):
                tree("rights-%d" % n, ty, ("10" + ("" if ty == "unit" else "01011001")) * n)
    for v in range(256):
        tree("fal", "fal", "0" + bin(256 + v)[3:])
        tree("fal2", "fal", "10" + bin(256 + v)[3:] + "001000001")
        tree("fal3", "fal", "1001000001" + "0" + bin(256 + v)[3:])
    # one letter on several leaves is an encoding like any other
    for ty in ["u8", "u32"]:
        z = "0" * (8 * SIZES[ty])
        tree("same", ty, "10" + z + "0" + z)
        tree("same", ty, "110" + z + "0" + z + "0" + z)


# ------------------------------------------------------------------ C06, C07

def c06(g, full):
    bigs(g, full)
    bigtrees(g, full)
    tail = lambda k: ["tobytes %d" % k, "frombytes %d" % (k + 1), "decomp %d" % (k + 2), "tobytes %d" % (k + 2)]
    # (the tree of one letter of no bytes is shorter than any tree that is accepted)
    for ty in [t for t in BYTES if t != "unit"]:
        for s in seqs(g, ty, 50 if full else 10):
            g.add("own", ty, ["comp " + " ".join(s)] + tail(1))
        for _ in range(30 if full else 8):
            al = g.alphabet(ty, g.rng.choice([1, 2, 5, 12, 40]))
            ws = g.weights(len(al), zero=False)
            s = g.sequence(al, g.rng.choice([1, 2, 9, 50]))
            g.add("tree", ty, ["build %s %s" % (g.via(ty, ws), g.pairs(al, ws)), "compt 1 " + " ".join(s)] + tail(2))
            if g.rng.random() < .5:
                g.add("reread", ty, ["build list %s" % g.pairs(al, ws), "asbin 1", "frombin 2", "compt 3 " + " ".join(s)] + tail(4))
    every = ["%02x" % b for b in range(256)]
    g.add("all", "u8", ["comp " + " ".join(g.shuffled(every + every[:77]))] + tail(1))
    for k in range(1, 65):     # tree lengths and their paddings one by one
        g.add("size", "u8", ["comp " + " ".join(every[255 - k:255])] + tail(1))
    # tree lengths that need two and three bytes of the length field
    for ty, n in [("u16", 300), ("u64", 32), ("u128", 17), ("u64", 4000), ("u128", 4200)] + ([("u64", 8300)] if full else []):
        al = [(b * 0x9E3779B97F4A7C15 % (1 << (8 * SIZES[ty]))).to_bytes(SIZES[ty], "big").hex() for b in range(1, n + 1)]
        g.add("big", ty, ["comp " + " ".join(al + al[:9])] + tail(1))
    g.add("long", "u8", ["comp " + " ".join(g.sequence(g.alphabet("u8", 30), 9000, "skew"))] + tail(1))
    for ty in [t for t in BYTES if t != "unit"]:
        for kind in ["left", "right"]:
            comb(g, ty, g.rng.choice([40, 129, 255]), kind, tail(3))
        al = g.alphabet(ty, 80)
        g.add("deep", ty, ["build list " + g.pairs(al, fib_weights(len(al))), "compt 1 " + " ".join(al)] + tail(2))


def container(g, ty, leaves, ndata, kind="any"):
    b = valid_bits(g, ty, leaves, kind)
    pad = -len(b) % 8
    b += "".join(g.rng.choice("01") for _ in range(pad)) if g.rng.random() < .3 else "0" * pad
    tree = bytes(int(b[i:i + 8], 2) for i in range(0, len(b), 8))
    data = bytes(g.rng.getrandbits(8) for _ in range(ndata))
    return pad, tree, data


def pack(tp, dp, tree, data, tl=None):
    tl = len(tree) if tl is None else tl
    return (bytes([(tp << 4) | dp]) + tl.to_bytes(4, "big") + tree + data).hex()


def c07(g, full):
    def blob(tag, ty, hexs):
        g.add(tag, ty, ["bytes " + (hexs or "-"), "frombytes 1", "decomp 2"])
    vec = vlib.vectors("Container", dict(MaxLen=9 if full else 8))
    vec = g.rng.sample(vec, min(len(vec), 60000 if full else 9000))
    for v in vec:
        blob("mc", g.rng.choice(["u8", "u8", "i8", "fal"]), bytes(v).hex())
    for ty in BYTES:
        for _ in range(25 if full else 7):
            tp, tree, data = container(g, ty, g.rng.choice([1, 2, 3, 5, 9]), g.rng.choice([1, 2, 5, 30]))
            dp = g.rng.randrange(8)
            whole = pack(tp, dp, tree, data)
            blob("ok", ty, whole)
            for n in range(0, len(whole), 2 if len(whole) < 120 else 14):
                blob("cut", ty, whole[:n])
            for t in range(16):
                blob("treepad", ty, pack(t, dp, tree, data))
            for d in range(16):
                blob("datapad", ty, pack(tp, d, tree, data))
            for d in range(8):
                blob("onebyte", ty, pack(tp, d, tree, data[:1]))
            n = len(tree)
            for tl in {0, 1, 2, n - 1, n + 1, n + len(data) - 1, n + len(data), n + len(data) + 1, 255, 256, 65535, 65536,
                       1 << 24, 1 << 31, (1 << 32) - 1, n + (1 << 8), n + (1 << 16), n + (1 << 24)}:
                if 0 <= tl < 1 << 32:
                    blob("treelen", ty, pack(tp, dp, tree, data, tl))
            for _ in range(8):
                x = bytearray(bytes.fromhex(whole))
                x[g.rng.randrange(len(x))] ^= 1 << g.rng.randrange(8)
                blob("flip", ty, bytes(x).hex())
            blob("tree+byte", ty, pack(tp, dp, tree + b"\0", data))
            blob("tree-byte", ty, pack(tp, dp, tree[:-1], data))
        for kind in ["left", "right"]:
            for depth in [100] + ([254, 255, 256, 257, 3000] if ty in ("u8", "tri") else []) + ([1000, 1001, 20000] if ty == "u8" else []):
                tp, tree, data = container(g, ty, depth + 1, 40, kind)
                blob("comb", ty, pack(tp, 3, tree, data))
        for _ in range(60 if full else 15):
            blob("rand", ty, bytes(g.rng.getrandbits(8) for _ in range(g.rng.randrange(40))).hex())
        blob("ones", ty, pack(0, 0, b"\xff" * 8000, b"\x55"))
        if ty == "u8":
            bits = "1001011001" * 40000
            blob("rights", ty, pack(0, 0, int(bits, 2).to_bytes(len(bits) // 8, "big"), b"\x55"))


# ------------------------------------------------------------------ C08, C09

def byte_of(b):
    return [0, 255, 128][b]


def hist_lines(h):
    out = []
    for op in h:
        if op[0] == "from":
            out.append("from %d %s" % (op[1], bytes(byte_of(b) for b in op[2]).hex() or "-"))
        elif op[0] == "add":
            r, x, y = op[1:]
            out.append("addassign %d %d" % (r, y) if r == x and (y + r) % 2 else
                       "addref %d %d" % (r, y) if r == x else "add %d %d %d" % (r, x, y))
        else:
            out.append("%s %d %d %d" % ("set" if op[3] % 2 else "tset", op[1], byte_of(op[2]), op[3]))
    return out


def slice_of(g, n, kind=None):
    r = g.rng
    kind = kind or r.choice(["any", "few", "one", "ends"])
    if kind == "any":
        return bytes(r.getrandbits(8) for _ in range(n))
    if kind == "few":
        al = [r.getrandbits(8) for _ in range(4)]
        return bytes(r.choice(al) for _ in range(n))
    if kind == "one":
        return bytes([r.getrandbits(8)]) * n
    return bytes(r.choice([0, 0, 255, 1, 254]) for _ in range(n))


def hx(b):
    return b.hex() or "-"


def bigbytes(g, full, threads=()):
    sizes = [65535, 65536, 65537, 131073, 300007, 1048577] + ([4194305, 16777217 + 40] if full else [])
    for n in sizes:
        for shape in g.rng.sample(["flat", "steep", "skew", "runs", "last", "phases"], 6 if full else 3):
            al = g.alphabet("u8", g.rng.choice([1, 2, 30, 256]))
            spec = "%d %d %s %s" % (g.rng.getrandbits(60), n, shape, " ".join(al))
            lines = ["bigfrom 1 " + spec]
            for t in threads:
                lines += ["bigthreaded 2 %d %s" % (t, spec), "eq 1 2"]
            g.add("big", "weights", lines + (["addassign 1 1", "set 1 %d 65536" % int(al[0], 16)] if not threads else []))


def c08(g, full):
    bigbytes(g, full)
    for n in [65535, 65536, 65537, 400001] + ([5000011] if full else []):
        for ty in ["u8", "u64", "char", "string"]:
            g.add("bigcount", "weights", ["bigcount %s %d %d %s %s" % (ty, g.rng.getrandbits(60), n, g.rng.choice(["flat", "steep", "last"]), " ".join(g.alphabet(ty, 14)))])
    start = ["new 1", "default 2", "eq 1 2"]
    vec = vlib.vectors("ByteCounts", dict(Bytes=3, Regs=2, MaxOps=2, Counted=2, MaxCount=1))
    for h in g.rng.sample(vec, min(len(vec), 2116 if full else 700)):
        g.add("mc", "weights", start + hist_lines(h) + ["eq 1 2", "add 1 1 2"])
    if full:
        vec = vlib.vectors("ByteCounts", dict(Bytes=2, Regs=2, MaxOps=3, Counted=2, MaxCount=2))
        for h in g.rng.sample(vec, min(len(vec), 6000)):
            g.add("mc3", "weights", start + hist_lines(h) + ["eq 1 2"])
    for _ in range(400 if full else 80):
        lines = list(start) + ["new 3"]
        for _ in range(g.rng.choice([3, 8, 20])):
            r = g.rng
            d, a, b = (r.randint(1, 3) for _ in range(3))
            k = r.randrange(12)
            if k < 3:
                lines.append("from %d %s" % (d, hx(slice_of(g, r.choice([0, 1, 2, 5, 40, 300])))))
            elif k == 3:
                lines.append("threaded %d %s %d" % (d, hx(slice_of(g, r.choice([0, 1, 7, 40]))), r.choice([1, 2, 3, 12])))
            elif k == 4:
                lines.append("add %d %d %d" % (d, a, b))
            elif k == 5:
                lines.append("addassign %d %d" % (d, b))
            elif k == 6:
                lines.append("addref %d %d" % (d, b))
            elif k == 7:
                lines.append("copy %d %d" % (d, a))
            elif k == 8:
                lines.append("eq %d %d" % (a, b))
            else:
                lines.append("%s %d %d %d" % (r.choice(["set", "tset"]), d, r.choice([0, 255, 1, r.getrandbits(8)]),
                                              r.choice([0, 0, 1, 2, 255, 256, 65536, 1 << 32, (1 << 40) - 1])))
        g.add("hist", "weights", lines)
    # the same length, different bytes; the same bytes, different counts; only the ends
    for x in [b"", b"\0", b"\xff", b"\0\xff", bytes(range(256)), bytes(range(1, 256)), bytes(range(255)), b"\0" * 300, b"\xff" * 70000]:
        for y in [b"\0", b"\xff", b"\1", bytes(range(255, -1, -1))]:
            g.add("pair", "weights", ["from 1 " + hx(x), "from 2 " + hx(y), "eq 1 2", "add 3 1 2", "add 4 2 1", "eq 3 4",
                                      "set 3 0 0", "set 3 255 0", "tset 3 1 0", "eq 3 1", "addassign 3 1", "addassign 3 3"])
    # emptied byte by byte, then filled again
    for _ in range(6):
        s = slice_of(g, 5, "any")
        g.add("empty", "weights", ["from 1 " + hx(s)] + ["set 1 %d 0" % b for b in s] + ["new 2", "eq 1 2", "set 1 %d 5" % s[0], "addassign 1 2", "from 2 " + hx(s), "addassign 1 2"])
    for ty in ["u8", "i32", "u128", "char", "string", "str", "tri"]:
        for _ in range(60 if full else 15):
            al = g.alphabet(ty, g.rng.choice([1, 2, 5, 20]))
            s = g.sequence(al, g.rng.choice([0, 1, 2, 9, 100]) if g.rng.random() < .9 else 1000)
            g.add("count", "weights", ["count %s %d %s" % (ty, g.rng.randrange(2), " ".join(s)) if s else "count %s 0" % ty])
    g.add("manycount", "weights", ["count i32 1 " + " ".join("%08x" % (k * 7) for k in range(3000))])


def c09(g, full):
    bigbytes(g, full, (1, 2, 3, 7, 12, 13, 64) if full else (2, 12, 13))
    vec = vlib.vectors("ThreadCount", dict(Values="{0,1}", MaxLen=5, MaxThreads=4))
    for v in vec:
        s = bytes([0, 255][b] for b in v["src"])
        g.add("mc", "weights", ["threaded 1 %s %d" % (hx(s), v["n"]), "from 2 " + hx(s), "eq 1 2"])
    # every length up to L with every thread count up to N
    L, N = (70, 40) if full else (34, 20)
    for n in range(L + 1):
        s = slice_of(g, n, "any")
        for lo in range(1, N + 1, 10):
            g.add("grid", "weights", ["threaded 1 %s %d" % (hx(s), t) for t in range(lo, min(lo + 10, N + 1))])
    for _ in range(120 if full else 30):
        s = slice_of(g, g.rng.choice([100, 255, 256, 257, 1000, 4096, 5003]))
        g.add("rand", "weights", ["from 1 " + hx(s)] + ["threaded 2 %s %d" % (hx(s), g.rng.choice([1, 2, 3, 7, 12, 13, 16, 64, 100, len(s) - 1, len(s), len(s) + 1])
                                                          if len(s) < 300 else g.rng.choice([1, 2, 3, 7, 12, 13, 64, 150])), "eq 1 2"])
    for n, t in [(70001, 12), (65536 * 2 + 5, 7)] + ([(1000003, 12), (300007, 200)] if full else []):
        g.add("long", "weights", ["threaded 1 %s %d" % (hx(slice_of(g, n, "ends")), t)])
    g.add("tiny", "weights", ["threaded 1 - %d" % t for t in (1, 2, 12, 300)] + ["threaded 1 ff %d" % t for t in (1, 2, 12, 300)])


def schedules(ck, recorder):
    """C09 under schedules of every kind: threads let go all at once, late, in
    either order; and, in Miri, threads that are made to wait at any instruction"""
    full = not ck.quick
    g = Gen(ck.rng)
    shim = vlib.build_shim("sched")
    modes = ["gate", "reverse:4", "order:4", "late:0:60", "late:1:60", "late:2:1200"] + (["late:3:60", "late:7:60", "late:11:2500", "reverse:40"] if full else [])
    records, cases = [], []
    for mode in modes:
        h = Gen(ck.rng)
        slow = mode in ("late:2:1200", "late:11:2500")
        for _ in range(2 if slow else 40 if full else 12):
            n = g.rng.choice([24, 100, 1000, 20000])
            s = slice_of(g, n)
            if n < 20000:
                h.add(mode.replace(":", "-"), "weights", ["from 2 " + hx(s)] + ["threaded 1 %s %d" % (hx(s), t) for t in ([12] if slow else [2, 3, 4, 12])] + ["eq 1 2"])
            else:
                spec = "%d %d %s %s" % (g.rng.getrandbits(60), 60000, g.rng.choice(["flat", "steep", "last"]), " ".join(g.alphabet("u8", 5)))
                h.add(mode.replace(":", "-") + "-big", "weights", ["bigfrom 2 " + spec, "bigthreaded 1 12 " + spec, "bigthreaded 3 %d %s" % (12 if slow else 40, spec), "eq 1 2", "eq 1 3"])
        if mode == "gate":
            for _ in range(200 if full else 60):
                s = slice_of(g, g.rng.choice([8, 16, 40, 200]), "few")
                h.add("gate", "weights", ["threaded 1 %s 8" % hx(s)] * 6)
        records += vlib.record(recorder, h.cases, vlib.scratch(), env={"LD_PRELOAD": shim, "SCHED_MODE": mode})
        cases += h.cases
    batches = []
    vec = vlib.vectors("ThreadCount", dict(Values="{0,1}", MaxLen=5, MaxThreads=4))
    for seed in range(96 if full else 24):
        h = []
        for j in range(3):
            if j == 0:
                v = g.rng.choice([v for v in vec if v["n"] > 1 and len(v["src"]) >= v["n"]])
                s, n = bytes([0, 255][b] for b in v["src"]), v["n"]
            else:
                n = g.rng.choice([2, 3, 3, 4, 6])
                s = slice_of(g, n * g.rng.choice([1, 2, 5]) + g.rng.randrange(n), g.rng.choice(["few", "ends", "one"]))
            h.append(("miri%d-%d" % (seed, j), "weights", ["threaded 1 %s %d" % (hx(s), n)]))
        batches.append((seed + 1000 * ck.seed, g.rng.choice(["0.01", "0.1", "0.3", "0.7"]), h))
    lines, skipped = vlib.record_miri(batches, vlib.scratch())
    if skipped:
        ck.assumptions.append("not run in Miri: %s" % "; ".join(skipped)[:600])
    ck.say("schedules: %d natively, %d in Miri (%d batches not run there)" % (len(records), len(lines), len(skipped)))
    return records + lines, cases + [c for b in batches for c in b[2]]


# ------------------------------------------------------------------ C19

def pathword(p):
    return "".join(map(str, p)) or "-"


def paths_of(shape):
    """The path of every leaf and of every joint of nested pairs"""
    leaves, joints, todo = [], [], [(shape, ())]
    while todo:
        t, p = todo.pop()
        if t is None:
            leaves.append(p)
        else:
            joints.append(p)
            todo += [(t[1], p + (1,)), (t[0], p + (0,))]
    return leaves, joints


class Hand:
    """Lines that make branches by hand, and the registers they go to"""
    def __init__(self, g, ty, k):
        self.g, self.al = g, g.alphabet(ty, k)
        self.lines = ["any " + self.al[0]]
        self.regs = 0

    def do(self, line, new=1):
        self.lines.append(line)
        self.regs += new
        return self.regs

    def weight(self):
        r = self.g.rng
        return r.choice([0, 1, 2, 3, 7, 32767, 32768, (1 << 32) - 1, 1 << 32, 1 << 62, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, r.getrandbits(64)])

    def make(self, shape, letters):
        """A tree of joints and leaves out of nested pairs"""
        done, todo, it = [], [(shape, False)], iter(letters)
        while todo:
            t, seen = todo.pop()
            if t is None:
                done.append(self.do("leaf %s %d" % (next(it), self.weight())))
            elif not seen:
                todo += [(t, True), (t[1], False), (t[0], False)]
            else:
                b, a = done.pop(), done.pop()
                done.append(self.do("join * %d %d %d" % (self.weight(), a, b)))
        return done[0]

    def codes(self, r, shape, joints=True):
        ls, js = paths_of(shape)
        for p in self.g.shuffled(ls + (js if joints else [])):
            self.do("code %d %s %s" % (r, pathword(p), pathword(p)), 0)


def c19(g, full):
    vec = vlib.vectors("Branches", dict(Letters="{5}", MaxOps=4, MaxNodes=7))
    for h in g.rng.sample(vec, min(len(vec), 7400 if full else 1500)):
        ty = g.rng.choice(["u8", "i32", "char", "string", "unit"] if not full else ALL)
        al = g.alphabet(ty, 3)
        lines = ["any " + al[0]]
        for op in h:
            lines.append({"leaf": lambda o: "leaf %s %d" % (al[0], o[2]),
                          "join": lambda o: "join * 3 %d %d" % (o[1], o[2]),
                          "clone": lambda o: "clone %d" % o[1],
                          "kids": lambda o: "kids %d %s %d %d" % (o[1], pathword(o[2]), o[3], o[4]),
                          "drop": lambda o: "drop %d %s" % (o[1], pathword(o[2])),
                          "code": lambda o: "code %d %s %s" % (o[1], pathword(o[2]), pathword(o[2]))}[op[0]](op))
        g.add("mc", ty, lines + ["tree 1", "cmp 1 1", "use 1 " + al[0]])
    for ty in ALL:
        for k in range(40 if full else 10):
            # made by hand, made a tree, used, changed, used again
            h = Hand(g, ty, 14)
            n = g.rng.randint(1, max(1, len(h.al) - 2))
            shape = random_shape(g.rng, n)
            b = h.make(shape, h.al)
            if g.rng.random() < .5:
                h.codes(b, shape)
                t = h.do("tree %d" % b)
            else:
                t = h.do("tree %d" % b)
                h.do("use %d %s" % (t, h.al[0]), 0)
                h.codes(t, shape, g.rng.random() < .5)
            words = lambda m: " ".join(g.rng.choice(h.al[:n]) for _ in range(g.rng.choice([1, 3, 20])))
            h.do("use %d %s" % (t, words(n)), 0)
            h.do("use %d %s %s" % (t, words(n), h.al[-1]), 0)
            c = h.do("clone %d" % t)
            leaves, joints = paths_of(shape)
            if joints:
                # the children of a joint change places
                p = g.rng.choice(joints)
                x, y = h.do("below %d %s" % (t, pathword(p + (0,)))), h.do("below %d %s" % (t, pathword(p + (1,))))
                h.do("kids %d %s %d %d" % (t, pathword(p), y, x), 0)
                h.do("use %d %s" % (t, words(n)), 0)
                def swap(s, q):
                    if not q:
                        return (s[1], s[0])
                    return (swap(s[0], q[1:]), s[1]) if q[0] == 0 else (s[0], swap(s[1], q[1:]))
                h.codes(t, swap(shape, p))
                h.do("use %d %s" % (t, words(n)), 0)
                h.do("use %d %s" % (c, words(n)), 0)
                h.do("drop %d %s" % (t, pathword(p)), 0)
                h.do("kids %d %s %d %d" % (t, pathword(p), y, x), 0)
                h.do("use %d %s" % (t, words(n)), 0)
                h.do("code %d %s 0101" % (t, pathword(p + (1, 0, 1, 1, 0, 0, 1, 1, 0, 1, 0, 1, 1, 0))), 0)
                # a whole tree in the place of a letter
                q = g.rng.choice(leaves)
                l = h.do("below %d %s" % (c, pathword(q)))
                m = h.do("leaf %s 5" % h.al[-1])
                j = h.do("join * 9 %d %d" % g.rng.choice([(l, m), (m, l)]))
                up, side = q[:-1], q[-1]
                o = h.do("below %d %s" % (c, pathword(up + (1 - side,))))
                h.do("kids %d %s %s" % (c, pathword(up), "%d %d" % ((j, o) if side == 0 else (o, j))), 0)
                for w in ((0,), (1,)):
                    h.do("code %d %s %s" % (c, pathword(q + w), pathword(q + w)), 0)
                h.do("use %d %s %s" % (c, words(n), h.al[-1]), 0)
            for _ in range(3):
                h.do("cmp %d %d" % (g.rng.randint(1, h.regs), g.rng.randint(1, h.regs)), 0)
            g.add("hand", ty, h.lines)
        for _ in range(20 if full else 5):
            # the library's tree, changed
            h = Hand(g, ty, 9)
            if len(h.al) < 3:
                continue
            n = len(h.al)
            t = h.do("weigh " + g.pairs(h.al[:-1], g.weights(n - 1)))
            h.do("use %d %s" % (t, " ".join(g.shuffled(h.al[:-1]))), 0)
            x, y = h.do("below %d 0" % t), h.do("below %d 1" % t)
            h.do("kids %d - %d %d" % (t, y, x), 0)
            a, b = h.do("leaf %s 1" % h.al[0]), h.do("leaf %s 2" % h.al[-1])
            z = h.do("clone %d" % t)
            for r in (t, z):
                h.do("kids %d - %d %d" % (r, a, b), 0)
                h.do("code %d 0 0" % r, 0)
                h.do("code %d 1 1" % r, 0)
                h.do("use %d %s %s" % (r, h.al[0], " ".join(g.rng.choice([h.al[0], h.al[-1]]) for _ in range(9))), 0)
                h.do("use %d %s %s" % (r, h.al[1], h.al[0]), 0)
            h.do("drop %d -" % t, 0)
            h.do("kids %d - %d %d" % (t, x, y), 0)
            g.add("weigh", ty, h.lines)
        # order: equal, next to each other, far apart
        h = Hand(g, ty, 4)
        ws = [0, 1, 2, 255, 256, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, (1 << 64) - 1]
        for w in ws:
            h.do("leaf %s %d" % (g.rng.choice(h.al), w))
        for k in range(4):
            h.do("join * %d %d %d" % (g.rng.choice(ws), g.rng.randint(1, len(ws)), g.rng.randint(1, len(ws))))
        for _ in range(120 if full else 40):
            h.do("cmp %d %d" % (g.rng.randint(1, h.regs), g.rng.randint(1, h.regs)), 0)
        g.add("order", ty, h.lines)
    for ty, depth, kind in [("u8", 60, "left"), ("u16", 60, "right")] + ([("u32", 200, "left"), ("char", 14, "right"), ("u64", 200, "right")] if full else []):
        h = Hand(g, ty, depth + 1)
        shape = random_shape(g.rng, len(h.al), kind)
        # (every event shows all the branches made so far: only what is needed is kept small)
        t = h.do("tree %d" % h.make(shape, h.al)) if depth < 100 else None
        if t:
            h.codes(t, shape, False)
            h.do("use %d %s" % (t, " ".join(g.shuffled(h.al))), 0)
            g.add("deep", ty, h.lines)


# ------------------------------------------------------------------ C20, C21

def data_word(g, bits):
    """Bytes that hold the bits, and what fills up the last one is anything"""
    pad = -len(bits) % 8
    bits += "".join(g.rng.choice("01") for _ in range(pad))
    return "%d %s" % (pad, bytes(int(bits[i:i + 8], 2) for i in range(0, len(bits), 8)).hex())


def c20(g, full):
    vec = []
    for w, leaves, n in [(3, 3, 2), (8, 2, 1)] + ([(2, 4, 3)] if full else []):
        vec += [v for v in vlib.vectors("Decoder", dict(W=w, NL=2, MaxLeaves=leaves, MaxLen=n)) if v["bits"]]
    for v in g.rng.sample(vec, min(len(vec), 20000 if full else 5000)):
        g.add("mc", g.rng.choice(["u8", "i8", "fal"]), ["bits 0 " + "".join(map(str, v["tree"])), "frombin 1",
                                                       "mkcomp 2 " + data_word(g, "".join(map(str, v["bits"]))), "decomp 3"])
    for ty in BYTES:
        for _ in range(150 if full else 40):
            n = g.rng.choice([1, 2, 2, 3, 4, 7, 20, 50])
            shape = random_shape(g.rng, n, g.rng.choice(["any", "any", "left", "right"]))
            ls = [leaf_bits(g, ty) for _ in range(n)]
            if g.rng.random() < .5:
                # one letter on several leaves is a tree like any other
                ls = [g.rng.choice(ls[:3]) for _ in ls]
            codes = ["".join(map(str, p)) or "0" for p in paths_of(shape)[0]]
            head = ["bits 0 " + encode(shape, ls), "frombin 1"]
            for _ in range(3):
                if g.rng.random() < .75:
                    bits = "".join(g.rng.choice(codes) for _ in range(g.rng.choice([1, 2, 3, 5, 8, 40, 150])))
                else:
                    bits = "".join(g.rng.choice("01") for _ in range(g.rng.randint(1, 300)))
                g.add("any", ty, head + ["mkcomp 2 " + data_word(g, bits), "decomp 3"])
        # every padding, a byte or more
        one = ["bits 0 0" + leaf_bits(g, ty), "frombin 1"]
        two = ["bits 0 10" + leaf_bits(g, ty) + "0" + leaf_bits(g, ty), "frombin 1"]
        for pad in range(8):
            for data in ["00", "0000", "a5", "0fff00"]:
                for head in (one, two):
                    g.add("pad", ty, head + ["mkcomp 2 %d %s" % (pad, data), "decomp 3"])
        for pad in [8, 9, 15, 16, 128, 255]:
            g.add("refuse", ty, two + ["mkcomp 2 %d %s" % (pad, g.rng.choice(["00", "ff00", "0102030405"])), "decomp 3"])
        for pad in [0, 1, 7, 8, 255]:
            g.add("refuse", ty, two + ["mkcomp 2 %d -" % pad])
    for ty in ALL:
        for _ in range(60 if full else 15):
            al = g.alphabet(ty, g.rng.choice([1, 2, 3, 8, 30]))
            if len(al) == 1:
                g.add("weighed", ty, ["build list " + g.pairs(al, [3]), "mkcomp 1 " + data_word(g, "0" * g.rng.randint(1, 40)), "decomp 2"])
                continue
            # whatever the tree, with bits enough some of them end with a code
            ws = g.weights(len(al))
            bits = "".join(g.rng.choice("01") for _ in range(g.rng.randint(8, 60)))
            lines = ["build list " + g.pairs(al, ws)]
            for k in range(8):
                lines += ["mkcomp 1 %s" % data_word(g, bits[:len(bits) - k]), "decomp %d" % (2 + 2 * k)]
            g.add("weighed", ty, lines)
    # long runs
    for n in [2000] + ([9000] if full else []):
        shape = random_shape(g.rng, 40)
        codes = ["".join(map(str, p)) for p in paths_of(shape)[0]]
        bits = "".join(g.rng.choice(codes) for _ in range(n))
        g.add("long", "u8", ["bits 0 " + encode(shape, [leaf_bits(g, "u8") for _ in range(40)]), "frombin 1", "mkcomp 2 " + data_word(g, bits), "decomp 3"])


def c21(g, full):
    for ty in INTS:
        n = SIZES[ty]
        vals = [0, 1, 2, 9, 10, 127, 128, 255, (1 << (8 * n)) - 1, (1 << (8 * n)) - 2, 1 << (8 * n - 1), (1 << (8 * n - 1)) - 1]
        vals += [1 << k for k in range(8 * n)] + [(1 << k) - 1 for k in range(1, 8 * n)]
        vals += [int("".join("%02x" % (k + 1) for k in range(n)), 16)] + [g.rng.getrandbits(8 * n) for _ in range(300 if full else 60)]
        if n == 1:
            vals = range(256)
        words = [(v % (1 << (8 * n))).to_bytes(n, "big").hex() for v in vals]
        for k in range(0, len(words), 20):
            g.add("to", ty, ["lbytes " + w for w in words[k:k + 20]])
            g.add("from", ty, ["lfrom " + w for w in words[k:k + 20]])
        for m in sorted({0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 64, 255, 256, n - 1, n + 1, 2 * n} - {n}):
            for b in (b"\0", b"\xff", b"\x01"):
                g.add("size", ty, ["lfrom " + hx(b * m)])


# ------------------------------------------------------------------ C25

class Calls:
    """Calls on what there is, in one thread or before there are threads"""
    def __init__(self, g, ty, al, kinds=()):
        self.g, self.ty, self.al, self.kinds, self.lines = g, ty, al, list(kinds), []

    def do(self, line, kind):
        self.lines.append(line)
        self.kinds.append(kind)
        return len(self.kinds)

    def have(self, *kinds):
        return self.g.rng.choice([k + 1 for k, x in enumerate(self.kinds) if x in kinds])

    def words(self, n=None):
        return " ".join(self.g.sequence(self.al, n or self.g.rng.choice([1, 5, 40, 150])))

    def any(self):
        r, b = self.g.rng, self.ty in BYTES and self.ty != "unit"
        k = r.choice(["compt", "compt", "compt", "decomp", "decomp", "comp", "build"] + ["asbin", "frombin", "tobytes", "frombytes", "lbytes"] * b)
        if k == "compt":
            self.do("compt %d %s" % (self.have("tree", "comp"), self.words()), "comp")
        elif k == "decomp":
            self.do("decomp %d" % self.have("comp"), "letters")
        elif k == "comp":
            self.do("comp " + self.words(), "comp")
        elif k == "build":
            ws = self.g.weights(len(self.al), zero=False)
            self.do("build %s %s" % (self.g.via(self.ty, ws), self.g.pairs(self.al, ws)), "tree")
        elif k == "asbin":
            self.do("asbin %d" % self.have("tree", "comp"), "bits")
        elif k == "frombin":
            self.do("frombin %d" % self.have("bits"), "tree")
        elif k == "tobytes":
            self.do("tobytes %d" % self.have("comp"), "bytes")
        elif k == "frombytes":
            self.do("frombytes %d" % self.have("bytes"), "comp")
        elif self.ty in INTS:
            self.do("lbytes " + r.choice(self.al), "letters")


def shared(g, full, small=False):
    """What is made before they start is used by all threads, with calls of their own"""
    for ty in (["u8", "u64", "string"] if small else ALL):
        for _ in range(2 if small else 16 if full else 4):
            al = g.alphabet(ty, 3 if small else g.rng.choice([1, 2, 5, 12, 30]))
            base = Calls(g, ty, al)
            ws = g.weights(len(al), zero=False)
            base.do("build %s %s" % (g.via(ty, ws), g.pairs(al, ws)), "tree")
            base.do("comp " + " ".join(g.shuffled(al + al[:2])), "comp")
            if not small:
                base.do("compt 1 " + base.words(), "comp")
            if ty in BYTES and ty != "unit":
                base.do("asbin 1", "bits")
                base.do("tobytes 2", "bytes")
            lines = list(base.lines)
            for _ in range(g.rng.choice([2, 3] if small else [2, 3, 8])):
                t = Calls(g, ty, al, base.kinds)
                if small:
                    t.words = lambda n=None: " ".join(g.sequence(al, 4))
                for _ in range(2 if small else g.rng.choice([6, 12])):
                    t.any()
                if g.rng.random() < .3:
                    # a letter that no tree has
                    lack = [l for l in g.alphabet(ty, len(al) + 1) if l not in al]
                    if lack:
                        t.do("compt 1 %s %s %s" % (al[0], lack[0], al[0]), "none")
                lines += ["thread"] + t.lines
            g.add("small" if small else "shared", ty, lines)


def c25(g, full):
    vec = []
    for w, nl, n in [(2, 2, 2), (3, 2, 2)] + ([(2, 3, 3)] if full else []):
        v = vlib.vectors("Sharing", dict(Design="own", Workers=w, NL=nl, MaxLen=n))
        vec += g.rng.sample(v, min(len(v), 1500 if full else 120))
    for v in vec:
        trees = sorted({"".join(map(str, x["tree"])) for x in v})
        lines = [l for k, t in enumerate(trees) for l in ("bits 0 " + t, "frombin %d" % (2 * k + 1))]
        for x in v:
            t = 2 * trees.index("".join(map(str, x["tree"]))) + 2
            lines.append("thread")
            for r in range(6):
                lines += ["compt %d %s" % (t, " ".join("%02x" % l for l in x["src"])), "decomp %d" % (2 * len(trees) + 1 + 2 * r)]
        g.add("mc", g.rng.choice(["u8", "i8", "fal"]), lines)
    shared(g, full)
    # long enough for every thread to be at it while the others are
    for _ in range(12 if full else 4):
        ty = g.rng.choice(["u8", "u32", "char"])
        al = g.alphabet(ty, g.rng.choice([2, 9, 40]))
        lines = []
        for _ in range(2):
            lines.append("build list " + g.pairs(al, g.weights(len(al), zero=False)))
        for k in range(g.rng.choice([2, 4, 8])):
            lines.append("thread")
            for t in g.rng.choice([[1, 1], [1, 2], [0, 2]]):
                lines.append("big %d %d %d %s %s" % (t, g.rng.getrandbits(60), 30001 + g.rng.randrange(9), g.rng.choice(["flat", "skew", "runs"]), " ".join(al)))
        g.add("long", ty, lines)
    for _ in range(60 if full else 12):
        lines = ["new 1", "from 2 " + hx(slice_of(g, 50)), "from 3 " + hx(slice_of(g, 300))]
        for _ in range(g.rng.choice([2, 4, 8])):
            r = g.rng
            lines.append("thread")
            for _ in range(6):
                d, a, b = (r.randint(1, 3) for _ in range(3))
                s = hx(slice_of(g, r.choice([12, 100, 2000])))
                lines.append(r.choice(["from %d %s" % (d, s), "threaded %d %s %d" % (d, s, r.choice([2, 3, 12])), "add %d %d %d" % (d, a, b),
                                       "addassign %d %d" % (d, b), "set %d %d %d" % (d, r.getrandbits(8), r.choice([0, 5, 1 << 40])), "eq %d %d" % (a, b)]))
        g.add("weights", "weights", lines)
    for ty in ALL:
        for _ in range(6 if full else 2):
            h = Hand(g, ty, 9)
            n = max(1, len(h.al) - 1)
            shape = random_shape(g.rng, n)
            t = h.do("tree %d" % h.make(shape, h.al))
            h.codes(t, shape)
            h.do("clone %d" % t)
            regs, lines = h.regs, list(h.lines)
            for _ in range(g.rng.choice([2, 4])):
                h.lines, h.regs = [], regs
                words = lambda: " ".join(g.rng.choice(h.al[:n]) for _ in range(20))
                for _ in range(2):
                    h.do("use %d %s" % (t, words()), 0)
                    leaves, joints = paths_of(shape)
                    p = g.rng.choice(joints or leaves)
                    if joints and g.rng.random() < .7:
                        m = h.do("leaf %s 5" % h.al[-1])
                        h.do("kids %d %s %d %d" % (t, pathword(p), m, m), 0)
                    else:
                        h.do("code %d %s 0110" % (t, pathword(p)), 0)
                    c = h.do("clone %d" % (t + 1))
                    h.do("use %d %s" % (c, words()), 0)
                    h.do("cmp %d %d" % (c, t), 0)
                lines += ["thread"] + h.lines
            g.add("hand", ty, lines)


def sharing(ck):
    """C25: threads that share what was made before them; whole sessions, one of
    every kind, at the same time; and, in Miri, threads that take turns at any
    instruction"""
    full = not ck.quick
    ck.model("Sharing", dict(Design="own", Workers=2, NL=2, MaxLen=2), ["Alone"], ["Terminates"])
    ck.model("Sharing", dict(Design="locked", Workers=2, NL=2, MaxLen=2), ["Alone", "OneHolds"], ["Terminates"])
    ck.model("Sharing", dict(Design="own", Workers=2 if ck.quick else 3, NL=3 if ck.quick else 2, MaxLen=3 if ck.quick else 2), ["Alone"])
    for d in ("steps", "memory"):
        ck.breaks("Sharing", dict(Design=d, Workers=2, NL=2, MaxLen=2), "Alone")
    rec, why = vlib.build_sharing()
    if not rec:
        ck.violation("Sharing", "types", {"ev": 0, "why": [why]}, json.dumps({"ev": [], "build": why}), ["types", "", []])
        return
    g = Gen(ck.rng)
    c25(g, full)
    ck.say("%d scenarios of threads" % len(g.cases))
    lines, cases = vlib.by_thread(vlib.record(rec, g.cases, vlib.scratch()), g.cases)
    mods = {"TraceLib": [], "TraceBranch": [], "TraceWeights": []}

    def put(lines, cases):
        for l, c in zip(lines, cases):
            mods["TraceWeights" if c[1] == "weights" else "TraceBranch" if any(x.startswith("any ") for x in c[2][:1]) else "TraceLib"].append((l, c))
    put(lines, cases)
    # sessions of all kinds, eight at a time
    h = Gen(ck.rng)
    for p in ("C01", "C02", "C04", "C05", "C06", "C07", "C08", "C10", "C19", "C20", "C21"):
        o = Gen(ck.rng)
        GEN[p](o, False)
        some = [c for c in o.cases if sum(map(len, c[2])) < 1500]
        h.cases += [(p + "-" + c[0], c[1], c[2]) for c in ck.rng.sample(some, min(len(some), 600 if full else 90))]
    ck.rng.shuffle(h.cases)
    # one thread's hang holds up the others
    put(vlib.record(rec, h.cases, vlib.scratch(), env={"REC_TOGETHER": "8"}), h.cases)
    batches = []
    for seed in range(64 if full else 16):
        m = Gen(ck.rng)
        shared(m, False, small=True)
        some = ck.rng.sample(m.cases, 2)
        batches.append((seed + 1000 * ck.seed, ck.rng.choice(["0.01", "0.1", "0.3", "0.7"]), [("miri%d-%s" % (seed, c[0]), c[1], c[2]) for c in some]))
    lines, skipped = vlib.record_miri(batches, vlib.scratch(), features=["share"])
    if skipped:
        ck.assumptions.append("not run in Miri: %s" % "; ".join(skipped)[:600])
    by = {c[0]: c for b in batches for c in b[2]}
    lines, cases = vlib.by_thread(lines, [by[json.loads(l)["id"]] for l in lines])
    ck.say("%d sessions in Miri (%d batches not run there)" % (len(lines), len(skipped)))
    put(lines, cases)
    for mod, got in mods.items():
        for l, _ in got[:: max(1, len(got) // 4)]:
            ck.sample(l.decode(errors="replace"))
        ck.judge(mod, [l for l, _ in got], {c[0]: list(c) for _, c in got})


GEN = dict(C19=c19, C20=c20, C21=c21, C01=c01, C02=trees, C03=trees, C04=c04, C05=c05, C06=c06, C07=c07, C08=c08, C09=c09, C10=c10)

MODELS = {
    "C19": lambda q: [("Branches", dict(Letters="{5, 6}", MaxOps=4 if q else 5, MaxNodes=7), ["Shape", "Agree", "Found"], [])],
    "C20": lambda q: [("Decoder", dict(W=3, NL=2, MaxLeaves=3, MaxLen=2), ["Consumed", "DecodeAgrees", "CodesOnly"], ["Terminates"]),
                      ("Decoder", dict(W=2, NL=3, MaxLeaves=4, MaxLen=2 if q else 3), ["Consumed", "DecodeAgrees", "CodesOnly"], [])],
    "C21": lambda q: [("Letters", dict(W=w, N=n), ["Stands", "Sign"], ["Following"]) for w, n in ([(8, 1), (3, 3), (1, 8)] if q else [(8, 1), (3, 3), (1, 9), (2, 4)])],
    "C01": lambda q: [("Codec", dict(W=3, NL=3, MaxLen=4 if q else 6), ["RoundTrip", "DecodeAgrees", "Packed"], ["Terminates"] if q else [])],
    "C02": lambda q: [("HuffBuild", dict(MaxLetters=5 if q else 6, MaxWeight=4), ["Sharing", "CompletePrefixCode"], ["Terminates"])],
    "C03": lambda q: [("HuffBuild", dict(MaxLetters=5 if q else 6, MaxWeight=4), ["Sharing", "Optimal", "HuffCostIsLeast", "CodeCostIsCost"], [])],
    "C04": lambda q: [("TreeBin", dict(Size=s, W=w, MaxBits=13 if q else 16, LastInvalid=inv), ["AcceptsEncodings", "TreeOfEncoding", "NoPrefix", "ParseAgrees"], [])
                      for s, w, inv in ([(0, 1, False), (1, 2, False)] if q else [(0, 1, False), (1, 1, False), (1, 2, False), (2, 1, False)])],
    "C05": lambda q: [("TreeBin", dict(Size=s, W=w, MaxBits=13 if q else 16, LastInvalid=inv), ["AcceptsEncodings", "TreeOfEncoding", "NoPrefix", "ParseAgrees"], [])
                      for s, w, inv in [(0, 1, False), (1, 1, False), (1, 2, True), (2, 1, True)]],
    "C06": lambda q: [("Container", dict(MaxLen=8 if q else 9), ["ParseAgrees", "WriteReads"], []),
                      ("Codec", dict(W=3, NL=3, MaxLen=4 if q else 5), ["Packed"], [])],
    "C07": lambda q: [("Container", dict(MaxLen=9 if q else 10), ["ParseAgrees", "WriteReads", "Truncated"], [])],
    "C08": lambda q: [("ByteCounts", dict(Bytes=3, Regs=2, MaxOps=2 if q else 3, Counted=2, MaxCount=1), ["Yields", "EntriesAgree"], [])],
    "C09": lambda q: [("ThreadCount", dict(Values="{0,1}", MaxLen=5 if q else 7, MaxThreads=4 if q else 5), ["Partition", "Exact"], ["Terminates"])],
    "C10": lambda q: [("Codec", dict(W=3, NL=3, MaxLen=4 if q else 5), ["ReportsFirst"], ["Terminates"])],
}


def run(ck):
    if ck.prop == "C25":
        return sharing(ck)
    rec = vlib.build_recorder()
    for m in MODELS[ck.prop](ck.quick):
        ck.model(*m)
    g = Gen(ck.rng)
    GEN[ck.prop](g, not ck.quick)
    ck.say("%d scenarios" % len(g.cases))
    lines = vlib.record(rec, g.cases, vlib.scratch())
    ck.say("recorded, %d kB" % (sum(map(len, lines)) // 1024))
    if ck.prop == "C09":
        more, cases = schedules(ck, rec)
        lines += more
        g.cases += cases
    module = {"C08": "TraceWeights", "C09": "TraceWeights", "C19": "TraceBranch"}.get(ck.prop, "TraceLib")
    for k in range(0, len(g.cases), max(1, len(g.cases) // 8)):
        ck.sample(lines[min(k, len(lines) - 1)].decode(errors="replace"))
    # the longest first, so that all others are judged meanwhile
    ck.judge(module, sorted(lines, key=len, reverse=True), {c[0]: list(c) for c in g.cases})
