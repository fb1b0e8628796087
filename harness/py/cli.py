"""Runs huff in scratch directories and records what every run left behind."""
import hashlib, os, re, shutil, signal, stat, subprocess, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
import vlib
from vlib import ToolError

UID = 65534
TIMEOUT = 30
# memory far beyond what any block size may make the program take for small files
LIMITS = 'ulimit -c 0; ulimit -f 400000; ulimit -v 4194304; exec "$@"'

FILE, DIR, LINK, HARD, FIFO, SOCK = "file", "dir", "link", "hard", "fifo", "sock"


def codes(s):
    return list(os.fsencode(s))


TIME = r"(?m)^[0-9.]+ ?(ns|\u00b5s|us|ms|s)$"
ENV = {"PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8", "RUST_BACKTRACE": "0"}


def exit_of(rc, err):
    return "ok" if rc == 0 else "signal" if rc < 0 else "panic" if rc == 101 and b"panicked" in err else "fail"


def signal_to(p, sig):
    try:
        os.killpg(p.pid, sig)
    except ProcessLookupError:
        pass


def feed(p, pipes):
    """Writes into pipes what is to come out of them, once p reads"""
    while pipes and p.returncode is None:
        for path, data in pipes:
            try:
                fd = os.open(path, os.O_WRONLY | os.O_NONBLOCK)
            except OSError:
                continue
            os.write(fd, data[:4096])
            os.close(fd)
            pipes = [x for x in pipes if x[0] != path]
        time.sleep(.002)


def stopped_or_ended(p, patience):
    """Waits for it"""
    end = time.time() + patience
    while time.time() < end:
        st = os.waitid(os.P_PID, p.pid, os.WSTOPPED | os.WEXITED | os.WNOHANG | os.WNOWAIT)
        if st is not None:
            return
        time.sleep(.001)
    raise subprocess.TimeoutExpired("huff", patience)


class Bench:
    """The program, out of reach of everything but its scratch directories"""

    def __init__(self, kinds=False):
        self.base = os.path.realpath(tempfile.mkdtemp(prefix="hv"))
        os.chmod(self.base, 0o755)
        self.huff = os.path.join(self.base, "huff")
        shutil.copy(vlib.build_kinds() if kinds else vlib.build_huff(), self.huff)
        self.hung = 0
        self.huge, self.kinds = False, kinds
        self.tmp = os.path.join(self.base, "tmp")
        os.mkdir(self.tmp)
        os.chmod(self.tmp, 0o777)
        self.shim = os.path.join(self.base, "shim.so")
        shutil.copy(vlib.build_shim(), self.shim)
        os.chmod(self.huff, 0o755)
        os.chmod(self.shim, 0o755)
        self.as_user = os.geteuid() == 0
        if self.as_user:
            try:
                subprocess.run(["/bin/true"], user=UID, group=UID, extra_groups=[], check=True)
            except (OSError, subprocess.SubprocessError):
                self.as_user = False
        self.n = 0
        self.lock = threading.Lock()

    def close(self):
        shutil.rmtree(self.base, ignore_errors=True)

    def patience(self):
        """Seconds to wait for a run. Less once several did not end"""
        return 600 if self.huge else TIMEOUT if self.hung < 8 else 1

    def room(self):
        with self.lock:
            self.n += 1
            p = os.path.join(self.base, "s%d" % self.n)
        os.mkdir(p)
        if self.as_user:
            os.chown(p, UID, UID)
        return p


LONG = 100_000
MOST = 64 << 20
HEAD = 2048
_known = {}


def value(data):
    """The contents of a file as they are recorded: long ones (see TraceCli.tla)
    by their length, a hash, how often they hold each byte, and their beginning"""
    if len(data) <= LONG:
        return list(data)
    h = hashlib.sha256(data).digest()
    if h not in _known:
        v = [-1] + limbs(len(data)) + [int.from_bytes(h[k:k + 2], "big") for k in range(0, 32, 2)]
        for b in range(256):
            v += limbs(data.count(bytes([b])))
        _known[h] = v + list(data[:HEAD])
    return _known[h]


class Huge:
    """The contents of a file of zeros with something at its end"""

    def __init__(self, size, tail):
        self.size, self.tail = size, tail

    def write(self, f):
        f.truncate(self.size)
        f.seek(self.size - len(self.tail))
        f.write(self.tail)

    def hex(self):
        return "%d zeros, their end replaced by %s" % (self.size, self.tail.hex())


def value_of(f):
    """The same of an open file, without having it in memory"""
    n = os.fstat(f.fileno()).st_size
    if n <= MOST:
        return value(f.read())
    h, counts, head, zeros = hashlib.sha256(), [0] * 256, f.read(HEAD), bytes(1 << 23)
    f.seek(0)
    while True:
        chunk = f.read(1 << 23)
        if not chunk:
            break
        h.update(chunk)
        if chunk == zeros:
            counts[0] += len(chunk)
        else:
            for b in set(chunk):
                counts[b] += chunk.count(bytes([b]))
    h = h.digest()
    return [-1] + limbs(n) + [int.from_bytes(h[k:k + 2], "big") for k in range(0, 32, 2)] + [x for c in counts for x in limbs(c)] + list(head)


def loc(path):
    """A location: its names, each as character codes"""
    return [codes(n) for n in path.split("/") if n]


class Session:
    """A directory with files in it, and runs of the program there"""

    def __init__(self, bench, sid, files, cwd="", of=()):
        self.bench, self.sid, self.files, self.cwd = bench, sid, files, cwd
        self.root = None
        self.events = []
        self.of = [[value(a), value(b)] for a, b in of]
        self.script = []
        self.reset()
        self.fs0 = self.snapshot()

    # -- the directory

    def own(self, p):
        if self.bench.as_user:
            os.chown(p, UID, UID, follow_symlinks=False)

    def reset(self):
        """A fresh copy of the directory as it was at the start, at the same place"""
        if self.root is None:
            self.root = self.bench.room()
        else:
            for n in os.listdir(self.root):
                p = os.path.join(self.root, n)
                if os.path.isdir(p) and not os.path.islink(p):
                    shutil.rmtree(p)
                else:
                    os.unlink(p)
        for path, what in self.files:
            p = os.path.join(self.root, path)
            kind = what[0]
            if kind == DIR:
                os.mkdir(p)
            elif kind == FILE:
                with open(p, "wb") as f:
                    if isinstance(what[1], Huge):
                        what[1].write(f)
                    else:
                        f.write(what[1])
            elif kind == FIFO:
                os.mkfifo(p)
            elif kind == SOCK:
                os.mknod(p, stat.S_IFSOCK | 0o666)
            elif kind == LINK:
                os.symlink(what[1].replace("@ROOT@", self.root), p)
            else:
                os.link(os.path.join(self.root, what[1]), p)
                continue
            self.own(p)
        self.inos = {}
        self.nino = 0

    def ino(self, st):
        key = (st.st_dev, st.st_ino)
        if key not in self.inos:
            self.nino += 1
            self.inos[key] = self.nino
        return self.inos[key]

    def snapshot(self):
        out = []
        up = ""
        for n in self.root.split("/")[1:-1]:
            up += "/" + n
            out.append({"p": loc(up), "k": "dir", "ino": 0, "data": [], "to": []})
        out.append({"p": [], "k": "dir", "ino": 0, "data": [], "to": []})
        stack = [self.root]
        while stack:
            p = stack.pop()
            st = os.lstat(p)
            e = {"p": loc(p), "k": "other", "ino": 0, "data": [], "to": []}
            if stat.S_ISDIR(st.st_mode):
                e["k"] = "dir"
                stack += [os.path.join(p, n) for n in sorted(os.listdir(p), reverse=True)]
            elif stat.S_ISREG(st.st_mode):
                e["k"] = "file"
                e["ino"] = self.ino(st)
                with open(p, "rb") as f:
                    e["data"] = value_of(f)
            elif stat.S_ISLNK(st.st_mode):
                e["k"] = "link"
                e["to"] = codes(os.readlink(p))
            out.append(e)
        return out

    # -- runs

    def argv(self, src, dst, d, n, r, t, b, style):
        sub = lambda s: s.replace("@ROOT@", self.root)
        args = []
        flags = [c for c, on in (("d", d), ("n", n), ("r", r), ("t", t)) if on]
        longs = {"d": "--decompress", "n": "--noask", "r": "--replace", "t": "--time"}
        if style == 1:
            args += [longs[c] for c in flags]
        elif style == 2 and flags:
            args.append("-" + "".join(flags))
        else:
            args += ["-" + c for c in flags]
        if b is not None:
            args += ["--block-size=" + b] if style == 1 else ["-b", b]
        paths = [sub(src)] + ([sub(dst)] if dst is not None else [])
        argv = (paths + args) if style == 2 else (args + paths)
        return sub, argv

    def run(self, src, dst=None, d=False, n=False, r=False, t=False, b=None, answer=None,
            env=None, log=False, fault=False, must=True, fresh=False, killed=False, style=0, mem=False, full=False, modes=(), stdin=""):
        """Runs the program once and records it. Returns its operations if log.
        full: nothing can be written to its standard output; modes: permissions to set before;
        stdin: what else than answers its standard input is, "closed" or "dir" """
        kw = dict(src=src, dst=dst, d=d, n=n, r=r, t=t, b=b, answer=answer if not isinstance(answer, bytes) else answer.decode("latin1"),
                  env=env, log=log, fault=fault, must=must, fresh=fresh, killed=killed, style=style, mem=mem, full=full, modes=modes, stdin=stdin)
        if fresh:
            self.reset()
            self.snapshot()     # numbers the files as at the start
        sub, argv = self.argv(src, dst, d, n, r, t, b, style)
        e = dict(ENV, HOME=self.root, TMPDIR=self.bench.tmp)
        logp = None
        if mem:
            env = dict(env or {}, HSHIM_MEM="1")
        if env or log:
            e["LD_PRELOAD"] = self.bench.shim
            e["HSHIM_ROOT"] = self.root
            logp = self.root + ".log"
            e["HSHIM_LOG"] = logp
            open(logp, "w").close()
            os.chmod(logp, 0o666)
            e.update(env or {})
        for path, mode in modes:
            os.chmod(os.path.join(self.root, path), mode)
        p = self.start(argv, e, stdin or subprocess.PIPE, full)
        pipes = [(os.path.join(self.root, path), what[1]) for path, what in self.files if what[0] == FIFO]
        if pipes:
            threading.Thread(target=feed, args=(p, pipes), daemon=True).start()
        try:
            out, err = p.communicate((answer or "").encode() if not isinstance(answer, bytes) else answer, timeout=self.bench.patience())
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            self.bench.hung += 1
            self.events.append({"op": "hung", "args": argv})
            self.script.append({"kw": kw, "argv": argv})
            return []
        rc = p.returncode
        for path, mode in modes:
            if os.path.exists(os.path.join(self.root, path)):
                os.chmod(os.path.join(self.root, path), 0o755)
        ops = []
        if logp:
            for line in open(logp, errors="replace"):
                w = line.rstrip("\n").split(" ", 4)
                ops.append((int(w[0]), w[1], int(w[2]), int(w[3]), w[4]))
            os.unlink(logp)
        a = self.meant(sub, kw)
        if answer is None:
            answer = ""
        ans = list(answer if isinstance(answer, bytes) else answer.encode())[:40]
        self.script.append({"kw": kw, "argv": argv, "answer": ans, "env": env or {}, "fresh": fresh, "rc": rc,
                            "stderr": err.decode(errors="replace")[:300]})
        if killed:
            # it may also have come to its end before
            self.events.append({"op": "killed", "args": a, "answer": ans, "after": self.snapshot()})
            return ops
        text = (out or b"").decode(errors="replace")
        if t and rc == 0:
            text = re.sub(TIME, "", text)
        kind = re.findall(rb"(?m)^KIND (\w+) (.*)$", err)
        reads = [o[2] for o in ops if o[1] == "read"]
        peak = [o[2] for o in ops if o[1] == "mem"]
        self.events.append({
            "op": "run", "args": a, "answer": ans,
            "exit": exit_of(rc, err),
            "msg": bool(err.strip()), "kind": kind[-1][0].decode() if kind else "", "says": bool(kind) and len(kind[-1][1]) > 2, "asked": bool(text.strip()),
            "fault": fault, "must": must, "fresh": fresh, "after": self.snapshot(),
            "maxread": limbs(max(reads)) if reads and log else [],
            "mem": limbs(peak[-1] * 1024) if peak else []})
        return ops

    def meant(self, sub, k):
        return {"d": k["d"], "n": k["n"], "r": k["r"], "b": codes(k["b"] if k["b"] is not None else "2G"), "src": codes(sub(k["src"])),
                "dst": codes(sub(k["dst"])) if k["dst"] is not None else []}

    def start(self, argv, e, stdin=subprocess.PIPE, full=False):
        user = dict(user=UID, group=UID, extra_groups=[]) if self.bench.as_user else {}
        opened = []

        def special(path, flags):
            opened.append(os.open(path, flags))
            return opened[-1]
        try:
            return subprocess.Popen(["/bin/sh", "-c", (LIMITS.replace("400000", "unlimited") if self.bench.huge else LIMITS) + (" <&-" if stdin == "closed" else ""), "sh", self.bench.huff] + argv,
                                    cwd=os.path.join(self.root, self.cwd), env=e,
                                    stdin=special(self.root, os.O_RDONLY) if stdin == "dir" else subprocess.PIPE if stdin == "closed" else stdin,
                                    stdout=special("/dev/full", os.O_WRONLY) if full else subprocess.PIPE,
                                    stderr=subprocess.PIPE, start_new_session=True, **user)
        except OSError as x:
            raise ToolError("cannot start huff: %s" % x)
        finally:
            for fd in opened:
                os.close(fd)

    def raw(self, words, answer=""):
        """A command line, word by word, in the directory as it was at the start"""
        self.reset()
        self.snapshot()
        p = self.start(words, dict(ENV, HOME=self.root, TMPDIR=self.bench.tmp))
        self.script.append({"raw": words, "answer": answer})
        try:
            out, err = p.communicate(answer.encode(), timeout=self.bench.patience())
        except subprocess.TimeoutExpired:
            signal_to(p, signal.SIGKILL)
            p.communicate()
            self.bench.hung += 1
            self.events.append({"op": "hung", "args": []})
            return
        text = out.decode(errors="replace")
        rest = re.sub(TIME, "", text)
        self.events.append({"op": "raw", "argv": [codes(w) for w in words], "args": {}, "answer": list(answer.encode()), "exit": exit_of(p.returncode, err),
                            "msg": bool(err.strip()), "asked": bool(rest.strip()), "timed": rest != text, "after": self.snapshot(),
                            "maxread": [], "mem": []})

    def together(self, runs, stops):
        """Several runs at once. Each goes until it is about to do the operation stops
        names for it (0: to its end), then the next one starts; then they go on, in order."""
        self.reset()
        self.snapshot()
        procs, recs = [], []
        try:
            for kw, stop in zip(runs, stops):
                k = dict(dict(dst=None, d=False, n=False, r=False, t=False, b=None, style=0), **kw)
                sub, argv = self.argv(**k)
                recs.append({"args": self.meant(sub, k), "answer": []})
                procs.append(self.start(argv, dict(ENV, HOME=self.root, TMPDIR=self.bench.tmp, LD_PRELOAD=self.bench.shim,
                                                   HSHIM_ROOT=self.root, HSHIM_STOP=str(stop)), subprocess.DEVNULL))
                stopped_or_ended(procs[-1], self.bench.patience())
            for p, r in zip(procs, recs):
                signal_to(p, signal.SIGCONT)
                out, err = p.communicate(timeout=self.bench.patience())
                r.update(exit=exit_of(p.returncode, err), msg=bool(err.strip()), asked=bool(out.strip()))
            self.events.append({"op": "together", "runs": recs, "after": self.snapshot()})
        except subprocess.TimeoutExpired:
            for p in procs:
                if p.returncode is None:
                    signal_to(p, signal.SIGKILL)
                    p.communicate()
            self.bench.hung += 1
            self.events.append({"op": "hung", "args": []})
        self.script.append({"together": runs, "stops": stops})

    def lib(self, res, data, letters):
        """What the library restored from data, as bytes"""
        self.events.append({"op": "lib", "res": res, "bytes": value(data), "letters": value(letters)})

    def data(self, path):
        with open(os.path.join(self.root, path), "rb") as f:
            return f.read()

    def record(self):
        doc = {"id": self.sid, "cwd": loc(os.path.join(self.root, self.cwd)), "fs0": self.fs0, "of": self.of, "ev": self.events}
        return doc

    def close(self):
        if self.root:
            shutil.rmtree(self.root, ignore_errors=True)


def limbs(v):
    out = []
    for _ in range(6):
        out.append(v % 32768)
        v //= 32768
    return out


def in_parallel(jobs):
    """jobs: functions without arguments; their results in order"""
    with ThreadPoolExecutor(vlib.NPROC) as ex:
        return [f.result() for f in [ex.submit(j) for j in jobs]]
