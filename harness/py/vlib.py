"""Shared by every check: building from /repo, recording, running TLC, evidence."""
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = max(2, min(8, os.cpu_count() or 2))


class ToolError(Exception):
    """Something of the machinery, not of the code under test, went wrong"""


def sh_env():
    env = dict(os.environ)
    env.setdefault("HOME", "/root")
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "/usr/bin:/bin")
    env.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
               CARGO_INCREMENTAL="0")
    env.setdefault("RUSTUP_TOOLCHAIN", "stable-x86_64-unknown-linux-gnu")
    return env


# ---------------------------------------------------------------- building

def tree_hash():
    """Identifies the contents of everything in /repo that is built"""
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target"))
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(os.path.relpath(p, REPO).encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(fh.read() + b"\0")
    return h.hexdigest()


def cargo(manifest, target, extra_env=None, features=()):
    """Build, never trusting timestamps where the sources differ from last time"""
    os.makedirs(target, exist_ok=True)
    stamp = os.path.join(target, "sources.sha256")
    now = tree_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != now:
        for p in glob.glob(os.path.join(target, "debug", ".fingerprint", "huff*")) + \
                glob.glob(os.path.join(target, "debug", ".fingerprint", "recorder*")) + \
                glob.glob(os.path.join(target, "debug", ".fingerprint", "kinds*")):
            shutil.rmtree(p, ignore_errors=True)
    env = sh_env()
    env.update(extra_env or {})
    r = subprocess.run(["cargo", "build", "--offline", "--manifest-path", manifest, "--target-dir", target] + ["--features=" + f for f in features],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        e = ToolError("build failed:\n" + r.stdout[-4000:])
        e.output = r.stdout
        raise e
    with open(stamp, "w") as f:
        f.write(now)


def build_recorder():
    cargo(os.path.join(VERIF, "harness", "recorder", "Cargo.toml"), os.path.join(BUILD, "rec"))
    return os.path.join(BUILD, "rec", "debug", "recorder")


def build_sharing():
    """... of which threads share what they are given; "" if what the library
    has cannot be shared. (Everything else of it builds: see build_recorder.)"""
    build_recorder()
    try:
        cargo(os.path.join(VERIF, "harness", "recorder", "Cargo.toml"), os.path.join(BUILD, "share"), features=["share"])
    except ToolError as e:
        why = re.findall(r"error\[E0277\]: `?([^\n]*cannot be (?:sent|shared) between threads safely)", e.output)
        if not why:
            raise
        return "", why[0]
    return os.path.join(BUILD, "share", "debug", "recorder"), ""


def build_huff():
    cargo(os.path.join(REPO, "huff", "Cargo.toml"), os.path.join(BUILD, "huff"),
          {"CARGO_PROFILE_DEV_OPT_LEVEL": "1", "CARGO_PROFILE_DEV_DEBUG": "0",
           "CARGO_PROFILE_DEV_OVERFLOW_CHECKS": "true"})
    return os.path.join(BUILD, "huff", "debug", "huff")


def build_kinds():
    """The same program, saying which kind of error it ended with"""
    cargo(os.path.join(VERIF, "harness", "kinds", "Cargo.toml"), os.path.join(BUILD, "kinds"))
    return os.path.join(BUILD, "kinds", "debug", "kinds")


def build_shim(name="shim"):
    src = os.path.join(VERIF, "harness", name + ".c")
    out = os.path.join(BUILD, name + ".so")
    os.makedirs(BUILD, exist_ok=True)
    tmp = out + ".%d" % os.getpid()
    r = subprocess.run(["gcc", "-O1", "-Wall", "-shared", "-fPIC", "-o", tmp, src, "-ldl"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("shim: " + r.stdout)
    os.replace(tmp, out)
    return out


# --------------------------------------------------------------- recording

def record(recorder, scenarios, workdir, timeout=120, env=None):
    """Run scenarios (list of (id, type, [lines])) through the recorder; returns
    the list of recorded sessions. One in which the process dies or hangs is
    recorded as far as known, with a final event that says so."""
    n = min(NPROC, max(1, len(scenarios) // 20))
    parts = [scenarios[k::n] for k in range(n)]
    files = []
    for k, part in enumerate(parts):
        p = os.path.join(workdir, "scn%d.txt" % k)
        with open(p, "w") as f:
            for (cid, ty, lines) in part:
                f.write("case %s %s\n" % (cid, ty))
                for l in lines:
                    f.write(l + "\n")
                f.write("end\n")
        out = os.path.join(workdir, "rec%d.ndjson" % k)
        open(out, "w").close()
        files.append((p, out))
    procs = [None] * n
    done = [0] * n
    started = [0.0] * n

    def start(k):
        procs[k] = subprocess.Popen([recorder, files[k][0], files[k][1], str(done[k])],
                                    stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=workdir,
                                    env=dict(os.environ, **(env or {})))
        started[k] = time.time()
    for k in range(n):
        start(k)
    busy = set(range(n))
    sizes = [(0, time.time())] * n
    hangs = 0
    while busy:
        time.sleep(0.02)
        for k in list(busy):
            rc = procs[k].poll()
            size = os.path.getsize(files[k][1])
            if size != sizes[k][0]:
                sizes[k] = (size, time.time())
            hung = rc is None and time.time() - max(sizes[k][1], started[k]) > (timeout if hangs == 0 else timeout / 6)
            if hung:
                procs[k].kill()
                procs[k].wait()
                rc = -9
            if rc is None:
                continue
            if rc == 0:
                busy.discard(k)
                continue
            err = procs[k].stderr.read().decode(errors="replace")
            lines = open(files[k][1], "rb").read().split(b"\n")
            if lines[-1] != b"":           # cut in the middle of a line
                lines = lines[:-1] + [b""]
            ndone = len(lines) - 1
            if rc == 101 and not hung:
                raise ToolError("recorder panicked outside the code under test: " + err[-500:])
            cid, ty, _ = parts[k][ndone]
            lines[-1] = json.dumps({"id": cid, "ty": ty, "sz": 0,
                                    "ev": [{"op": "died", "res": "hung" if hung else "rc %d" % rc}]}).encode()
            with open(files[k][1], "wb") as f:
                f.write(b"\n".join(lines) + b"\n")
            done[k] = ndone + 1
            hangs += hung
            if hangs > 8:          # enough is known
                busy.discard(k)
                continue
            sizes[k] = (os.path.getsize(files[k][1]), time.time())
            start(k)
    by_id = {}
    for p, out in files:
        with open(out, "rb") as f:
            for line in f:
                s = line.strip()
                if s:
                    cid = re.match(rb'\{"id": ?"([^"]*)"', s).group(1).decode()
                    by_id[cid] = s
        os.unlink(p)
        os.unlink(out)
    missing = [c[0] for c in scenarios if c[0] not in by_id]
    if missing and hangs <= 8:
        raise ToolError("not recorded: %s" % missing[:5])
    return [by_id[c[0]] for c in scenarios if c[0] in by_id]


def by_thread(lines, scenarios):
    """A session in which threads take part becomes one session for each of them"""
    out, cases = [], []
    for line, (cid, ty, calls) in zip(lines, scenarios):
        d = json.loads(line)
        assert d["id"] == cid
        last = d["ev"][-1] if d["ev"] else {}
        if "par" not in last:
            out.append(line)
            cases.append((cid, ty, calls))
            continue
        for k, ev in enumerate(last["par"]):
            d2 = dict(d, id="%s.%d" % (cid, k + 1), ev=d["ev"][:-1] + ev)
            out.append(json.dumps(d2).encode())
            cases.append((d2["id"], ty, calls))
    return out, cases


def record_miri(batches, workdir, timeout=240, features=()):
    """Run each batch (seed, preemption rate, scenarios) through the recorder in
    Miri, which decides by the seed when threads take turns, at any instruction.
    Gives the recorded sessions and what could not be run there and why."""
    manifest = os.path.join(VERIF, "harness", "recorder", "Cargo.toml")
    target = os.path.join(BUILD, "miri")
    cmd = ["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--manifest-path", manifest, "--target-dir", target] + ["--features=" + f for f in features] + ["--"]
    base = sh_env()
    base.pop("RUSTUP_TOOLCHAIN")

    def go(k, seed, rate, scenarios):
        p, out = os.path.join(workdir, "m%d.txt" % k), os.path.join(workdir, "m%d.ndjson" % k)
        with open(p, "w") as f:
            for (cid, ty, lines) in scenarios:
                f.write("case %s %s\n%s\nend\n" % (cid, ty, "\n".join(lines)))
        open(out, "w").close()
        env = dict(base, MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks "
                                   "-Zmiri-seed=%d -Zmiri-preemption-rate=%s" % (seed, rate))
        try:
            r = subprocess.run(cmd + [p, out], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout, start_new_session=True)
            rc, err = r.returncode, r.stderr.decode(errors="replace")
        except subprocess.TimeoutExpired:
            rc, err = -1, "no result in time"
        with open(out, "rb") as f:
            lines = f.read().split(b"\n")[:-1]
        os.unlink(p)
        os.unlink(out)
        if rc != 0:
            died = re.search(r"Data race detected|deadlock|the evaluated program (deadlocked|aborted)", err)
            if not died or len(lines) >= len(scenarios):
                return lines, "seed %d: %s" % (seed, " ".join(re.findall(r"error: .*", err)[:2]) or err[-300:])
            cid, ty, _ = scenarios[len(lines)]
            lines.append(json.dumps({"id": cid, "ty": ty, "sz": 0, "ev": [{"op": "died", "res": died.group(0)}]}).encode())
        return lines, None
    # the first builds it
    got = [go(0, *batches[0])]
    with ThreadPoolExecutor(NPROC) as ex:
        got += [f.result() for f in [ex.submit(go, k, *b) for k, b in enumerate(batches) if k]]
    return [l for ls, _ in got for l in ls], [why for _, why in got if why]


# ---------------------------------------------------------------- TLC

class TlcResult:
    pass


def tlc(module, consts=None, spec="Spec", invariants=(), properties=(), constraint=None, view=None,
        workers=NPROC, heap="6g", timeout=800, simulate=None, depth=None, seed=None, coverage=False,
        deadlock=False, cfg_extra="", workdir=None):
    own = workdir is None
    workdir = workdir or tempfile.mkdtemp(prefix="tlc", dir=scratch())
    cfg = ["SPECIFICATION " + spec] if spec else []
    for k, v in (consts or {}).items():
        if isinstance(v, str) and not v.startswith("<-") and not v.startswith("{"):
            v = '"%s"' % v
        if isinstance(v, bool):
            v = "TRUE" if v else "FALSE"
        cfg.append("CONSTANT %s %s" % (k, v if str(v).startswith("<-") else "= %s" % v))
    for i in invariants:
        cfg.append("INVARIANT " + i)
    for p in properties:
        cfg.append("PROPERTY " + p)
    if constraint:
        cfg.append("CONSTRAINT " + constraint)
    if view:
        cfg.append("VIEW " + view)
    cfg.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
    if cfg_extra:
        cfg.append(cfg_extra)
    cfgp = os.path.join(workdir, module + ".cfg")
    with open(cfgp, "w") as f:
        f.write("\n".join(cfg) + "\n")
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-Djava.io.tmpdir=" + workdir, "-cp", JARS, "tlc2.TLC",
           "-config", cfgp, "-metadir", os.path.join(workdir, "meta"), "-noGenerateSpecTE",
           "-workers", str(workers)]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate]
        if depth:
            cmd += ["-depth", str(depth)]
        if seed is not None:
            cmd += ["-seed", str(seed)]
    if coverage:
        cmd += ["-coverage", "1"]
    cmd.append(os.path.join(SPEC, module + ".tla"))
    t0 = time.time()
    outp = os.path.join(workdir, "out.txt")
    with open(outp, "w") as f:
        p = subprocess.Popen(cmd, cwd=SPEC, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            raise ToolError("TLC on %s ran out of its %d s" % (module, timeout))
    r = TlcResult()
    r.out = open(outp, errors="replace").read()
    r.rc = rc
    r.wall = time.time() - t0
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", r.out)
    r.generated, r.distinct = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    m = re.search(r"The depth of the complete state graph search is (\d+)", r.out)
    r.depth = int(m.group(1)) if m else 0
    r.fails = []
    for m in re.finditer(r'^"FAIL (.*)"$', r.out, re.M):
        r.fails.append(json.loads(m.group(1).encode().decode("unicode_escape").encode("latin1").decode("utf8", "replace")))
    r.violated = rc in (12, 13) or "is violated" in r.out
    if rc not in (0, 12, 13):
        raise ToolError("TLC on %s ended with %d:\n%s" % (module, rc, r.out[r.out.find("Error:"):][:1500]))
    if own:
        shutil.rmtree(workdir, ignore_errors=True)
    return r


# ---------------------------------------------------------------- vectors

def vectors(module, consts, timeout=300):
    """What a model's Emit prints, in a fixed order"""
    r = tlc(module, consts, invariants=["Emit"], timeout=timeout)
    out = []
    for m in re.finditer(r'^"VEC (.*)"$', r.out, re.M):
        t = m.group(1).replace('\\"', '"')
        out.append(t.replace("<<", "[").replace(">>", "]"))
    return [json.loads(t) for t in sorted(set(out))]


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        base = os.path.join(BUILD, "run")
        os.makedirs(base, exist_ok=True)
        _scratch = tempfile.mkdtemp(prefix="r", dir=base)
    return _scratch


def cleanup():
    global _scratch
    if _scratch:
        shutil.rmtree(_scratch, ignore_errors=True)
        _scratch = None
