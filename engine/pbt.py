"""The property engine for harnesses written in Python: same choice sequences, command line and files as pbt.cc.

A harness registers properties with @prop(name, weight) and ends with pbt.main(init).
"""
import atexit, hashlib, json, mmap, os, random, shutil, signal, struct, sys, tempfile, time

MAXREC = 1 << 20
HEAD = 24 + 64 + 64 + 4096
MASK = (1 << 64) - 1


class Discard(Exception):
    pass


class Failure(Exception):
    def __init__(self, tag, msg):
        Exception.__init__(self, msg)
        self.tag, self.msg = tag, msg


def fail(tag, msg):
    raise Failure(tag, msg)


def check(cond, tag, msg):
    if not cond:
        raise Failure(tag, msg() if callable(msg) else msg)


class Shared:
    """What the case under way is, where the driver can read it after a crash."""

    def __init__(self, path=None):
        n = HEAD + 8 * MAXREC
        if path:
            self.f = open(path, "w+b")
            self.f.truncate(n)
            self.m = mmap.mmap(self.f.fileno(), n)
        else:
            self.m = mmap.mmap(-1, n)

    def u64(self, off, v):
        struct.pack_into("<Q", self.m, off, v & MASK)

    def get(self, off):
        return struct.unpack_from("<Q", self.m, off)[0]

    def text(self, off, size, s):
        b = s.encode("utf8", "replace")[:size - 1]
        self.m[off:off + size] = b + b"\0" * (size - len(b))

    def read(self, off, size):
        return self.m[off:off + size].split(b"\0")[0].decode("utf8", "replace")

    def choices(self):
        n = min(self.get(8), MAXREC)
        return list(struct.unpack_from("<%dQ" % n, self.m, HEAD))


SHARED = None


class Source:
    def __init__(self, seed=None, choices=None):
        self.rng = random.Random(seed) if choices is None else None
        self.given = choices
        self.pos = 0
        self.rec = []

    def draw(self, n):
        """A value in [0, n); any 64-bit value for n = 0. Smaller is simpler."""
        if self.rng is not None:
            v = self.rng.getrandbits(64) if n == 0 else self.rng.randrange(n)
        else:
            v = self.given[self.pos] if self.pos < len(self.given) else 0
            if n != 0 and v >= n:
                v = n - 1
        self.pos += 1
        if len(self.rec) < MAXREC:
            self.rec.append(v)
            if SHARED:
                SHARED.u64(HEAD + 8 * (len(self.rec) - 1), v)
                SHARED.u64(8, len(self.rec))
        return v

    def range(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def chance(self, num, den):
        return self.draw(den) >= den - num

    def pick(self, seq):
        return seq[self.draw(len(seq))]

    def weighted(self, w):
        d = self.draw(sum(w))
        for i, x in enumerate(w):
            if d < x:
                return i
            d -= x
        return 0

    def length(self, lo, hi):
        if hi <= lo:
            return lo
        k = self.weighted([5, 3, 2])
        if k == 0:
            return self.range(lo, min(hi, lo + 6))
        if k == 1:
            return self.range(lo, min(hi, lo + (hi - lo) // 4 + 1))
        return self.range(lo, hi)


class Ctx:
    def __init__(self, describing, printing=False):
        self.describing, self.printing = describing, printing
        self.labels, self.is_nontrivial, self.text = set(), False, ""

    def label(self, l):
        self.labels.add(l)

    def nontrivial(self, cond=True):
        self.is_nontrivial = self.is_nontrivial or bool(cond)

    def describe(self, s):
        if self.describing:
            s = s() if callable(s) else s
            self.text += s
            if self.printing:
                sys.stdout.write(s)
                sys.stdout.flush()


PROPS, KNOWN = [], {}


def prop(name, weight=1, limit=40, scheduled=False):
    def add(fn):
        PROPS.append((name, weight, limit, scheduled, fn))
        return fn
    return add


def known(key):
    def add(fn):
        KNOWN[key] = fn
        return fn
    return add


_scratch = [None, 0]


def scratch():
    if _scratch[0] is None or _scratch[1] != os.getpid():
        _scratch[0] = tempfile.mkdtemp(prefix="gbdt-pbt-", dir=os.environ.get("PBT_SCRATCH", "/tmp"))
        _scratch[1] = os.getpid()
        atexit.register(clean_scratch)
    return _scratch[0]


def clean_scratch():
    if _scratch[0] and _scratch[1] == os.getpid() and "/gbdt-pbt-" in _scratch[0]:
        shutil.rmtree(_scratch[0], ignore_errors=True)


_fresh = [0]


def fresh_path(stem):
    _fresh[0] += 1
    return os.path.join(scratch(), stem + str(_fresh[0]))


def _number(*parts):
    return int.from_bytes(hashlib.blake2b(repr(parts).encode(), digest_size=8).digest(), "little")


def run_case(p, src, ctx, scale=1):
    """'pass', 'discard' or (tag, message)."""
    name, _, limit, _, fn = p
    if SHARED:
        SHARED.u64(8, 0)
        SHARED.u64(16, 0)
        SHARED.text(24, 64, name)
    signal.setitimer(signal.ITIMER_REAL, max(1, limit * scale))
    out = "pass"
    try:
        fn(src, ctx)
    except Discard:
        out = "discard"
    except Failure as f:
        out = (f.tag, f.msg)
    except MemoryError:
        raise
    except Exception as e:
        import traceback
        where = traceback.extract_tb(e.__traceback__)[-1]
        out = ("exception", "unexpected %s: %s (%s:%s)" % (type(e).__name__, e, os.path.basename(where.filename), where.lineno))
    signal.setitimer(signal.ITIMER_REAL, 0)
    if SHARED:
        SHARED.u64(16, {"pass": 1, "discard": 2}.get(out if isinstance(out, str) else "", 3))
        if not isinstance(out, str):
            SHARED.text(88, 64, out[0])
            SHARED.text(152, 4096, out[1])
    return out


def find(name):
    for p in PROPS:
        if p[0] == name:
            return p
    sys.exit(3)


def cmd_run(o):
    global SHARED
    SHARED = Shared(o["rec"])
    seed, start, stride, end = (int(o[k]) for k in ("seed", "start", "stride", "end"))
    budget, t0 = float(o.get("time", 1e9)), time.monotonic()
    total = sum(p[1] for p in PROPS)
    stats, hashes, failed = {}, set(), None
    i = start
    while i < end and time.monotonic() - t0 <= budget:
        d = _number("prop", i) % total
        for p in PROPS:
            if d < p[1]:
                break
            d -= p[1]
        if "only" in o:
            p = find(o["only"])
        s = stats.setdefault(p[0], dict(evals=0, discards=0, nontrivial=0, labels={}, samples=[]))
        SHARED.u64(0, i)
        src = Source(seed=_number(p[0], seed, i))
        ctx = Ctx(len(s["samples"]) < 2)
        out = run_case(p, src, ctx)
        i += stride
        if out == "discard":
            s["discards"] += 1
            continue
        s["evals"] += 1
        for l in ctx.labels:
            s["labels"][l] = s["labels"].get(l, 0) + 1
        if ctx.is_nontrivial:
            hashes.add(_number(p[0], src.rec))
            s["nontrivial"] += 1
            if len(s["samples"]) < 2 and ctx.text:
                s["samples"].append(ctx.text if len(ctx.text) <= 600 else ctx.text[:600] + "...")
        if out != "pass":
            failed = dict(prop=p[0], tag=out[0], msg=out[1], choices=src.rec)
            break
    rc = 10 if failed else 0
    body = dict(next=i, rc=rc, props=stats)
    if failed:
        body["failed"] = failed
    with open(o["out"], "w") as f:
        json.dump(body, f)
    with open(o["out"] + ".hashes", "wb") as f:
        f.write(struct.pack("<%dQ" % len(hashes), *hashes))
    return rc


def read_choices(path):
    return [int(x) for x in open(path).read().split()]


def cmd_replay(o):
    global SHARED
    SHARED = Shared()
    p = find(o["prop"])
    out = run_case(p, Source(choices=read_choices(o["choices"])), Ctx("describe" in o, True), 1.5)
    if isinstance(out, tuple):
        print("FAILED %s [%s] %s" % (p[0], out[0], out[1]), flush=True)
        return 10
    print("DISCARDED" if out == "discard" else "HELD", flush=True)
    return 0


def attempt(p, choices, scale):
    """(failed, tag, choices used), in a child process."""
    SHARED.u64(8, 0)
    SHARED.u64(16, 0)
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        dn = os.open("/dev/null", os.O_WRONLY)
        os.dup2(dn, 1)
        os.dup2(dn, 2)
        code = 11
        try:
            code = 10 if isinstance(run_case(p, Source(choices=choices), Ctx(False), scale), tuple) else 0
            clean_scratch()
        finally:
            os._exit(code)
    st = os.waitpid(pid, 0)[1]
    used = SHARED.choices()
    if os.WIFEXITED(st):
        c = os.WEXITSTATUS(st)
        if c == 0:
            return False, "", used
        if c == 10:
            return True, SHARED.read(88, 64), used
        return True, "crash", used
    if os.WTERMSIG(st) == signal.SIGKILL:
        return False, "", used
    return True, "hang" if os.WTERMSIG(st) == signal.SIGALRM else "crash", used


def cmd_shrink(o):
    global SHARED
    SHARED = Shared()
    p = find(o["prop"])
    budget, t0 = float(o["time"]), time.monotonic()
    first = read_choices(o["choices"])
    best = list(first)
    for _ in range(20 if p[3] else 3):
        bad, tag, used = attempt(p, best, 1)
        if bad:
            break
    if not bad:
        print("NOT-REPRODUCED")
        return 0
    scale = 0.25 if tag == "hang" else 1
    if used and len(used) < len(best):
        best = used
    n = [0]
    state = dict(best=best)

    def left():
        return time.monotonic() - t0 < budget

    def accept(c):
        best = state["best"]
        if not left() or (len(c), c) >= (len(best), best):
            return False
        n[0] += 1
        for _ in range(3 if p[3] else 1):
            bad, t, used = attempt(p, c, scale)
            if bad and t == tag:
                state["best"] = used if used and tag not in ("crash", "hang") and (len(used), used) < (len(c), c) else c
                return True
        return False

    improved = True
    while improved and left():
        improved = False
        k = max(1, len(state["best"]) // 2)
        while k >= 1:
            i = 0
            while i + k <= len(state["best"]) and left():
                b = state["best"]
                if accept(b[:i] + b[i + k:]):
                    improved = True
                else:
                    i += k
            k //= 2
        i = 0
        while i < len(state["best"]) and left():
            for k in (1, 2, 3, 4, 6, 8):
                b = state["best"]
                if i < len(b) and b[i] and i + 1 + k <= len(b):
                    if accept(b[:i] + [b[i] - 1] + b[i + 1 + k:]):
                        improved = True
                        break
            i += 1
        i = 0
        while i < len(state["best"]) and left():
            lo = 0
            while i < len(state["best"]) and state["best"][i] > lo and left():
                b = list(state["best"])
                mid = lo + (b[i] - lo) // 2
                b[i] = mid
                if accept(b):
                    improved = True
                else:
                    lo = mid + 1
            i += 1
    with open(o["out"], "w") as f:
        f.write("\n".join(map(str, state["best"])) + "\n")
    print("SHRUNK from %d to %d choices in %d attempts; tag %s" % (len(first), len(state["best"]), n[0], tag))
    return 0


def main(init):
    cmd, o, a = sys.argv[1], {}, sys.argv[2:]
    while a:
        k = a.pop(0)[2:]
        o[k] = "1" if k == "describe" else a.pop(0)
    signal.signal(signal.SIGALRM, signal.SIG_DFL)  # a case beyond its limit ends the process, wherever it is stuck
    init()
    if cmd == "known":
        print("STILL-FAILS" if KNOWN[o["key"]]() else "NO-LONGER-FAILS")
        sys.exit(0)
    if cmd == "props":
        for p in PROPS:
            print(p[0], p[1], int(p[3]))
        sys.exit(0)
    rc = {"run": cmd_run, "replay": cmd_replay, "shrink": cmd_shrink}[cmd](o)
    sys.stdout.flush()
    clean_scratch()
    os._exit(rc)  # no interpreter teardown: a failure there would be blamed on the last case
