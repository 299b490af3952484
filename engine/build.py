"""Builds the code under test (from /repo's working tree) and the harnesses, offline.

Objects go to /verif/build/<flavour>-<hash of every source and of this script>, so a changed source
is always rebuilt, whatever its timestamp, and a tree that was built before is reused.
"""
import fcntl, hashlib, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
ENGINE = os.path.join(VERIF, "engine")
BUILD = os.path.join(VERIF, "build")

COMMON = "-std=gnu++14 -w -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS"
FLAVOURS = {
    "opt": ("g++", COMMON + " -O1", ""),
    "asan": ("g++", COMMON + " -O1 -fsanitize=address,undefined -fno-sanitize-recover=undefined -g1",
             "-fsanitize=address,undefined"),
    "tsan": ("g++", COMMON + " -O1 -fsanitize=thread -g1", "-fsanitize=thread"),
    "fuzz": ("clang++", COMMON + " -O1 -fsanitize=address,undefined,fuzzer-no-link -fno-sanitize-recover=undefined"
             " -fno-sanitize=vptr,function -g1 -DPBT_LIBFUZZER", "-fsanitize=fuzzer,address,undefined"),
    "py": ("g++", COMMON + " -O1 -fPIC -fvisibility=hidden", ""),
    "pyasan": ("g++", COMMON + " -O1 -fPIC -fvisibility=hidden -fsanitize=address,undefined -fno-sanitize=vptr"
               " -fno-sanitize-recover=undefined -g1", "-fsanitize=address,undefined"),
}
LIBS = "-lprotobuf -lgflags -lglog -lfmt -lpthread"


def sources():
    lib, py = [], []
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            if not f.endswith(".cc") or f.endswith("_test.cc"):
                continue
            if root == os.path.join(REPO, "src", "python"):
                py.append(p)
            elif p != os.path.join(REPO, "src", "main.cc"):
                lib.append(p)
    protos = sorted(p for p in os.listdir(os.path.join(REPO, "src", "proto")) if p.endswith(".proto"))
    return lib, py, protos


def tree_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "src"), ENGINE]
    for r in roots:
        for root, dirs, files in os.walk(r):
            dirs[:] = sorted(d for d in dirs if d != "__pycache__")
            for f in sorted(files):
                if not f.endswith((".cc", ".h", ".proto", ".py")) or f.endswith("_test.cc"):
                    continue
                if f.endswith(".py") and f != "build.py":
                    continue
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, r).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:16]


COMPAT_OLD = "  StatusCode code() const { return error_code_; }\n"
CODES = ("OK=kOk CANCELLED=kCancelled UNKNOWN=kUnknown INVALID_ARGUMENT=kInvalidArgument "
         "DEADLINE_EXCEEDED=kDeadlineExceeded NOT_FOUND=kNotFound ALREADY_EXISTS=kAlreadyExists "
         "PERMISSION_DENIED=kPermissionDenied UNAUTHENTICATED=kUnauthenticated "
         "RESOURCE_EXHAUSTED=kResourceExhausted FAILED_PRECONDITION=kFailedPrecondition "
         "ABORTED=kAborted OUT_OF_RANGE=kOutOfRange UNIMPLEMENTED=kUnimplemented "
         "INTERNAL=kInternal UNAVAILABLE=kUnavailable DATA_LOSS=kDataLoss").split()


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text:
        return
    with open(path, "w") as f:
        f.write(text)


def make_compat(d):
    """The protobuf status.h of the tree's era, as /opt/vp/cmake makes it."""
    s = open("/usr/include/google/protobuf/stubs/status.h").read()
    s = s.replace(COMPAT_OLD, COMPAT_OLD + "  StatusCode error_code() const { return error_code_; }\n"
                  "  static const Status OK;\n")
    codes = "namespace error {\n" + "".join(
        "constexpr StatusCode %s = StatusCode::%s;\n" % tuple(c.split("=")) for c in CODES)
    codes += "}  // namespace error\n\n}  // namespace util\n"
    s = s.replace("}  // namespace util\n", codes)
    write_if_changed(os.path.join(d, "compat/google/protobuf/stubs/status.h"), s)


def py_flags():
    inc = subprocess.check_output(["/usr/bin/python3", "-c",
        "import sysconfig;print(sysconfig.get_paths()['include'])"], text=True).strip()
    return "-I" + inc


def harness_key(name):
    """Content of the harness and of the headers harnesses share: part of the program's file name."""
    h = hashlib.sha256()
    d = os.path.join(VERIF, "harness")
    for f in sorted(os.listdir(d)):
        if f.endswith(".h") or f == name + ".cc":
            h.update(open(os.path.join(d, f), "rb").read())
    return name + "-" + h.hexdigest()[:10]


def build_dir(flavour):
    return os.path.join(BUILD, "%s-%s" % (flavour, tree_hash()))


def build(flavour, targets, jobs=None):
    """Builds targets (harness names such as 'c07', or 'gbdt', 'libgbdt') and returns their paths."""
    cxx, cflags, ldflags = FLAVOURS[flavour]
    os.makedirs(BUILD, exist_ok=True)
    d = build_dir(flavour)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(BUILD, ".lock-" + flavour), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        # drop builds of other trees, keeping a few recent ones
        now = time.time()
        olds = sorted((os.path.join(BUILD, x) for x in os.listdir(BUILD)
                       if x.startswith(flavour + "-") and os.path.join(BUILD, x) != d), key=os.path.getmtime)
        for x in olds[:-2]:
            if now - os.path.getmtime(x) > 1800:
                shutil.rmtree(x, ignore_errors=True)
        os.utime(d)
        make_compat(d)
        lib, py, protos = sources()
        incs = "-I%s/compat -I%s/compat -I%s -I%s/gen -I%s" % (d, ENGINE, REPO, d, ENGINE)
        n = ["ninja_required_version = 1.5", "builddir = " + d,
             "cxx = " + cxx, "cflags = %s %s" % (cflags, incs), "ldflags = " + ldflags,
             "rule protoc\n  command = protoc -I%s --cpp_out=%s/gen $in" % (REPO, d),
             "rule cc\n  command = $cxx $cflags $extra -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc",
             "rule ar\n  command = rm -f $out && ar crs $out $in",
             "rule link\n  command = $cxx $ldflags $in -o $out $libs"]
        gen_h, objs = [], []
        for p in protos:
            base = "%s/gen/src/proto/%s.pb" % (d, p[:-6])
            n.append("build %s.cc %s.h: protoc %s/src/proto/%s" % (base, base, REPO, p))
            gen_h.append(base + ".h")
            n.append("build %s.o: cc %s.cc || %s" % (base, base, " ".join(gen_h)))
            objs.append(base + ".o")
        hdrs = " ".join(gen_h)
        for s in lib + [ENGINE + "/protobuf_status_ok.cc"]:
            o = d + "/obj/" + os.path.relpath(s, "/").replace("/", "_") + ".o"
            n.append("build %s: cc %s || %s" % (o, s, hdrs))
            objs.append(o)
        n.append("build %s/lib.a: ar %s" % (d, " ".join(objs)))
        n.append("build %s/pbt.o: cc %s/pbt.cc" % (d, ENGINE))
        for f in sorted(os.listdir(os.path.join(VERIF, "harness"))):
            if not f.endswith(".cc"):
                continue
            src = f
            name = harness_key(f[:-3])
            n.append("build %s/%s.o: cc %s/harness/%s || %s" % (d, name, VERIF, src, hdrs))
            n.append("build %s/%s: link %s/%s.o %s/pbt.o %s/lib.a\n  libs = %s" % (d, name, d, name, d, d, LIBS))
        n.append("build %s/main.o: cc %s/src/main.cc || %s" % (d, REPO, hdrs))
        n.append("build %s/gbdt: link %s/main.o %s/lib.a\n  libs = %s" % (d, d, d, LIBS))
        n.append("build %s/iofault.o: cc %s/iofault_shim.cc\n  extra = -fPIC" % (d, ENGINE))
        n.append("build %s/iofault.so: link %s/iofault.o\n  libs = -shared -ldl" % (d, d))
        if flavour.startswith("py"):
            pyobjs = []
            for s in py:
                o = d + "/pyobj/" + os.path.basename(s) + ".o"
                n.append("build %s: cc %s || %s\n  extra = %s" % (o, s, hdrs, py_flags()))
                pyobjs.append(o)
            n.append("build %s/libgbdt.so: link %s %s/lib.a\n  libs = -shared %s" % (d, " ".join(pyobjs), d, LIBS))
        write_if_changed(d + "/build.ninja", "\n".join(n) + "\n")
        targets = [harness_key(t) if os.path.exists("%s/harness/%s.cc" % (VERIF, t)) else t for t in targets]
        cmd = ["ninja", "-f", d + "/build.ninja"] + (["-j%d" % jobs] if jobs else []) + \
              ["%s/%s" % (d, t) for t in targets]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode != 0:
            lines = [l[:300] for l in r.stdout.splitlines() if not re.match(r"\[\d+/\d+\]|g\+\+|clang\+\+", l)]
            sys.stderr.write("\n".join(lines)[:6000] + "\n")
            sys.stderr.write("build failed (%s %s)\n" % (flavour, " ".join(targets)))
            raise SystemExit(2)  # no verdict
    return [os.path.join(d, t) for t in targets]


if __name__ == "__main__":
    t = time.time()
    print(build(sys.argv[1], sys.argv[2:]), "%.1fs" % (time.time() - t))
