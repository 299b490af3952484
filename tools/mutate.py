"""Mutation testing of the checks: changes one operator, constant or statement of /repo at a time in a scratch copy, keeps the
changes that build and pass the existing tests, and runs the quick checks of the properties anchored there until one objects.

mutate.py WORK N SEED [file-regex]     WORK: scratch directory outside /verif and /repo; results in WORK/results.jsonl
Survivors are candidates for new oracles or generators (or equivalent changes).
"""
import hashlib, json, os, random, re, shutil, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant

MAP = [
    ("data_store/column", "C01 C02 C07 C09 C23 C04"), ("data_store/data_store", "C03 C23 C04"), ("data_store/tsv", "C04 C05 C22 C23"),
    ("data_store/flatfiles", "C06 C05 C22"), ("split_algo", "C07 C08 C18"), ("tree_algo", "C08 C11 C17 C18"), ("gbdt_algo/gbdt_algo", "C11 C12 C21 C17 C23"),
    ("evaluation", "C09 C10 C22 C23"), ("gbdt_algo/utils", "C20 C10 C13 C12 C21 C09 C22"), ("gradient_data", "C07 C14 C08"), ("loss_func_math", "C14 C15"),
    ("loss_func_pointwise", "C14 C11"), ("loss_func_pairwise", "C15 C17 C21"), ("lambdamart", "C15 C17"), ("group", "C16 C15 C21"), ("loss_func", "C14 C15 C21 C11"),
    ("json_utils", "C13 C22"), ("subsampling", "C24 C08 C17"), ("vector_slice", "C24 C08"), ("threadpool", "C19 C17"), ("utils/utils", "C13 C05 C22 C04"),
    ("main.cc", "C22"), ("flags", "C22"), ("src/python", "C23"), ("gbdt/", "C23 C25"), ("", "C22 C11"),
]
OPS = [
    (r"(?<![<>=!+\-*/&|:\w])<(?![<>=])(?=\s)", ["<=", ">"]), (r"(?<=\s)>(?![>=])(?=\s)", [">=", "<"]), (r"<=", ["<", "=="]), (r">=", [">"]), (r"==", ["!="]), (r"!=", ["=="]),
    (r"(?<=\s)\+(?=\s)", ["-"]), (r"(?<=\s)-(?=\s)", ["+"]), (r"(?<=\s)\*(?=\s)", ["/"]), (r"(?<=\s)/(?=\s)", ["*"]), (r"\+=", ["-=", "="]), (r"-=", ["+="]),
    (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"(?<![\w.])0(?![\w.])", ["1"]), (r"(?<![\w.])1(?![\w.])", ["2", "0"]), (r"(?<![\w.])2(?![\w.])", ["1", "3"]),
    (r"(?<![\w.])(\d+\.\d+)(?!\w)", ["0.25"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\bmin\(", ["max("]), (r"\bmax\(", ["min("]),
    (r"!(?=[\w(])", [""]), (r"\bbreak;", [";"]), (r"\bcontinue;", [";"]), (r"\bleft_child\b", ["right_child"]), (r"\bfloat\b", ["double", "int"]), (r"\bdouble\b", ["float"]),
    (r"(?<=, )(\w+), (\w+)(?=\))", ["\\2, \\1"]), (r"\buint16\b", ["uint8"]), (r"\band\b", ["or"]), (r"\bor\b", ["and"]), (r"\bnot ", [""]), (r"\bTrue\b", ["False"]),
    (r"\bFalse\b", ["True"]),
]


def candidates(path, text):
    out = []
    pos = 0
    comment = False
    for line in text.splitlines(True):
        s = line.strip()
        if s.startswith("/*") or s.startswith('"""'):
            comment = True
        skip = comment or s.startswith(("//", "#", "*", "using ", "LOG(", "VLOG(", "DEFINE_", "import ", "from ", "<<", "template"))
        if s.endswith("*/") or (s.endswith('"""') and len(s) > 3):
            comment = False
        elif s == '"""':
            comment = comment if s.startswith('"""') and not getattr(candidates, "_in", False) else False
        if not skip and s:
            code = line.split(" // ")[0]
            code = re.sub(r'"[^"]*"', lambda m: "\0" * len(m.group(0)), code)
            for rx, reps in OPS:
                for m in re.finditer(rx, code):
                    for r in reps:
                        new = m.expand(r)
                        if new != m.group(0):
                            out.append((pos + m.start(), pos + m.end(), new))
            if s.endswith(";") and not re.match(r"(return|const|static|auto|using|typedef|class|struct|u?int\b|float|double|bool|string|vector|unique_ptr|})", s) and ("(" in s or "=" in s):
                a = pos + line.index(s)
                out.append((a, a + len(s), ";"))
        pos += len(line)
    return out


def main():
    work, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    only = re.compile(sys.argv[4] if len(sys.argv) > 4 else ".")
    copy, ver = work + "/repo", work + "/verif"
    os.makedirs(work, exist_ok=True)
    subprocess.run(["rm", "-rf", copy, ver], check=True)
    subprocess.run(["cp", "-a", "/repo", copy], check=True)
    os.makedirs(ver)
    for x in ("engine", "harness", "check.py", "checks.py", "KNOWN_FINDINGS.txt", "properties.jsonl", "MANIFEST.json"):
        subprocess.run(["cp", "-a", plant.VERIF + "/" + x, ver + "/" + x], check=True)
    p = ver + "/engine/build.py"
    t = open(p).read()
    t = t.replace('return os.path.join(BUILD, "%s-%s" % (flavour, tree_hash()))', 'return os.path.join(BUILD, flavour + "-fixed")')
    open(p, "w").write(t)
    files = subprocess.run(["git", "-C", copy, "ls-files", "src", "gbdt"], stdout=subprocess.PIPE, text=True).stdout.split()
    files = [f for f in files if re.search(r"\.(cc|h|py)$", f) and "_test" not in f and "test/" not in f and "stopwatch" not in f and "_version" not in f and only.search(f)]
    allc = []
    for f in files:
        text = open(copy + "/" + f).read()
        allc += [(f,) + c for c in candidates(f, text)]
    rng = random.Random(seed)
    by = {}
    for c in allc:
        by.setdefault(c[0], []).append(c)
    # every file gets its share, large files more
    pick = []
    for f, cs in sorted(by.items()):
        rng.shuffle(cs)
        pick += [(i / (len(cs) ** 0.6), c) for i, c in enumerate(cs)]
    pick = [c for _, c in sorted(pick)][:n]
    rng.shuffle(pick)
    print("%d candidates, %d picked" % (len(allc), len(pick)), flush=True)
    log = open(work + "/results.jsonl", "a")
    for f, a, b, new in pick:
        path = copy + "/" + f
        orig = open(path).read()
        line = orig.count("\n", 0, a) + 1
        mut = orig[:a] + new + orig[b:]
        open(path, "w").write(mut)
        what = "%s:%d: %s  ->  %s" % (f, line, orig.splitlines()[line - 1].strip(), mut.splitlines()[line - 1].strip())
        res = None
        t0 = time.time()
        try:
            rc, out = plant.ns(copy, "timeout 600 bash /opt/vp/build.sh")
            if rc:
                res = "no build"
            else:
                plant.ns(copy, "timeout 120 bash /opt/vp/test.sh %s/t.json" % work)
                try:
                    miss = plant.passes(work + "/t.json")
                except Exception:
                    miss = ["crash"]
                if os.path.exists(work + "/t.json"):
                    os.unlink(work + "/t.json")
                if miss:
                    res = "tests"
                else:
                    checks = next(v for k, v in MAP if k in f).split()
                    tried = []
                    for c in checks:
                        rc, out = plant.ns(copy, "VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 %s/check.py %s quick" % (ver, c))
                        tried.append("%s:%d" % (c, rc))
                        if rc == 1 and "VIOLATION" in out:
                            break
                    res = " ".join(tried)
        finally:
            open(path, "w").write(orig)
        json.dump(dict(what=what, res=res, s=round(time.time() - t0)), log)
        log.write("\n")
        log.flush()
        if res not in ("no build", "tests"):
            print(res if not res.endswith(":1") else "caught " + res, "|", what, flush=True)


main()
