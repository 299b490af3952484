#!/usr/bin/env python3
"""Runs the check of one property:  check.py C07 [quick|thorough]   (VERIF_SEED, VERIF_TIER honoured)
Replays a saved violation:         check.py --replay replays/C07-....json

Exit 0: the property held on every case explored. Exit 1 with a line
"VIOLATION property=<id> replay=<path>": a generated case breaks it.
"""
import glob, hashlib, json, os, re, resource, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "engine"))
import build as builder
from checks import CHECKS

NPROC = int(os.environ.get("VERIF_JOBS", "8"))
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
REPLAYS = os.path.join(VERIF, "replays")

ENV = dict(os.environ,
           ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=1:hard_rss_limit_mb=5000:"
                        "handle_abort=0:detect_stack_use_after_return=1",
           UBSAN_OPTIONS="print_stacktrace=1:exitcode=98",
           TSAN_OPTIONS="exitcode=66:halt_on_error=1:report_thread_leaks=0:second_deadlock_stack=1:suppressions=" + os.path.join(VERIF, "engine", "tsan.supp"),
           GLOG_minloglevel="3", TZ="UTC", PYTHONDONTWRITEBYTECODE="1", LC_ALL="C.UTF-8")


def limit_memory():
    # 8 GB of address space: runaway allocation in the code under test becomes bad_alloc, not an OOM kill
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def no_core():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Stage:
    def __init__(self, spec, scratch):
        self.spec = spec
        self.name = spec["harness"] + ("/" + spec["flavour"] if spec.get("flavour") else "")
        self.flavour = spec.get("flavour", "opt")
        self.env = dict(ENV, PBT_SCRATCH=scratch)
        self.schedule_sensitive = spec.get("scheduled", False)
        self.pre = limit_memory if self.flavour in ("opt", "py") else no_core

    def build(self):
        for key, (flavour, target) in self.spec.get("needs", {}).items():
            self.env[key] = builder.build(flavour, [target])[0]
        if self.spec.get("python"):
            py = os.path.join(VERIF, "harness", self.spec["harness"] + ".py")
            self.cmd = [self.spec["python"], py]
            if self.flavour == "pyasan":  # the interpreter is not instrumented: its runtime comes first
                libs = [subprocess.check_output(["g++", "-print-file-name=" + x], text=True).strip()
                        for x in ("libasan.so", "libubsan.so", "libstdc++.so.6")]
                self.cmd = ["env", "LD_PRELOAD=" + " ".join(libs)] + self.cmd
        else:
            self.cmd = builder.build(self.flavour, [self.spec["harness"]])


def known_findings(pid):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) harness=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3), m.group(4).strip()))
    return out


def read_rec(path):
    """The case a worker was running, from its shared mapping."""
    with open(path, "rb") as f:
        idx, n, outcome = struct.unpack("<QQQ", f.read(24))
        prop = f.read(64).split(b"\0")[0].decode()
        f.seek(24 + 64 + 64 + 4096)
        n = min(n, 1 << 20)
        return idx, prop, list(struct.unpack("<%dQ" % n, f.read(8 * n))), outcome


def run_replay(stage, prop, choices, describe=False, timeout=400):
    d = stage.env["PBT_SCRATCH"]
    cf = os.path.join(d, "choices-%d.txt" % os.getpid())
    with open(cf, "w") as f:
        f.write("\n".join(map(str, choices)))
    cmd = stage.cmd + ["replay", "--prop", prop, "--choices", cf] + (["--describe"] if describe else [])
    try:
        p = subprocess.run(cmd, env=stage.env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                           preexec_fn=stage.pre)
        rc, out, err = p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        rc, out, err = 45, (e.stdout or b"").decode("utf8", "replace"), "replay did not terminate"
    return rc, out, err


T0 = time.time()


def shrink(stage, prop, choices, seconds):
    d = stage.env["PBT_SCRATCH"]
    cf, of = os.path.join(d, "shrink-in.txt"), os.path.join(d, "shrink-out.txt")
    with open(cf, "w") as f:
        f.write("\n".join(map(str, choices)))
    if os.path.exists(of):
        os.unlink(of)
    try:
        p = subprocess.run(stage.cmd + ["shrink", "--prop", prop, "--choices", cf, "--out", of, "--time", str(seconds)],
                           env=stage.env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=seconds + 300,
                           preexec_fn=stage.pre)
        print(p.stdout.decode("utf8", "replace").strip())
        if os.path.exists(of):
            return [int(x) for x in open(of).read().split()]
    except subprocess.TimeoutExpired:
        pass
    return choices


def run_stage(stage, pid, tier, seed, totals):
    """Returns None, or a failure dict."""
    spec = stage.spec
    n = spec[tier] if tier in spec else spec["quick"]
    # A quick check stays far below fifteen minutes however slow or busy the machine is.
    cap = max(45, min(420, 600 - (time.time() - T0))) if tier == "quick" else 1500
    jobs = min(spec.get("jobs", NPROC), max(1, n))
    scratch = stage.env["PBT_SCRATCH"]
    workers = []
    for w in range(jobs):
        rec, out, err = (os.path.join(scratch, "w%d.%s" % (w, x)) for x in ("rec", "json", "err"))
        for f in (rec, out, err):
            if os.path.exists(f):
                os.unlink(f)
        cmd = stage.cmd + ["run", "--seed", str(seed), "--start", str(w), "--stride", str(jobs), "--end", str(n),
                           "--rec", rec, "--out", out, "--time", str(cap)]
        p = subprocess.Popen(cmd, env=stage.env, stdout=subprocess.DEVNULL, stderr=open(err, "wb"),
                             preexec_fn=stage.pre)
        workers.append([p, rec, out, err, cmd, 0])
    failure = None
    pending = list(workers)
    while pending and failure is None:
        time.sleep(0.02)
        for wk in list(pending):
            rc = wk[0].poll()
            if rc is None:
                continue
            pending.remove(wk)
            if rc == 0:
                continue
            if rc == 10:
                j = json.load(open(wk[2]))
                failure = dict(prop=j["failed"]["prop"], tag=j["failed"]["tag"], msg=j["failed"]["msg"],
                               choices=j["failed"]["choices"], rc=rc, err="")
                break
            err = open(wk[3], "rb").read().decode("utf8", "replace")
            if rc in (3, -signal.SIGKILL, -signal.SIGTERM, -signal.SIGINT) or not os.path.exists(wk[1]):
                # not a verdict on the property: run this worker's share once more
                if wk[5] == 0:
                    wk[5] = 1
                    wk[0] = subprocess.Popen(wk[4], env=stage.env, stdout=subprocess.DEVNULL,
                                             stderr=open(wk[3], "wb"), preexec_fn=stage.pre)
                    pending.append(wk)
                    continue
                sys.stderr.write("worker of %s ended with %s twice:\n%s\n" % (stage.name, rc, err[-2000:]))
                raise SystemExit(2)
            idx, prop, choices, outcome = read_rec(wk[1])
            tag = {44: "deadlock", 45: "no-termination", -signal.SIGALRM: "no-termination"}.get(rc, "crash")
            failure = dict(prop=prop, tag=tag, msg="%s (exit status %s)" % (tag, rc), choices=choices, rc=rc,
                           err=err[-6000:])
            break
    for wk in pending:
        wk[0].kill()
        wk[0].wait()
    for wk in workers:
        try:
            j = json.load(open(wk[2]))
        except (OSError, ValueError):
            # a crashed or stopped worker: count what it had completed, from its mapping
            try:
                idx = read_rec(wk[1])[0]
                totals["evaluations"] += max(0, idx // jobs)
            except Exception:
                pass
            continue
        for name, st in j["props"].items():
            key = spec["harness"] + "." + name + ("@" + stage.flavour if stage.flavour != "opt" else "")
            t = totals["props"].setdefault(key, dict(evaluations=0, discarded=0, nontrivial=0, labels={}))
            t["evaluations"] += st["evals"]
            t["discarded"] += st["discards"]
            t["nontrivial"] += st["nontrivial"]
            for l, c in st["labels"].items():
                t["labels"][l] = t["labels"].get(l, 0) + c
            totals["evaluations"] += st["evals"]
            for s in st["samples"]:
                per = totals["sample_by_prop"].setdefault(key, [])
                if len(per) < 2:
                    per.append("%s: %s" % (key, s))
        hf = wk[2] + ".hashes"
        if os.path.exists(hf):
            b = open(hf, "rb").read()
            totals["hashes"].update((stage.flavour, x) for x in struct.unpack("<%dQ" % (len(b) // 8), b))
    return failure


def confirm(stage, f, tier):
    """Replays, shrinks, replays again. Returns (believed, failure)."""
    sched = stage.schedule_sensitive
    hang = f["tag"] in ("no-termination",)
    tries = (4 if sched else 2) if hang else (30 if sched else 10)
    hits = 0
    last = None
    t0 = time.time()
    for k in range(tries):
        if k >= 2 and time.time() - t0 > 90:
            break
        rc, out, err = run_replay(stage, f["prop"], f["choices"])
        if rc not in (0, 3, -9):
            hits += 1
            last = (rc, out, err)
            if not hang or sched:
                break
        elif hang and not sched:
            break
    # A case beyond its limit must be so again: always, or at least once more where it depends on scheduling.
    if hang and hits < (1 if sched else 2):
        print("a case ran into its time limit but finished when replayed: inconclusive, not a violation")
        return False, f
    if hits == 0:
        if f["rc"] == 10 or f["tag"] in ("crash", "deadlock"):
            f["msg"] += " [seen once; replays of the same choices passed: depends on scheduling]"
            return True, f
        return False, f
    f["rc"], f["err"] = last[0], last[2][-6000:] or f["err"]
    small = shrink(stage, f["prop"], f["choices"], 20 if hang else 40)
    t0 = time.time()
    for k in range(3 if not sched else 20):
        if k and time.time() - t0 > 45:
            break
        rc, out, err = run_replay(stage, f["prop"], small)
        if rc not in (0, 3, -9):
            f["choices"] = small
            m = re.search(r"^FAILED \S+ \[(.*?)\] ([\s\S]*)", out, re.M)
            if m:
                f["tag"], f["msg"] = m.group(1), m.group(2).strip()
            f["rc"], f["err"] = rc, err[-6000:]
            break
    rc, out, err = run_replay(stage, f["prop"], f["choices"], describe=True)
    f["description"] = re.split(r"^(?:FAILED |HELD|DISCARDED)", out, flags=re.M)[0].strip()[:8000]
    few = 1 if hang or f["tag"] == "deadlock" else 3
    again = sum(run_replay(stage, f["prop"], f["choices"])[0] not in (0, 3, -9) for _ in range(few))
    f["reproduced"] = "%d of %d replays" % (again, few)
    return True, f


def fuzz_stage(stage, pid, seed, totals):
    """libFuzzer campaign (thorough tier): same generators and oracle, coverage-guided."""
    spec = stage.spec
    scratch = stage.env["PBT_SCRATCH"]
    bin_ = builder.build("fuzz", [spec["harness"]])[0]
    for prop in spec["props"]:
        procs = []
        for w in range(spec.get("jobs", NPROC)):
            corpus = os.path.join(scratch, "corpus-%s-%d" % (prop, w))
            os.makedirs(corpus, exist_ok=True)
            fo = os.path.join(scratch, "fuzzfail-%s-%d" % (prop, w))
            log = open(os.path.join(scratch, "fuzz-%s-%d.log" % (prop, w)), "wb")
            env = dict(stage.env, PBT_PROP=prop, PBT_FAIL_OUT=fo)
            procs.append((subprocess.Popen(
                [bin_, corpus, "-seed=%d" % (seed * 100 + w + 1), "-max_total_time=%d" % spec["seconds"],
                 "-max_len=4096", "-len_control=20", "-timeout=60", "-rss_limit_mb=4000", "-artifact_prefix=%s/art-%s-%d-" %
                 (scratch, prop, w), "-print_final_stats=1", "-use_value_profile=1"],
                env=env, stdout=log, stderr=log, preexec_fn=no_core), fo, log.name, w))
        fail = None
        for p, fo, log, w in procs:
            rc = p.wait()
            text = open(log, "rb").read().decode("utf8", "replace")
            m = re.search(r"stat::number_of_executed_units:\s*(\d+)", text)
            execs = int(m.group(1)) if m else 0
            m = re.findall(r"cov: (\d+)", text)
            key = "%s.%s@libfuzzer" % (spec["harness"], prop)
            t = totals["props"].setdefault(key, dict(evaluations=0, discarded=0, nontrivial=0, labels={}))
            t["evaluations"] += execs
            totals["evaluations"] += execs
            corpus = os.path.join(scratch, "corpus-%s-%d" % (prop, w))
            kept = len(os.listdir(corpus))
            t["nontrivial"] += kept
            t["labels"]["inputs kept for new coverage"] = t["labels"].get("inputs kept for new coverage", 0) + kept
            if m:
                t["labels"]["edges covered (max over workers)"] = max(
                    t["labels"].get("edges covered (max over workers)", 0), int(m[-1]))
            if rc != 0 and not fail:
                choices = None
                if os.path.exists(fo):
                    choices = [int(x) for x in open(fo).read().split()]
                else:
                    arts = glob.glob("%s/art-%s-%d-*" % (scratch, prop, w))
                    arts = [a for a in arts if not os.path.basename(a).startswith("art-%s-%d-oom" % (prop, w))]
                    if arts:
                        b = open(arts[0], "rb").read()
                        choices, i = [], 0
                        while i < len(b):
                            if b[i] == 0xff and i + 8 < len(b):
                                choices.append(struct.unpack("<Q", b[i + 1:i + 9])[0])
                                i += 9
                            else:
                                choices.append(b[i])
                                i += 1
                if choices is not None:
                    fail = dict(prop=prop, tag="libfuzzer", msg=text[-1500:], choices=choices, rc=10, err=text[-4000:])
        if fail:
            return fail
    return None


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        scratch = tempfile.mkdtemp(prefix="gbdt-verif-")
        try:
            st = Stage(r["stage"], scratch)
            st.build()
            rc, out, err = run_replay(st, r["prop"], r["choices"], describe=True)
            print(out)
            print(err[-4000:])
            print("exit status of the case: %s (%s)" % (rc, "held" if rc == 0 else "failed"))
            return 0 if rc == 0 else 1
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    spec = CHECKS[pid]
    t0 = T0
    scratch = tempfile.mkdtemp(prefix="gbdt-verif-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) and
                               shutil.disk_usage("/dev/shm").free > (1 << 30) else None)
    totals = dict(evaluations=0, props={}, sample_by_prop={}, hashes=set())
    failure, stage = None, None
    try:
        for s in spec["stages"]:
            if tier not in s.get("tiers", ("quick", "thorough")):
                continue
            stage = Stage(s, scratch)
            if s.get("libfuzzer"):
                # replays of a fuzzer finding use the ordinary asan build of the same harness
                stage.flavour = "asan"
                stage.build()
                f = fuzz_stage(stage, pid, seed, totals)
            else:
                stage.build()
                t1 = time.time()
                f = run_stage(stage, pid, tier, seed, totals)
                print("%s %s: %.1f s" % (pid, stage.name, time.time() - t1), flush=True)
            if f:
                believed, f = confirm(stage, f, tier)
                if believed:
                    failure = f
                    break
        for harness, key, what in known_findings(pid):
            st = Stage(next(s for s in spec["stages"] if s["harness"] == harness), scratch)
            st.build()
            try:
                p = subprocess.run(st.cmd + ["known", "--key", key], env=st.env, stdout=subprocess.PIPE,
                                   stderr=subprocess.DEVNULL, timeout=120, preexec_fn=st.pre)
                state = p.stdout.decode("utf8", "replace").strip()
            except subprocess.TimeoutExpired:
                state = "STILL-FAILS"
            if "NO-LONGER-FAILS" in state:
                print("note: the known finding %s (%s) no longer fails" % (key, what))
            else:
                print("KNOWN-FINDING: property=%s %s" % (pid, what))
        violations = 0
        if failure:
            violations = 1
            os.makedirs(REPLAYS, exist_ok=True)
            body = dict(property=pid, tier=tier, seed=seed, stage=stage.spec, prop=failure["prop"], tag=failure["tag"],
                        message=failure["msg"], description=failure.get("description", ""),
                        reproduced=failure.get("reproduced", ""), choices=failure["choices"],
                        exit_status=failure["rc"], stderr=failure.get("err", ""),
                        how_to="python3 /verif/check.py --replay <this file>")
            h = hashlib.sha256(json.dumps([failure["prop"], failure["choices"]]).encode()).hexdigest()[:10]
            path = os.path.join(REPLAYS, "%s-%s.json" % (pid, h))
            with open(path, "w") as fh:
                json.dump(body, fh, indent=1)
            print("case: " + failure.get("description", "")[:1500])
            print("%s [%s] %s" % (failure["prop"], failure["tag"], failure["msg"][:1500]))
            if failure["tag"] not in ("", None) and failure["rc"] not in (10,):
                print(failure.get("err", "")[-2500:])
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        samples = [x for v in totals["sample_by_prop"].values() for x in v][:24]
        cov = dict(evaluations=totals["evaluations"], distinct_nontrivial=len(totals["hashes"]), rule=spec["rule"],
                   samples=samples, per_generator=totals["props"])
        if failure and not samples:
            cov["samples"] = [failure.get("description", "")[:600]]
        ev = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov,
                  assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=violations)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        print("%s %s: %d cases, %d distinct non-trivial, %.1f s" % (pid, tier, totals["evaluations"],
                                                                  len(totals["hashes"]), time.time() - t0))
        if failure:
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
