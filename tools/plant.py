"""Plants a bug: writes seeded/<id>/ from a specification and confirms it in a scratch copy of /repo that is bound over
/repo in a private mount namespace, so the real tree is never touched.

plant.py SPEC.py [...]      each SPEC defines: property, needs, breaks, edits=[(file, old, new)...], and demo (C++), or demo_sh
plant.py --check ID [...]   runs the property's quick check against the planted bug
A specification named c01-x.py becomes seeded/C01-x. The demo template compiles demo.cc against the built library.
"""
import json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
DEMO_SH = r'''#!/bin/bash
# Compiles the demonstration beside this file against the library that was built, and runs it in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX)
g++ -std=gnu++14 -w -O1 -I_build/compat -I/opt/vp/cmake/include -I. -I_build/gen "$D/demo.cc" -o "$T/demo" \
  _build/libgbdt_lib.a -lprotobuf -lgflags -lglog -lfmt -lpthread && (cd "$T" && TZ=UTC GLOG_minloglevel=2 timeout 200 ./demo)
rc=$?
rm -rf "$T"
exit $rc
'''
PY_SH = r'''#!/bin/bash
# Runs the demonstration beside this file with the Python module that was built, in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d /tmp/demo.XXXXXX)
(cd "$T" && TZ=UTC GLOG_minloglevel=2 PYTHONDONTWRITEBYTECODE=1 GBDT_REPO="$R" PYTHONPATH="$D" timeout 200 /usr/bin/python3 "$D/demo.py")
rc=$?
rm -rf "$T"
exit $rc
'''
PY_H = r'''import glob, importlib.machinery, importlib.util, json, math, os, sys, types
R = os.environ["GBDT_REPO"]
so = glob.glob(R + "/_build/libgbdt*.so")[0]
loader = importlib.machinery.ExtensionFileLoader("libgbdt", so)
spec = importlib.util.spec_from_file_location("libgbdt", so, loader=loader)
lib = importlib.util.module_from_spec(spec)
loader.exec_module(lib)
six = types.ModuleType("six")
six.text_type = str
sys.modules.setdefault("six", six)
stub = types.ModuleType("gbdt._libgbdt")
stub.libgbdt = lib
for k in ("init_logging", "BucketizedFloatColumn", "StringColumn", "RawFloatColumn"):
    setattr(stub, k, getattr(lib, k))
sys.modules["gbdt._libgbdt"] = stub
sys.path.insert(0, R)
import gbdt


def expect(c, what):
    if not c:
        print("does not hold: " + what)
        sys.exit(1)
'''
DEMO_H = r'''#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include <gflags/gflags.h>
#include "src/base/base.h"
#include "src/data_store/column.h"
#include "src/data_store/data_store.h"
#include "src/data_store/flatfiles_data_store.h"
#include "src/data_store/tsv_data_store.h"
#include "src/gbdt_algo/evaluation.h"
#include "src/gbdt_algo/gbdt_algo.h"
#include "src/gbdt_algo/split_algo.h"
#include "src/gbdt_algo/tree_algo.h"
#include "src/gbdt_algo/utils.h"
#include "src/loss_func/group.h"
#include "src/loss_func/loss_func.h"
#include "src/loss_func/loss_func_factory.h"
#include "src/proto/config.pb.h"
#include "src/proto/tree.pb.h"
#include "src/utils/json_utils.h"
#include "src/utils/subsampling.h"
#include "src/utils/threadpool.h"
#include "src/utils/utils.h"
DECLARE_int32(num_threads);
using namespace gbdt;
#define EXPECT(c) do { if (!(c)) { std::cerr << "does not hold: " #c " (line " << __LINE__ << ")\n"; return 1; } } while (0)
inline void put(const std::string& file, const std::string& text) { std::ofstream(file) << text; }
'''


def ns(copy, script, log=None):
    """Runs a script with the copy in the place of /repo."""
    cmd = ["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (copy, script)]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if log:
        open(log, "w").write(p.stdout)
    return p.returncode, p.stdout


def passes(out):
    stable = json.load(open("/opt/vp/BASELINE.json"))
    stable = stable.get("stable") or stable.get("passed") or stable.get("tests")
    got = set(json.load(open(out))["passed"])
    return [t for t in stable if t not in got]


def plant(spec_file):
    spec = {}
    exec(open(spec_file).read(), spec)
    name = os.path.basename(spec_file)[:-3]
    sid = name[0].upper() + name[1:]
    d = os.path.join(SEEDED, sid)
    work = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    copy = os.path.join(work, "repo")
    subprocess.run(["cp", "-a", "/repo", copy], check=True)
    try:
        os.makedirs(d, exist_ok=True)
        for f, old, new in spec["edits"]:
            p = os.path.join(copy, f)
            s = open(p).read()
            if s.count(old) != 1:
                return "%s: %d matches in %s of %r" % (sid, s.count(old), f, old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", copy, "diff"], stdout=subprocess.PIPE, text=True).stdout
        open(d + "/patch.diff", "w").write(diff)
        if "demo_sh" in spec:
            open(d + "/demo.sh", "w").write(spec["demo_sh"])
        else:
            open(d + "/demo.sh", "w").write(PY_SH if "demo_py" in spec else DEMO_SH)
        if "demo_py" in spec:
            open(d + "/demo.py", "w").write("from demo_base import *\n" + spec["demo_py"].lstrip("\n"))
            open(d + "/demo_base.py", "w").write(PY_H)
        if "demo" in spec:
            open(d + "/demo.cc", "w").write('#include "demo.h"\n' + spec["demo"].lstrip("\n"))
            open(d + "/demo.h", "w").write(DEMO_H)
        for n, t in spec.get("files", {}).items():
            open(os.path.join(d, n), "w").write(t)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
        elsewhere = os.path.join(work, "demo")
        shutil.copytree(d, elsewhere, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        # without the bug: the tree as it is
        subprocess.run(["git", "-C", copy, "stash", "-q"], check=True)
        rc, out = ns(copy, "bash /opt/vp/build.sh && bash %s/demo.sh" % elsewhere)
        if rc:
            return "%s: demo fails without the bug (%d)\n%s" % (sid, rc, out[-3000:])
        subprocess.run(["git", "-C", copy, "stash", "pop", "-q"], check=True)
        rc, out = ns(copy, "bash /opt/vp/build.sh")
        if rc:
            return "%s: does not build\n%s" % (sid, out[-3000:])
        rc, out = ns(copy, "bash /opt/vp/test.sh %s/t.json" % work)
        missing = passes(work + "/t.json")
        if missing:
            return "%s: tests fail: %s" % (sid, missing[:6])
        rc, out = ns(copy, "bash %s/demo.sh" % elsewhere)
        if rc == 0:
            return "%s: demo passes with the bug" % sid
        return "%s: planted (%s)" % (sid, out.strip().splitlines()[-1][:200] if out.strip() else rc)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(sid, props=None):
    d = os.path.join(SEEDED, sid)
    props = props or [json.load(open(d + "/meta.json"))["property"]]
    work = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    copy = os.path.join(work, "repo")
    subprocess.run(["git", "clone", "-q", "/repo", copy], check=True)
    try:
        subprocess.run(["git", "-C", copy, "apply", d + "/patch.diff"], check=True)
        res = []
        for p in props:
            rc, out = ns(copy, "VERIF_SEED=%s VERIF_TIER=quick python3 %s/check.py %s quick" % (os.environ.get("VERIF_SEED", "1"), VERIF, p))
            lines = [l for l in out.splitlines() if "VIOLATION" in l or "FAILED" in l or "failed" in l or " s" == l[-2:]]
            res.append("%s on %s: rc %d %s" % (p, sid, rc, " | ".join(lines)[-500:] if rc != 1 else "caught: " + " | ".join(l[:300] for l in out.splitlines()[-8:])))
        return "\n".join(res)
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a and a[0] == "--check":
        for s in a[1:]:
            sid, _, p = s.partition(":")
            print(check(sid, p.split(",") if p else None), flush=True)
    else:
        for s in a:
            print(plant(s), flush=True)
