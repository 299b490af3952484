"""C26: operations of the Python module leave nothing behind."""
import array, ctypes, gc, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import c23, pygbdt
import pbt
from pbt import check

del pbt.PROPS[:]  # those of c23
prop = pbt.prop


class Mallinfo2(ctypes.Structure):
    _fields_ = [(k, ctypes.c_size_t) for k in
                ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]


libc = ctypes.CDLL(None)
libc.mallinfo2.restype = Mallinfo2


def init():
    c23.init()


def usage(at, k):
    gc.collect()
    m = libc.mallinfo2()
    at[k], at[k + 1], at[k + 2] = m.uordblks + m.hblkhd, len(os.listdir("/proc/self/fd")), len(os.listdir("/proc/self/task"))


WHAT = ("bytes of memory", "open files", "threads")


def repeat(op, what, runs=8, each=3):
    """What is taken once may be kept; the process must not grow with every run. The allocators and Python keep a little of
    their own (caches that fill up), so that the growth must be seen between any two of many runs."""
    for _ in range(2):
        op()
    at = array.array("q", [0] * (3 * (runs + 1)))
    usage(at, 0)
    for r in range(1, runs + 1):
        for _ in range(each):
            op()
        usage(at, 3 * r)
        if all(at[3 * r + k] < at[3 * r + k - 3] + each for k in range(3)):
            return
    for k, name in enumerate(WHAT):
        steps = [at[3 * r + k] - at[3 * r + k - 3] for r in range(1, runs + 1)]
        check(min(steps) < each, "grows", lambda: "%s: every %d runs leave %s more %s" % (what, each, steps, name))


@prop("module", 5)
def module(s, ctx):
    n, t, c, y = c23.gen_problem(s, ctx)
    gbdt, lib = c23.gbdt, c23.lib
    steps, gone = [], pbt.fresh_path("absent")
    table = pbt.fresh_path("t")
    with open(table, "wb") as out:
        out.write(b"a\tb\n" + b"1\tx\n" * s.range(0, 5) + s.pick([b"", b"2\n", b"z\ty\n"]))
    bad = s.pick(["{", "", "[1]", '{"tree": 3}', '{"tree": [{"nosuch": 1}]}', '{"tree": [{"score": 1}]}'])
    for _ in range(s.length(1, 10)):
        steps.append(s.pick(["train", "train refused", "train low", "predict", "predict refused", "load", "load refused", "importance", "tsv", "tsv refused",
                             "add", "add refused", "remove", "train absent", "train values", "train range", "train base", "save", "slice", "held", "held", "columns", "index", "text", "dict refused", "output", "output refused", "base", "cycle"]))
    kind, values = s.pick(c23.KINDS), None
    values = c23.gen_values(s, kind, n)
    outdir = pbt.scratch()
    ctx.describe(" steps %s bad %r values %r" % (steps, bad, values))
    done = []

    def op():
        del done[:]
        st = c23.make_store(t, {"target": y})
        f = None
        for what in steps:
            try:
                if what == "train": f = c23.train(st, t, c, y)
                elif what == "train refused": c23.train(st, t, dict(c, loss_func="nonesuch"), y)
                elif what == "train low": lib.train(st._data_store, y=y[:-1], config=json.dumps(c))
                elif what == "train absent": lib.train(st._data_store, y=y, config=json.dumps(dict(c, float_feature=["absent"], example_sampling_rate=1, feature_sampling_rate=1)))
                elif what == "train values": c23.train(st, t, dict(c, loss_func="logloss"), [0.5] * n)
                elif what == "train range": c23.train(st, t, dict(c, num_leaves=0), y)
                elif what == "train base": c23.train(st, t, c, y, base=gbdt.Forest(json.dumps({"tree": [{"score": 1, "split": {"feature": "absent", "floatSplit": {"threshold": 1}}, "leftChild": {"score": 1}, "rightChild": {"score": 2}}]})))
                elif what == "save" and f: f.feature_importance(), f._forest.as_json()
                elif what == "slice": [list(st[k]) for k in sorted(t)]
                elif what == "held": held = [st[k] for k in sorted(t)] + [st._data_store]
                elif what == "predict" and f: f.predict(st)
                elif what == "predict refused": f.predict(gbdt.DataStore(lib.DataStore()))
                elif what == "load" and f: gbdt.Forest(str(f))
                elif what == "load refused": gbdt.Forest(bad)
                elif what == "importance" and f: f.feature_importance()
                elif what == "tsv": gbdt.DataLoader.from_tsvs([table], bucketized_float_cols=["a"], string_cols=["b"])
                elif what == "tsv refused": gbdt.DataLoader.from_tsvs([table, gone], bucketized_float_cols=["a"])
                elif what == "add": c23.add(st._data_store, kind, "added", values)
                elif what == "add refused": c23.add(st._data_store, kind, "added", values[:-1] + [None])
                elif what == "remove": st._data_store.erase("added")
                elif what == "columns": [c23.column(st._data_store, k, "added") for k in c23.KINDS]
                elif what == "index": c23.column(st._data_store, kind, "added")[n + 5]
                elif what == "text": str(st), repr(st), str(f)
                elif what == "dict refused": gbdt.DataLoader.from_dict({"a": [1.0, 2.0]}, {"b": ["x"]}, {})
                elif what == "output" and f: f._forest.predict_and_output(st._data_store, [1, 2], outdir)
                elif what == "output refused" and f: f._forest.predict_and_output(st._data_store, [1, 2], gone + "/a/b")
                elif what == "base" and f: c23.train(st, t, c, y, base=f)
                elif what == "cycle":
                    loop = [st, f]
                    loop.append(loop)
                done.append(what)
            except Exception as e:
                done.append("%s: %s" % (what, type(e).__name__))
    repeat(op, "a history of the module")
    for d in done:
        ctx.label(d)
    ctx.nontrivial(len(steps) >= 2)


if __name__ == "__main__":
    pbt.main(init)
