"""C23: the Python module mirrors the library and reports every error."""
import gc, io, json, math, os, sys, types
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pygbdt
from pygbdt import NAN, same, same_list, f32, close
import pbt
from pbt import prop, check, fail

gbdt = lib = None
KINDS = ("bucketized_float", "raw_float", "string")


def init():
    global gbdt, lib
    gbdt, lib = pygbdt.load()


def raises(fn):
    """The exception an operation raises, None if it returns."""
    try:
        fn()
    except Exception as e:
        return e
    return None


def must_raise(what, fn, kinds=Exception):
    e = raises(fn)
    check(e is not None, "not-reported", lambda: "%s was accepted in silence" % what)
    check(isinstance(e, kinds), "odd-exception", lambda: "%s raised %s: %s" % (what, type(e).__name__, e))


def gen_values(s, kind, n):
    # few different values, so that a bucketized column keeps each one
    if kind == "string":
        pool = [pygbdt.gen_string(s) for _ in range(s.range(1, 5))]
    else:
        pool = [pygbdt.gen_float(s) for _ in range(s.range(1, 6))]
    return [s.pick(pool) for _ in range(n)]


def add(store, kind, name, values):
    getattr(store, "add_%s_col" % kind)(name, values)


def column(low, kind, name):
    return getattr(low, "get_%s_col" % kind)(name)


# ------------------------------------------------------------------------------------------- histories of a data store

def check_column(col, name, kind, values, where):
    check(type(col) is {"bucketized_float": lib.BucketizedFloatColumn, "raw_float": lib.RawFloatColumn,
                        "string": lib.StringColumn}[kind], "type", lambda: "%s: %s has type %s" % (where, name, type(col)))
    check(len(col) == len(values), "length", lambda: "%s: %s has %d rows, not %d" % (where, name, len(col), len(values)))
    check(same_list(list(col), values), "values", lambda: "%s: %s reads %r, not %r" % (where, name, list(col)[:20], values[:20]))
    check(str(col) == name, "name", lambda: "%s: %s is called %r" % (where, name, str(col)))
    n = len(values)
    for i in (n, n + 1, n + 1000, 2147483647):
        e = raises(lambda: col[i])
        check(isinstance(e, IndexError), "index", lambda: "%s: row %d of the %d rows of %s: %r" % (where, i, n, name, e))
    for i in (-1, -n, -n - 1, -2147483648):  # refused, or counted from the end as in a list
        e = raises(lambda: col[i])
        check(isinstance(e, IndexError) or (e is None and -n <= i and same(col[i], values[i])), "index",
              lambda: "%s: row %d of the %d rows of %s: %r" % (where, i, n, name, e))
    if kind == "bucketized_float":
        b = col.buckets()
        for v in values:
            if v == v:
                check(any(lo <= v <= hi for lo, hi in b[1:]), "buckets", lambda: "%s: %r is in none of %r" % (where, v, b))
    elif "\0" not in "".join(x for x in values if isinstance(x, str)):
        repr(col)


def check_store(st, model, where):
    low = st._data_store
    n = len(next(iter(model.values()))[1]) if model else 0
    check(len(st) == n, "rows", lambda: "%s: %d rows, not %d" % (where, len(st), n))
    check(sorted(st.cols()) == sorted(model) and sorted(st.keys()) == sorted(model), "columns",
          lambda: "%s: columns %r, not %r" % (where, st.cols(), sorted(model)))
    for kind in KINDS:
        got = sorted(getattr(st, kind + "_cols")())
        want = sorted(k for k, (t, _) in model.items() if t == kind)
        check(got == want, "columns", lambda: "%s: %s columns are %r, not %r" % (where, kind, got, want))
    for k, (kind, values) in model.items():
        check(k in st, "contains", lambda: "%s: %s is not in the store" % (where, k))
        check(low.get_column_type(k) == kind, "type", lambda: "%s: %s is %s" % (where, k, low.get_column_type(k)))
        check_column(st[k], k, kind, values, where)
    check(sorted(k for k, _ in st.items()) == sorted(model), "items", lambda: "%s: items() differs" % where)
    r = repr(st)
    if model:
        want = "DataStore with %d bucketized float, %d raw float and %d string columns, each with %d rows." % (
            tuple(sum(1 for t, _ in model.values() if t == k) for k in KINDS) + (n,))
        check(r == want, "repr", lambda: "%s: %r" % (where, r))


@prop("store", 6)
def store(s, ctx):
    n = s.pick([0, 1, 2, 3, 5, 9, 10, 11, 25])
    st, model = gbdt.DataStore(lib.DataStore()), {}
    kept = []  # columns that outlive what happens to the store
    others = []  # stores of chosen rows, and the ones they were chosen from
    names = ["a", "b", "x y", "\u00e9", "", "t"]
    refused = removed = derived = 0
    ops = s.length(1, 25)
    for _ in range(ops):
        op = s.weighted([8, 3, 2, 1, 3, 3, 2, 2, 1, 2])
        name = s.pick(names)
        where = ""
        if op == 0:
            kind = s.pick(KINDS)
            m = n if not s.chance(1, 6) else s.range(0, n + 2)
            values = gen_values(s, kind, m)
            where = "add_%s_col(%r, %d rows)" % (kind, name, m)
            rows = len(next(iter(model.values()))[1]) if model else m
            if name in model or m != rows:
                must_raise(where + " to a store with " + repr({k: len(v[1]) for k, v in model.items()}), lambda: add(st, kind, name, values))
                refused += 1
            else:
                add(st, kind, name, values)
                model[name] = (kind, values)
        elif op == 1:
            where = "erase(%r)" % name
            st.erase(name)
            removed += name in model
            model.pop(name, None)
        elif op == 2 and model:
            k = s.pick(sorted(model))
            where = "holding %r" % k
            kept.append((st[k], k, model[k][0], list(model[k][1])))
        elif op == 3:
            where = "clear()"
            st._data_store.clear()
            removed += len(model)
            model = {}
        elif op == 4:
            # lookups that must fail
            kind = s.pick(KINDS)
            if model.get(name, (None,))[0] != kind:
                where = "get_%s_col(%r)" % (kind, name)
                must_raise(where + " where it is " + str(model.get(name, ("absent",))[0]), lambda: column(st._data_store, kind, name))
                refused += 1
            if name not in model:
                must_raise("looking up the absent column %r" % name, lambda: st[name], ValueError)
                must_raise("get_column_type of the absent column %r" % name, lambda: st._data_store.get_column_type(name))
                check(name not in st, "contains", "an absent column is reported as present")
        elif op == 5 and model:
            k = s.pick(sorted(model))
            col, rows = st[k], len(model[k][1])
            i = s.range(-2, rows + 2) if not s.chance(1, 8) else s.pick([2 ** 31 - 1, -2 ** 31, 2 ** 31, 2 ** 40])
            where = "%r[%d] of %d rows" % (k, i, rows)
            if 0 <= i < rows:
                check(same(col[i], model[k][1][i]), "values", lambda: "%s is %r, not %r" % (where, col[i], model[k][1][i]))
            elif i < 0 and raises(lambda: col[i]) is None:
                check(-rows <= i and same(col[i], model[k][1][i]), "range", lambda: "%s is %r" % (where, col[i]))
            else:
                must_raise(where, lambda: col[i], (IndexError, TypeError))
                refused += 1
        elif op == 6 and model:
            # a store made from chosen rows
            rows = len(next(iter(model.values()))[1])
            how = s.weighted([2, 2, 2, 2])
            if how == 0:
                idx, new = list(range(rows)), st.copy()
            elif how == 1 and rows:
                i = s.draw(rows)
                idx, new = [i], st[i]
            elif how == 2:
                a = s.range(0, rows)
                b = s.range(a, rows)
                idx, new = list(range(a, b)), st[(a, b)]
            else:
                idx = [s.draw(rows) for _ in range(s.length(0, 8))] if rows else []
                new = st[idx]
            where = "rows %r" % idx
            derived += 1
            sub = {k: (t, [v[i] for i in idx]) for k, (t, v) in model.items()}
            check_store(new, sub, where)
            if s.chance(1, 2):
                kept.extend((new[k], k, t, v) for k, (t, v) in sub.items())
            if s.chance(1, 2):
                if s.chance(1, 2):
                    st, model, n, new, sub = new, sub, len(idx), st, model
                others.append((new, sub, where))
        elif op == 7 and model:
            rows = len(next(iter(model.values()))[1])
            where = "rows beyond the end"
            must_raise("a row beyond the end", lambda: st[[rows]], IndexError)
            must_raise("rows beyond the end", lambda: st[(0, rows + 1)], IndexError)
            refused += 1
        elif op == 8:
            # values of the wrong type never end up in a store
            where = "values of the wrong type"
            kind = s.pick(KINDS)
            free = "free name"
            bad = s.pick([["a"], [None]]) if kind != "string" else s.pick([[1.5], [None]])
            bad = (gen_values(s, kind, max(0, n - 1)) + bad)
            must_raise("adding %r as %s" % (bad[-1], kind), lambda: add(st, kind, free, bad), (TypeError, ValueError))
            refused += 1
        elif op == 9:
            # the store goes away, another takes its place
            where = "dropping the store"
            st, model = gbdt.DataStore(lib.DataStore()), {}
            gc.collect()
            removed += 1
            n = s.pick([0, 1, 2, 3, 5, 9])
        ctx.describe(where + "; ")
        check_store(st, model, "after " + where)
        for o, m, w in others[-2:]:
            check_store(o, m, "another store (%s) after %s" % (w, where))
        for c, k, t, v in kept[-6:]:
            check_column(c, k, t, v, "a column held from before " + where)
    del st
    gc.collect()
    for c, k, t, v in kept[-6:]:
        check_column(c, k, t, v, "a column held after its store is gone")
    if refused:
        ctx.label("refused")
    if kept:
        ctx.label("held columns")
    if derived:
        ctx.label("rows chosen")
    ctx.nontrivial(refused and removed or kept and removed or derived)


# ------------------------------------------------------------------------------------------------ training, prediction

def gen_table(s, n, features=3):
    t = {}
    for i in range(s.range(1, features)):
        if s.chance(1, 3):
            t["c%d" % i] = [s.pick(["a", "b", "c", "", "__missing__", "\u00e9"]) for _ in range(n)]
        elif s.chance(1, 4):
            t["x%d" % i] = [NAN if s.chance(1, 6) else f32(s.range(-40, 40) * 0.3) for _ in range(n)]
        else:
            t["x%d" % i] = [NAN if s.chance(1, 8) else float(s.draw(6)) for _ in range(n)]
    return t


def is_cat(k):
    return k.startswith("c")


def make_store(t, extra=None):
    return gbdt.DataLoader.from_dict(bucketized_float_cols={k: v for k, v in t.items() if not is_cat(k)},
                                     string_cols={k: v for k, v in t.items() if is_cat(k)},
                                     raw_float_cols=extra or {})


def gen_config(s, loss=None):
    c = dict(loss_func=loss or s.pick(["mse", "logloss", "huberized_hinge"]), num_trees=s.range(1, 5), num_leaves=s.range(2, 6),
             shrinkage=s.pick([1.0, 0.5, 0.1]), min_hessian=s.pick([0.0, 0.5, 1.0]), l2_lambda=s.pick([0.0, 1.0]))
    if s.chance(1, 4):
        c["example_sampling_rate"] = 0.7
    if s.chance(1, 4):
        c["feature_sampling_rate"] = 0.6
    return c


def gen_problem(s, ctx, loss=None):
    n = s.range(2, 14)
    t = gen_table(s, n)
    c = gen_config(s, loss)
    y = [float(s.range(-6, 6)) if c["loss_func"] == "mse" else float(s.pick([-1, 1])) for _ in range(n)]
    if c["loss_func"] != "mse" and len(set(y)) == 1:
        y[0] = -y[0]
    ctx.describe("config %r y %r %s" % (c, y, " ".join("%s=%r" % kv for kv in sorted(t.items()))))
    return n, t, c, y


def train(st, t, c, y=[], w=[], base=None, seed=7, threads=2):
    return gbdt.train(st, dict(c), y=y, features=sorted(t), w=w, base_forest=base, random_seed=seed, num_threads=threads)


def trees(f):
    """What was learned; the rest of the text tells when."""
    return json.loads(str(f))["tree"]


def splits(model):
    return sum(1 for tr in model["tree"] for nd in pygbdt.nodes(tr) if "leftChild" in nd)


def agree(what, got, want, rel=1e-9):
    check(len(got) == len(want), what, lambda: "%s: %d scores for %d rows" % (what, len(got), len(want)))
    for i, (a, b) in enumerate(zip(got, want)):
        check(close(a, b, rel, b.slack), what, lambda: "%s: row %d scores %r, not %r" % (what, i, a, b))


@prop("model", 5)
def model(s, ctx):
    n, t, c, y = gen_problem(s, ctx)
    w = [float(s.range(1, 4)) for _ in range(n)] if s.chance(1, 2) else []
    st = make_store(t)
    f = train(st, t, c, y, w)
    m = json.loads(str(f))
    check(len(m["tree"]) == c["num_trees"] + 1, "trees", lambda: "%d trees for num_trees %d" % (len(m["tree"]), c["num_trees"]))
    ctx.nontrivial(splits(m))
    want = pygbdt.predict(m, t, n)
    agree("predict", f.predict(st), want)
    # saved and loaded, on another store with the rows in another order
    g = gbdt.Forest(str(f))
    check(str(g) == str(f), "text", "saving a loaded forest gives another text")
    order = [s.draw(n) for _ in range(n + 2)]
    agree("predict-other", g.predict(make_store({k: [v[i] for i in order] for k, v in t.items()})), [want[i] for i in order])
    # the same request again gives the same model, whatever happened in between
    check(trees(train(make_store(t), t, c, y, w)) == m["tree"], "repeat", "the same request gives another model")
    # the target and weights as a column of the store or as arguments
    if s.chance(1, 2):
        ctx.label("target column")
        st2 = make_store(t, {"target": y})
        h = train(st2, t, dict(c, target_column="target"), [], w)
        check(trees(h) == m["tree"], "target-column", "training on the target column gives another model than on y")
    # y as other sequences
    try:
        import numpy
        ya = numpy.array(y, dtype=s.pick(["float32", "float64"])) if s.chance(1, 2) else tuple(y)
    except ImportError:
        ya = tuple(y)
    e = None
    try:
        h = train(st, t, c, ya, w)
    except TypeError:
        h = None
    if h is not None:
        check(trees(h) == m["tree"], "sequence", "y as %s gives another model than as a list" % type(ya).__name__)
    fi = f.feature_importance()
    gains = {}
    for tr in m["tree"]:
        for nd in pygbdt.nodes(tr):
            if "leftChild" in nd:
                gains[nd["split"]["feature"]] = gains.get(nd["split"]["feature"], 0) + float(nd["split"].get("gain", 0))
    check(sorted(k for k, _ in fi) == sorted(gains), "importance", lambda: "importances %r for splits by %r" % (fi, sorted(gains)))
    check(all(fi[i][1] >= fi[i + 1][1] for i in range(len(fi) - 1)), "importance", lambda: "not descending: %r" % (fi,))
    if fi and max(gains.values()) > 0:
        ratio = {k: v / gains[k] for k, v in fi if gains[k] > 0}
        check(all(close(v, next(iter(ratio.values())), 1e-6) for v in ratio.values()), "importance", lambda: "importances %r for gains %r" % (fi, gains))
    check(f.features() == [k for k, _ in fi], "importance", "features() differs from feature_importance()")
    # the configuration object is the caller's: it may serve again, for other features
    if s.chance(1, 2):
        ctx.label("config used again")
        again, other = dict(c), {k: v for k, v in t.items() if s.chance(1, 2)}
        other.update([s.pick(sorted(t.items()))])
        gbdt.train(st, again, y=y, features=sorted(t), w=w, random_seed=7, num_threads=2)
        h = gbdt.train(st, again, y=y, features=sorted(other), w=w, random_seed=7, num_threads=2)
        check(trees(h) == trees(train(st, other, c, y, w)), "config", lambda: "a config used before gives another model for the features %r" % sorted(other))
    # going on from it
    b = train(st, t, c, y, w, base=f)
    mb = json.loads(str(b))
    kept = [tr for tr in m["tree"] if "leftChild" in tr]  # constants are added up in the first tree
    check(mb["tree"][1:1 + len(kept)] == kept, "base", "a forest trained from a base does not start with its trees")
    check(len(mb["tree"]) == 1 + len(kept) + c["num_trees"], "base", "a forest trained from a base has too few or too many trees")
    agree("base-predict", b.predict(st), pygbdt.predict(mb, t, n))


def gen_model(s, t, trees):
    """Any forest over the features of a table."""
    def node(depth):
        nd = {"score": f32(s.range(-40, 40) / 8.0)}
        if depth and s.chance(2, 3):
            k = s.pick(sorted(t))
            if is_cat(k):
                nd["split"] = {"feature": k, "catSplit": {"category": [s.pick(["a", "b", "c", "", "zz"]) for _ in range(s.range(0, 3))]}}
            else:
                nd["split"] = {"feature": k, "floatSplit": {"threshold": f32(s.range(-20, 40) / 8.0)}}
                if s.chance(1, 2):
                    nd["split"]["floatSplit"]["missingToRightChild"] = s.chance(1, 2)
            nd["split"]["gain"] = float(s.range(0, 99))
            nd["leftChild"], nd["rightChild"] = node(depth - 1), node(depth - 1)
        return nd
    return {"tree": [node(3) for _ in range(trees)]}


@prop("scores", 4)
def scores(s, ctx):
    """Predictions at checkpoints, of several forests in turn."""
    n = s.range(1, 8)
    t = gen_table(s, n)
    st = make_store(t)
    runs = []
    for _ in range(s.range(1, 3)):
        m = gen_model(s, t, s.range(1, 5))
        f = gbdt.Forest(json.dumps(m))
        agree("predict", f.predict(st), pygbdt.predict(m, t, n))
        pts = [s.range(1, len(m["tree"])) for _ in range(s.range(1, 3))]
        if s.chance(1, 2):
            pts = sorted(set(pts))
        if s.chance(1, 6):
            pts.append(len(m["tree"]) + s.range(1, 3))
        runs.append([m, pts, f.predict_at_checkpoints(st, pts), 0])
    ctx.describe("%r %r" % ([r[:2] for r in runs], t))
    ctx.nontrivial(len(runs) > 1)
    live = list(runs)
    while live:
        r = s.pick(live)
        m, pts, gen, done = r
        p = pts[done] if done < len(pts) else None
        try:
            got = next(gen)
        except StopIteration:
            check(p is None, "checkpoints", lambda: "no scores at %r of %r" % (p, pts))
            live.remove(r)
            continue
        except Exception as e:
            check(any(x > len(m["tree"]) for x in pts), "checkpoints", lambda: "%s: %s at %r of %d trees" % (type(e).__name__, e, pts, len(m["tree"])))
            ctx.label("beyond the last tree refused")
            live.remove(r)
            continue
        check(p is not None and got[0] == p, "checkpoints", lambda: "scores for %r instead of %r" % (got[0], p))
        check(p <= len(m["tree"]), "checkpoints", lambda: "scores %r for the first %d of %d trees" % (got[1], p, len(m["tree"])))
        agree("checkpoints", got[1], pygbdt.predict(m, t, n, p), 1e-5)
        r[3] += 1


# ------------------------------------------------------------------------------------------------------------- refusals

def dir_file(name, text):
    p = pbt.fresh_path(name)
    with open(p, "w") as f:
        f.write(text)
    return p


@prop("refusals", 5)
def refusals(s, ctx):
    n, t, c, y = gen_problem(s, ctx, "mse")
    st = make_store(t, {"target": y})
    good = str(train(st, t, c, y))
    f = gbdt.Forest(good)
    k = s.pick(sorted(t))
    cases = [
        ("an unknown loss", lambda: train(st, t, dict(c, loss_func="nonesuch"), y)),
        ("no loss", lambda: train(st, t, {x: v for x, v in c.items() if x != "loss_func"}, y)),
        ("an unknown configuration field", lambda: train(st, t, dict(c, no_such_field=1), y)),
        ("a configuration field of the wrong type", lambda: train(st, t, dict(c, num_trees="many"), y)),
        ("too few targets", lambda: train(st, t, c, y[:-1])),
        ("too many targets", lambda: train(st, t, c, y + [1.0])),
        ("too few weights", lambda: train(st, t, c, y, [1.0] * (n - 1))),
        ("too many weights", lambda: train(st, t, c, y, [1.0] * (n + 1))),
        ("a target of the wrong type", lambda: train(st, t, c, y[:-1] + ["x"])),
        ("no targets at all", lambda: train(st, t, c, [])),
        ("an unknown target column", lambda: train(st, t, dict(c, target_column="absent"), [])),
        ("a target column that is a feature", lambda: train(st, t, dict(c, target_column=k), [])),
        ("an unknown feature", lambda: gbdt.train(st, dict(c), y=y, features=sorted(t) + ["absent"])),
        ("no features", lambda: gbdt.train(st, dict(c), y=y, features=[])),
        ("a target as a feature", lambda: gbdt.train(st, dict(c), y=y, features=["target"])),
        ("an unknown feature, asked of the module", lambda: lib.train(st._data_store, y=y, config=json.dumps(dict(c, float_feature=["absent"], example_sampling_rate=1, feature_sampling_rate=1)))),
        ("a configuration that is not JSON", lambda: lib.train(st._data_store, y=y, config="{")),
        ("an empty configuration", lambda: lib.train(st._data_store, y=y, config="")),
        ("no data store", lambda: lib.train(None, y=y, config=json.dumps(dict(c, float_feature=["x"])))),
        ("an empty data store", lambda: lib.train(lib.DataStore(), y=[], config=json.dumps(dict(c, float_feature=["x"], target_column="target", example_sampling_rate=1, feature_sampling_rate=1)))),
        ("an empty data store and targets", lambda: lib.train(lib.DataStore(), y=y, config=json.dumps(dict(c, float_feature=["x"], example_sampling_rate=1, feature_sampling_rate=1)))),
        ("num_leaves below two", lambda: train(st, t, dict(c, num_leaves=s.pick([0, -1])), y)),
        ("num_trees below zero", lambda: train(st, t, dict(c, num_trees=-1), y)),
        ("a target that is not a number", lambda: train(st, t, c, y[:-1] + [NAN])),
        ("logloss targets other than -1 and 1", lambda: train(st, t, dict(c, loss_func="logloss"), [0.5] * n)),
        ("a pairwise loss with an unknown group column", lambda: train(st, t, dict(c, loss_func="pairwise", group_column="absent", pair_sampling_rate=1), y)),
        ("a base forest over an absent feature", lambda: train(st, t, c, y, base=gbdt.Forest(json.dumps({"tree": [{"score": 0, "split": {"feature": "absent", "floatSplit": {"threshold": 1}}, "leftChild": {"score": 1}, "rightChild": {"score": 2}}]})))),
        ("a forest that is not JSON", lambda: gbdt.Forest(s.pick(["{", "", "no", "[1]", "{\"tree\": 3}", "{\"tree\": [{\"nosuch\": 1}]}"]))),
        ("a forest with an inner node that has no split", lambda: gbdt.Forest(json.dumps({"tree": [{"score": 1, "leftChild": {"score": 1}, "rightChild": {"score": 2}}]})).predict(st)),
        ("a forest with a split on no condition", lambda: gbdt.Forest(json.dumps({"tree": [{"score": 1, "split": {"feature": k}, "leftChild": {"score": 1}, "rightChild": {"score": 2}}]})).predict(st)),
        ("prediction with a feature that is not a feature column", lambda: gbdt.Forest(json.dumps(with_split({"target": 0}, "target"))).predict(st)),
        ("a forest that is cut short", lambda: gbdt.Forest(good[:s.range(1, len(good) - 3)])),
        ("a forest from a number", lambda: gbdt.Forest(3)),
        ("prediction without a feature", lambda: predict_without(f, t, k, n)),
        ("prediction with a feature of another type", lambda: predict_swapped(f, t, k, n)),
        ("prediction on an empty store", lambda: f.predict(gbdt.DataStore(lib.DataStore()))),
        ("prediction on nothing", lambda: f._forest.predict(None)),
        ("output on an empty store", lambda: f._forest.predict_and_output(lib.DataStore(), [1], pbt.scratch())),
        ("output on nothing", lambda: f._forest.predict_and_output(None, [1], pbt.scratch())),
        ("output below a file", lambda: f._forest.predict_and_output(st._data_store, [1], dir_file("plain", "x") + "/under")),
        ("output below a directory that is absent", lambda: f._forest.predict_and_output(st._data_store, [1], pbt.fresh_path("absent") + "/a/b")),
        ("output over a directory", lambda: output_over_directory(f, st)),
        ("output on a full device", lambda: output_full(f, st)),
        ("a table that is absent", lambda: gbdt.DataLoader.from_tsvs([pbt.fresh_path("absent")], bucketized_float_cols=["x"])),
        ("a directory as a table", lambda: gbdt.DataLoader.from_tsvs([pbt.scratch()], bucketized_float_cols=["x"])),
        ("a table without the column", lambda: gbdt.DataLoader.from_tsvs([dir_file("t", "a\tb\n1\t2\n")], bucketized_float_cols=["x"])),
        ("a ragged table", lambda: gbdt.DataLoader.from_tsvs([dir_file("t", "a\tb\n1\t2\n1\n")], bucketized_float_cols=["a"], string_cols=["b"])),
        ("a word as a number", lambda: gbdt.DataLoader.from_tsvs([dir_file("t", "a\tb\nx\t2\n")], bucketized_float_cols=["a"])),
        ("a column in two roles", lambda: gbdt.DataLoader.from_tsvs([dir_file("t", "a\tb\n1\t2\n")], bucketized_float_cols=["a"], string_cols=["a"])),
        ("no tables", lambda: gbdt.DataLoader.from_tsvs([], bucketized_float_cols=["a"])),
        ("columns of different lengths", lambda: gbdt.DataLoader.from_dict({"a": [1.0, 2.0]}, {"b": ["x"]}, {})),
        ("a column in two types", lambda: gbdt.DataLoader.from_dict({"a": [1.0, 2.0]}, {"a": ["x", "y"]}, {})),
        ("two raw columns of different lengths", lambda: gbdt.DataLoader.from_dict({}, {}, {"a": [1.0], "b": [1.0, 2.0]})),
    ]
    for _ in range(s.range(1, 4)):
        what, fn = s.pick(cases)
        ctx.label(what)
        ctx.describe("; " + what)
        must_raise(what, fn)
    ctx.nontrivial()
    # everything still works
    check(trees(train(st, t, c, y)) == json.loads(good)["tree"], "afterwards", "after refusals the valid request gives another model")
    agree("afterwards", f.predict(st), pygbdt.predict(json.loads(good), t, n))


def with_split(t, k):
    kind = {"catSplit": {"category": ["a"]}} if is_cat(k) else {"floatSplit": {"threshold": 1}}
    return {"tree": [{"score": 0, "split": dict(kind, feature=k), "leftChild": {"score": 1}, "rightChild": {"score": 2}}]}


def predict_without(f, t, k, n):
    rest = {x: v for x, v in t.items() if x != k}
    rest["x other"] = [0.0] * n
    return gbdt.Forest(json.dumps(with_split(t, k))).predict(make_store(rest))


def predict_swapped(f, t, k, n):
    st = gbdt.DataLoader.from_dict({k: [1.0] * n} if is_cat(k) else {}, {} if is_cat(k) else {k: ["a"] * n}, {})
    return gbdt.Forest(json.dumps(with_split(t, k))).predict(st)


def output_over_directory(f, st):
    d = pbt.fresh_path("out")
    os.makedirs(d + "/forest.1.score")
    f._forest.predict_and_output(st._data_store, [1], d)


def output_full(f, st):
    d = pbt.fresh_path("out")
    os.makedirs(d)
    os.symlink("/dev/full", d + "/forest.1.score")
    f._forest.predict_and_output(st._data_store, [1], d)


def well_formed(nd):
    """Whether another change can be made to the node."""
    for k in ("split", "leftChild", "rightChild"):
        if k in nd and not isinstance(nd[k], dict):
            return False
    sp = nd.get("split", {})
    if not all(isinstance(sp.get(k, {}), dict) for k in ("floatSplit", "catSplit")):
        return False
    if ("leftChild" in nd) != ("rightChild" in nd):
        return False
    return all(well_formed(nd[k]) for k in ("leftChild", "rightChild") if k in nd)


@prop("mutants", 3)
def mutants(s, ctx):
    """Model files with something odd in them are refused or used, and never do harm."""
    n = s.range(1, 6)
    t = gen_table(s, n)
    st = make_store(t)
    m = gen_model(s, t, s.range(1, 3))
    if s.chance(3, 4):
        # a field left out, of another type or out of range, anywhere in the model
        for _ in range(s.range(1, 3)):
            d = s.pick([d for tr in m["tree"] for nd in pygbdt.nodes(tr) for d in (nd, nd.get("split"), nd.get("split", {}).get("floatSplit"),
                        nd.get("split", {}).get("catSplit")) if d] or [m])
            k = s.pick(sorted(d) + ["score", "split", "leftChild", "rightChild", "feature", "gain", "threshold", "category", "floatSplit"])
            if s.chance(1, 2):
                d.pop(k, None)
            else:
                d[k] = s.pick([None, 0, -1.5, "x", "", [], {}, True, "NaN", "Infinity", "-Infinity", "7", 1e38, -1e39, 1e300, ["a", 3], {"score": 2},
                               {"feature": s.pick(sorted(t) + ["absent"])}, {"feature": s.pick(sorted(t)), "floatSplit": {"threshold": 2}},
                               {"feature": s.pick(sorted(t)), "catSplit": {"category": ["a"]}, "floatSplit": {}}])
            if not isinstance(m.get("tree"), list) or not all(isinstance(x, dict) and well_formed(x) for x in m["tree"]):
                break
        text = json.dumps(m)
    else:
        text = json.dumps(m)
        b = bytearray(text.encode("utf8"))
        for _ in range(s.range(1, 3)):
            k = s.weighted([3, 2, 2, 2, 3])
            i = s.draw(len(b) or 1)
            if k == 0:
                b[i:i + 1] = bytes([s.pick(b'{}[]",:0123456789.-+eE\\ntf aZ\0\x7f')])
            elif k == 1:
                del b[i:i + s.range(1, 8)]
            elif k == 2:
                j = s.draw(len(b) or 1)
                b[i:i] = b[j:j + s.range(1, 30)]
            elif k == 3:
                del b[i:]
            else:
                words = [b"leftChild", b"rightChild", b"split", b"floatSplit", b"catSplit", b"threshold", b"feature", b"score", b"true", b"null",
                         b"1e999", b"-1e999", b"NaN", b"\"NaN\"", b"\"Infinity\"", b"[]", b"{}", b"\"\"", b"1e400", b"18446744073709551616"]
                w = s.pick(words)
                at = b.find(w)
                if at >= 0:
                    b[at:at + len(w)] = s.pick(words)
                else:
                    b[i:i] = w
        try:
            text = bytes(b).decode("utf8")
        except UnicodeDecodeError:
            raise pbt.Discard()
    ctx.describe("%r on %r" % (text, t))
    try:
        f = gbdt.Forest(text)
    except Exception:
        ctx.label("refused when read")
        ctx.nontrivial()
        return
    again = None
    try:
        saved = str(f)
        again = gbdt.Forest(saved)
    except Exception:
        ctx.label("cannot be saved")
    try:
        got = f.predict(st)
    except Exception:
        ctx.label("refused when used")
        ctx.nontrivial()
        return
    ctx.label("used")
    check(len(got) == n, "predict", lambda: "%d scores for %d rows" % (len(got), n))
    f.feature_importance()
    if again is not None:
        clean = json.loads(saved)
        ctx.nontrivial(clean != m)
        check(same_list(again.predict(st), got), "saved", "a forest and its saved copy predict differently")
        agree("mutant", got, pygbdt.predict(clean, t, n))


# ------------------------------------------------------------------------------------------------------------ tables

@prop("tables", 2)
def tables(s, ctx):
    """Tables from files and from dictionaries hold the same."""
    n = s.range(1, 8)
    cols = {}
    for i in range(s.range(1, 4)):
        kind = s.pick(KINDS)
        if kind == "string":
            cols["s%d" % i] = (kind, [s.pick(["a", "b", "red", "x y"]) for _ in range(n)])
        else:
            cols["f%d" % i] = (kind, [NAN if s.chance(1, 6) else s.range(-40, 40) / 8.0 for _ in range(n)])
    def cell(v):
        return v if isinstance(v, str) else (s.pick(["nan", "?", "NaN"]) if v != v else repr(v))
    names = sorted(cols)
    lines = ["\t".join(cell(cols[k][1][i]) for k in names) for i in range(n)]
    names.append("pad")
    lines = [l + "\t1" for l in lines]
    cut = s.range(1, n)
    files = [dir_file("t", "\n".join(["\t".join(names)] + lines[:cut]) + "\n")]
    if cut < n:
        files.append(dir_file("t", "\n".join(lines[cut:]) + "\n"))
    by = {k: [x for x in names if x in cols and cols[x][0] == k] for k in KINDS}
    a = gbdt.DataLoader.from_tsvs(files, bucketized_float_cols=by["bucketized_float"], string_cols=by["string"], raw_float_cols=by["raw_float"])
    ctx.describe("%d rows in %d files: %r" % (n, len(files), cols))
    ctx.nontrivial(len(cols) > 1)
    check_store(a, cols, "from files")
    d = {k: {x: cols[x][1] for x in by[k]} for k in KINDS}
    check_store(gbdt.DataLoader.from_dict(d["bucketized_float"], d["string"], d["raw_float"]), cols, "from dictionaries")


class Frame:
    """As much of a pandas data frame as the loader may use."""
    NUMERIC = (int, float)

    def __init__(self, cols):
        self.cols = cols
        self.columns = list(cols)
        self.dtypes = {k: ("float64" if self._numeric(k) else "object") for k in cols}

    def _numeric(self, k):
        return all(isinstance(v, (int, float)) for v in self.cols[k])

    def select_dtypes(self, include=None, exclude=None):
        keep = [k for k in self.cols if (self._numeric(k) if include is not None else not self._numeric(k))]
        return Frame({k: self.cols[k] for k in keep})

    def keys(self):
        return list(self.cols)

    def __iter__(self):
        return iter(self.cols)

    def __contains__(self, k):
        return k in self.cols

    def __getitem__(self, k):
        return self.cols[k]

    def __len__(self):
        return len(next(iter(self.cols.values()))) if self.cols else 0

    def items(self):
        return self.cols.items()


def fake_pandas():
    m = types.ModuleType("pandas")
    m.DataFrame = Frame
    return m


@prop("frames", 2)
def frames(s, ctx):
    """Data frames load with every column, of the type asked for."""
    try:
        import numpy
    except ImportError:
        raise pbt.Discard()
    old = sys.modules.get("pandas")
    sys.modules["pandas"] = fake_pandas()
    try:
        n = s.range(1, 6)
        cols, want, over = {}, {}, {}
        for i in range(s.range(1, 4)):
            k = "k%d" % i
            if s.chance(1, 2):
                cols[k] = [float(s.draw(9)) for _ in range(n)]
                kind = s.pick(["", "bucketized_float", "float", "raw_float", "string"])
                want[k] = {"": "bucketized_float", "float": "raw_float"}.get(kind, kind)
            else:
                cols[k] = [s.pick(["a", "b", "c"]) for _ in range(n)]
                kind = s.pick(["", "string"])
                want[k] = "string"
            if kind:
                over[k] = kind
        ctx.describe("%r with %r" % (cols, over))
        ctx.nontrivial(over)
        st = gbdt.DataLoader.from_df(Frame(cols), over)
        check(sorted(st.cols()) == sorted(cols), "columns", lambda: "the store has %r of the frame's %r" % (sorted(st.cols()), sorted(cols)))
        for k, kind in want.items():
            check(st._data_store.get_column_type(k) == kind, "type", lambda: "%s is %s, not %s" % (k, st._data_store.get_column_type(k), kind))
            got = list(st[k])
            if kind == "string" and not isinstance(cols[k][0], str):
                check([float(x) for x in got] == cols[k], "values", lambda: "%s reads %r, not %r" % (k, got, cols[k]))
            else:
                check(same_list(got, cols[k]), "values", lambda: "%s reads %r, not %r" % (k, got, cols[k]))
        # and back
        df = st.to_df()
        check(sorted(df.cols) == sorted(cols) and all(same_list(df.cols[k], list(st[k])) for k in cols), "to_df", "to_df() differs")
    finally:
        if old is None:
            del sys.modules["pandas"]
        else:
            sys.modules["pandas"] = old


if __name__ == "__main__":
    pbt.main(init)
