"""C25: drawings and plots show the forest that is given."""
import json, math, os, sys, types
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy
import pygbdt
from pygbdt import NAN, same, same_list, f32
import pbt
from pbt import prop, check, fail

gbdt = lib = None


def init():
    global gbdt, lib
    gbdt, lib = pygbdt.load()


class Modules:
    """Stand-ins for packages that are not installed (or None: the package is missing), while a case runs."""

    def __init__(self, **mods):
        self.mods = {k.replace("__", "."): v for k, v in mods.items()}

    def __enter__(self):
        self.old = {k: sys.modules.get(k, self) for k in self.mods}
        sys.modules.update(self.mods)

    def __exit__(self, *_):
        for k, v in self.old.items():
            if v is self:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


# ----------------------------------------------------------------------------------------------------------- the forests

NAMES = ["f0", "g", "income", "a b", "{x}", "%s", "\u00e9", "p:q", "the number of days since " * 6]
LONG = "a category with a name that goes on and on, "
CATS = ["", "a", "b", "c", "x y", "{0}", "\u6f22", "__missing__", LONG + "1", LONG * 8 + "2", "A", "a "]


def gen_table(s, n, features):
    t = {}
    for k in features:
        if s.chance(1, 2):
            pool = [s.pick(CATS) for _ in range(3)]
            t[k] = [s.pick(pool) for _ in range(n)]
        else:
            t[k] = [NAN if s.chance(1, 5) else f32(s.range(-16, 16) / 4.0) for _ in range(n)]
    return t


def gen_score(s):
    k = s.weighted([4, 1, 1, 1])
    if k == 0:
        return f32(s.range(-40, 40) / 8.0)
    if k == 1:
        return f32(s.range(-(1 << 24), 1 << 24) / 1048576.0)
    return f32(s.pick([0.0, 1e-7, -1e-7, 123456.789, -1e10, 5e-7])) if k == 2 else 0.0


def gen_forest(s, t, trees, depth=4):
    def node(d):
        nd = {"score": gen_score(s)}
        if d and s.chance(2, 3):
            k = s.pick(sorted(t))
            if isinstance(t[k][0], str):
                nd["split"] = {"feature": k, "catSplit": {"category": [s.pick(CATS) for _ in range(s.range(0, 3))]}}
            else:
                nd["split"] = {"feature": k, "floatSplit": {"threshold": f32(s.range(-20, 20) / 4.0 if s.chance(3, 4) else s.range(-9999, 9999) / 1000.0)}}
                if s.chance(1, 2):
                    nd["split"]["floatSplit"]["missingToRightChild"] = s.chance(1, 2)
            nd["split"]["gain"] = float(s.range(0, 99))
            nd["leftChild"], nd["rightChild"] = node(d - 1), node(d - 1)
        return nd
    return {"tree": [node(depth) for _ in range(trees)]}


def make_store(t, raw=None):
    d = gbdt.DataStore(lib.DataStore())
    for k, v in t.items():
        if isinstance(v[0], str):
            d.add_string_col(k, v)
        else:
            d.add_bucketized_float_col(k, v)
    if raw:
        d.add_raw_float_col("raw", raw)
    return d


# ------------------------------------------------------------------------------------------------------- drawings of trees

class Digraph:
    def __init__(self, *a, **kw):
        self.nodes, self.edges = [], []

    def node(self, name, label=None, *a, **kw):
        self.nodes.append((name, label))

    def edge(self, tail, head, *a, **kw):
        self.edges.append((tail, head))


def number(text, want, digits, what, label):
    try:
        got = float(text)
    except ValueError:
        fail("label", "%s: no number in %r" % (what, label))
    check(abs(got - want) <= 0.50001 * 10.0 ** -digits + 1e-7 * abs(want), "label", lambda: "%s: %r says %r for %r" % (what, label, got, want))


def check_label(label, node, what):
    if "leftChild" not in node:
        number(label, f32(float(node["score"])), 6, what + ", leaf", label)
        return
    sp = node["split"]
    at = label.rfind("\\n")
    check(at >= 0, "label", lambda: "%s: one line for a division: %r" % (what, label))
    desc, score = label[:at], label[at + 2:]
    number(score, f32(float(node["score"])), 6, what + ", inner node", label)
    check(desc.startswith(sp["feature"] + " "), "label", lambda: "%s: %r does not name %r" % (what, label, sp["feature"]))
    rest = desc[len(sp["feature"]) + 1:]
    if "catSplit" in sp:
        want = "in {" + ", ".join(sp["catSplit"]["category"]) + "}"
        check(rest == want, "label", lambda: "%s: %r for categories %r" % (what, label, sp["catSplit"]["category"]))
        return
    op, _, number_text = rest.partition(" ")
    check(op.count("*") == 1 and "<" in op, "label", lambda: "%s: %r does not say where missing values go" % (what, label))
    right = op.index("*") > op.index("<")
    check(right == bool(sp["floatSplit"].get("missingToRightChild")), "label", lambda: "%s: %r for %r" % (what, label, sp["floatSplit"]))
    number(number_text, f32(float(sp["floatSplit"]["threshold"])), 3, what, label)


def check_drawing(g, tree, what):
    labels = {}
    for name, label in g.nodes:
        check(name not in labels, "nodes", lambda: "%s: node %r is drawn twice" % (what, name))
        labels[name] = label
    children, heads = {}, set()
    for tail, head in g.edges:
        check(tail in labels and head in labels, "edges", lambda: "%s: edge %r without node" % (what, (tail, head)))
        check(head not in heads, "edges", lambda: "%s: two edges to %r" % (what, head))
        heads.add(head)
        children.setdefault(tail, []).append(head)
    roots = [n for n in labels if n not in heads]
    check(len(roots) == 1, "edges", lambda: "%s: roots %r" % (what, roots))
    seen = 0
    todo = [(roots[0], tree)]
    while todo:
        name, node = todo.pop()
        seen += 1
        check_label(labels[name], node, what)
        kids = children.get(name, [])
        if "leftChild" in node:
            check(len(kids) == 2, "edges", lambda: "%s: %d edges from a division" % (what, len(kids)))
            todo += [(kids[0], node["leftChild"]), (kids[1], node["rightChild"])]
        else:
            check(not kids, "edges", lambda: "%s: edges from a leaf" % what)
    check(seen == len(labels), "nodes", lambda: "%s: %d nodes drawn, the tree has %d" % (what, len(labels), seen))


@prop("drawings", 4)
def drawings(s, ctx):
    n = s.range(1, 12)
    names = [s.pick(NAMES) for _ in range(s.range(1, 3))]
    t = gen_table(s, n, dict.fromkeys(names))
    if s.chance(1, 3):
        # a forest learned here
        y = [s.range(-8, 8) / 4.0 for _ in range(n)]
        c = {"loss_func": "mse", "num_trees": s.range(1, 3), "num_leaves": s.range(1, 6), "shrinkage": 0.5}
        f = gbdt.train(make_store(t), c, y=y, features=sorted(t), random_seed=3, num_threads=2)
    else:
        f = gbdt.Forest(json.dumps(gen_forest(s, t, s.range(1, 4), s.range(0, 4))))
    m = json.loads(str(f))
    ctx.describe("%s" % json.dumps(m.get("tree")))
    ctx.nontrivial(any("leftChild" in tr for tr in m["tree"]))
    before = str(f)
    v = gbdt.ForestVisualizer(f if s.chance(1, 2) else json.loads(before))
    check(v.num_trees() == len(m["tree"]), "num-trees", lambda: "%d trees, not %d" % (v.num_trees(), len(m["tree"])))
    graphviz = types.ModuleType("graphviz")
    graphviz.Digraph = Digraph
    drawn = set()
    with Modules(graphviz=graphviz):
        for i in [s.draw(len(m["tree"])) for _ in range(s.range(1, 4))]:
            g = v.visualize_tree(i)
            check(isinstance(g, Digraph), "drawing", "no drawing is returned")
            check_drawing(g, m["tree"][i], "tree %d" % i)
            drawn.add(i)
        try:
            v.visualize_tree(len(m["tree"]) + s.draw(3))
            fail("beyond", "a tree beyond the last is drawn")
        except IndexError:
            pass
    with Modules(graphviz=None):
        try:
            v.visualize_tree(0)
            fail("package", "a tree is drawn without graphviz")
        except ImportError:
            pass
    check(str(f) == before, "unchanged", "drawing changed the forest")


# --------------------------------------------------------------------------------------------------------------- the plots

class Recorder:
    """Accepts any call and remembers it."""

    def __init__(self, calls):
        self.calls = calls

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        def call(*a, **kw):
            self.calls.append((name, a, kw))
            if name == "subplots":
                return Recorder(self.calls), Recorder(self.calls)
            if name in ("gca", "gcf", "figure", "subplot"):
                return Recorder(self.calls)
        return call


def pyplot(calls):
    plt = types.ModuleType("matplotlib.pyplot")
    plt.__getattr__ = Recorder(calls).__getattr__
    mat = types.ModuleType("matplotlib")
    mat.pyplot = plt
    return Modules(matplotlib=mat, matplotlib__pyplot=plt)


def args_of(calls, name):
    return [c for c in calls if c[0] == name]


def near(a, b, scale):
    return abs(a - b) <= 1e-6 * (abs(a) + abs(b)) + 1e-9 * scale


def snapshot(st):
    return [(k, st._data_store.get_column_type(k), [x if x == x else "nan" for x in list(st[k])]) for k in sorted(st.cols())]


@prop("dependency", 4)
def dependency(s, ctx):
    """The mean change of the score, and its spread, when a feature of every row is set to a value."""
    n = s.range(1, 9)
    t = gen_table(s, n, dict.fromkeys(s.pick(NAMES) for _ in range(s.range(1, 3))))
    if s.chance(1, 12):
        # more rows, in no order
        r = s.range(10, 1500)
        at = [(i * i + 7 * i // 3) % n for i in range(r)]
        t, n = {k: [v[i] for i in at] for k, v in t.items()}, r
    m = gen_forest(s, t, s.range(1, 4), 3)
    for tr in m["tree"]:
        for nd in pygbdt.nodes(tr):
            nd["score"] = f32(s.range(-80, 80) / 16.0)
    f = gbdt.Forest(json.dumps(m))
    st = make_store(t, [1.0] * n)
    used = sorted(set(nd["split"]["feature"] for tr in m["tree"] for nd in pygbdt.nodes(tr) if "leftChild" in nd))
    k = s.pick(used if used and s.chance(3, 4) else sorted(t))
    cat = isinstance(t[k][0], str)
    log = False
    if cat:
        x = list(dict.fromkeys(s.pick(CATS) for _ in range(s.range(1, 5))))
        if s.chance(1, 4):
            # a value that is asked for twice has two bars
            x.insert(s.draw(len(x) + 1), s.pick(x))
        x0 = s.pick([None] + CATS)
        base = x[0] if x0 is None else x0
    else:
        log = s.chance(1, 4)
        x = [f32(s.range(1, 60) / 8.0) if log else f32(s.range(-40, 40) / 8.0) for _ in range(s.range(1, 6) if s.chance(9, 10) else s.range(7, 60))]
        x0 = s.pick([None, NAN, 0.0, 1.0, -2.5])
        base = NAN if x0 is None else x0
    ctx.describe("%r of %r at %r from %r by %s" % (k, t, x, x0, json.dumps(m)))

    def scores(v):
        return pygbdt.predict(m, dict(t, **{k: [v] * n}), n)
    ref = scores(base)
    stats = {}
    for v in x:
        d = [a - b for a, b in zip(scores(v), ref)]
        mean = math.fsum(d) / n
        stats[v] = (mean, math.sqrt(math.fsum((e - mean) ** 2 for e in d) / n))
    scale = max([abs(v) for tr in m["tree"] for nd in pygbdt.nodes(tr) for v in [nd["score"]]] + [1e-3]) * len(m["tree"]) * 10
    ctx.nontrivial(len(set(p[0] for p in stats.values())) > 1)
    ctx.label("categorical" if cat else "log scale" if log else "float")
    before, text = snapshot(st), str(f)
    given = list(x)
    calls = []
    with pyplot(calls):
        kw = {} if x0 is None and s.chance(1, 2) else {"x0": x0}
        if log:
            kw["log_scale"] = True
        gbdt.plot_partial_dependency(f, st, k, x, **kw)
    check(snapshot(st) == before, "unchanged", "plotting changed the data")
    check(str(f) == text, "unchanged", "plotting changed the forest")
    check(same_list(x, given), "unchanged", "plotting changed the list of values")
    check([c for c in calls if c[0] in ("set_xlabel", "xlabel") and k in str(c[1][0])], "axis", lambda: "the axis does not name %r: %r" % (k, args_of(calls, "set_xlabel")))
    check(args_of(calls, "show"), "show", "the plot is not shown")
    if cat:
        bars = args_of(calls, "bar")
        check(len(bars) == 1, "bars", lambda: "%d calls of bar" % len(bars))
        pos, heights = list(bars[0][1][0]), list(bars[0][1][1])
        err = list(bars[0][2]["yerr"])
        names = list((args_of(calls, "set_xticklabels") or [(0, [[]])])[-1][1][0])
        check(len(pos) == len(heights) == len(err) == len(names) == len(x) and sorted(names) == sorted(x), "bars", lambda: "%r bars %r labels %r for %r" % (pos, heights, names, x))
        check(all(pos[i] < pos[i + 1] for i in range(len(pos) - 1)), "bars", lambda: "positions %r" % pos)
        check(all(heights[i] <= heights[i + 1] + 1e-9 * scale for i in range(len(pos) - 1)), "order", lambda: "the bars are not ordered: %r" % heights)
        for i, v in enumerate(names):
            check(near(heights[i], stats[v][0], scale), "mean", lambda: "%r: bar of %r, the scores change by %r" % (v, heights[i], stats[v][0]))
            check(near(err[i], stats[v][1], scale), "spread", lambda: "%r: spread %r, not %r" % (v, err[i], stats[v][1]))
        return
    xs = sorted(x)
    want_x = [math.log(v) for v in xs] if log else xs
    curves = args_of(calls, "plot")
    curve = [c for c in curves if any(abs(v) > 0 for v in c[1][1])] or curves
    check(curve, "curve", "no curve is plotted")
    px, py = list(curve[0][1][0]), list(curve[0][1][1])
    check(len(px) == len(py) == len(xs) and all(near(a, b, 1) for a, b in zip(px, want_x)), "axis", lambda: "x values %r, not %r" % (px, want_x))
    for i, v in enumerate(xs):
        check(near(py[i], stats[v][0], scale), "mean", lambda: "%r: %r plotted, the scores change by %r" % (v, py[i], stats[v][0]))
    bands = args_of(calls, "fill_between")
    check(len(bands) == 1, "band", lambda: "%d bands" % len(bands))
    bx, lo, hi = (list(a) for a in bands[0][1][:3])
    check(len(bx) == len(lo) == len(hi) == len(xs) and all(near(a, b, 1) for a, b in zip(bx, want_x)), "axis", lambda: "the band lies over %r, not %r" % (bx, want_x))
    for i, v in enumerate(xs):
        mean, std = stats[v]
        check(near(lo[i], mean - 1.96 * std, scale) and near(hi[i], mean + 1.96 * std, scale), "band",
              lambda: "%r: band from %r to %r, mean %r and deviation %r" % (v, lo[i], hi[i], mean, std))


@prop("requests", 1)
def requests(s, ctx):
    """Plots of what is not there are refused, and without the packages nothing is plotted."""
    n = s.range(1, 4)
    t = gen_table(s, n, ["f0", "g"])
    f = gbdt.Forest(json.dumps(gen_forest(s, t, 2, 2)))
    st = make_store(t, [1.0] * n)
    before = snapshot(st)
    calls = []
    k = s.pick(["nosuch", "raw", "F0", ""])
    ctx.nontrivial(True)
    ctx.describe("plot of %r" % k)
    with pyplot(calls):
        try:
            gbdt.plot_partial_dependency(f, st, k, [1.0])
            fail("refused", "a plot of column %r" % k)
        except ValueError:
            pass
    check(not args_of(calls, "show"), "refused", "a plot is shown all the same")
    with Modules(matplotlib=None, matplotlib__pyplot=None):
        for what in (lambda: gbdt.plot_partial_dependency(f, st, "f0", [1.0]), f.feature_importance_bar_chart):
            try:
                what()
                fail("package", "plotted without matplotlib")
            except ImportError:
                pass
    check(snapshot(st) == before, "unchanged", "a refused plot changed the data")


@prop("importances", 2)
def importances(s, ctx):
    n = 2
    t = gen_table(s, n, dict.fromkeys(s.pick(NAMES) for _ in range(s.range(1, 6))))
    m = gen_forest(s, t, s.range(1, 4), 3)
    f = gbdt.Forest(json.dumps(m))
    ctx.describe(json.dumps(m))
    gains = {}
    for tr in m["tree"]:
        for nd in pygbdt.nodes(tr):
            if "leftChild" in nd:
                gains[nd["split"]["feature"]] = gains.get(nd["split"]["feature"], 0) + nd["split"]["gain"]
    ctx.nontrivial(len(gains) > 1)
    calls = []
    with pyplot(calls):
        f.feature_importance_bar_chart()
    bars = args_of(calls, "barh")
    check(len(bars) == 1, "bars", lambda: "%d calls of barh" % len(bars))
    pos, widths = list(bars[0][1][0]), list(bars[0][1][1])
    ticks = list((args_of(calls, "set_yticks") or [(0, [[]])])[-1][1][0])
    names = list((args_of(calls, "set_yticklabels") or [(0, [[]])])[-1][1][0])
    check(len(pos) == len(widths) == len(ticks) == len(names) == len(gains) and ticks == pos and sorted(names) == sorted(gains),
          "bars", lambda: "bars %r at %r with labels %r at %r for %r" % (widths, pos, names, ticks, gains))
    check(all(pos[i] > pos[i + 1] for i in range(len(pos) - 1)), "order", lambda: "the first is not on top: %r" % pos)
    top = max(gains.values()) if gains else 0
    for k, w in zip(names, widths):
        if top > 0:
            check(near(w, gains[k] / top, 1), "width", lambda: "%r: bar of %r, not %r" % (k, w, gains[k] / top))


pbt.main(init)
