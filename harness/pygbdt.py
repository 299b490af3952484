"""Loads the Python package around the module built for the check, and what the Python harnesses share."""
import importlib.machinery, importlib.util, json, math, os, struct, sys, types

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
sys.dont_write_bytecode = True
import pbt

NAN = float("nan")


def load():
    """The gbdt package, with the extension module that the check built in the place the package expects it."""
    so = os.environ["LIBGBDT_SO"]
    loader = importlib.machinery.ExtensionFileLoader("libgbdt", so)
    spec = importlib.util.spec_from_file_location("libgbdt", so, loader=loader)
    lib = importlib.util.module_from_spec(spec)
    loader.exec_module(lib)
    sys.modules["libgbdt"] = lib
    if "six" not in sys.modules:
        six = types.ModuleType("six")
        six.text_type = str
        sys.modules["six"] = six
    stub = types.ModuleType("gbdt._libgbdt")
    stub.libgbdt = lib
    for k in ("init_logging", "BucketizedFloatColumn", "StringColumn", "RawFloatColumn"):
        setattr(stub, k, getattr(lib, k))
    sys.modules["gbdt._libgbdt"] = stub
    sys.path.insert(0, REPO)
    import gbdt
    return gbdt, lib


def f32(v):
    return struct.unpack("<f", struct.pack("<f", v))[0]


def same(a, b):
    """Equal values, and missing exactly where the other one is."""
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    if a != a or b != b:
        return a != a and b != b
    return a == b


def same_list(a, b):
    return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))


FLOATS = [0.0, 1.0, -1.0, 0.5, 2.0, 3.0, -2.5, 100.0, 1e-3, 1e30, -1e30, 1e-40]


def gen_float(s, missing=True):
    k = s.weighted([6, 3, 2 if missing else 0, 1])
    if k == 0:
        return float(s.range(-8, 8)) / 2
    if k == 1:
        return f32(s.pick(FLOATS))
    if k == 2:
        return NAN
    return f32(s.range(-(1 << 20), 1 << 20) / 1024.0)


STRINGS = ["", "a", "b", "c", "red", "green", "__missing__", "nan", "a b", "\u00e9\u00e8", "\u6f22", "x\ty", "l\nn", "'\"\\", "a\0b", "\U0001f600"]


def gen_string(s):
    if s.chance(1, 8):
        return "v%d" % s.draw(500)
    return s.pick(STRINGS)


def route(node, row):
    """The leaf that the raw values of a row lead to."""
    while "leftChild" in node:
        sp = node["split"]
        v = row[sp["feature"]]
        if isinstance(v, str):
            left = v in sp["catSplit"].get("category", [])
        else:
            fs = sp["floatSplit"]
            t = fs.get("threshold", 0)
            t = f32(float(t) if not isinstance(t, str) else float(t.replace("Infinity", "inf")))
            left = (not fs.get("missingToRightChild", False)) if v != v else v < t
        node = node["leftChild"] if left else node.get("rightChild", {})  # a child left out is a leaf of score zero
    return node


def nodes(node):
    yield node
    if "leftChild" in node:
        for c in ("leftChild", "rightChild"):
            for n in nodes(node.get(c, {})):
                yield n


class Sum(float):
    """A sum that knows how large its terms were: where they cancel, rounding shows."""

    def __new__(cls, parts):
        finite = all(math.isfinite(x) for x in parts)
        self = super().__new__(cls, math.fsum(parts) if finite else sum(parts))
        self.slack = 1e-12 * math.fsum(abs(x) for x in parts) if finite else 0.0
        return self


def predict(model, table, n, upto=None):
    """Sum of the leaf scores over the first trees, row by row."""
    out = []
    for i in range(n):
        row = {k: v[i] for k, v in table.items()}
        parts = [f32(float(route(t, row).get("score", 0))) for t in model.get("tree", [])[:upto]]
        out.append(Sum(parts))
    return out


def close(a, b, rel=1e-9, ab=1e-12):
    if a != a or b != b:
        return a != a and b != b
    return a == b or abs(a - b) <= ab + rel * max(abs(a), abs(b))
