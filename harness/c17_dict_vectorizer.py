"""C17: mappings to columns"""
from collections import OrderedDict, UserDict
from collections.abc import Mapping
from types import MappingProxyType

from harness.lib import *

BOUNDS = ("vocabularies of 1-4 names (plain and name-separator-value) with columns in any order; 0-3 records of 0-3 entries, "
          "every choice of known and unknown names, all real and small integer values and all strings of up to 2 characters of a "
          "small alphabet; separators of 0-2 characters; dense and sparse output, float and int output type; "
          "dicts and other mappings")
ASSUMPTIONS = ["arithmetic is idealised as real arithmetic", "no record names the same column twice"]


class Other(Mapping):
    """a mapping that is no dict"""

    def __init__(self, items):
        self.items_ = list(items)

    def __getitem__(self, k):
        for t, v in self.items_:
            if t == k:
                return v
        raise KeyError(k)

    def __iter__(self):
        return iter([t for t, _ in self.items_])

    def __len__(self):
        return len(self.items_)


def vectoriser(vocab, sparse_out, dtype=float, separator="="):
    names = [None] * len(vocab)
    for k, v in vocab.items():
        names[v] = k
    return make("DictVectorizer", vocabulary_=dict(vocab), feature_names_=names, sparse=sparse_out, dtype=dtype, separator=separator)


def vocabulary(ctx, names):
    left = list(range(len(names)))
    v = {}
    for i, t in enumerate(names):
        c = ctx.choice("column%d" % i, left) if len(left) > 1 else left[0]
        left = [j for j in left if j != c]
        v[t] = c
    return v


def ordered(ctx, items, rev):
    items = [i for i in items if i is not None]
    return items[::-1] if rev else items


def check(ctx, vocab, X, want, dtype=float, separator="=", one=False):
    """want: dense rows"""
    from pure_sklearn.utils import issparse, shape
    f = len(vocab)
    S = convert(vectoriser(vocab, True, dtype, separator)).transform(X)
    D = convert(vectoriser(vocab, False, dtype, separator)).transform(X)
    ctx.ensure(issparse(S), "sparse output is dense")
    ctx.ensure(not issparse(D) and isinstance(D, list), "dense output is sparse")
    ctx.eq(list(shape(S)), [len(want), f], "shape of sparse output")
    ctx.ensure(S.dtype is dtype, "type of absent entries")
    ctx.eq(S.todense(), want, "sparse output")
    ctx.eq(D, want, "dense output")


def numbers(ctx, names, known, n, rev):
    """numeric values under known and unknown names"""
    vocab = vocabulary(ctx, known)
    X, want = [], []
    for i in range(n):
        row = [0.0] * len(known)
        items = []
        for j, t in enumerate(names):
            if ctx.bool("has%d_%d" % (i, j)):
                v = ctx.real("v%d_%d" % (i, j))
                items.append((t, v))
                if t in vocab:
                    row[vocab[t]] = v
        X.append(dict(items[::-1] if rev else items))
        want.append(row)
    check(ctx, vocab, X, want)


def mixed(ctx, n):
    """numbers, integers and strings under the same names"""
    vocab = vocabulary(ctx, ["a", "b=x", "b=y", "b"])
    X, want = [], []
    for i in range(n):
        row = [0.0] * 4
        r = {}
        for t in ("a", "b", "c"):
            kind = ctx.choice("kind%d_%s" % (i, t), ["none", "number", "x", "z"] if t != "b" else ["none", "number", "int", "flag", "x", "y", "z", "empty"])
            if kind == "none":
                continue
            if kind in ("number", "int", "flag"):
                v = (ctx.real("v%d_%s" % (i, t)) if kind == "number" else ctx.int("i%d_%s" % (i, t), -5, 5) if kind == "int"
                     else ctx.bool("f%d_%s" % (i, t)))
                r[t] = v
                name, w = t, v
            else:
                s = "" if kind == "empty" else kind
                r[t] = s
                name, w = t + "=" + s, 1.0
            if name in vocab:
                row[vocab[name]] = w
        X.append(r)
        want.append(row)
    check(ctx, vocab, X, want)


def strings(ctx, separator, vlen, nlen):
    """any name and any string value against a vocabulary"""
    letters = ["a", "b", "aa", "b" + separator + "a", "a" + separator + "ab", "ab" + separator + "b", "a" + separator]
    known = []
    for t in letters:
        if t not in known:
            known.append(t)
    vocab = {t: (3 * i + 1) % len(known) for i, t in enumerate(known)} if len(known) % 3 else {t: i for i, t in enumerate(known)}
    name = ctx.str("name", nlen, "ab=")
    val = ctx.str("val", vlen, "ab=")
    row = [0.0] * len(known)
    for t in known:
        if name + separator + val == t:
            row[vocab[t]] = 1.0
    check(ctx, vocab, [{name: val}], [row], separator=separator)
    row = [0.0] * len(known)
    x = ctx.real("x")
    for t in known:
        if name == t:
            row[vocab[t]] = x
    check(ctx, vocab, [{name: x}], [row], separator=separator)


def single(ctx, rev):
    """a mapping on its own is one record"""
    vocab = vocabulary(ctx, ["a", "b", "c=x"])
    items = [("a", ctx.real("a")), ("c", ctx.choice("c", ["x", "y"])), ("d", ctx.real("d")), ("b", ctx.real("b"))]
    keep = [i for i in items if ctx.bool("has_" + i[0])]
    if rev:
        keep = keep[::-1]
    row = [0.0] * 3
    for t, v in keep:
        if t == "c":
            t, v = "c=" + v, 1.0
        if t in vocab:
            row[vocab[t]] = v
    kind = ctx.choice("kind", ["dict", "ordered", "view", "user", "other", "list", "tuple", "list of views"])
    r = OrderedDict(keep) if kind == "ordered" else UserDict(keep) if kind == "user" else Other(keep) if kind == "other" else dict(keep)
    if "view" in kind:
        r = MappingProxyType(r)
    X = [r] if kind.startswith("list") else (r,) if kind == "tuple" else r
    check(ctx, vocab, X, [row])


def whole(ctx):
    """integer output"""
    vocab = vocabulary(ctx, ["a", "b", "c=x"])
    X, want = [], []
    for i in range(2):
        r = {"a": ctx.int("a%d" % i, -9, 9)}
        row = [0, 0, 0]
        row[vocab["a"]] = r["a"]
        if ctx.bool("c%d" % i):
            r["c"] = "x"
            row[vocab["c=x"]] = 1
        X.append(r)
        want.append(row)
    check(ctx, vocab, X, want, dtype=int)


def given(ctx):
    """the records are left as they were"""
    vocab = vocabulary(ctx, ["a", "b=x"])
    a, c = ctx.real("a"), ctx.real("c")
    X = [{"a": a, "b": "x"}, {"c": c}]
    m = convert(vectoriser(vocab, ctx.bool("sparse")))
    m.transform(X)
    ctx.ensure(len(X) == 2 and list(X[0]) == ["a", "b"] and list(X[1]) == ["c"], "records changed")
    ctx.eq([X[0]["a"], X[0]["b"], X[1]["c"]], [a, "x", c], "records")


def cases(tier):
    deep = tier == "thorough"
    out = []
    for rev in (False, True):
        for n in (1, 2):
            out.append(("numbers", dict(names=["a", "b", "zz"], known=["a", "b"], n=n, rev=rev)))
        out.append(("numbers", dict(names=["a", "d", "c", "b"], known=["b", "c", "a"], n=1, rev=rev)))
        out.append(("numbers", dict(names=["a"], known=["a"], n=3, rev=rev)))
        out.append(("single", dict(rev=rev)))
        if deep:
            out.append(("numbers", dict(names=["a", "d", "c", "b"], known=["b", "c", "a", "e"], n=1, rev=rev)))
            out.append(("numbers", dict(names=["a", "zz", "b"], known=["b", "a"], n=3, rev=rev)))
    out.append(("mixed", dict(n=1)))
    for sep in ("=", "", "ab", ": "):
        for nlen in (1, 2):
            for vlen in (0, 1, 2):
                out.append(("strings", dict(separator=sep, vlen=vlen, nlen=nlen)))
    if deep:
        out.append(("mixed", dict(n=2), dict(max_paths=60000)))
        for sep in ("=", "a"):
            out.append(("strings", dict(separator=sep, vlen=3, nlen=3)))
    many = ["n%d" % i for i in range(200)]
    for names, known, n in ((many, many[20:150], 2), (["b", "a", "zz"], ["a", "b"], 200), (many[:6], many, 3)):
        for rev in (False, True):
            free = {"free": ["has0_1", "v0_1", "v%d_0" % (n - 1), "has%d_0" % (n - 1), "v0_30", "has0_30"]}
            out.append(("numbers", dict(names=names, known=known, n=n, rev=rev), free))
    out.append(("mixed", dict(n=150), {"free": ["v0_a", "v149_b", "kind149_b", "i0_b"]}))
    out.append(("whole", {}))
    out.append(("given", {}))
    return out
