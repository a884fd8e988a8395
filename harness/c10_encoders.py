"""C10: one-hot and ordinal encoding"""
from harness.lib import *

BOUNDS = ("1-3 features of 1-3 categories each: any increasing real categories, integer codes or strings of up to 2 "
          "letters; 1-2 records of any real, integer or string values (known or unknown), sparse or dense output, float or "
          "integer output type")
ASSUMPTIONS = ["categories of one feature are distinct, as fitting makes them; missing (NaN) categories are left out"]


def columns(ctx, kinds, sizes):
    """fitted categories, one list per feature"""
    out = []
    for i in range(len(sizes)):
        n = sizes[i]
        if kinds[i] == "real":
            c = reals(ctx, "c%d_" % i, n)
            for a, b in zip(c, c[1:]):
                ctx.assume(a + 0.01 < b)
        elif kinds[i] == "int":
            c = [10 * i + 2 * a for a in range(n)]
        else:
            # (string categories need not be in order: the user may name them)
            c = (["a", "ab", "b"] if i % 2 else ["b", "a", "ab"]) if n <= 3 else ["%s%s" % (a, b) for a in "abcdefghijkl" for b in ["", "a", "b", "c", "d"]]
            c = c[:n] if i % 2 or n <= 3 else c[:n][::-1]
        out.append(c)
    return out


def cell(ctx, name, kind, n):
    if kind == "real":
        return ctx.real(name)
    if kind == "int":
        return ctx.int(name, 0, 30 if n <= 3 else 9 + 2 * n)
    return ctx.str(name, ctx.choice(name + "_len", [1, 2]), "abc" if n <= 3 else "abcdefghij")


def position(ctx, cats, v):
    for i in range(len(cats)):
        if v == cats[i]:
            return i
    return None


def setup(ctx, kinds, sizes, n):
    cats = columns(ctx, kinds, sizes)
    X = [[cell(ctx, "x%d_%d" % (i, j), kinds[j], sizes[j]) for j in range(len(kinds))] for i in range(n)]
    pos = [[position(ctx, cats[j], x[j]) for j in range(len(kinds))] for x in X]
    return cats, X, pos


def onehot(ctx, kinds, sizes, n, sparse, unknown, dtype="float"):
    cats, X, pos = setup(ctx, kinds, sizes, n)
    dt = float if dtype == "float" else int
    m = convert(make("OneHotEncoder", dtype=dt, sparse=sparse, drop=None, handle_unknown=unknown, categories="auto",
                     categories_=[Arr(list(c)) for c in cats]))
    if unknown == "error" and any(p is None for r in pos for p in r):
        ctx.ensure(raises(lambda: m.transform([list(x) for x in X])), "unknown category encoded")
        return
    total = sum(sizes)
    want = []
    for r in pos:
        row = [0] * total
        at = 0
        for j in range(len(sizes)):
            if r[j] is not None:
                row[at + r[j]] = 1
            at += sizes[j]
        want.append(row)
    got = m.transform([list(x) for x in X])
    if sparse:
        from pure_sklearn.utils import issparse, shape
        ctx.ensure(issparse(got), "dense result")
        ctx.eq(list(shape(got)), [n, total], "shape")
        ctx.eq([{k: v for k, v in r.items()} for r in got],
               [{k: 1 for k in range(total) if w[k] == 1} for w in want], "encoded")
        got = got.todense()
    ctx.eq(got, want, "encoded")
    for r in got:
        for v in r:
            ctx.ensure(type(v) is dt, "type of encoded values")


def ordinal(ctx, kinds, sizes, n, dtype="float"):
    cats, X, pos = setup(ctx, kinds, sizes, n)
    dt = float if dtype == "float" else int
    m = convert(make("OrdinalEncoder", dtype=dt, categories="auto", categories_=[Arr(list(c)) for c in cats]))
    if any(p is None for r in pos for p in r):
        ctx.ensure(raises(lambda: m.transform([list(x) for x in X])), "unknown category encoded")
        return
    ctx.eq(m.transform([list(x) for x in X]), pos, "encoded")


def alike(ctx, kind):
    """values that look like a category but equal none, or equal one of another type"""
    cats = ctx.choice("cats", [[1, 2, 3], [1.0, 2.5], ["1", "2"], ["1.0", "True"], [False, True], ["a", " a"]])
    v = ctx.choice("value", [1, 1.0, True, "1", "1.0", "True", 2.5, "2.5", " a", "a", "a ", "A", None, "None"])
    other = ctx.choice("other", cats)
    pos = position(ctx, cats, v)
    rest = position(ctx, cats, other)
    X = [[v], [other]]
    if kind == "OrdinalEncoder":
        m = convert(make(kind, dtype=float, categories="auto", categories_=[Arr(cats)]))
        if pos is None:
            ctx.ensure(raises(lambda: m.transform(X)), "unknown category encoded")
        else:
            ctx.eq(m.transform(X), [[pos], [rest]], "encoded")
        return
    m = convert(make(kind, dtype=float, sparse=False, drop=None, handle_unknown="ignore", categories="auto", categories_=[Arr(cats)]))
    ctx.eq(m.transform(X), [[1 if i == p else 0 for i in range(len(cats))] for p in (pos, rest)], "encoded")


def odd(ctx, kind):
    """unknown values that are no strings, among known ones"""
    v = ctx.choice("value", [None, 0, 1, True, 0.5, "", "A", "aa", b"a", ("a",)])
    at = ctx.choice("at", [(0, 0), (0, 1), (1, 0)])
    X = [["b", "a"], ["a", "ab"]]
    X[at[0]][at[1]] = v
    cats = [["b", "a"], ["a", "ab"]]
    if kind == "OrdinalEncoder":
        m = convert(make(kind, dtype=float, categories="auto", categories_=[Arr(c) for c in cats]))
        ctx.ensure(raises(lambda: m.transform([list(x) for x in X])), "unknown category encoded")
        return
    sparse, unknown = ctx.bool("sparse"), ctx.choice("unknown", ["error", "ignore"])
    m = convert(make(kind, dtype=float, sparse=sparse, drop=None, handle_unknown=unknown, categories="auto",
                     categories_=[Arr(c) for c in cats]))
    if unknown == "error":
        ctx.ensure(raises(lambda: m.transform([list(x) for x in X])), "unknown category encoded")
        return
    got = m.transform([list(x) for x in X])
    want = [[1.0 if X[i][j] == c else 0.0 for j in range(2) for c in cats[j]] for i in range(2)]
    ctx.eq(got.todense() if sparse else got, want, "encoded")


def width(ctx, kind):
    f = ctx.choice("f", [1, 2, 3])
    g = ctx.choice("g", [1, 2, 3, 4])
    ctx.assume(f != g)
    extra = dict(sparse=ctx.bool("sparse"), handle_unknown=ctx.choice("unknown", ["error", "ignore"]), drop=None)
    m = convert(make(kind, dtype=float, categories="auto", categories_=[Arr(["a", "b"])] * f, **(extra if kind[1] == "n" else {})))
    X = [["a", "b", "a", "b"][:g], ["b", "b", "b", "a"][:g]]
    ctx.ensure(raises(lambda: m.transform(X)), "records of the wrong width encoded")
    ctx.ensure(raises(lambda: m.transform([])), "empty input encoded")


def cases(tier):
    deep = tier == "thorough"
    out = []
    S, R, N = "str", "real", "int"
    sets = [([S], [3], 1), ([R], [3], 1), ([N], [3], 1), ([R], [1], 1), ([S], [2], 2), ([R], [2], 2), ([R, R], [2, 3], 1),
            ([N, S], [1, 3], 1), ([S, S], [3, 2], 1), ([R, S], [3, 1], 1), ([N, N, N], [2, 3, 1], 1), ([R, N], [2, 2], 2)]
    if deep:
        sets += [([S, S], [2, 3], 2), ([R, R, R], [2, 1, 3], 1), ([R, R], [3, 3], 2), ([N, R, S], [3, 3, 2], 1),
                 ([R], [3], 3), ([S, N], [3, 3], 2)]
    for kinds, sizes, n in sets:
        for sparse in (True, False):
            for unknown in ("error", "ignore"):
                out.append(("onehot", dict(kinds=kinds, sizes=sizes, n=n, sparse=sparse, unknown=unknown)))
        out.append(("ordinal", dict(kinds=kinds, sizes=sizes, n=n)))
    for sparse in (True, False):
        out.append(("onehot", dict(kinds=[N, S], sizes=[2, 2], n=1, sparse=sparse, unknown="ignore", dtype="int")))
    out.append(("ordinal", dict(kinds=[N, S], sizes=[2, 2], n=1, dtype="int")))
    for kinds, sizes, n in (([N], [130], 1), ([S], [40], 1), ([N, S], [70, 12], 2), ([N, N] * 30, [2, 5] * 30, 2), ([N, S], [2, 3], 200)):
        free = {"free": ["x0_0", "x%d_%d" % (n - 1, len(kinds) - 1)]}
        for sparse in (True, False):
            for unknown in ("error", "ignore"):
                out.append(("onehot", dict(kinds=kinds, sizes=sizes, n=n, sparse=sparse, unknown=unknown), free))
        out.append(("ordinal", dict(kinds=kinds, sizes=sizes, n=n), free))
    for kind in ("OneHotEncoder", "OrdinalEncoder"):
        out.append(("width", dict(kind=kind)))
        out.append(("odd", dict(kind=kind)))
        out.append(("alike", dict(kind=kind)))
    return out
