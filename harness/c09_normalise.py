"""C09: normalisation of rows and columns"""
from harness.lib import *

NORMS = ["l1", "l2", "max"]
BOUNDS = ("1-3 rows, 1-4 columns, all real entries in [-100,100], every sparsity pattern with stored zeros, three norms, "
          "both directions, with and without returned norms")
ASSUMPTIONS = ["arithmetic and square roots are idealised as real arithmetic"]


def size(v, norm):
    """norm of a list of numbers"""
    t = 0.0
    for a in v:
        b = a if a >= 0 else -a
        if norm == "l1":
            t = t + b
        elif norm == "l2":
            t = t + a * a
        elif b > t:
            t = b
    return math.sqrt(t) if norm == "l2" else t


def unit(v, norm):
    n = size(v, norm)
    if n == 0:
        return list(v), 1.0
    return [a / n for a in v], n


def rows(ctx, f, n, norm, store, through):
    X, D = records(ctx, "x", n, f, store)
    if through == "normalizer":
        got = convert(make("Normalizer", norm=norm, copy=ctx.bool("copy"))).transform(X)
    else:
        from pure_sklearn.preprocessing import normalize_pure
        got = normalize_pure(X) if through == "default" else normalize_pure(X, norm=norm)
    want = [unit(x, norm)[0] for x in D]
    if store == "sparse":
        from pure_sklearn.utils import issparse, shape
        ctx.ensure(issparse(got), "dense result for sparse rows")
        ctx.eq(list(shape(got)), [n, f], "shape")
        ctx.eq([sorted(r.keys()) for r in got], [sorted(r.keys()) for r in X], "stored entries")
        got = got.todense()
    ctx.eq(got, want, "normalised")


def long_row(ctx, f, norm, store, scale):
    """a row of many entries of the same size, two of them any"""
    v = [scale * (j % 5 - 2.5) for j in range(f)]
    v[0], v[f // 2] = ctx.real("first"), ctx.real("middle")
    X = [list(v)]
    if store == "sparse":
        from pure_sklearn.utils import sparse_list
        X = sparse_list([{j: a for j, a in enumerate(v)}], size=f, dtype=float)
    got = convert(make("Normalizer", norm=norm, copy=True)).transform(X)
    ctx.eq(got.todense() if store == "sparse" else got, [unit(v, norm)[0]], "normalised")


def columns(ctx, f, n, norm, norms):
    from pure_sklearn.preprocessing import normalize_pure
    X, D = records(ctx, "x", n, f, "dense")
    pairs = [unit([x[j] for x in D], norm) for j in range(f)]
    want = [[pairs[j][0][i] for j in range(f)] for i in range(n)]
    if norms:
        got, sizes = normalize_pure(X, norm=norm, axis=0, return_norm=True)
        ctx.eq(list(sizes), [p[1] for p in pairs], "norms")
    else:
        got = normalize_pure(X, norm=norm, axis=0)
    ctx.eq(got, want, "normalised columns")


def norms(ctx, f, n, norm, store):
    from pure_sklearn.preprocessing import normalize_pure
    X, D = records(ctx, "x", n, f, store)
    if store == "sparse" and norm != "max":
        ctx.ensure(raises(lambda: normalize_pure(X, norm=norm, return_norm=True)), "norms of sparse rows returned")
        return
    got, sizes = normalize_pure(X, norm=norm, return_norm=True)
    pairs = [unit(x, norm) for x in D]
    ctx.eq(got.todense() if store == "sparse" else got, [p[0] for p in pairs], "normalised")
    for i in range(n):
        if store == "dense" or size(D[i], norm) != 0:
            ctx.eq(list(sizes)[i], pairs[i][1], "norm")


def refused(ctx, store):
    from pure_sklearn.preprocessing import normalize_pure
    X, D = records(ctx, "x", 2, 2, store)
    bad = ctx.choice("norm", ["l3", "L2", "sum", "", None, 2])
    ctx.ensure(raises(lambda: normalize_pure(X, norm=bad)), "unsupported norm accepted")
    axis = ctx.choice("axis", [2, -1, 3])
    ctx.ensure(raises(lambda: normalize_pure(X, axis=axis)), "unsupported axis accepted")
    if store == "sparse":
        for norm in NORMS:
            ctx.ensure(raises(lambda: normalize_pure(X, norm=norm, axis=0)), "columns of sparse rows normalised")


def cases(tier):
    deep = tier == "thorough"
    out = []
    for norm in NORMS:
        for f in (1, 2, 3, 4) if deep else (1, 2, 3):
            for n in (1, 2, 3) if deep else (1, 2):
                if f * n > 6 or (norm != "l2" and f * n > (4 if deep else 3)):
                    continue
                for store in ("dense", "sparse"):
                    if store == "sparse" and f * n > 3:
                        continue
                    for through in ("normalizer", "function"):
                        out.append(("rows", dict(f=f, n=n, norm=norm, store=store, through=through)))
        for f, n in ((1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1)) if deep else ((1, 2), (2, 1), (3, 1)):
            for w in (False, True):
                out.append(("columns", dict(f=f, n=n, norm=norm, norms=w)))
        for store in ("dense", "sparse"):
            out.append(("norms", dict(f=2, n=1, norm=norm, store=store)))
            out.append(("norms", dict(f=1, n=2, norm=norm, store=store)))
    out.append(("columns", dict(f=2, n=2, norm="l2", norms=True)))
    for f, n in ((300, 2), (2, 300), (40, 40)):
        free = {"free": ["x0_%d" % (f - 1), "x%d_1" % (n - 1), "x_has0_%d" % (f - 1)]}
        for norm in NORMS:
            for store in ("dense", "sparse"):
                for through in ("normalizer", "function"):
                    out.append(("rows", dict(f=f, n=n, norm=norm, store=store, through=through), free))
                out.append(("norms", dict(f=f, n=n, norm=norm, store=store), free))
            for w in (False, True):
                out.append(("columns", dict(f=f, n=n, norm=norm, norms=w), free))
    for norm in NORMS:
        for store in ("dense", "sparse"):
            for f, scale in ((6, 0.0625), (25, 2.0 ** -12), (300, 2.0 ** -40), (60, 0.0)):
                out.append(("long_row", dict(f=f, norm=norm, store=store, scale=scale), dict(span=1 if scale > 0.001 else 2.0 ** -10)))
    for store in ("dense", "sparse"):
        out.append(("rows", dict(f=2, n=1, norm="l2", store=store, through="default")))
        out.append(("refused", dict(store=store)))
    return out
