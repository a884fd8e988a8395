"""C18: cosine similarity, cosine distance, linear kernel"""
from harness.lib import *

BOUNDS = ("1-3 records against 1-3 records of 1-4 features (1-2 x 1-2 of 1-3 where rows are normalised), all real entries in "
          "[-100,100] including zero rows, one or two arguments, the same list twice, sparse first arguments with every presence "
          "pattern and stored zeros; 3 records against 3 that share rows with them, one symbolic entry")
ASSUMPTIONS = ["values are compared in real arithmetic", "the range of distances is decided with square roots up to an ulp off, "
               "so that similarities slightly above one are seen"]


def unit(v):
    t = 0.0
    for a in v:
        t = t + a * a
    n = math.sqrt(t)
    return [a / n for a in v] if n != 0 else list(v)


def pair(ctx, n, k, f, store, second):
    """X, its dense rows, Y as passed, its rows"""
    X, D = records(ctx, "x", n, f, store)
    if second == "none":
        return X, D, None, D
    if second == "same":
        return X, D, X, D
    if second == "copy":
        return X, D, [list(r) for r in D], D
    Y, E = records(ctx, "y", k, f, "dense")
    return X, D, Y, E


def call(fn, X, Y, second):
    return fn(X) if second == "none" else fn(X, Y)


def kernel(ctx, n, k, f, store, second):
    from pure_sklearn.metrics.pairwise import linear_kernel_pure
    X, D, Y, E = pair(ctx, n, k, f, store, second)
    ctx.eq(call(linear_kernel_pure, X, Y, second), [[rdot(a, b) for b in E] for a in D], "linear kernel")


def similarity(ctx, n, k, f, store, second):
    from pure_sklearn.metrics.pairwise import cosine_similarity_pure
    X, D, Y, E = pair(ctx, n, k, f, store, second)
    U, V = [unit(r) for r in D], [unit(r) for r in E]
    ctx.eq(call(cosine_similarity_pure, X, Y, second), [[rdot(a, b) for b in V] for a in U], "cosine similarity")


def distance(ctx, n, k, f, store, second):
    from pure_sklearn.metrics.pairwise import cosine_distances_pure
    X, D, Y, E = pair(ctx, n, k, f, store, second)
    got = call(cosine_distances_pure, X, Y, second)
    U, V = [unit(r) for r in D], [unit(r) for r in E]
    want = []
    for i, a in enumerate(U):
        row = []
        for j, b in enumerate(V):
            d = 1 - rdot(a, b)
            if second in ("none", "same") and i == j:
                d = 0.0
            elif d < 0:
                d = 0.0
            elif d > 2:
                d = 2.0
            row.append(d)
        want.append(row)
    ctx.eq(got, want, "cosine distance")
    if second in ("none", "same"):
        for i in range(n):
            ctx.ensure(got[i][i] == 0, "distance of a record to itself")


def span(ctx, n, k, f, store, second):
    """distances stay in range although square roots and so similarities are rounded"""
    from pure_sklearn.metrics.pairwise import cosine_distances_pure
    X, D, Y, E = pair(ctx, n, k, f, store, second)
    if second == "negated":
        Y = [[-a for a in r] for r in D]
    got = call(cosine_distances_pure, X, Y, second)
    for i in range(len(got)):
        for j in range(len(got[i])):
            ctx.ensure(got[i][j] >= 0, "distance below 0")
            ctx.ensure(got[i][j] <= 2, "distance above 2")
        if second in ("none", "same"):
            ctx.ensure(got[i][i] == 0, "distance of a record to itself")


def alike(ctx, store, which):
    """sets of equal size that share some of their rows, by value or by identity"""
    from pure_sklearn.metrics import pairwise as m
    pool = [[3.0, 4.0], [5.0, -12.0], [0.0, 0.0]]
    pool[which] = [ctx.real("u"), 2.0]
    own = ctx.bool("own")
    D = [list(pool[i]) for i in (0, 1, 2)]
    E = [D[ctx.choice("y%d" % i, [0, 1, 2])] for i in range(3)]
    X = sparse([{j: v for j, v in enumerate(r)} for r in D], 2) if store == "sparse" else D
    Y = [list(r) for r in E] if own else E
    want = [[rdot(unit(a), unit(b)) for b in E] for a in D]
    ctx.eq(m.cosine_similarity_pure(X, Y), want, "cosine similarity")


def mismatch(ctx, store):
    from pure_sklearn.metrics import pairwise as m
    f, g = ctx.choice("f", [1, 2, 3]), ctx.choice("g", [1, 2, 3])
    ctx.assume(f != g)
    X, _ = records(ctx, "x", ctx.choice("n", [1, 2]), f, store, **(dict(full=True, rev=False) if store == "sparse" else {}))
    Y, _ = records(ctx, "y", ctx.choice("k", [1, 2]), g, "dense")
    for fn in (m.linear_kernel_pure, m.cosine_similarity_pure, m.cosine_distances_pure):
        ctx.ensure(raises(lambda: fn(X, Y)), "records of different widths compared")


def flat(ctx):
    from pure_sklearn.metrics import pairwise as m
    v = reals(ctx, "v", 2)
    X = matrix(ctx, "x", 2, 2)
    for fn in (m.linear_kernel_pure, m.cosine_similarity_pure, m.cosine_distances_pure):
        ctx.ensure(raises(lambda: fn(v)), "a flat list compared")
        ctx.ensure(raises(lambda: fn(v, X)), "a flat list compared with records")
        ctx.ensure(raises(lambda: fn(X, v)), "records compared with a flat list")
        ctx.ensure(raises(lambda: fn([])), "no records compared")
        for bad in ([[1.0, 2.0], [3.0]], [[1.0, 2.0], [3.0, 4.0, v[0]]], [[1.0, 2.0], [v[0]], [2.0, v[1]]], [[1.0, 2.0], 3.0]):
            ctx.ensure(raises(lambda: fn(bad)), "ragged records compared")
            ctx.ensure(raises(lambda: fn(bad, X)), "ragged records compared with records")
            ctx.ensure(raises(lambda: fn(X, bad)), "records compared with ragged records")
        ctx.ensure(raises(lambda: fn(X, [])), "records compared with none")
        ctx.ensure(raises(lambda: fn([], X)), "no records compared with some")
        ctx.ensure(raises(lambda: fn([X[0], X[1][:1]])), "ragged records compared")
        ctx.ensure(raises(lambda: fn(X, [X[0], X[1] + v])), "ragged records compared")


def sparse_second(ctx, store):
    from pure_sklearn.metrics import pairwise as m
    X, _ = records(ctx, "x", 2, 2, store)
    Y, _ = sparse_records(ctx, "y", ctx.choice("k", [1, 2]), 2, full=True, rev=False)
    for fn in (m.linear_kernel_pure, m.cosine_similarity_pure, m.cosine_distances_pure):
        ctx.ensure(raises(lambda: fn(X, Y)), "sparse second argument accepted")
        if store == "sparse":
            ctx.ensure(raises(lambda: fn(X)), "sparse second argument accepted")
            ctx.ensure(raises(lambda: fn(X, X)), "sparse second argument accepted")


def cases(tier):
    deep = tier == "thorough"
    out = []
    for second in ("none", "same", "other"):
        for n, k, f in ((1, 2, 3), (2, 1, 2), (3, 3, 1), (2, 2, 4)) + (((3, 3, 4), (2, 4, 5)) if deep else ()):
            out.append(("kernel", dict(n=n, k=k, f=f, store="dense", second=second)))
    for n, k, f in ((1, 2, 3), (2, 1, 2), (2, 2, 2)) + (((3, 2, 3),) if deep else ()):
        out.append(("kernel", dict(n=n, k=k, f=f, store="sparse", second="other")))
    for fn in ("similarity", "distance"):
        for second in ("none", "same"):
            for n, f in ((1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1)) + (((2, 3), (3, 2)) if deep else ()):
                out.append((fn, dict(n=n, k=n, f=f, store="dense", second=second)))
        for n, f in ((1, 1), (1, 2), (2, 1)):
            out.append((fn, dict(n=n, k=n, f=f, store="dense", second="copy")))
        for n, k, f in ((1, 1, 1), (2, 1, 1), (1, 1, 2), (1, 1, 3), (1, 2, 2), (2, 2, 1)) + (((2, 2, 2), (2, 1, 3)) if deep else ()):
            for store in ("dense", "sparse"):
                if fn == "distance" and f > 2 and not deep:
                    continue
                out.append((fn, dict(n=n, k=k, f=f, store=store, second="other")))
    for n, k, f in ((1, 1, 300), (2, 2, 40), (40, 30, 2), (2, 130, 2), (130, 2, 2)):
        for second in ("other", "none", "same") if n == k or n == 40 else ("other",):
            for store in ("dense", "sparse") if second == "other" else ("dense",):
                free = {"free": ["x0_%d" % (f - 1), "x_has0_%d" % (f - 1), "y%d_1" % (k - 1)]}
                for fn in ("kernel", "similarity", "distance"):
                    if fn != "distance" or n * k < 9:
                        out.append((fn, dict(n=n, k=k, f=f, store=store, second=second), free))
    for store in ("dense", "sparse"):
        for which in (0, 1, 2):
            out.append(("alike", dict(store=store, which=which)))
    r = dict(rounding=True)
    for second in ("none", "same", "copy", "negated", "other"):
        for n, f in ((1, 2), (2, 2), (1, 3)) if second in ("none", "same") else ((1, 2), (1, 3), (1, 4)) if second != "other" else ((1, 2), (1, 3)):
            out.append(("span", dict(n=n, k=n, f=f, store="dense", second=second), r))
    out.append(("span", dict(n=1, k=1, f=2, store="sparse", second="copy"), r))
    for store in ("dense", "sparse"):
        out.append(("mismatch", dict(store=store)))
        out.append(("sparse_second", dict(store=store)))
    out.append(("flat", {}))
    return out
