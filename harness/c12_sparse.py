"""C12: sparse lists stand for dense matrices"""
from harness.lib import *

BOUNDS = ("matrices of 1-3 rows and 1-4 columns with all real entries, every presence pattern, stored zeros, keys in both "
          "orders; selections of up to 3 columns with repetition; element-wise functions with f(0)=0, sums per row")
ASSUMPTIONS = ["arithmetic is idealised as real arithmetic"]


def same(ctx, S, D, what):
    """S is a sparse list standing for the dense rows D"""
    from pure_sklearn.utils import issparse, todense, shape, ndim
    ctx.ensure(issparse(S), what + ": not sparse")
    ctx.eq(list(shape(S)), [len(D), len(D[0])], what + ": shape")
    ctx.ensure(ndim(S) == 2, what + ": dimension")
    ctx.eq(S.todense(), D, what)
    ctx.eq(todense(S), D, what)
    ctx.ensure(S.dtype(0) == 0, what + ": type of absent entries")


def round_trip(ctx, n, m):
    from pure_sklearn.utils import sparse_list, tosparse, issparse, shape, ndim
    D = [[0 if ctx.bool("zero%d_%d" % (i, j)) else ctx.real("x%d_%d" % (i, j)) for j in range(m)] for i in range(n)]
    given = [list(r) for r in D]
    ctx.ensure(not issparse(given), "dense input taken for sparse")
    ctx.eq(list(shape(given)), [n, m], "dense shape")
    ctx.ensure(ndim(given) == 2 and ndim(given[0]) == 1 and tuple(shape(given[0])) == (m,), "dense dimension")
    for S in (tosparse(given), sparse_list(given)):
        same(ctx, S, D, "round trip")
    ctx.eq(given, D, "input")


def from_dicts(ctx, n, m):
    S, D = sparse_records(ctx, "x", n, m)
    same(ctx, S, D, "list of mappings")
    again = sparse([dict(r) for r in S], m, dtype=int)
    same(ctx, again, D, "list of mappings")
    ctx.ensure(again.dtype is int, "type of absent entries")
    from pure_sklearn.utils import tosparse
    from pure_sklearn import base
    same(ctx, tosparse(S.todense()), D, "round trip")
    # the type names absent entries and changes no stored one
    for j in range(m):
        ctx.eq(base.slice_column(again, j), [r[j] for r in D], "column of integer type")
    same(ctx, base.slice_column(again, list(range(m))), D, "columns of integer type")
    ctx.eq(base.dot_2d(again, [[1.0] * m]), [[rdot(r, [1.0] * m)] for r in D], "dot product of integer type")


def products(ctx, n, m, k):
    from pure_sklearn import base
    S, D = sparse_records(ctx, "x", n, m)
    W = matrix(ctx, "w", k, m)
    want = [[rdot(x, w) for w in W] for x in D]
    ctx.eq(base.dot_2d(S, W), want, "dot product, sparse")
    ctx.eq(base.dot_2d(D, W), want, "dot product, dense")
    for i in range(n):
        ctx.eq(base.dot(S[i], W), want[i], "dot product of one row, sparse")
        ctx.eq(base.dot(D[i], W), want[i], "dot product of one row, dense")


def elementwise(ctx, n, m):
    from pure_sklearn import base
    S, D = sparse_records(ctx, "x", n, m, rev=False)
    T, E = sparse_records(ctx, "y", n, m, rev=False)
    want = [[a * b for a, b in zip(p, q)] for p, q in zip(D, E)]
    ctx.eq(base.matmult_same_dim([list(r) for r in D], [list(r) for r in E]), want, "product, dense")
    same(ctx, base.matmult_same_dim(S, T), want, "product, sparse")
    ctx.ensure(raises(lambda: base.matmult_same_dim(S, E)), "sparse and dense multiplied")
    ctx.ensure(raises(lambda: base.matmult_same_dim(D, T)), "dense and sparse multiplied")


def mismatch(ctx, store):
    from pure_sklearn import base
    n, m = ctx.choice("n", [1, 2]), ctx.choice("m", [1, 2])
    p, q = ctx.choice("p", [1, 2, 3]), ctx.choice("q", [1, 2, 3])
    ctx.assume((n, m) != (p, q))
    A, B = matrix(ctx, "a", n, m), matrix(ctx, "b", p, q)
    if store == "sparse":
        A = sparse([{i: v for i, v in enumerate(r)} for r in A], m)
        B = sparse([{i: v for i, v in enumerate(r)} for r in B], q)
    ctx.ensure(raises(lambda: base.matmult_same_dim(A, B)), "matrices of different shapes multiplied")


def functions(ctx, n, m):
    from pure_sklearn import base
    S, D = sparse_records(ctx, "x", n, m, rev=False)
    c = ctx.real("c")
    fs = [lambda v: v * c, abs, lambda v: v * v - c * v]
    f = fs[ctx.choice("f", [0, 1, 2])]
    want = [[f(v) for v in r] for r in D]
    same(ctx, base.apply_2d_sparse(S, f), want, "function")
    ctx.eq(base.apply_2d([list(r) for r in D], f), want, "function, dense")
    ctx.ensure(raises(lambda: base.apply_2d(S, f)), "dense helper took sparse input")
    ctx.ensure(raises(lambda: base.apply_2d_sparse(D, f)), "sparse helper took dense input")
    ctx.eq(S.todense(), D, "input")


def reduction(ctx, n, m):
    from pure_sklearn import base
    S, D = sparse_records(ctx, "x", n, m, rev=False)
    for f in (sum, lambda r: sum(v * v for v in r), lambda r: sum(map(abs, r))):
        want = [f(r) for r in D]
        ctx.eq(base.apply_axis_2d(S, f, axis=1), want, "row reduction, sparse")
        ctx.eq(base.apply_axis_2d(S, f), want, "row reduction, sparse")
        ctx.eq(base.apply_axis_2d(D, f), want, "row reduction, dense")
        ctx.eq(base.apply_axis_2d(D, f, axis=0), [f([r[j] for r in D]) for j in range(m)], "column reduction, dense")
        ctx.ensure(raises(lambda: base.apply_axis_2d(S, f, axis=0)), "column reduction of sparse input")


def columns(ctx, n, m, k):
    from pure_sklearn import base
    S, D = sparse_records(ctx, "x", n, m, rev=False)
    j = ctx.choice("j", list(range(m)))
    want = [r[j] for r in D]
    ctx.eq(base.slice_column(S, j), want, "column, sparse")
    ctx.eq(base.slice_column(D, j), want, "column, dense")
    idx = [ctx.choice("idx%d" % i, list(range(m))) for i in range(k)]
    for given in (list(idx), tuple(idx)):
        want = [[r[i] for i in idx] for r in D]
        same(ctx, base.slice_column(S, given), want, "columns, sparse")
        ctx.eq(base.slice_column(D, given), want, "columns, dense")
    ctx.eq(S.todense(), D, "input")


def refused(ctx, n, m):
    from pure_sklearn import base
    S, D = sparse_records(ctx, "x", n, m, rev=False)
    add = lambda a, b: a + b
    ctx.ensure(raises(lambda: base.transpose(S)), "transpose took sparse input")
    ctx.ensure(raises(lambda: base.ravel(S)), "ravel took sparse input")
    ctx.ensure(raises(lambda: base.operate_2d(S, D, add)), "operate_2d took sparse input")
    ctx.ensure(raises(lambda: base.operate_2d(D, S, add)), "operate_2d took sparse input")
    ctx.ensure(raises(lambda: base.operate_2d(S, S, add)), "operate_2d took sparse input")
    ctx.eq(base.operate_2d(D, D, add), [[a + a for a in r] for r in D], "operate_2d")
    ctx.eq(base.transpose(D), [[r[j] for r in D] for j in range(m)], "transpose")
    ctx.eq(base.ravel(D), [v for r in D for v in r], "ravel")


def chained(ctx, n, m):
    """selection, scaling and product of sparse rows, one after another"""
    from pure_sklearn import base
    S, D = sparse_records(ctx, "x", n, m, rev=False)
    c = ctx.real("c")
    W = matrix(ctx, "w", 2, m)
    order = list(range(m))[::-1]
    S2 = base.apply_2d_sparse(base.slice_column(S, order), lambda v: v * c)
    D2 = [[r[i] * c for i in order] for r in D]
    same(ctx, S2, D2, "selected and scaled")
    ctx.eq(base.dot_2d(S2, W), [[rdot(x, w) for w in W] for x in D2], "dot product of a derived sparse list")
    same(ctx, base.matmult_same_dim(S2, S), [[a * b for a, b in zip(p, q)] for p, q in zip(D2, D)], "product")


def cases(tier):
    deep = tier == "thorough"
    out = []
    sizes = [(1, 1), (1, 3), (2, 2)] + ([(1, 4), (3, 1), (2, 3), (3, 2)] if deep else [(3, 1)])
    for n, m in sizes:
        out += [("round_trip", dict(n=n, m=m)), ("from_dicts", dict(n=n, m=m)), ("functions", dict(n=n, m=m)),
                ("reduction", dict(n=n, m=m)), ("refused", dict(n=n, m=m)), ("products", dict(n=n, m=m, k=2)),
                ("columns", dict(n=n, m=m, k=2)), ("chained", dict(n=n, m=m))]
        if n * m <= 4:
            out.append(("elementwise", dict(n=n, m=m)))
    out.append(("columns", dict(n=1, m=3, k=3)))
    for n, m in ((2, 300), (300, 2), (40, 40)):
        free = {"free": ["x0_%d" % (m - 1), "x_has0_%d" % (m - 1), "x%d_1" % (n - 1), "x_rev0", "zero0_1", "c", "w1_1", "y%d_1" % (n - 1), "y_has0_1"]}
        for fn in ("round_trip", "from_dicts", "functions", "reduction", "refused", "chained", "elementwise"):
            out.append((fn, dict(n=n, m=m), free))
        out.append(("products", dict(n=n, m=m, k=40), free))
        out.append(("columns", dict(n=n, m=m, k=40), free))
    out += [("mismatch", dict(store="dense")), ("mismatch", dict(store="sparse"))]
    return out
