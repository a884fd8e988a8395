"""C21: numeric and matrix helpers"""
from harness.lib import *

BOUNDS = ("exponential, logarithm, sigmoid: all reals of magnitude up to 1e6 (with overflow and underflow), in bands next to the ends of the range, "
          "and the special floats and "
          "integers; softmax: 1-4 entries (dense and sparse) of magnitude up to 1000 or one of the largest floats; matrices of 1-3 "
          "rows and columns")
ASSUMPTIONS = ["arithmetic is idealised as real arithmetic except for the overflow and underflow of the exponential"]
INF, NAN = math.inf, math.nan
SPECIAL = [INF, -INF, NAN, 0.0, -0.0, 5e-324, -5e-324, 1e308, -1e308, 1.7976931348623157e308, 0, 1, -1, 709, 710, -745, -746, 10 ** 6,
           -10 ** 6, True, False]


def is_nan(x):
    return x != x


def rexp(x):
    if is_nan(x):
        return NAN
    if x > 709.782712893384:
        return INF
    if x < -745.1332191019412:
        return 0.0
    return math.exp(x)


def log_(x):
    if is_nan(x) or x < 0:
        return NAN
    if x == 0:
        return -INF
    if x == INF:
        return INF
    return math.log(x)


def rsigmoid(x):
    if is_nan(x):
        return NAN
    if x >= 0:
        return 1.0 / (1.0 + rexp(-x))
    e = rexp(x)
    return e / (1.0 + e)


def agree(ctx, got, want, what):
    if is_nan(want):
        ctx.ensure(is_nan(got), what + ": not NaN")
    else:
        ctx.ensure(not is_nan(got), what + ": NaN")
        ctx.eq(got, want, what)


def special(ctx):
    from pure_sklearn import base
    x = ctx.choice("x", SPECIAL)
    agree(ctx, base.safe_exp(x), rexp(x), "exp")
    agree(ctx, base.safe_log(x), log_(x), "log")
    agree(ctx, base.expit(x), rsigmoid(x), "sigmoid")


def real(ctx, size, fn):
    from pure_sklearn import base
    x = ctx.real("x", lo=-size, hi=size)
    ctx.margin(x)
    if fn == "exp":
        got = base.safe_exp(x)
        if x > -708:
            ctx.ensure(got > 0, "exp of a number above -708 is 0")
        if x < 709:
            ctx.ensure(got < INF, "exp of a number below 709 is infinite")
        agree(ctx, got, rexp(x), "exp")
    elif fn == "log":
        agree(ctx, base.safe_log(x), log_(x), "log")
    else:
        got = base.expit(x)
        ctx.ensure(got >= 0, "sigmoid below 0")
        ctx.ensure(got <= 1, "sigmoid above 1")
        if x > -700:
            ctx.ensure(got > 0, "sigmoid of a number above -700 is 0")
            ctx.eq(rlog(got), -rlog(1.0 + rexp(-x)), "logarithm of the sigmoid")
        if size <= 100:
            agree(ctx, got, rsigmoid(x), "sigmoid")
        elif x > 40:
            ctx.ensure(got > 0.999999, "sigmoid of a large number")
        elif x < -40:
            ctx.ensure(got < 0.000001, "sigmoid of a small number")
        else:
            agree(ctx, got, rsigmoid(x), "sigmoid")


def band(ctx, lo, hi, fn):
    """where results are near the ends of the range of floats"""
    from pure_sklearn import base
    x = ctx.real("x", lo=lo, hi=hi)
    ctx.margin(x)
    if fn == "log":
        got = base.safe_log(x)
        ctx.ensure(got > -INF, "log of a positive number is infinite")
        agree(ctx, got, log_(x), "log")
        return
    if fn == "exp":
        got, want = base.safe_exp(x), rexp(x)
    else:
        got, want = base.expit(x), rsigmoid(x)
    ctx.ensure(got > 0, fn + " underflows")
    ctx.ensure(got < INF, fn + " overflows")
    agree(ctx, got, want, fn)


def integer(ctx):
    from pure_sklearn import base
    n = ctx.int("n", -50, 50)
    agree(ctx, base.safe_exp(n), rexp(n), "exp")
    agree(ctx, base.safe_log(n), log_(n), "log")
    agree(ctx, base.expit(n), rsigmoid(n), "sigmoid")


def as_given(v, store):
    """keys of a sparse row in reverse order"""
    return {i: v[i] for i in range(len(v) - 1, -1, -1)} if store == "sparse" else list(v)


def values(r, n, store):
    return [r[i] for i in range(n)] if store == "sparse" else list(r)


def distribution(ctx, n, store, size):
    """non-negative, sums to one, whatever the size of the entries"""
    from pure_sklearn import base
    v = [ctx.real("v0", lo=-size, hi=size)] + [ctx.choice("v%d" % i, [-size, 0.0, size / 2.0, size]) for i in range(1, n)]
    got = base.sfmax(as_given(v, store))
    ctx.eq(len(got), n, "entries")
    t = 0.0
    for p in values(got, n, store):
        ctx.ensure(p >= 0, "softmax below 0")
        ctx.ensure(p < 1.000001, "softmax above 1")
        t = t + p
    ctx.ensure(t > 0.999999, "softmax sums to less than 1")
    ctx.ensure(t < 1.000001, "softmax sums to more than 1")


def extreme(ctx, n, store):
    from pure_sklearn import base
    big = [1.7976931348623157e308, -1.7976931348623157e308, 1e308, 0.0, 745.0, 5e-324]
    v = [ctx.choice("v%d" % i, big) for i in range(n)]
    m = v[0]
    for x in v:
        if x > m:
            m = x
    e = [rexp(x - m) for x in v]
    t = 0.0
    for x in e:
        t = t + x
    ctx.eq(values(base.sfmax(as_given(v, store)), n, store), [x / t for x in e], "softmax")


def softmax_values(ctx, n, store):
    from pure_sklearn import base
    v = reals(ctx, "v", n, lo=-10, hi=10)
    given = as_given(v, store)
    got = base.sfmax(given)
    ctx.eq(values(got, n, store), softmax(v), "softmax")
    ctx.eq(values(given, n, store), v, "softmax changed its input")
    ctx.ensure(isinstance(got, dict) == (store == "sparse"), "kind of result")


def shifted(ctx, n, store):
    from pure_sklearn import base
    v = reals(ctx, "v", n, lo=-10, hi=10)
    c = ctx.real("c", lo=-1000, hi=1000)
    ctx.eq(values(base.sfmax(as_given([x + c for x in v], store)), n, store), values(base.sfmax(as_given(v, store)), n, store),
           "softmax after adding a constant")


def matrices(ctx, n, m):
    from pure_sklearn import base
    A, B = matrix(ctx, "a", n, m), matrix(ctx, "b", n, m)
    given = [list(r) for r in A]
    ctx.eq(base.transpose(A), [[A[i][j] for i in range(n)] for j in range(m)], "transpose")
    ctx.eq(base.apply_2d(A, lambda x: 2 * x + 1), [[2 * x + 1 for x in r] for r in A], "element-wise application")
    ctx.eq(base.operate_2d(A, B, lambda x, y: x - 3 * y), [[x - 3 * y for x, y in zip(p, q)] for p, q in zip(A, B)], "element-wise combination")
    ctx.eq(base.ravel(A), [x for r in A for x in r], "flattened")
    ctx.eq(base.apply_axis_2d(A, sum, axis=1), [radd(r) for r in A], "row-wise application")
    ctx.eq(base.apply_axis_2d(A, sum, axis=0), [radd([r[j] for r in A]) for j in range(m)], "column-wise application")
    ctx.eq(A, given, "input")


def radd(v):
    t = 0.0
    for x in v:
        t = t + x
    return t


def sums(ctx, n):
    from pure_sklearn import base
    v = reals(ctx, "v", n)
    want, t = [], 0.0
    for x in v:
        t = t + x
        want.append(t)
    ctx.eq(list(base.accumu(list(v))), want, "cumulative sums")


def mismatch(ctx):
    from pure_sklearn import base
    n, m = ctx.choice("n", [1, 2]), ctx.choice("m", [1, 2])
    p, q = ctx.choice("p", [1, 2, 3]), ctx.choice("q", [1, 2, 3])
    ctx.assume((n, m) != (p, q))
    A, B = matrix(ctx, "a", n, m), matrix(ctx, "b", p, q)
    add = lambda x, y: x + y
    ctx.ensure(raises(lambda: base.operate_2d(A, B, add)), "matrices of different shapes combined")
    ctx.ensure(raises(lambda: base.operate_2d(B, A, add)), "matrices of different shapes combined")
    ctx.ensure(raises(lambda: base.apply_axis_2d(A, sum, axis=ctx.choice("axis", [2, -1]))), "unknown axis accepted")


def sparse_refused(ctx):
    from pure_sklearn import base
    S, D = sparse_records(ctx, "s", 2, 2, rev=False)
    add = lambda x, y: x + y
    for f in (lambda: base.transpose(S), lambda: base.operate_2d(S, D, add), lambda: base.operate_2d(D, S, add), lambda: base.operate_2d(S, S, add),
              lambda: base.apply_2d(S, abs), lambda: base.ravel(S), lambda: base.apply_axis_2d(S, sum, axis=0),
              lambda: base.apply_2d_sparse(D, abs)):
        ctx.ensure(raises(f), "unsupported storage accepted")


def cases(tier):
    deep = tier == "thorough"
    i = dict(ieee=True)
    out = [("special", {})]
    for size in (30, 1000, 10 ** 6):
        for fn in ("exp", "log", "sigmoid"):
            out.append(("real", dict(size=size, fn=fn), i))
    for lo, hi in ((-708, -690), (-690, -300), (-100, -30), (-30, -1), (30, 100), (300, 690), (690, 709)):
        for fn in ("exp",) + (("sigmoid",) if -40 < hi < 40 else ()):
            out.append(("band", dict(lo=lo, hi=hi, fn=fn), i))
    for lo, hi in ((1e-307, 1e-200), (1e-200, 1e-20), (1e-20, 1e-6), (1e6, 1e20), (1e200, 1e307)):
        out.append(("band", dict(lo=lo, hi=hi, fn="log"), i))
    out.append(("integer", {}))
    for store in ("dense", "sparse"):
        for n in (1, 2, 3, 4) if deep else (1, 2, 3):
            for size in (30.0, 1000.0, 1e6):
                out.append(("distribution", dict(n=n, store=store, size=size), i))
            out.append(("softmax_values", dict(n=n, store=store)))
            out.append(("shifted", dict(n=n, store=store)))
            out.append(("extreme", dict(n=n, store=store)))
    for n in (1, 2, 3):
        for m in (1, 2, 3):
            out.append(("matrices", dict(n=n, m=m)))
    for n in (1, 2, 5) + ((12,) if deep else ()):
        out.append(("sums", dict(n=n)))
    for store in ("dense", "sparse"):
        free = {"free": ["v3", "v20", "c"]}
        for n in (40, 300):
            out.append(("softmax_values", dict(n=n, store=store), free))
            out.append(("shifted", dict(n=n, store=store), free))
            out.append(("distribution", dict(n=n, store=store, size=30.0), dict(ieee=True, free=["v0"])))
            out.append(("distribution", dict(n=n, store=store, size=1e6), dict(ieee=True, free=["v0"])))
            out.append(("extreme", dict(n=n, store=store), {"free": ["v3", "v20"]}))
    for n, m in ((40, 40), (2, 300), (300, 2)):
        out.append(("matrices", dict(n=n, m=m), {"free": ["a0_1", "a1_%d" % (m - 1), "b%d_1" % (n - 1)]}))
    out.append(("sums", dict(n=300), {"free": ["v0", "v150", "v299"]}))
    out.append(("mismatch", {}))
    out.append(("sparse_refused", {}))
    return out
