"""C08: standard, min-max and max-abs scaling"""
from harness.lib import *

BOUNDS = ("1-4 features, 1-2 records, all real parameters (scales non-zero) and records in [-100,100], every centring and "
          "scaling setting, every sparsity pattern with stored zeros")
ASSUMPTIONS = ["arithmetic is idealised as real arithmetic"]


def standard(ctx, f, n, store, mean, std):
    mu = reals(ctx, "mu", f)
    sd = reals(ctx, "sd", f, pos=True)
    keep = mean or std
    m = convert(make("StandardScaler", with_mean=mean, with_std=std, copy=True, n_samples_seen_=9,
                     mean_=Arr(list(mu)) if keep else None, scale_=Arr(list(sd)) if std else None,
                     var_=Arr([a * a for a in sd]) if std else None))
    X, D = records(ctx, "x", n, f, store)
    if store == "sparse" and mean:
        ctx.ensure(raises(lambda: m.transform(X)), "sparse data centred")
        return
    want = [[(x[j] - (mu[j] if mean else 0)) / (sd[j] if std else 1) for j in range(f)] for x in D]
    result(ctx, m.transform(X), want, X, f, store)


def minmax(ctx, f, n, store):
    mn = reals(ctx, "mn", f)
    sc = reals(ctx, "sc", f)
    m = convert(make("MinMaxScaler", feature_range=(0, 1), copy=True, scale_=Arr(list(sc)), min_=Arr(list(mn)),
                     data_min_=Arr([0.0] * f), data_max_=Arr([1.0] * f), data_range_=Arr([1.0] * f)))
    X, D = records(ctx, "x", n, f, store)
    if store == "sparse":
        ctx.ensure(raises(lambda: m.transform(X)), "sparse data scaled")
        return
    ctx.eq(m.transform(X), [[x[j] * sc[j] + mn[j] for j in range(f)] for x in D], "transform")


def maxabs(ctx, f, n, store):
    sc = reals(ctx, "sc", f, pos=True)
    top = list(sc)
    if n < 3:
        # (a feature that was zero throughout training has scale one)
        for j in range(f):
            if ctx.choice("zero%d" % j, [False, True]):
                top[j], sc[j] = 0.0, 1.0
    m = convert(make("MaxAbsScaler", copy=True, scale_=Arr(list(sc)), max_abs_=Arr(top)))
    X, D = records(ctx, "x", n, f, store)
    result(ctx, m.transform(X), [[x[j] / sc[j] for j in range(f)] for x in D], X, f, store)


def result(ctx, got, want, X, f, store):
    if store == "dense":
        ctx.eq(got, want, "transform")
        return
    from pure_sklearn.utils import issparse, shape
    ctx.ensure(issparse(got), "dense result for sparse records")
    ctx.eq(list(shape(got)), [len(X), f], "shape")
    ctx.eq(got.todense(), want, "transform")
    ctx.eq([sorted(r.keys()) for r in got], [sorted(r.keys()) for r in X], "stored entries")
    ctx.ensure(got.dtype is X.dtype, "type of absent entries")


def width(ctx, kind, store):
    f = ctx.choice("f", [1, 2, 3])
    g = ctx.choice("g", [1, 2, 3, 4])
    ctx.assume(f != g)
    p = reals(ctx, "p", f, pos=True)
    if kind == "StandardScaler":
        parts = ctx.choice("parts", [(True, True), (True, False), (False, True)] if store == "dense" else [(False, True)])
        m = make(kind, with_mean=parts[0], with_std=parts[1], copy=True, mean_=Arr(list(p)),
                 scale_=Arr(list(p)) if parts[1] else None, var_=Arr(list(p)) if parts[1] else None)
    elif kind == "MinMaxScaler":
        m = make(kind, feature_range=(0, 1), copy=True, scale_=Arr(list(p)), min_=Arr(list(p)))
    else:
        m = make(kind, copy=True, scale_=Arr(list(p)), max_abs_=Arr(list(p)))
    m = convert(m)
    X = [reals(ctx, "x", g)]
    if ctx.bool("two"):
        X.append(reals(ctx, "y", g))
    if store == "sparse":
        X = sparse([{i: v for i, v in enumerate(r)} for r in X], g)
    ctx.ensure(raises(lambda: m.transform(X)), "records of the wrong width scaled")


def cases(tier):
    deep = tier == "thorough"
    out = []
    for f in (1, 2, 3, 4) if deep else (1, 2, 3):
        for n in (1, 2, 3) if deep else (1, 2):
            for store in ("dense", "sparse"):
                if store == "sparse" and f * n > 4 and not (deep and f * n <= 6):
                    continue
                for mean in (True, False):
                    for std in (True, False):
                        out.append(("standard", dict(f=f, n=n, store=store, mean=mean, std=std)))
                out.append(("minmax", dict(f=f, n=n, store=store)))
                out.append(("maxabs", dict(f=f, n=n, store=store)))
    for f, n in ((300, 2), (2, 300), (40, 40)):
        free = {"free": ["x0_%d" % (f - 1), "x%d_1" % (n - 1), "x_has0_%d" % (f - 1), "mu1", "sd%d" % (f - 1), "mn1", "sc1"]}
        for store in ("dense", "sparse"):
            for mean in (True, False):
                for std in (True, False):
                    out.append(("standard", dict(f=f, n=n, store=store, mean=mean, std=std), free))
            out.append(("minmax", dict(f=f, n=n, store=store), free))
            out.append(("maxabs", dict(f=f, n=n, store=store), free))
    for kind in ("StandardScaler", "MinMaxScaler", "MaxAbsScaler"):
        out.append(("width", dict(kind=kind, store="dense")))
        if kind != "MinMaxScaler":
            out.append(("width", dict(kind=kind, store="sparse")))
    return out
