"""C04: routing and leaf answers of decision trees"""
from harness.lib import *
from harness.trees import *

LABELS = [["only"], ["no", "yes"], ["", "B", "a"], [30, 10, 20, 40]]
BOUNDS = ("trees of up to 9 nodes and depth 3 (preorder and best-first numbering), all real thresholds, leaf values, "
          "class weights and records in [-100,100] with exact rounding of features to single precision, every feature "
          "assignment over 1-3 features, 1-4 classes, 1-2 records, every sparsity pattern")
ASSUMPTIONS = ["leaf normalisation and log are idealised as real arithmetic; missing (NaN) and infinite features, which "
               "the native library refuses, are left out"]


INTEGERS = [0, -3, 2 ** 24 + 1, 2 ** 24 + 3, -2 ** 24 - 1, 2 ** 25 + 2, 2 ** 25 + 3, 10 ** 9 + 7, True]


def names(k):
    return list(LABELS[k - 1]) if k <= 4 else list(range(10, 10 + k))


def model(ctx, kind, shape, nf, k):
    regress = kind.endswith("Regressor")
    t, leaf = symtree(ctx, "t", shape, nf, k, regress)
    extra = {} if regress else dict(classes_=Arr(names(k)))
    if regress and ctx.bool("none"):
        extra = dict(classes_=None)
    m = convert(make(kind, tree_=t, n_features_=nf, n_outputs_=1, **extra))
    return m, leaf


def classify(ctx, kind, shape, nf, k, n, store):
    m, leaf = model(ctx, kind, shape, nf, k)
    X, D = records(ctx, "x", n, nf, store)
    got = m.predict_proba(X)
    want = [dist(leaf(x)) for x in D]
    ctx.eq(got, want, "predict_proba")


def labels(ctx, kind, shape, nf, k, store):
    m, leaf = model(ctx, kind, shape, nf, k)
    X, D = records(ctx, "x", 1, nf, store)
    got = m.predict(X)
    want = [names(k)[first_max(ctx, leaf(x), True)] for x in D]
    ctx.eq(got, want, "predict")


def logs(ctx, kind, shape, nf, k):
    m, leaf = model(ctx, kind, shape, nf, k)
    X, D = records(ctx, "x", 1, nf, "dense")
    got = m.predict_log_proba(X)
    want = [[rlog(p) for p in dist(leaf(x))] for x in D]
    ctx.eq(got, want, "predict_log_proba")


def integers(ctx, kind, shape, nf, store):
    """integer features, also beyond 2^24, where single precision skips integers"""
    regr = kind.endswith("Regressor")
    t, leaf = symtree(ctx, "t", shape, nf, 1 if regr else 2, regr, lim=2e9)
    m = convert(make(kind, tree_=t, n_features_=nf, n_outputs_=1, **({} if regr else dict(classes_=Arr(names(2))))))
    x = [ctx.choice("x%d" % j, INTEGERS) if j == 0 else j for j in range(nf)]
    X = [x] if store == "dense" else sparse([{j: x[j] for j in range(nf)}], nf)
    if regr:
        ctx.eq(m.predict(X), [leaf(x)[0]], "predict")
    else:
        ctx.eq(m.predict_proba(X), [dist(leaf(x))], "predict_proba")


def regress(ctx, kind, shape, nf, n, store):
    m, leaf = model(ctx, kind, shape, nf, 1)
    X, D = records(ctx, "x", n, nf, store)
    got = m.predict(X)
    ctx.eq(got, [leaf(x)[0] for x in D], "predict")


def width(ctx, kind, shape, store):
    """records with another number of features than the tree was grown on"""
    regr = kind.endswith("Regressor")
    m, leaf = model(ctx, kind, shape, 2, 1 if regr else 2)
    f = ctx.choice("f", [1, 3, 4])
    X, D = records(ctx, "x", ctx.choice("n", [1, 2]), f, store)
    for method in ("predict",) if regr else ("predict", "predict_proba", "predict_log_proba"):
        ctx.ensure(raises(lambda: getattr(m, method)(X)), "records of another width to " + method)


def cases(tier):
    deep = tier == "thorough"
    out = []
    for kind in ("DecisionTreeClassifier", "ExtraTreeClassifier"):
        for shape in SHAPES:
            big = shape in ("full", "best", "deep")
            if shape == "deep" and not deep:
                continue
            for store in ("dense", "sparse") if deep or not big or kind[0] == "D" else ("dense",):
                out.append(("classify", dict(kind=kind, shape=shape, nf=2, k=2, n=1, store=store)))
            out.append(("classify", dict(kind=kind, shape=shape, nf=3 if not big else 2, k=3, n=1, store="dense")))
            if not big:
                out.append(("labels", dict(kind=kind, shape=shape, nf=2, k=3, store="sparse")))
                out.append(("logs", dict(kind=kind, shape=shape, nf=2, k=2)))
        out.append(("classify", dict(kind=kind, shape="stump", nf=2, k=1, n=2, store="dense")))
        out.append(("classify", dict(kind=kind, shape="left", nf=1, k=2, n=2, store="dense")))
        out.append(("labels", dict(kind=kind, shape="stump", nf=2, k=4, store="dense")))
    for kind in ("DecisionTreeRegressor", "ExtraTreeRegressor"):
        for shape in SHAPES:
            if shape == "deep" and not deep:
                continue
            for store in ("dense", "sparse") if deep or shape not in ("full", "best") else (["dense", "sparse"][kind[0] == "D"],):
                out.append(("regress", dict(kind=kind, shape=shape, nf=2, n=1, store=store)))
        out.append(("regress", dict(kind=kind, shape="left", nf=2, n=2, store="dense")))
        out.append(("width", dict(kind=kind, shape="stump", store="dense")))
    for kind in ("DecisionTreeClassifier", "ExtraTreeClassifier"):
        out.append(("width", dict(kind=kind, shape="left", store="dense")))
    out.append(("width", dict(kind="DecisionTreeClassifier", shape="leaf", store="sparse")))
    for kind in ("DecisionTreeClassifier", "ExtraTreeClassifier", "DecisionTreeRegressor", "ExtraTreeRegressor"):
        for store in ("dense", "sparse"):
            out.append(("integers", dict(kind=kind, shape="left" if deep else "stump", nf=2, store=store)))
    for i, kind in enumerate(("DecisionTreeClassifier", "ExtraTreeClassifier")):
        for shape, nf, k, n in (("complete", 5, 3, 1), ("chain", 4, 2, 1), ("bigchain", 3, 2, 1), ("left", 2, 2, 150), ("complete", 300, 12, 2),
                                ("stump", 2, 70, 1)):
            for store in ("dense", "sparse"):
                a = dict(kind=kind, shape=shape, nf=nf, k=k, n=n, store=store)
                free = {"free": ["x0_1", "x%d_0" % (n - 1), "x_has0_1", "t_t0", "t_v1_1", "t_f0"][: 3 if n > 9 else 6 if nf < 300 else 5]}
                out.append(("classify", a, free))
                if n == 1:
                    out.append(("labels", dict(kind=kind, shape=shape, nf=nf, k=k, store=store), {"free": ["x0_1", "x0_0", "x_has0_1"]}))
            r = ("DecisionTreeRegressor", "ExtraTreeRegressor")[i]
            out.append(("regress", dict(kind=r, shape=shape, nf=nf, n=n, store=("dense", "sparse")[i]), free))
    return out
