"""C01: scores, labels and width check of linear classifiers"""
from harness.lib import *

KINDS = ["LogisticRegression", "RidgeClassifier", "SGDClassifier", "Perceptron",
         "PassiveAggressiveClassifier", "LinearSVC"]
LABELS = [["no", "yes"], ["", "B", "a"], [30, 10, 20, 40], [10, 20, 30, 40, 50]]
BOUNDS = ("coefficients, intercepts and record entries: all reals in [-100,100]; 2-5 classes, 1-5 features, "
          "1-2 records, every sparsity pattern up to 3 features (stored zeros and both key orders included)")
ASSUMPTIONS = ["floating-point arithmetic is idealised as real arithmetic (rounding and overflow of sums of "
               "products are outside the claim)", "fitted attributes reach conversion through the numpy-array "
               "interface of the stand-in class harness.lib.Arr"]


LARGE = [(2, 300, 2), (2, 2, 300), (3, 70, 40), (20, 12, 3)]


def model(ctx, kind, k, f, scalar):
    rows = 1 if k == 2 else k
    W = matrix(ctx, "w", rows, f)
    if scalar:
        b = ctx.real("b")
        icpt, bs = b, [b] * rows
    else:
        bs = reals(ctx, "b", rows)
        icpt = Arr(list(bs))
    extra = {}
    if kind == "LogisticRegression":
        extra = dict(multi_class="auto", solver="lbfgs")
    if kind == "SGDClassifier":
        extra = dict(loss="hinge")
    if kind == "LinearSVC":
        extra = dict(multi_class="ovr", loss="squared_hinge")
    classes = LABELS[k - 2] if k < 6 else list(range(k))
    m = convert(make(kind, coef_=Arr([list(w) for w in W]), intercept_=icpt, classes_=Arr(list(classes)), **extra))
    return m, W, bs, classes


def scores(ctx, kind, k, f, n, store, scalar=False):
    m, W, bs, classes = model(ctx, kind, k, f, scalar)
    X, D = records(ctx, "x", n, f, store)
    want = []
    for x in D:
        s = [rdot(x, w) + b for w, b in zip(W, bs)]
        want.append(s[0] if k == 2 else s)
    ctx.eq(m.decision_function(X), want, "decision_function")


def labels(ctx, kind, k, f, n, store):
    m, W, bs, classes = model(ctx, kind, k, f, False)
    X, D = records(ctx, "x", n, f, store)
    got = m.predict(X)
    want = []
    for x in D:
        s = [rdot(x, w) + b for w, b in zip(W, bs)]
        if k == 2:
            ctx.margin(s[0], True)
            want.append(classes[1] if s[0] > 0 else classes[0])
        else:
            want.append(classes[first_max(ctx, s, True)])
    ctx.eq(got, want, "predict")


def width(ctx, kind, store):
    f = ctx.choice("f", [1, 2, 3])
    m, W, bs, classes = model(ctx, kind, ctx.choice("k", [2, 3]), f, False)
    g = ctx.choice("g", [1, 2, 3, 4, 5])
    ctx.assume(g != f)
    X, D = records(ctx, "x", 1, g, store) if store == "dense" else (sparse([{0: ctx.real("x0")}], g), None)
    ctx.ensure(raises(lambda: m.decision_function(X)), "wrong width scored")
    ctx.ensure(raises(lambda: m.predict(X)), "wrong width labelled")


def ragged(ctx, kind):
    f = ctx.choice("f", [2, 3])
    m, W, bs, classes = model(ctx, kind, ctx.choice("k", [2, 3]), f, False)
    g = ctx.choice("g", [1, 2, 4])
    ctx.assume(g != f)
    X = [reals(ctx, "x", f), reals(ctx, "y", g)]
    if ctx.bool("three"):
        X = [reals(ctx, "z", f)] + X
    ctx.ensure(raises(lambda: m.decision_function(X)), "ragged record scored")
    ctx.ensure(raises(lambda: m.predict(X)), "ragged record labelled")


def cases(tier):
    out = []
    deep = tier == "thorough"
    for i, kind in enumerate(KINDS):
        for k in (2, 3, 4, 5) if deep else (2, 3 + i % 3):
            for f in (1, 2, 3, 5) if deep else (2, 4):
                out.append(("scores", dict(kind=kind, k=k, f=f, n=2, store="dense")))
            out.append(("scores", dict(kind=kind, k=k, f=3 if deep else 2, n=2 if deep else 1, store="sparse")))
            out.append(("scores", dict(kind=kind, k=k, f=2, n=1, store="dense", scalar=True)))
            out.append(("labels", dict(kind=kind, k=k, f=2, n=1, store="dense")))
        out.append(("labels", dict(kind=kind, k=2, f=2, n=3, store="dense")))
        out.append(("labels", dict(kind=kind, k=2, f=2, n=2, store="sparse")))
        out.append(("labels", dict(kind=kind, k=3, f=2, n=2 if deep else 1, store="sparse")))
        for store in ("dense", "sparse"):
            out.append(("width", dict(kind=kind, store=store)))
            for k, f, n in LARGE:
                a = dict(kind=kind, k=k, f=f, n=n, store=store)
                out.append(("scores", a, {"free": ["w0_%d" % (f - 1), "b0", "x0_0", "x0_%d" % (f - 1), "x%d_1" % (n - 1), "x_has0_%d" % (f - 1)]}))
                out.append(("labels", a, {"free": ["x0_%d" % (f - 1), "x%d_1" % (n - 1), "x_has0_%d" % (f - 1)]}))
        out.append(("ragged", dict(kind=kind)))
    return out
