"""C02: probabilities of logistic regression and log-loss SGD"""
from harness.lib import *

LABELS = [["no", "yes"], ["", "B", "a"], [30, 10, 20, 40]]
MODES = {  # name -> (class, attributes, multinomial?)
    "ovr": ("LogisticRegression", dict(multi_class="ovr", solver="lbfgs"), False),
    "ovr_liblinear": ("LogisticRegression", dict(multi_class="auto", solver="liblinear"), False),
    "ovr_warn": ("LogisticRegression", dict(multi_class="warn", solver="warn"), False),
    "ovr_nosolve": ("LogisticRegression", dict(multi_class="ovr", solver="saga"), False),
    "auto": ("LogisticRegression", dict(multi_class="auto", solver="lbfgs"), None),
    "multinomial": ("LogisticRegression", dict(multi_class="multinomial", solver="newton-cg"), True),
    "sgd": ("SGDClassifier", dict(loss="log"), False),
}
BOUNDS = ("probability formulas for all real coefficients, intercepts and records in [-100,100], 2-4 classes, 1-3 "
          "features, 1-2 records; stability for all scores in [-1e6,1e6] with IEEE overflow and underflow of exp, "
          "2-4 classes")
ASSUMPTIONS = ["sums and products are idealised as real arithmetic; exp is the real exponential, except that in the "
               "stability cases it overflows above 709.78 and underflows to zero below -745.13 as in IEEE 754"]


def build(mode, k, W, bs):
    cls, attrs, multi = MODES[mode]
    if multi is None:
        multi = k > 2
    m = convert(make(cls, coef_=Arr([list(w) for w in W]), intercept_=Arr(list(bs)),
                     classes_=Arr(list(LABELS[k - 2]) if k < 5 else list(range(k))), **attrs))
    return m, multi


def reference(s, k, multi):
    if multi:
        return softmax([-s[0], s[0]]) if k == 2 else softmax(s)
    if k == 2:
        p = sigmoid(s[0])
        return [1.0 - p, p]
    p = [sigmoid(a) for a in s]
    t = 0.0
    for a in p:
        t = t + a
    return [a / t for a in p]


def formula(ctx, mode, k, f, n, store):
    rows = 1 if k == 2 else k
    W = matrix(ctx, "w", rows, f)
    bs = reals(ctx, "b", rows)
    m, multi = build(mode, k, W, bs)
    X, D = records(ctx, "x", n, f, store)
    want = [reference([rdot(x, w) + b for w, b in zip(W, bs)], k, multi) for x in D]
    got = m.predict_proba(X)
    ctx.eq(got, want, "predict_proba")


def logs(ctx, mode, k):
    rows = 1 if k == 2 else k
    bs = reals(ctx, "b", rows, lo=-30, hi=30)
    m, multi = build(mode, k, [[0.0]] * rows, bs)
    got = m.predict_log_proba([[1.0], [2.0]])
    want = [[rlog(p) for p in r] for r in m.predict_proba([[1.0], [2.0]])]
    ctx.eq(got, want, "predict_log_proba")


def stable(ctx, mode, k):
    rows = 1 if k == 2 else k
    bs = reals(ctx, "b", rows, lo=-1000000, hi=1000000)
    m, multi = build(mode, k, [[0.0]] * rows, bs)
    if not multi and k > 2:
        # scikit-learn itself has no answer when every sigmoid underflows
        ok = False
        for b in bs:
            if b > -700:
                ok = True
        ctx.assume(ok)
    p = m.predict_proba([[1.0]])[0]
    ctx.eq(m.predict_log_proba([[1.0]])[0], [rlog(a) for a in p], "predict_log_proba of extreme scores")
    t = 0.0
    for a in p:
        ctx.ensure(a >= 0, "negative or NaN probability")
        ctx.ensure(a <= 1.000001, "probability above one")
        t = t + a
    ctx.ensure(t > 0.999999, "probabilities do not sum to one")
    ctx.ensure(t < 1.000001, "probabilities do not sum to one")
    if multi or k == 2:
        # the most probable class is the one of largest score
        s = [-bs[0], bs[0]] if k == 2 else bs
        for i in range(k):
            for j in range(k):
                if s[i] > s[j]:
                    ctx.ensure(p[i] >= p[j], "probabilities not in the order of the scores")


def unsupported(ctx, kind, loss):
    extra = {"loss": loss} if loss else {}
    k = ctx.choice("k", [2, 3])
    rows = 1 if k == 2 else k
    m = convert(make(kind, coef_=Arr(matrix(ctx, "w", rows, 2)), intercept_=Arr(reals(ctx, "b", rows)),
                     classes_=Arr(list(LABELS[k - 2])), **extra))
    X = [reals(ctx, "x", 2)]
    ctx.ensure(raises(lambda: m.predict_proba(X)), "probabilities from a model without them")
    ctx.ensure(raises(lambda: m.predict_log_proba(X)), "log-probabilities from a model without them")


def cases(tier):
    deep = tier == "thorough"
    out = []
    for mode in MODES:
        for k in (2, 3, 4) if deep else (2, 3):
            if mode == "ovr_warn" and k == 4:
                continue
            out.append(("formula", dict(mode=mode, k=k, f=2, n=1, store="dense")))
            out.append(("formula", dict(mode=mode, k=k, f=2, n=1, store="sparse")))
            if deep:
                out.append(("formula", dict(mode=mode, k=k, f=3, n=2, store="dense"), dict(cap=900)))
            out.append(("logs", dict(mode=mode, k=k)))
            out.append(("stable", dict(mode=mode, k=k), dict(ieee=True)))
        for k, f, n in ((2, 300, 1), (5, 30, 1), (3, 2, 130)) if mode != "ovr_warn" else ():
            for store in ("dense", "sparse"):
                out.append(("formula", dict(mode=mode, k=k, f=f, n=n, store=store),
                            {"free": ["x0_%d" % (f - 1), "x%d_1" % (n - 1), "x_has0_%d" % (f - 1)]}))
    for kind in ("RidgeClassifier", "Perceptron", "PassiveAggressiveClassifier", "LinearSVC"):
        out.append(("unsupported", dict(kind=kind, loss=None)))
    for loss in ("hinge", "squared_hinge", "perceptron", "squared_loss", "huber", "modified_huber"):
        out.append(("unsupported", dict(kind="SGDClassifier", loss=loss)))
    return out
