"""C26: the baseline classifier"""
from harness.lib import *

BOUNDS = ("1-5 classes with all real priors in [0,1], zero priors and ties included; 1-4 records of any content (numbers, texts, "
          "mappings, sparse rows); labels of any builtin type in any order; both names of the strategy attribute")
ASSUMPTIONS = []
LABELS = {"str": ["", "yes", "a", "z", "m"], "int": [3, -1, 7, 0, 5], "bool": [False, True], "float": [1.5, 0.0, -2.0, 9.0, 4.0],
          "many": ["c%d" % (i * 7 % 300) for i in range(300)]}


def model(ctx, priors, labels, name="strategy", strategy="prior"):
    a = dict(class_prior_=Arr(list(priors)), classes_=Arr(list(labels)), n_classes_=len(priors), n_outputs_=1, constant=None,
             random_state=None)
    a[name] = strategy
    if name == "_strategy":
        a["strategy"] = "warn"
    return convert(make("DummyClassifier", **a))


def data(ctx, kind, n):
    if kind == "dense":
        return [[ctx.real("x%d" % i), 1.0] for i in range(n)]
    if kind == "flat":
        return [ctx.real("x%d" % i) for i in range(n)]
    if kind == "text":
        return [ctx.str("x%d" % i, 3, "ab ") for i in range(n)]
    if kind == "dict":
        return [{"a": ctx.real("x%d" % i)} for i in range(n)]
    if kind == "none":
        return [None] * n
    return sparse([{0: ctx.real("x%d" % i)} if ctx.bool("has%d" % i) else {} for i in range(n)], 2)


def answers(ctx, classes, n, labels, kind, name):
    priors = [ctx.real("p%d" % i, lo=0, hi=1) for i in range(classes)]
    labels = LABELS[labels][:classes]
    m = model(ctx, priors, labels, name)
    X = data(ctx, kind, n)
    best = 0
    for i in range(1, classes):
        if priors[i] > priors[best]:
            best = i
    got = m.predict(X)
    ctx.eq(len(got), n, "answers")
    for g in got:
        ctx.ensure(g == labels[best] and type(g) is type(labels[best]), "label")
    ctx.eq(m.predict_proba(X), [list(priors)] * n, "probabilities")
    ctx.eq(m.predict_log_proba(X), [[rlog(p) for p in priors]] * n, "log-probabilities")
    got = m.predict(X)
    ctx.ensure(all(g == labels[best] for g in got), "label the second time")


def cases(tier):
    deep = tier == "thorough"
    out = []
    for kind in ("dense", "flat", "text", "dict", "none", "sparse"):
        for n in (1, 2):
            out.append(("answers", dict(classes=2, n=n, labels="str", kind=kind, name="strategy")))
    for labels in ("str", "int", "bool", "float"):
        for classes in ((1, 2) if labels == "bool" else (1, 2, 3, 4, 5) if deep else (1, 2, 3, 4)):
            out.append(("answers", dict(classes=classes, n=3 if classes < 4 else 1, labels=labels, kind="dense", name="_strategy" if classes % 2 else "strategy")))
    for classes, n in ((300, 2), (40, 1), (3, 300)):
        for kind in ("dense", "text"):
            out.append(("answers", dict(classes=classes, n=n, labels="many", kind=kind, name="strategy"), {"free": ["p1", "p%d" % (classes - 1), "x0"]}))
    out.append(("answers", dict(classes=2, n=4, labels="int", kind="dense", name="_strategy")))
    return out
