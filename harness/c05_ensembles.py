"""C05: forests and bagging average their members over all classes"""
from harness.lib import *
from harness.trees import *

LABELS = [["only"], ["no", "yes"], ["", "B", "a"], [30, 10, 20, 40]]
BOUNDS = ("1-3 members: trees of up to 5 nodes or logistic regressions, 1-3 (thorough 4) classes, every subset of classes "
          "a member may have been trained on, every ordered feature selection of up to 3 of 3 features with repetition, "
          "all real parameters and records in [-100,100], every sparsity pattern, 1-2 records")
ASSUMPTIONS = ["means and leaf normalisation are idealised as real arithmetic; exp is the real exponential"]


def names(k):
    return list(LABELS[k - 1]) if k <= 4 else list(range(10, 10 + k))


def subsets(k):
    out = []
    for b in range(1, 2 ** k):
        out.append([c for c in range(k) if b & (1 << c)])
    return out


def tree_member(ctx, name, shape, nf, own, floats, first=0):
    t, leaf = symtree(ctx, name, shape, nf, len(own), feats=[(first + i) % nf for i in range(1400)])
    classes = Arr([float(c) for c in own]) if floats else Arr(list(own), "int64")
    est = make("DecisionTreeClassifier", tree_=t, n_features_=nf, n_outputs_=1, classes_=classes)
    return est, lambda x: dist(leaf(x))


def lin_member(ctx, name, nf, own):
    """a one-vs-rest logistic regression"""
    n = 1 if len(own) == 2 else len(own)
    W = matrix(ctx, name + "_w", n, nf)
    b = reals(ctx, name + "_b", n)
    est = make("LogisticRegression", coef_=Arr([list(r) for r in W]), intercept_=Arr(list(b)),
               classes_=Arr(list(own), "int64"), multi_class="ovr", solver="liblinear", penalty="l2")

    def proba(x):
        s = [sigmoid(rdot(x, W[i]) + b[i]) for i in range(n)]
        if n == 1:
            return [1.0 - s[0], s[0]]
        return dist(s)
    return est, proba


def average(members, own, k, cols, x):
    tot = [0.0] * k
    for i in range(len(members)):
        z = x if cols is None else [x[j] for j in cols[i]]
        p = members[i](z)
        for a in range(len(own[i])):
            tot[own[i][a]] = tot[own[i][a]] + p[a]
    return [t / len(members) for t in tot]


def forest(ctx, kind, shapes, k, nf, n, store, what):
    """all members know all classes and see all features"""
    ests, refs = [], []
    if isinstance(shapes[-1], int):
        shapes = (list(shapes[:-1]) * shapes[-1])[: shapes[-1]]
    own = [list(range(k)) for s in shapes]
    for i in range(len(shapes)):
        e, r = tree_member(ctx, "m%d" % i, shapes[i], nf, own[i], True, i)
        ests.append(e)
        refs.append(r)
    m = convert(make(kind, classes_=Arr(names(k)), estimators_=ests, n_features_=nf, n_outputs_=1))
    X, D = records(ctx, "x", n, nf, store, rev=False)
    want = [average(refs, own, k, None, x) for x in D]
    answer(ctx, m, X, want, k, what)


def answer(ctx, m, X, want, k, what):
    if what == "proba":
        ctx.eq(m.predict_proba(X), want, "predict_proba")
    elif what == "log":
        ctx.eq(m.predict_log_proba(X), [[rlog(p) for p in w] for w in m.predict_proba(X)], "predict_log_proba")
    else:
        ctx.eq(m.predict(X), [names(k)[first_max(ctx, w, True)] for w in want], "predict")


def bagging(ctx, member, k, n, store, what, own, cols=None, shape="stump"):
    """members trained on some classes and some features"""
    nf = 3 if cols else 2
    if own == "many":
        own = [sorted(set([(i * 7 + j * 2) % 12 for j in range(1 + i % 5)])) for i in range(40)]
        cols = [COLS[i % 6] for i in range(40)] if cols else None
    ests, refs = [], []
    for i in range(len(own)):
        o = list(own[i])
        width = len(cols[i]) if cols else nf
        if member == "tree":
            e, r = tree_member(ctx, "m%d" % i, shape, width, o, False, i)
        else:
            e, r = lin_member(ctx, "m%d" % i, width, o)
        ests.append(e)
        refs.append(r)
    extra = dict(estimators_features_=[Arr(list(c), "int64") for c in cols]) if cols else {}
    m = convert(make("BaggingClassifier", classes_=Arr(names(k)), estimators_=ests, n_features_=nf, **extra))
    X, D = records(ctx, "x", n, nf, store, rev=False)
    want = [average(refs, own, k, cols, x) for x in D]
    answer(ctx, m, X, want, k, what)


COLS = [[0, 1, 2], [2, 0], [1], [1, 2, 0], [1, 1], [2, 0, 2]]


def cases(tier):
    deep = tier == "thorough"
    out = []
    for kind in ("RandomForestClassifier", "ExtraTreesClassifier"):
        for store in ("dense", "sparse"):
            if kind[0] == "R" and store == "sparse" and not deep:
                continue
            out.append(("forest", dict(kind=kind, shapes=["left", "stump"], k=2, nf=2, n=1, store=store, what="proba")))
            out.append(("forest", dict(kind=kind, shapes=["stump", "leaf", "leaf"], k=3, nf=2, n=1, store=store, what="proba")))
            out.append(("forest", dict(kind=kind, shapes=["stump", "stump"], k=2, nf=2, n=1, store=store, what="label")))
        out.append(("forest", dict(kind=kind, shapes=["stump"], k=3, nf=1, n=2, store="dense", what="label")))
        out.append(("forest", dict(kind=kind, shapes=["stump"], k=2, nf=2, n=1, store="sparse", what="proba")))
        out.append(("forest", dict(kind=kind, shapes=["stump", "stump"], k=3, nf=1, n=1, store="dense", what="label")))
        out.append(("forest", dict(kind=kind, shapes=["leaf", "leaf"], k=2, nf=1, n=1, store="dense", what="log")))
        out.append(("forest", dict(kind=kind, shapes=["stump", "leaf"], k=2, nf=1, n=2, store="dense", what="proba")))
        if deep:
            out.append(("forest", dict(kind=kind, shapes=["left", "right", "stump"], k=3, nf=2, n=1, store="dense", what="proba")))
            out.append(("forest", dict(kind=kind, shapes=["left", "right"], k=3, nf=2, n=1, store="sparse", what="label")))
    pairs = {2: [[a, b] for a in subsets(2) for b in subsets(2)],
             3: [[a, b] for a in subsets(3) for b in subsets(3)] if deep else
                [[[0, 1, 2], [0, 2]], [[1, 2], [0, 1, 2]], [[2], [0, 1]], [[1, 2], [1, 2]], [[1], [1]], [[0, 2], [2]]],
             4: [[[0, 1, 2, 3], [1, 3]], [[3], [0, 1, 2]], [[2, 3], [0, 2]]] if deep else []}
    for k in (2, 3, 4):
        for own in pairs[k]:
            for i, store in enumerate(("dense", "sparse")):
                out.append(("bagging", dict(member="tree", k=k, n=1, store=store, what="proba", own=own)))
            out.append(("bagging", dict(member="tree", k=k, n=1, store="dense", what="label", own=own)))
    full = [[0, 1], [0, 1]]
    out.append(("bagging", dict(member="linear", k=2, n=2, store="dense", what="proba", own=[[0, 1]])))
    out.append(("bagging", dict(member="tree", k=3, n=1, store="dense", what="proba", own=[[0, 2]])))
    for i, a in enumerate(COLS):
        for j, b in enumerate(COLS):
            if deep or j == (i + 1) % 6 or i == j == 1:
                for store in ("dense", "sparse"):
                    out.append(("bagging", dict(member="tree", k=2, n=1, store=store, what="proba", own=full, cols=[a, b])))
                    if store == "dense" or deep or i < 2:
                        out.append(("bagging", dict(member="linear", k=2, n=1, store=store, what="proba", own=full, cols=[a, b])))
    out.append(("bagging", dict(member="tree", k=2, n=1, store="sparse", what="label", own=full, cols=[[1], [2, 0]])))
    for own in ([[0, 1, 2], [0, 2]], [[1, 2], [0, 1]]):
        out.append(("bagging", dict(member="linear", k=3, n=1, store="dense", what="proba", own=own)))
        out.append(("bagging", dict(member="tree", k=3, n=2, store="dense", what="proba", own=own, shape="leaf" if len(own[0]) > 2 and not deep else "stump")))
        out.append(("bagging", dict(member="tree", k=3, n=1, store="dense", what="log", own=[own[0], [0]], shape="leaf")))
        out.append(("bagging", dict(member="tree", k=3, n=1, store="dense", what="proba", own=own, cols=[[2, 0], [1]])))
        out.append(("bagging", dict(member="tree", k=3, n=1, store="dense", what="proba", own=own + [[1]])))
        out.append(("bagging", dict(member="tree", k=3, n=1, store="dense", what="proba", own=[[0, 1, 2]] + own)))
    for i, (shapes, k, nf, n) in enumerate(((["left", 30], 2, 12, 1), (["complete", 4], 3, 40, 1), (["stump", "left", 8], 12, 2, 2),
                                            (["stump", "left", "leaf"], 3, 2, 150), (["stump", 130], 2, 24, 1))):
        for kind in ("RandomForestClassifier", "ExtraTreesClassifier")[: 2 if deep or i % 2 else 1]:
            for store in ("dense", "sparse"):
                for what in ("proba", "label"):
                    free = {"free": ["x0_1", "x%d_0" % (n - 1), "x_has0_1"] + ["m0_t0", "m2_v0_1"] * (what == "proba" and n < 3)}
                    out.append(("forest", dict(kind=kind, shapes=shapes, k=k, nf=nf, n=n, store=store, what=what), free))
    for store in ("dense", "sparse"):
        for what in ("proba", "label"):
            free = {"free": ["x0_1", "x_has0_1"] + ["m0_t0", "m2_v0_1"] * (what == "proba")}
            out.append(("bagging", dict(member="tree", k=12, n=1, store=store, what=what, own="many"), free))
            out.append(("bagging", dict(member="tree", k=12, n=1, store=store, what=what, own="many", cols=True), free))
        out.append(("bagging", dict(member="linear", k=3, n=130, store=store, what="proba", own=[[0, 1, 2], [0, 2]]),
                    {"free": ["x0_1", "x129_0", "x_has0_1"]}))
    return out
