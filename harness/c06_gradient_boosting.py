"""C06: raw scores, probabilities and labels of gradient boosting"""
from harness.lib import *
from harness.trees import *

LABELS = [None, ["no", "yes"], ["", "B", "a"], [30, 10, 20, 40]]
EPS = 1.1920929e-07
BOUNDS = ("1-3 boosting rounds of trees of up to 7 nodes, 2-4 classes, three losses, initial models: class priors, zero, "
          "naive Bayes and logistic regression; all real leaf values, thresholds, records, learning rates and priors "
          "(including 0 and 1), 1-2 records; stability for raw scores in [-1e6,1e6] with IEEE exp")
ASSUMPTIONS = ["sums, products and log are idealised as real arithmetic; exp is the real exponential, except that in "
               "the stability cases it overflows and underflows as in IEEE 754"]


def names(k):
    return list(LABELS[k - 1]) if k <= 4 else list(range(10, 10 + k))


class Estimators:
    """rows of trees, one per class"""

    def __init__(self, rows):
        self.rows = rows
        self.shape = (len(rows), len(rows[0]))

    def __iter__(self):
        return iter(self.rows)

    def __len__(self):
        return len(self.rows)

    def __getitem__(self, i):
        if isinstance(i, tuple):
            return self.rows[i[0]][i[1]]
        return self.rows[i]


def clip(p):
    if p < EPS:
        return EPS
    if p > 1 - EPS:
        return 1 - EPS
    return p


def initial(ctx, init, k, nf):
    """(initial estimator or 'zero', reference probabilities)"""
    if init == "zero":
        return "zero", None
    if init in ("prior", "fixed"):
        if init == "fixed":
            pr = [0.25, 0.5, 0.25]
        elif k == 2:
            p = ctx.real("prior", lo=0, hi=1)
            pr = [1 - p, p]
        else:
            pr = reals(ctx, "prior", k, lo=0, hi=1)
        est = make("DummyClassifier", strategy="prior", _strategy="prior", class_prior_=Arr(list(pr)),
                   classes_=Arr(list(range(k)), "int64"), n_classes_=k, n_outputs_=1)
        return est, lambda x: pr
    t, leaf = symtree(ctx, "init", "stump", nf, k, feats=[0] * 9)
    est = make("DecisionTreeClassifier", tree_=t, n_features_=nf, n_outputs_=1, classes_=Arr(list(range(k)), "int64"))
    return est, lambda x: dist(leaf(x))


def model(ctx, loss, k, rounds, shape, init, nf):
    g = 1 if k == 2 else k
    e, ref = initial(ctx, init, k, nf)
    rows, leaves = [], []
    for r in range(rounds):
        ests, ls = [], []
        for c in range(g):
            t, leaf = symtree(ctx, "t%d_%d" % (r, c), shape, nf, 1, True, feats=[(r + c + i) % nf for i in range(1400)])
            ests.append(make("DecisionTreeRegressor", tree_=t, n_features_=nf, n_outputs_=1))
            ls.append(leaf)
        rows.append(ests)
        leaves.append(ls)
    lr = ctx.real("lr", lo=0, hi=10) if rounds < 20 else ctx.real("lr", lo=1 / 512, hi=1 / 128)
    m = convert(make("GradientBoostingClassifier", classes_=Arr(names(k)), estimators_=Estimators(rows),
                     init_=e, loss=loss, learning_rate=lr, n_features_=nf, n_classes_=k, n_outputs_=1,
                     n_estimators=rounds, n_estimators_=rounds))

    def raw(x):
        if ref is None:
            s = [0.0] * g
        elif k > 2:
            s = [math.log(clip(p)) for p in ref(x)]
        else:
            p = clip(ref(x)[1])
            s = [math.log(p / (1 - p))]
            if loss == "exponential":
                s = [0.5 * s[0]]
        for c in range(g):
            t = 0.0
            for r in range(rounds):
                t = t + leaves[r][c](x)[0]
            s[c] = s[c] + lr * t
        return s
    return m, raw


def proba(ctx, loss, k, rounds, shape, init, nf=2, n=1):
    m, raw = model(ctx, loss, k, rounds, shape, init, nf)
    D = matrix(ctx, "x", n, nf)
    want = []
    for x in D:
        s = raw(x)
        if k > 2:
            want.append(softmax(s))
        else:
            p = sigmoid(2.0 * s[0] if loss == "exponential" else s[0])
            want.append([1.0 - p, p])
    ctx.eq(m.predict_proba([list(x) for x in D]), want, "predict_proba")


def labels(ctx, loss, k, rounds, shape, init, nf=2, n=1):
    m, raw = model(ctx, loss, k, rounds, shape, init, nf)
    D = matrix(ctx, "x", n, nf)
    want = []
    for x in D:
        s = raw(x)
        if k > 2:
            want.append(names(k)[first_max(ctx, s, True)])
        else:
            ctx.margin(s[0], True)
            # the native exponential loss gives ties to the second class
            if loss == "exponential":
                second = s[0] >= 0
            else:
                p = sigmoid(s[0])
                second = p > 1.0 - p
            want.append(LABELS[1][1 if second else 0])
    ctx.eq(m.predict([list(x) for x in D]), want, "predict")


def logs(ctx, loss, k, init):
    m, raw = model(ctx, loss, k, 1, "leaf", init, 1)
    x = matrix(ctx, "x", 1, 1)
    p = m.predict_proba([list(x[0])])
    ctx.eq(m.predict_log_proba([list(x[0])]), [[rlog(a) for a in p[0]]], "predict_log_proba")


def stable(ctx, loss, k):
    """finite probabilities whatever the scores"""
    g = 1 if k == 2 else k
    v = ctx.real("v", lo=-1000000, hi=1000000)
    if k == 2:
        vals = [v]
    elif ctx.bool("two"):
        vals = [v, 1.0 - v, 3.0, 3.0][:k]
    else:
        vals = [0.0, v, v, -1.0][:k]
    ests = []
    for c in range(g):
        t = FittedTree()
        t.children_left = Arr([-1], "int64")
        t.children_right = Arr([-1], "int64")
        t.feature = Arr([-2], "int64")
        t.threshold = Arr([-2.0])
        t.value = Arr([[[vals[c]]]])
        ests.append(make("DecisionTreeRegressor", tree_=t, n_features_=1, n_outputs_=1))
    m = convert(make("GradientBoostingClassifier", classes_=Arr(names(k)), estimators_=Estimators([ests]),
                     init_="zero", loss=loss, learning_rate=1.0, n_features_=1, n_classes_=k, n_outputs_=1,
                     n_estimators=1, n_estimators_=1))
    p = m.predict_proba([[0.0]])[0]
    ctx.eq(m.predict_log_proba([[0.0]])[0], [rlog(a) for a in p], "predict_log_proba of extreme scores")
    t = 0.0
    for a in p:
        ctx.ensure(a >= 0, "negative or NaN probability")
        ctx.ensure(a <= 1.000001, "probability above one")
        t = t + a
    ctx.ensure(t > 0.999999, "probabilities do not sum to one")
    ctx.ensure(t < 1.000001, "probabilities do not sum to one")
    if k == 2:
        s = 2.0 * v if loss == "exponential" else v
        if s > 1:
            ctx.ensure(p[1] > 0.5, "positive score, small probability")
        if s < -1:
            ctx.ensure(p[1] < 0.5, "negative score, large probability")


def width(ctx):
    m, raw = model(ctx, "deviance", 2, 1, "stump", ctx.choice("init", ["prior", "zero"]), 2)
    g = ctx.choice("g", [1, 3, 4])
    X = [reals(ctx, "x", g)]
    ctx.ensure(raises(lambda: m.predict(X)), "record of the wrong width labelled")
    ctx.ensure(raises(lambda: m.predict_proba(X)), "record of the wrong width scored")
    ctx.ensure(raises(lambda: m.predict_log_proba(X)), "record of the wrong width scored")


def cases(tier):
    deep = tier == "thorough"
    out = []
    for fn in ("proba", "labels"):
        for loss, k in (("deviance", 2), ("exponential", 2), ("deviance", 3)):
            for init in ("prior", "zero", "tree"):
                if fn == "labels" and init == "tree" and loss == "deviance":
                    continue
                if k == 3 and init == "tree":
                    out.append((fn, dict(loss=loss, k=k, rounds=1, shape="leaf", init=init)))
                elif k == 2 or init == "zero":
                    out.append((fn, dict(loss=loss, k=k, rounds=2 if k == 2 else 1, shape="stump", init=init)))
                else:
                    out.append((fn, dict(loss=loss, k=k, rounds=1, shape="leaf", init=init if fn == "proba" else "fixed")))
            out.append((fn, dict(loss=loss, k=k, rounds=3, shape="leaf", init="zero")))
            out.append((fn, dict(loss=loss, k=k, rounds=1, shape="stump" if k == 2 else "leaf", init="zero", n=2)))
            if k == 2:
                out.append((fn, dict(loss=loss, k=k, rounds=1, shape="left", init="zero")))
                if deep:
                    out.append((fn, dict(loss=loss, k=k, rounds=1, shape="full", init="prior")))
                    out.append((fn, dict(loss=loss, k=k, rounds=3, shape="stump", init="prior")))
                    out.append((fn, dict(loss=loss, k=k, rounds=2, shape="left", init="zero")))
            elif deep:
                out.append((fn, dict(loss=loss, k=k, rounds=2, shape="stump", init="zero")))
                out.append((fn, dict(loss=loss, k=k, rounds=1, shape="left", init="zero")))
        out.append((fn, dict(loss="deviance", k=4, rounds=1, shape="leaf", init="zero")))
    if deep:
        out.append(("proba", dict(loss="deviance", k=4, rounds=1, shape="leaf", init="prior")))
    for loss, k in (("deviance", 2), ("exponential", 2), ("deviance", 3), ("deviance", 4)):
        out.append(("logs", dict(loss=loss, k=k, init="zero")))
        out.append(("stable", dict(loss=loss, k=k), dict(ieee=True)))
    out.append(("width", dict()))
    for fn in ("proba", "labels"):
        for loss in ("deviance", "exponential"):
            for rounds, shape, nf, n in ((40, "left", 12, 1), (130, "stump", 24, 1), (3, "complete", 9, 1), (2, "stump", 2, 130)):
                free = {"free": ["x0_1", "x%d_0" % (n - 1)] + ["t0_0_v1"] * (n == 1)}
                out.append((fn, dict(loss=loss, k=2, rounds=rounds, shape=shape, nf=nf, n=n, init="prior" if fn == "proba" else "zero"), free))
        for k, rounds, shape, nf, n in ((5, 2, "left", 4, 1), (3, 40, "stump", 24, 1), (3, 1, "stump", 2, 130)):
            free = {"free": ["x0_1", "x%d_0" % (n - 1)] + ["t0_0_v1"] * (n == 1)}
            out.append((fn, dict(loss="deviance", k=k, rounds=rounds, shape=shape, nf=nf, n=n, init="zero" if fn == "labels" else "fixed" if k == 3 else "prior"), free))
    return out
