"""C07: reading and evaluating xgboost trees"""
from harness.lib import *
from harness.frames import Frame
from harness.trees import SHAPES, LARGE

LABELS = [None, ["no", "yes"], ["", "B", "a"], [7, 5, 3, 1]]
NAMES = {
    "default": None,
    "named": ["width", "a b", "f1", "f0"],
    "wide": ["c%d" % i for i in range(12)],
    "many": ["v%d" % (i * 7 % 300) for i in range(300)],
    "columns": None,
}


def classes(k):
    return list(LABELS[k - 1]) if k <= 4 else list(range(k))


BOUNDS = ("1-3 rounds of trees of up to 9 nodes with any node numbering (including gaps left by pruning), 2-4 classes, "
          "parallel trees, early stopping, features given by index (up to 12 columns) or name, all real splits, leaf "
          "values and records in [-100,100] with exact rounding to single precision, every pattern of missing cells, "
          "NaN or numeric missing marker, base scores in (0,1) given by the estimator or the booster configuration")
ASSUMPTIONS = ["sums are idealised as real arithmetic; exp is the real exponential, except that in the stability cases "
               "it overflows and underflows as in IEEE 754",
               "the booster's table has the columns of xgboost's trees_to_dataframe"]


class Booster:
    def __init__(self, frame, names, config, attrs):
        self._frame = frame
        self._config = config
        self.feature_names = names
        for k, v in attrs.items():
            setattr(self, k, v)

    def trees_to_dataframe(self, fmap=""):
        return self._frame.copy()

    def save_config(self):
        return self._config

    def num_boosted_rounds(self):
        return self._rounds


class OldBooster:
    """a booster that does not report its configuration"""

    def __init__(self, frame, names):
        self._frame = frame
        self.feature_names = names

    def trees_to_dataframe(self, fmap=""):
        return self._frame.copy()


class XGBClassifier:
    pass


def tree_rows(ctx, name, shape, idx, feats, names, gap, cols, free):
    """append one tree to the table; returns the reference evaluation"""
    left, right = SHAPES.get(shape) or LARGE[shape]
    n = len(left)
    ids = [i if i < 1 or not gap else i + gap for i in range(n)]
    nan = float("nan")
    split, val, miss = [], [], []
    order = list(range(n))
    if gap:
        order = order[:1] + order[1:][::-1]
    for i in range(n):
        if left[i] == -1:
            val.append(ctx.real("%s_v%d" % (name, i)))
            split.append(None)
            miss.append(None)
        else:
            split.append(ctx.real("%s_s%d" % (name, i)))
            val.append(float(7 + i))
            miss.append(ctx.choice("%s_m%d" % (name, i), ["yes", "no"]) if free else ["yes", "no"][i % 2])
    for i in order:
        leaf = left[i] == -1
        cols["Tree"].append(idx)
        cols["Node"].append(ids[i])
        cols["ID"].append("%d-%d" % (idx, ids[i]))
        f = feats[i % len(feats)]
        cols["Feature"].append("Leaf" if leaf else names[f] if names is not None else "f%d" % f)
        cols["Split"].append(nan if leaf else split[i])
        cols["Yes"].append(nan if leaf else "%d-%d" % (idx, ids[left[i]]))
        cols["No"].append(nan if leaf else "%d-%d" % (idx, ids[right[i]]))
        cols["Missing"].append(nan if leaf else "%d-%d" % (idx, ids[left[i] if miss[i] == "yes" else right[i]]))
        cols["Gain"].append(val[i])
        cols["Cover"].append(float(3 * i + 1))
        cols["Category"].append(nan)

    def leaf(x):
        """x: list of values or None for missing"""
        i = 0
        while left[i] != -1:
            v = x[feats[i % len(feats)]]
            if v is None:
                i = left[i] if miss[i] == "yes" else right[i]
            elif f32(v) < f32(split[i]):
                i = left[i]
            else:
                i = right[i]
        return val[i]
    return leaf


def model(ctx, k, rounds, shape, feats, nf, names="default", par=1, gap=0, best=None, base=None, old=False, missing="absent",
          declared=None, holes=False):
    names = NAMES[names][:nf] if NAMES[names] else None
    cols = {c: [] for c in ["Tree", "Node", "ID", "Feature", "Split", "Yes", "No", "Missing", "Gain", "Cover", "Category"]}
    groups = 1 if k == 2 else k
    sums = [[] for g in range(groups)]
    idx = 0
    for r in range(rounds):
        for g in range(groups):
            for p in range(par):
                fs = [feats[(idx + i) % len(feats)] for i in range(len(feats))]
                leaf = tree_rows(ctx, "t%d" % idx, shape, idx, fs, names, gap, cols, holes or missing not in ("absent", None))
                if best is None or r <= best:
                    sums[g].append(leaf)
                idx += 1
    est = XGBClassifier()
    est.objective = "binary:logistic" if k == 2 else "multi:softprob"
    est.booster = "gbtree"
    est.classes_ = Arr(classes(k), "int64") if k != 3 else Arr(classes(k))
    est.n_classes_ = k
    est.n_estimators = declared or rounds
    est.num_parallel_tree = par if par > 1 else None
    if best is not None:
        est.best_iteration = best
        est.best_ntree_limit = (best + 1) * par
    bias = 0.5
    config = '{"learner": {"learner_model_param": {"base_score": "5E-1", "num_class": "%d", "num_feature": "%d"}}}' % (
        0 if k == 2 else k, nf)
    if base == "estimator":
        bias = ctx.real("base", lo=0, hi=1)
        ctx.assume(bias > 0.001)
        ctx.assume(bias < 0.999)
        est.base_score = bias
    elif base == "config":
        bias = ctx.choice("bias", [0.5, 0.25, 0.90625])
        config = config.replace("5E-1", {0.5: "5E-1", 0.25: "2.5E-1", 0.90625: "9.0625E-1"}[bias])
        est.base_score = None
    elif base == "none":
        est.base_score = None
    if missing != "absent":
        est.missing = missing
    frame = Frame(cols)
    if old:
        b = OldBooster(frame, names)
    else:
        b = Booster(frame, names, config, {"best_iteration": best} if best is not None else {})
        b._rounds = rounds
    est.get_booster = lambda: b

    def raw(x):
        out = []
        for g in range(groups):
            t = 0.0
            for leaf in sums[g]:
                t = t + leaf(x)
            out.append(t)
        if k == 2:
            out[0] = out[0] + math.log(bias / (1.0 - bias))
        return out
    return convert(est), raw


def cells(ctx, n, nf, used, holes, missing, flags=False):
    """(records, records with None for missing)"""
    X, D = [], []
    for i in range(n):
        x, d = [], []
        for j in range(nf):
            if j not in used:
                x.append(50.0 - 100.0 * (j % 2))
                d.append(x[-1])
            elif holes and ctx.bool("hole%d_%d" % (i, j)):
                x.append(float("nan"))
                d.append(None)
            else:
                v = ctx.choice("flag%d_%d" % (i, j), [True, False, 0, 2]) if flags else ctx.real("x%d_%d" % (i, j))
                x.append(v)
                if isinstance(missing, float) and missing == missing:
                    d.append(None if v == missing else v)
                else:
                    d.append(v)
        X.append(x)
        D.append(d)
    return X, D


def proba(ctx, k, rounds, shape, feats, nf, n=1, holes=False, flags=False, **kw):
    m, raw = model(ctx, k, rounds, shape, feats, nf, holes=holes, **kw)
    X, D = cells(ctx, n, nf, feats, holes, kw.get("missing"), flags)
    want = []
    for x in D:
        s = raw(x)
        if k == 2:
            p = sigmoid(s[0])
            want.append([1.0 - p, p])
        else:
            want.append(softmax(s))
    ctx.eq(m.predict_proba(X), want, "predict_proba")


def labels(ctx, k, rounds, shape, feats, nf, n=1, holes=False, **kw):
    m, raw = model(ctx, k, rounds, shape, feats, nf, holes=holes, **kw)
    X, D = cells(ctx, n, nf, feats, holes, kw.get("missing"))
    want = []
    for x in D:
        s = raw(x)
        if k == 2:
            ctx.margin(s[0], True)
            want.append(LABELS[1][1 if s[0] > 0 else 0])
        else:
            want.append(classes(k)[first_max(ctx, s, True)])
    ctx.eq(m.predict(X), want, "predict")


def stable(ctx, k):
    """finite probabilities whatever the sums"""
    v = ctx.real("v", lo=-1000000, hi=1000000)
    vals = [v] if k == 2 else [v, 1.0 - v, 3.0] if ctx.bool("two") else [0.0, v, v]
    cols = {c: [] for c in ["Tree", "Node", "ID", "Feature", "Split", "Yes", "No", "Missing", "Gain", "Cover", "Category"]}
    nan = float("nan")
    for i in range(len(vals)):
        for c, a in zip(list(cols), [i, 0, "%d-0" % i, "Leaf", nan, nan, nan, nan, vals[i], 1.0, nan]):
            cols[c].append(a)
    est = XGBClassifier()
    est.objective = "binary:logistic" if k == 2 else "multi:softprob"
    est.booster = "gbtree"
    est.classes_ = Arr(classes(k), "int64") if k != 3 else Arr(classes(k))
    est.n_classes_ = k
    est.n_estimators = 1
    b = Booster(Frame(cols), None, "{}", {})
    b.save_config = lambda: '{"learner": {"learner_model_param": {"base_score": "5E-1"}}}'
    b._rounds = 1
    est.get_booster = lambda: b
    p = convert(est).predict_proba([[0.0]])[0]
    t = 0.0
    for a in p:
        ctx.ensure(a >= 0, "negative or NaN probability")
        ctx.ensure(a <= 1.000001, "probability above one")
        t = t + a
    ctx.ensure(t > 0.999999, "probabilities do not sum to one")
    ctx.ensure(t < 1.000001, "probabilities do not sum to one")


def cases(tier):
    deep = tier == "thorough"
    out = []
    base = dict(k=2, rounds=1, shape="stump", feats=[0, 1], nf=2)

    def add(fn, **kw):
        d = dict(base)
        d.update(kw)
        out.append((fn, d))
    for shape in ("leaf", "stump", "left", "right", "best", "swap", "full") + (("deep",) if deep else ()):
        big = shape in ("best", "full", "deep")
        add("proba", shape=shape)
        add("proba", shape=shape, gap=2)
        if not big or deep:
            add("proba", shape=shape, holes=True)
            add("proba", shape=shape, holes=True, gap=3)
    for names, nf, feats in (("default", 12, [10, 2]), ("default", 12, [1, 11]), ("named", 4, [2, 3]), ("named", 4, [0, 1]),
                             ("wide", 12, [11, 1])):
        add("proba", names=names, nf=nf, feats=feats, shape="left" if deep else "stump", rounds=1)
        add("labels", names=names, nf=nf, feats=feats, shape="stump", rounds=2 if deep else 1, holes=True)
    for r, best in ((2, None), (3, None), (3, 0), (3, 1), (2, 1)):
        add("proba", rounds=r, shape="leaf", best=best)
        add("proba", rounds=r, shape="leaf", best=best, k=3)
        add("proba", rounds=r, shape="leaf", best=best, par=2)
        add("proba", rounds=2, shape="stump", best=best if r == 2 else None, feats=[0], nf=1)
    add("proba", rounds=2, shape="leaf", k=3, par=2)
    add("proba", rounds=2, shape="leaf", k=4)
    add("proba", rounds=1, shape="leaf", k=3, par=3)
    add("proba", rounds=2, shape="leaf", declared=9)
    add("proba", rounds=2, shape="leaf", declared=9, k=3)
    add("proba", rounds=1, shape="stump", k=3, feats=[0], nf=1)
    add("proba", rounds=2 if deep else 1, shape="stump", k=3, feats=[0, 1, 2], nf=3)
    add("proba", rounds=1, shape="stump", k=3, feats=[1, 0], nf=2, holes=True, gap=4)
    for b in ("estimator", "config", "none"):
        add("proba", base=b, shape="leaf")
        add("proba", base=b, shape="stump")
        add("labels", base=b, shape="leaf")
        add("proba", base=b, shape="leaf", k=3)
    add("proba", old=True)
    add("proba", old=True, base="estimator", shape="leaf")
    add("proba", old=True, base="none", shape="leaf")
    for miss in (None, float("nan"), 0.0, -1.0, -999.0):
        add("proba", missing=miss, shape="stump", holes=True, feats=[0], nf=1)
        add("proba", missing=miss, shape="stump", k=3, feats=[0], nf=1)
    add("proba", missing=0.0, shape="left", holes=False)
    add("proba", missing=0.0, shape="stump", flags=True)
    add("proba", missing=1.0, shape="stump", flags=True, k=3)
    add("proba", shape="left", flags=True)
    for k in (2, 3):
        add("labels", k=k, shape="stump", feats=[0], nf=1, holes=True)
        add("labels", k=k, shape="leaf", rounds=2)
        add("proba", k=k, n=2, shape="stump" if k == 2 else "leaf", feats=[0], nf=1)
        out.append(("stable", dict(k=k), dict(ieee=True)))
    add("labels", k=4, shape="leaf", rounds=1)
    for fn in ("proba", "labels"):
        for d in (dict(shape="complete", gap=3), dict(shape="chain", gap=1), dict(shape="bigchain"),
                  dict(shape="left", rounds=40, feats=[0, 1, 1]), dict(shape="stump", rounds=130), dict(shape="leaf", rounds=15, k=12),
                  dict(shape="stump", rounds=12, k=3, par=4, best=10), dict(shape="complete", rounds=2, k=3),
                  dict(shape="stump", nf=300, feats=[1, 299, 10, 0], names="many", rounds=3),
                  dict(shape="left", nf=1200, feats=[1, 0, 1100], rounds=3), dict(shape="stump", n=150)):
            d = dict(dict(base, holes="n" not in d), **d)
            if fn == "labels" and d["k"] == 2:
                d["base"] = "estimator"
            names = ["x0_0", "x149_1"] if "n" in d else ["x0_0", "hole0_0", "t0_m0"]
            if d["nf"] > 2:
                names += ["x0_1", "hole0_1", "t0_s0"]
            out.append((fn, d, {"free": names}))
    return out
