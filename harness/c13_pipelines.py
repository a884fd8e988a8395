"""C13: pipelines and feature unions"""
import math

from harness.lib import *
from harness.trees import symtree

BOUNDS = ("pipelines of 1-5 steps out of scalers (standard, min-max, max-abs), normaliser, imputer, one-hot encoder, nested "
          "pipelines and unions and pass-through steps ('passthrough' or None) in every position, ended by each of logistic "
          "regression, linear SVC, perceptron, decision tree classifier and regressor, scaler or pass-through; unions of 1-4 "
          "transformers, dropped ones ('drop' or None) included, all real weights per transformer; 1-2 records, 1-3 "
          "features, all real parameters and entries, every sparsity pattern")
ASSUMPTIONS = ["arithmetic is idealised as real arithmetic"]
# (names never decide what a step does)
STEPS = ["step", "passthrough", "drop", "", "last_", "None"]
PARTS = ["t", "drop", "passthrough", "", "weights", "None"]
METHODS = ("predict", "predict_proba", "predict_log_proba", "transform")


def nothing(rows):
    return rows


def stage(ctx, kind, f, tag):
    """(stand-in, reference on dense rows, output width)"""
    if kind == "passthrough":
        return "passthrough", nothing, f
    if kind == "none":
        return None, nothing, f
    if kind == "std":
        mu, sd = reals(ctx, tag + "mu", f), reals(ctx, tag + "sd", f, pos=True)
        m = make("StandardScaler", with_mean=True, with_std=True, copy=True, mean_=Arr(list(mu)), scale_=Arr(list(sd)))
        return m, lambda rows: [[(x[j] - mu[j]) / sd[j] for j in range(f)] for x in rows], f
    if kind == "mean":
        mu = reals(ctx, tag + "mu", f)
        m = make("StandardScaler", with_mean=True, with_std=False, copy=True, mean_=Arr(list(mu)), scale_=None)
        return m, lambda rows: [[x[j] - mu[j] for j in range(f)] for x in rows], f
    if kind == "maxabs":
        sc = reals(ctx, tag + "sc", f, pos=True)
        m = make("MaxAbsScaler", copy=True, scale_=Arr(list(sc)), max_abs_=Arr(list(sc)))
        return m, lambda rows: [[x[j] / sc[j] for j in range(f)] for x in rows], f
    if kind == "minmax":
        mn, sc = reals(ctx, tag + "mn", f), reals(ctx, tag + "sc", f)
        m = make("MinMaxScaler", feature_range=(0, 1), copy=True, scale_=Arr(list(sc)), min_=Arr(list(mn)))
        return m, lambda rows: [[x[j] * sc[j] + mn[j] for j in range(f)] for x in rows], f
    if kind == "imputer":
        st = reals(ctx, tag + "st", f)
        m = make("SimpleImputer", missing_values=float("nan"), strategy="mean", fill_value=None, copy=True, verbose=0,
                 add_indicator=False, indicator_=None, statistics_=Arr(list(st)))
        return m, lambda rows: [[st[j] if isinstance(x[j], float) and x[j] != x[j] else x[j] for j in range(f)] for x in rows], f
    if kind == "onehot":
        cats = [[0, 2], [1, 2, 3], [0, 1]][:f]
        m = make("OneHotEncoder", dtype=float, sparse=True, drop=None, handle_unknown="ignore", categories="auto",
                 categories_=[Arr(list(c)) for c in cats])
        return m, lambda rows: [[1.0 if x[j] == c else 0.0 for j in range(f) for c in cats[j]] for x in rows], \
            sum(len(c) for c in cats)
    if kind == "flags":
        # an indicator without features gives no columns, one of the first feature one
        flagged = [0] if tag[-1] in "02468" else []
        m = make("MissingIndicator", features="missing-only", features_=Arr(list(flagged), "int64"), _n_features=f,
                 missing_values=2, error_on_new=False, sparse=False)
        return m, lambda rows: [[1.0 if x[j] == 2 else 0.0 for j in flagged] for x in rows], len(flagged)
    if kind == "pipe":
        s1, r1, w1 = stage(ctx, "maxabs", f, tag + "n1")
        s2, r2, w2 = stage(ctx, "mean", w1, tag + "n2")
        return pipeline([("first", s1), ("skip", None), ("second", s2)]), lambda rows: r2(r1(rows)), w2
    if kind == "union":
        s1, r1, w1 = stage(ctx, "maxabs", f, tag + "u1")
        s2, r2, w2 = stage(ctx, "minmax", f, tag + "u2")
        c = ctx.real(tag + "weight")
        u = make("FeatureUnion", transformer_list=[("p", s1), ("skip", "drop"), ("q", s2)], n_jobs=None,
                 transformer_weights={"q": c}, verbose=False)
        return u, lambda rows: [a + [c * v for v in b] for a, b in zip(r1(rows), r2(rows))], w1 + w2
    raise ValueError(kind)


def pipeline(steps):
    return make("Pipeline", steps=steps, memory=None, verbose=False)


def final(ctx, kind, f):
    """(stand-in, {method: reference on dense rows})"""
    if kind in ("passthrough", "none", "std", "maxabs", "minmax", "mean"):
        s, r, w = stage(ctx, kind, f, "fin")
        return s, {"transform": r}
    if kind == "treereg":
        t, leaf = symtree(ctx, "t", "stump", f, 1, regress=True)
        return make("DecisionTreeRegressor", tree_=t, n_outputs_=1, n_features_=f, max_features_=f, criterion="mse"), \
            {"predict": lambda rows: [leaf(x)[0] for x in rows]}
    if kind == "treeclf":
        vals = [[3.0, 1.0], [3.0, 1.0], [0.0, 4.0]]
        t, leaf = symtree(ctx, "t", "stump", f, 1, regress=True)
        t.value = Arr([[list(v)] for v in vals])
        hit = [0]
        fe, th = t.feature.tolist()[0], t.threshold.tolist()[0]
        pick = lambda x: vals[1] if f32(x[fe]) <= th else vals[2]
        return make("DecisionTreeClassifier", tree_=t, n_outputs_=1, n_features_=f, max_features_=f, n_classes_=2,
                    classes_=Arr([2, 10], "int64"), criterion="gini"), \
            {"predict": lambda rows: [2 if pick(x)[0] > 2 else 10 for x in rows],
             "predict_proba": lambda rows: [[v / 4.0 for v in pick(x)] for x in rows], "predict_log_proba": None}
    W = matrix(ctx, "w", 1, f)
    b = ctx.real("b")
    score = lambda rows: [rdot(x, W[0]) + b for x in rows]

    def label(rows):
        out = []
        for s in score(rows):
            ctx.margin(s, True)
            out.append(10 if s > 0 else 2)
        return out
    name = {"logistic": "LogisticRegression", "linearsvc": "LinearSVC", "perceptron": "Perceptron"}[kind]
    extra = dict(multi_class="ovr", solver="lbfgs") if kind == "logistic" else {}
    m = make(name, coef_=Arr([list(w) for w in W]), intercept_=Arr([b]), classes_=Arr([2, 10], "int64"), **extra)
    ref = {"predict": label}
    if kind == "logistic":

        def proba(rows):
            for s in score(rows):
                ctx.assume(s < 15)
                ctx.assume(s > -15)
            return [[1 - sigmoid(s), sigmoid(s)] for s in score(rows)]
        ref["predict_proba"] = proba
        ref["predict_log_proba"] = None
    return m, ref


def given(ctx, kinds, n, f, store):
    """(records, dense rows) fit for the first real step"""
    first = [k for k in kinds if k not in ("passthrough", "none")][:1]
    if first == ["onehot"]:
        D = [[ctx.choice("x%d_%d" % (i, j), [0, 1, 2]) for j in range(f)] for i in range(n)]
        return [list(r) for r in D], D
    if first == ["imputer"]:
        D = [[float("nan") if ctx.bool("miss%d_%d" % (i, j)) else ctx.real("x%d_%d" % (i, j)) for j in range(f)]
             for i in range(n)]
        return [list(r) for r in D], D
    return records(ctx, "x", n, f, store, rev=False)


def plain(got):
    from pure_sklearn.utils import issparse
    return got.todense() if issparse(got) else got


def compose(ctx, kinds, last, n, f, store):
    X, D = given(ctx, kinds + [last], n, f, store)
    steps, refs, w = [], [], f
    for i, kind in enumerate(kinds):
        s, r, w = stage(ctx, kind, w, "s%d" % i)
        steps.append((STEPS[i % 6] if (len(kinds) + n) % 2 else "step%d" % i, s))
        refs.append(r)
    s, ref = final(ctx, last, w)
    m = convert(pipeline(steps + [("last", s)]))
    Z = D
    for r in refs:
        Z = r(Z)
    for name in METHODS:
        ctx.eq(hasattr(m, name), name in ref, "offers " + name)
        if name not in ref:
            ctx.ensure(raises(lambda: getattr(m, name)(X)), name + " answered")
    for name in ref:
        if name == "predict_log_proba":
            P = m.predict_proba(X)
            ctx.eq(m.predict_log_proba(X), [[rlog(p) for p in r] for r in P], name)
        else:
            want = ref[name](Z)
            ctx.eq(plain(getattr(m, name)(X)), want, name)
            if n == 1:
                ctx.eq(plain(getattr(m, name)(X=X)), want, name + " called with a keyword")
    ctx.eq(len(m), len(kinds) + 1, "length")
    if last in ("logistic", "treeclf", "linearsvc"):
        ctx.eq(list(m.classes_), [2, 10], "classes_")


def tails(ctx, k):
    """log-probabilities of classes whose probability is too small for a float"""
    nb = lambda: make("GaussianNB", class_prior_=Arr([1.0 / k] * k), classes_=Arr([10 * i for i in range(k)], "int64"),
                      theta_=Arr([[float(60 * i)] for i in range(k)]), sigma_=Arr([[1.0 + i] for i in range(k)]))
    x = ctx.real("x")
    m = convert(pipeline([("scale", make("MaxAbsScaler", copy=True, scale_=Arr([0.5]), max_abs_=Arr([0.5]))), ("skip", None), ("nb", nb())]))
    alone = convert(nb())
    got = m.predict_log_proba([[x]])
    ctx.eq(got, alone.predict_log_proba([[x / 0.5]]), "predict_log_proba")
    for v in got[0]:
        ctx.ensure(v > -math.inf, "log-probability not finite")


def union(ctx, kinds, n, f, store, weights=None):
    X, D = given(ctx, [k for k in kinds if k != "drop"] if "onehot" in kinds else ["union"], n, f, store)
    ts, refs = [], []
    ws = {}
    names = ["t%d" % i if len(kinds) > 6 or len(kinds) % 2 else PARTS[i] for i in range(len(kinds))]
    for i, kind in enumerate(kinds):
        if kind == "drop":
            s = ctx.choice("dropped%d" % i, ["drop", None])
        else:
            s, r, w = stage(ctx, kind, f, "s%d" % i)
        if weights and weights[i] == "w":
            ws[names[i]] = ctx.real("weight%d" % i)
        elif weights and weights[i] != "-":
            ws[names[i]] = int(weights[i])
        if kind != "drop":
            refs.append((r, ws.get(names[i])))
        ts.append((names[i], s))
    m = convert(make("FeatureUnion", transformer_list=ts, n_jobs=None, transformer_weights=dict(ws) if weights else None,
                     verbose=False))
    want = [[] for _ in D]
    for r, c in refs:
        for row, part in zip(want, r(D)):
            row.extend(part if c is None else [c * v for v in part])
    got = m.transform(X)
    from pure_sklearn.utils import issparse, shape
    ctx.eq(len(got), n, "records")
    if issparse(got):
        ctx.eq(list(shape(got)), [n, len(want[0])], "shape")
    ctx.eq(plain(got), want, "transform")


def cases(tier):
    deep = tier == "thorough"
    out = []

    def add(kinds, last, n=1, f=2, store="dense"):
        out.append(("compose", dict(kinds=kinds, last=last, n=n, f=f, store=store)))
    finals = ["logistic", "linearsvc", "perceptron", "treereg", "treeclf", "passthrough", "none", "std", "maxabs"]
    for last in finals:
        add([], last)
        add(["mean"], last)
        add(["passthrough", "maxabs", "none"], last)
        add(["maxabs"], last, store="sparse") if last != "std" else None
    add(["std"], "logistic", n=2)
    add(["std", "minmax"], "linearsvc")
    add(["minmax", "std"], "linearsvc")
    add(["none", "std", "passthrough", "minmax"], "treereg", n=2, f=1)
    add(["imputer", "std"], "linearsvc")
    add(["imputer", "maxabs", "none"], "treeclf")
    add(["onehot"], "logistic")
    add(["onehot", "maxabs"], "linearsvc", n=2, f=1)
    add(["none", "onehot"], "treeclf")
    add(["onehot"], "none", n=2)
    add(["pipe"], "linearsvc")
    add(["pipe", "minmax"], "mean")
    add(["union"], "linearsvc")
    add(["mean", "union", "maxabs"], "none")
    add(["union", "passthrough"], "treereg", n=2, f=1)
    for kinds, weights in ((["maxabs"], ["w", "0"]), (["maxabs", "minmax"], ["ww", "-w", "01"]), (["minmax", "maxabs"], ["w-", "1w"]),
                           (["drop", "mean"], ["-w", "ww"]), (["mean", "drop", "minmax"], ["www", "--w", "w01"]),
                           (["drop"], ["w", "-"]), (["pipe", "maxabs"], ["w-", "-w"]), (["union", "drop", "mean"], ["w-w", "--w"])):
        for ws in [None] + weights:
            out.append(("union", dict(kinds=kinds, n=2 if len(kinds) < 3 else 1, f=2, store="dense", weights=ws)))
    for kinds, weights in ((["maxabs", "maxabs"], ["ww", "-w", "0w"]), (["maxabs", "drop", "maxabs"], ["w-w"]), (["maxabs"], ["w"])):
        for ws in [None] + weights:
            out.append(("union", dict(kinds=kinds, n=1, f=2, store="sparse", weights=ws)))
    for kinds, weights in ((["onehot", "maxabs"], ["ww", "-w"]), (["mean", "onehot"], ["ww", "w-"]),
                           (["mean", "onehot", "drop", "maxabs"], ["w-ww", "-w--"]), (["onehot", "onehot"], ["-w", "1w"]), (["onehot", "flags"], ["-w"]),
                           (["mean", "flags", "onehot"], ["-w-"]), (["flags", "flags", "onehot"], ["ww-"])):
        for ws in [None] + weights:
            out.append(("union", dict(kinds=kinds, n=1, f=2, store="dense", weights=ws)))
    for f, n in ((70, 2), (2, 150)):
        free = {"free": ["x0_1", "x_has0_1", "x%d_0" % (n - 1)]}
        for kinds, last in ((["mean", "none", "maxabs"], "linearsvc"), (["std", "minmax", "passthrough"] * 4, "treereg"),
                            (["maxabs", "none"], "treeclf"), (["union"], "mean"), (["maxabs"] * 15, "none"), (["pipe", "union"], "perceptron"),
                            (["imputer", "std"], "linearsvc")):
            if f < 9 or kinds != ["pipe", "union"]:
                out.append(("compose", dict(kinds=kinds, last=last, n=n, f=f, store="dense"), free))
        for last in ("linearsvc", "none", "treeclf"):
            out.append(("compose", dict(kinds=["maxabs", "none"], last=last, n=n, f=f, store="sparse"), free))
        for kinds, ws in ((["maxabs", "minmax", "drop", "mean"] * 4, "w-w-" * 4), (["maxabs", "mean"], None), (["pipe"] * 12, "w-0-1-w-w-w-"), (["drop", "union"], "ww")):
            out.append(("union", dict(kinds=kinds, n=n, f=f, store="dense", weights=ws), free))
        for kinds, ws in ((["maxabs"] * 12, "w-" * 6), (["maxabs", "drop"], None)):
            out.append(("union", dict(kinds=kinds, n=n, f=f, store="sparse", weights=ws), free))
    for ws in (None, "w-w-w-w-w-w-"):
        out.append(("union", dict(kinds=["onehot", "maxabs", "mean"] * 4, n=60, f=2, store="dense", weights=ws), {"free": ["x0_1", "x59_0"]}))
    for k in (2, 3):
        out.append(("tails", dict(k=k), dict(ieee=True)))
    if deep:
        import itertools
        mid = ["std", "minmax", "maxabs", "none"]
        for a, b, c in itertools.product(mid, mid, mid):
            add([a, b, c], "linearsvc", n=1, f=3)
            add([a, b, c], "none", n=2, f=2)
        for a, b, c in itertools.product(["maxabs", "mean", "drop", "pipe"], repeat=3):
            for ws in ("www", "-w-", "w0-"):
                out.append(("union", dict(kinds=[a, b, c], n=2, f=2, store="dense", weights=ws)))
        for a, b in itertools.product(["maxabs", "mean", "drop", "onehot"], repeat=2):
            for ws in ("www", "-w-", "w-w"):
                out.append(("union", dict(kinds=[a, b, "onehot"], n=1, f=2, store="dense", weights=ws)))
        add(["maxabs", "none"], "logistic", n=2, f=2, store="sparse")
    return out
