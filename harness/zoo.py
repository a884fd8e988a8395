"""One fitted stand-in of every supported kind, for the properties that hold
across all of them (records independent, nothing modified, conversion)."""
from harness.lib import *
from harness.trees import symtree
from harness.frames import Frame
from harness.fast import Model, EOS, load


class Kind:
    """est: fitted stand-in; methods: what to call; record(i): the i-th record;
    store: dense, sparse or any other iterable of records; pure: converter"""

    def __init__(self, est, methods, record, store="dense", width=2, pure=None):
        self.est = est
        self.methods = methods
        self.record = record
        self.store = store
        self.width = width
        self.pure = pure or convert

    def batch(self, recs):
        if self.store == "sparse":
            return sparse([dict(r) for r in recs], self.width)
        if self.store == "dense":
            return [list(r) for r in recs]
        return list(recs)


CLF = ("predict", "predict_proba", "predict_log_proba")
LINEAR = {
    "LogisticRegression": (dict(multi_class="ovr", solver="liblinear"), ("decision_function",) + CLF),
    "RidgeClassifier": ({}, ("decision_function", "predict")),
    "SGDClassifier": (dict(loss="log"), ("decision_function",) + CLF),
    "Perceptron": ({}, ("decision_function", "predict")),
    "PassiveAggressiveClassifier": ({}, ("decision_function", "predict")),
    "LinearSVC": (dict(multi_class="ovr"), ("decision_function", "predict")),
}
TREES = ("DecisionTreeClassifier", "ExtraTreeClassifier", "DecisionTreeRegressor", "ExtraTreeRegressor")
DOCS = ["ab ba", "", "zz ab ab", "ba"]


def dense(ctx, f=2, **k):
    return lambda i: reals(ctx, "x%d_" % i, f, **k)


def rows_sparse(ctx, f=2):
    def rec(i):
        r = {}
        for j in range(f):
            if ctx.bool("has%d_%d" % (i, j)):
                r[j] = ctx.real("x%d_%d" % (i, j))
        return r
    return rec


def linear(ctx, kind, k=2, store="dense", **over):
    extra, methods = LINEAR[kind]
    extra = dict(extra)
    extra.update(over)
    n = 1 if k == 2 else k
    # one free weight
    W = [[1.0 - 2 * i + j for j in range(2)] for i in range(n)]
    W[0][0] = ctx.real("w", lo=-10, hi=10)
    b = [0.5 * (i - 1) for i in range(n)]
    if n == 1:
        b[0] = ctx.real("b", lo=-5, hi=5)
    est = make(kind, coef_=Arr(W), intercept_=Arr(b), classes_=Arr(["no", "yes"] if k == 2 else ["b", "a", "c"]), **extra)
    return Kind(est, methods, dense(ctx) if store == "dense" else rows_sparse(ctx), store)


def tree(ctx, kind, store="dense"):
    reg = "Regressor" in kind
    t, _ = symtree(ctx, "t", "left" if store == "dense" else "stump", 2, 1, True, feats=[0, 1, 0, 1, 0])
    if not reg:
        t.value = Arr([[[3.0, 1.0]], [[2.0, 2.0]], [[1.0, 3.0]], [[0.0, 2.0]], [[5.0, 0.0]]][:t.node_count])
    a = dict(tree_=t, n_outputs_=1, n_features_=2, max_features_=2)
    if not reg:
        a.update(classes_=Arr(["no", "yes"]), n_classes_=2)
    return Kind(make(kind, **a), ("predict",) if reg else CLF, dense(ctx) if store == "dense" else rows_sparse(ctx), store)


def member(ctx, name, first, shape="stump"):
    t, _ = symtree(ctx, name, shape, 2, 1, True, feats=[first] * 3)
    t.value = Arr([[[3.0, 1.0]], [[2.0, 2.0]], [[0.0, 2.0]]][:t.node_count])
    return make("DecisionTreeClassifier", tree_=t, n_outputs_=1, n_features_=2, max_features_=2, n_classes_=2, classes_=Arr([0.0, 1.0]))


def forest(ctx, kind, store="dense"):
    est = make(kind, classes_=Arr(["no", "yes"]), estimators_=[member(ctx, "m0", 0), member(ctx, "m1", 1, "leaf" if store == "sparse" else "stump")], n_features_=2, n_outputs_=1,
               n_classes_=2)
    return Kind(est, CLF, dense(ctx) if store == "dense" else rows_sparse(ctx), store)


def bagging(ctx, store="dense"):
    ests = []
    for i in range(2):
        ests.append(make("LogisticRegression", coef_=Arr([[1.0, 1.0 - i]]), intercept_=Arr([0.5]), classes_=Arr([0, 1], "int64"),
                         multi_class="ovr", solver="liblinear"))
    est = make("BaggingClassifier", classes_=Arr(["no", "yes"]), estimators_=ests, n_classes_=2, n_features_=2,
               estimators_features_=[Arr([1, 0], "int64"), Arr([1, 1], "int64")])
    return Kind(est, CLF, dense(ctx, lo=-5, hi=5) if store == "dense" else rows_sparse(ctx), store)


class Rows:
    """a 2-D object array"""

    def __init__(self, rows):
        self.rows = rows
        self.shape = (len(rows), len(rows[0]))

    def __iter__(self):
        return iter(self.rows)

    def __len__(self):
        return len(self.rows)

    def __getitem__(self, i):
        return self.rows[i[0]][i[1]] if isinstance(i, tuple) else self.rows[i]


def boosting(ctx, loss, k, init="prior"):
    rows = []
    for r in range(2 if k == 2 else 1):
        row = []
        for c in range(1 if k == 2 else k):
            t, _ = symtree(ctx, "t%d_%d" % (r, c), "stump" if r + c < (1 if init == "model" or k > 2 else 2) else "leaf", 2, 1, True, feats=[(r + c) % 2] * 3)
            row.append(make("DecisionTreeRegressor", tree_=t, n_outputs_=1, n_features_=2))
        rows.append(row)
    if init == "prior":
        i = make("DummyClassifier", strategy="prior", _strategy="prior", class_prior_=Arr([0.25, 0.75] if k == 2 else [0.25, 0.25, 0.5]),
                 classes_=Arr(list(range(k)), "int64"), n_classes_=k, n_outputs_=1)
    elif init == "zero":
        i = "zero"
    else:
        i = make("LogisticRegression", coef_=Arr([[1.0, -1.0]]), intercept_=Arr([0.5]), classes_=Arr([0, 1], "int64"), multi_class="ovr",
                 solver="liblinear")
    est = make("GradientBoostingClassifier", classes_=Arr(["no", "yes", "x"][:k]), estimators_=Rows(rows), init_=i, loss=loss,
               learning_rate=0.5, n_features_=2, n_classes_=k, n_outputs_=1, n_estimators=len(rows), n_estimators_=len(rows))
    return Kind(est, CLF, dense(ctx))


class XGBClassifier:
    pass


class Booster:
    feature_names = None

    def __init__(self, cols):
        self.cols = cols

    def trees_to_dataframe(self, fmap=""):
        return Frame({k: list(v) for k, v in self.cols.items()})

    def num_features(self):
        return 2

    def save_config(self):
        return '{"learner": {"learner_model_param": {"base_score": "2.5E-1"}}}'


def xgb(ctx, k):
    cols = {c: [] for c in ["Tree", "Node", "ID", "Feature", "Split", "Yes", "No", "Missing", "Gain", "Cover", "Category"]}
    nan = float("nan")
    for t in range(2 if k == 2 else k):
        s = ctx.real("s%d" % t) if t < (2 if k == 2 else 1) else 0.5 * t
        for n in range(3):
            leaf = n > 0
            for c, v in zip(list(cols), [t, n, "%d-%d" % (t, n), "Leaf" if leaf else "f%d" % (t % 2), nan if leaf else s,
                                         nan if leaf else "%d-1" % t, nan if leaf else "%d-2" % t, nan if leaf else "%d-1" % t,
                                         1.0 - t + 0.5 * n, 1.0, nan]):
                cols[c].append(v)
    est = XGBClassifier()
    est.objective = "binary:logistic" if k == 2 else "multi:softprob"
    est.booster = "gbtree"
    est.classes_ = Arr([7, 3, 5][:k], "int64")
    est.n_classes_ = k
    est.n_estimators = 2 if k == 2 else 1
    est.missing = -999.0
    b = Booster(cols)
    est.get_booster = lambda: b
    return Kind(est, ("predict", "predict_proba"), dense(ctx))


def nb(ctx, kind):
    if kind == "GaussianNB":
        est = make(kind, class_prior_=Arr([0.25, 0.75]), classes_=Arr(["no", "yes"]), theta_=Arr([[ctx.real("th"), 1.0], [2.0, 0.0]]),
                   sigma_=Arr([[1.0, 2.0], [0.5, 1.0]]))
    else:
        est = make(kind, class_log_prior_=Arr([-0.5, -1.0]), classes_=Arr(["no", "yes"]),
                   feature_log_prob_=Arr([[ctx.real("l"), -1.0], [-0.5, -2.0]]))
    return Kind(est, CLF, dense(ctx, lo=-5, hi=5))


def scaler(ctx, kind, store="dense"):
    p = [ctx.real("p0"), ctx.real("p1")]
    s = [ctx.real("s0", pos=True), ctx.real("s1", pos=True)]
    if kind == "StandardScaler":
        est = make(kind, with_mean=store == "dense", with_std=True, copy=True, mean_=Arr(p), scale_=Arr(s), var_=Arr(list(s)))
    elif kind == "MinMaxScaler":
        est = make(kind, feature_range=(0, 1), copy=True, scale_=Arr(s), min_=Arr(p))
    else:
        est = make(kind, copy=True, scale_=Arr(s), max_abs_=Arr(list(s)))
    return Kind(est, ("transform",), dense(ctx) if store == "dense" else rows_sparse(ctx), store)


def normalizer(ctx, norm, store="dense"):
    return Kind(make("Normalizer", norm=norm, copy=True), ("transform",), dense(ctx) if store == "dense" else rows_sparse(ctx), store)


def onehot(ctx, is_sparse):
    est = make("OneHotEncoder", dtype=float, sparse=is_sparse, drop=None, handle_unknown="ignore", categories="auto",
               categories_=[Arr(["a", "b"]), Arr([1, 2])])
    return Kind(est, ("transform",), lambda i: [ctx.choice("c%d" % i, ["a", "b", "z"]), ctx.choice("d%d" % i, [1, 2, 3])])


def ordinal(ctx):
    est = make("OrdinalEncoder", dtype=float, categories="auto", categories_=[Arr(["a", "b"]), Arr([1, 2, 3])])
    return Kind(est, ("transform",), lambda i: [ctx.choice("c%d" % i, ["a", "b"]), ctx.choice("d%d" % i, [1, 2, 3])])


def holey(ctx):
    nan = float("nan")
    return lambda i: [nan if ctx.bool("m%d_%d" % (i, j)) else ctx.real("x%d_%d" % (i, j)) for j in range(2)]


def indicator(flags):
    return make("MissingIndicator", features="missing-only", features_=Arr(list(flags), "int64"), _n_features=2, missing_values=float("nan"),
                error_on_new=False, sparse=False)


def imputer(ctx, add):
    extra = dict(add_indicator=add, indicator_=indicator([1]) if add else None)
    est = make("SimpleImputer", missing_values=float("nan"), strategy="mean", fill_value=None, copy=True, verbose=0,
               statistics_=Arr([ctx.real("st"), 2.0]), **extra)
    return Kind(est, ("transform",), holey(ctx))


def flags(ctx):
    return Kind(indicator([0, 1]), ("transform",), holey(ctx))


def dummy(ctx):
    est = make("DummyClassifier", strategy="prior", _strategy="prior", class_prior_=Arr([0.25, 0.75, 0.0]), classes_=Arr(["a", "b", "c"]),
               n_classes_=3, n_outputs_=1, constant=None)
    return Kind(est, CLF, dense(ctx))


def text_options(**k):
    a = dict(dtype=float, binary=False, analyzer="word", preprocessor=None, tokenizer=None, stop_words=None,
             token_pattern=r"(?u)\b\w\w+\b", ngram_range=(1, 1), strip_accents=None, decode_error="strict", encoding="utf-8",
             lowercase=True, input="content")
    a.update(k)
    return a


def tfidf_transformer(ctx, norm="l2", use_idf=True, sublinear=False):
    if not use_idf:
        return make("TfidfTransformer", norm=norm, use_idf=False, smooth_idf=True, sublinear_tf=sublinear)
    return make("TfidfTransformer", norm=norm, use_idf=True, smooth_idf=True, sublinear_tf=sublinear, idf_=Arr([1.5, 2.5]),
                _idf_diag=Arr([[1.5, 0.0], [0.0, 2.5]]))


def docs(ctx):
    return lambda i: ctx.choice("doc%d" % i, DOCS)


def texts(ctx, kind, **k):
    v = dict(vocabulary_={"ab": 1, "ba": 0})
    if kind == "TfidfVectorizer":
        v.update(_tfidf=tfidf_transformer(ctx), norm="l2", use_idf=True, smooth_idf=True, sublinear_tf=False)
    if kind == "HashingVectorizer":
        v = dict(norm="l1", n_features=4, alternate_sign=True)
    v.update(k)
    return Kind(make(kind, **text_options(**v)), ("transform",), docs(ctx), "texts")


def tfidf(ctx, **how):
    def rec(i):
        return {j: ctx.real("n%d_%d" % (i, j), lo=1, hi=9, pos=True) for j in range(2) if ctx.bool("has%d_%d" % (i, j))}
    return Kind(tfidf_transformer(ctx, **how), ("transform",), rec, "sparse")


def dicts(ctx, is_sparse):
    def rec(i):
        r = {}
        if ctx.bool("a%d" % i):
            r["a"] = ctx.real("v%d" % i)
        r["b"] = ctx.choice("b%d" % i, ["x", "y"])
        return r
    est = make("DictVectorizer", vocabulary_={"a": 1, "b=x": 0, "b=z": 2}, feature_names_=["b=x", "a", "b=z"], sparse=is_sparse, dtype=float,
               separator="=")
    return Kind(est, ("transform",), rec, "dicts")


def pipeline(ctx, last):
    s = make("StandardScaler", with_mean=True, with_std=True, copy=True, mean_=Arr([ctx.real("mu"), 0.0]), scale_=Arr([2.0, 4.0]))
    if last == "transformer":
        e, methods = make("MaxAbsScaler", copy=True, scale_=Arr([2.0, 1.0]), max_abs_=Arr([2.0, 1.0])), ("transform",)
    elif last == "nothing":
        e, methods = "passthrough", ("transform",)
    else:
        e, methods = make("LogisticRegression", coef_=Arr([[1.0, -1.0]]), intercept_=Arr([0.5]), classes_=Arr(["no", "yes"]), multi_class="ovr",
                          solver="liblinear"), CLF
    steps = [("scale", s), ("none", "passthrough"), ("last", e)]
    return Kind(make("Pipeline", steps=steps, memory=None, verbose=False), methods, dense(ctx))


def union(ctx):
    a = make("MaxAbsScaler", copy=True, scale_=Arr([2.0, 1.0]), max_abs_=Arr([2.0, 1.0]))
    b = make("MinMaxScaler", feature_range=(0, 1), copy=True, scale_=Arr([1.0, 3.0]), min_=Arr([ctx.real("mn"), 0.0]))
    est = make("FeatureUnion", transformer_list=[("a", a), ("gone", "drop"), ("b", b)], n_jobs=None, transformer_weights={"a": 3.0}, verbose=False)
    return Kind(est, ("transform",), dense(ctx))


def union_same(ctx):
    """the first transformer hands its records on as they are"""
    a = make("Pipeline", steps=[("none", "passthrough")], memory=None, verbose=False)
    b = make("MaxAbsScaler", copy=True, scale_=Arr([ctx.real("sc", pos=True), 1.0]), max_abs_=Arr([2.0, 1.0]))
    est = make("FeatureUnion", transformer_list=[("a", a), ("longer", "drop"), ("bb", b)], n_jobs=None, transformer_weights=None, verbose=False)
    return est


def union_passing(ctx, store="dense"):
    return Kind(union_same(ctx), ("transform",), dense(ctx) if store == "dense" else rows_sparse(ctx), store)


def union_sparse(ctx):
    e, d = onehot(ctx, True), onehot(ctx, False)
    est = make("FeatureUnion", transformer_list=[("a", e.est), ("b", e.est)], n_jobs=None, transformer_weights=None, verbose=False)
    return Kind(est, ("transform",), e.record)


def fast(ctx, supervised):
    words = ["a", "b", EOS]
    rows = [[ctx.real("r0", lo=1, hi=9, pos=True), 1.0], [0.0, -2.0], [1.0, 1.0]]
    if supervised:
        m = Model(words, rows, ["__label__x", "__label__y"], [[1.0, 0.5], [-1.0, 0.0]])
        return Kind(m, ("predict",), lambda i: ctx.choice("line%d" % i, ["a b", "", "b zz"]), "texts", pure=load)
    return Kind(Model(words, rows), (), lambda i: "", "texts", pure=load)


KINDS = {}
for _k in LINEAR:
    KINDS[_k] = lambda ctx, k=_k: linear(ctx, k)
    KINDS[_k + ", sparse"] = lambda ctx, k=_k: linear(ctx, k, store="sparse")
KINDS["LogisticRegression, 3 classes"] = lambda ctx: linear(ctx, "LogisticRegression", 3)
KINDS["LogisticRegression, multinomial"] = lambda ctx: linear(ctx, "LogisticRegression", 3, multi_class="multinomial", solver="lbfgs")
KINDS["SGDClassifier, 3 classes"] = lambda ctx: linear(ctx, "SGDClassifier", 3)
KINDS["LinearSVC, 3 classes"] = lambda ctx: linear(ctx, "LinearSVC", 3)
for _k in TREES:
    KINDS[_k] = lambda ctx, k=_k: tree(ctx, k)
    KINDS[_k + ", sparse"] = lambda ctx, k=_k: tree(ctx, k, "sparse")
for _k in ("RandomForestClassifier", "ExtraTreesClassifier"):
    KINDS[_k] = lambda ctx, k=_k: forest(ctx, k)
    KINDS[_k + ", sparse"] = lambda ctx, k=_k: forest(ctx, k, "sparse")
KINDS["BaggingClassifier"] = lambda ctx: bagging(ctx)
KINDS["BaggingClassifier, sparse"] = lambda ctx: bagging(ctx, "sparse")
KINDS["GradientBoostingClassifier"] = lambda ctx: boosting(ctx, "deviance", 2)
KINDS["GradientBoostingClassifier, exponential"] = lambda ctx: boosting(ctx, "exponential", 2, "zero")
KINDS["GradientBoostingClassifier, model"] = lambda ctx: boosting(ctx, "deviance", 2, "model")
KINDS["GradientBoostingClassifier, 3 classes"] = lambda ctx: boosting(ctx, "deviance", 3)
KINDS["XGBClassifier"] = lambda ctx: xgb(ctx, 2)
KINDS["XGBClassifier, 3 classes"] = lambda ctx: xgb(ctx, 3)
for _k in ("GaussianNB", "MultinomialNB", "ComplementNB"):
    KINDS[_k] = lambda ctx, k=_k: nb(ctx, k)
for _k in ("StandardScaler", "MinMaxScaler", "MaxAbsScaler"):
    KINDS[_k] = lambda ctx, k=_k: scaler(ctx, k)
KINDS["StandardScaler, sparse"] = lambda ctx: scaler(ctx, "StandardScaler", "sparse")
KINDS["MaxAbsScaler, sparse"] = lambda ctx: scaler(ctx, "MaxAbsScaler", "sparse")
for _k in ("l1", "l2", "max"):
    KINDS["Normalizer, " + _k] = lambda ctx, k=_k: normalizer(ctx, k)
    KINDS["Normalizer, " + _k + ", sparse"] = lambda ctx, k=_k: normalizer(ctx, k, "sparse")
KINDS["OneHotEncoder"] = lambda ctx: onehot(ctx, False)
KINDS["OneHotEncoder, sparse"] = lambda ctx: onehot(ctx, True)
KINDS["OrdinalEncoder"] = ordinal
KINDS["SimpleImputer"] = lambda ctx: imputer(ctx, False)
KINDS["SimpleImputer, flags"] = lambda ctx: imputer(ctx, True)
KINDS["MissingIndicator"] = flags
KINDS["DummyClassifier"] = dummy
for _k in ("CountVectorizer", "TfidfVectorizer", "HashingVectorizer"):
    KINDS[_k] = lambda ctx, k=_k: texts(ctx, k)
KINDS["CountVectorizer, binary"] = lambda ctx: texts(ctx, "CountVectorizer", binary=True, ngram_range=(1, 2), stop_words=["zz"])
KINDS["CountVectorizer, characters"] = lambda ctx: texts(ctx, "CountVectorizer", analyzer="char_wb", ngram_range=(2, 2))
KINDS["HashingVectorizer, plain"] = lambda ctx: texts(ctx, "HashingVectorizer", norm=None, binary=True)
KINDS["TfidfTransformer"] = tfidf
KINDS["TfidfTransformer, sublinear"] = lambda ctx: tfidf(ctx, norm="l1", sublinear=True)
KINDS["TfidfTransformer, idf only"] = lambda ctx: tfidf(ctx, norm=None)
KINDS["TfidfTransformer, logarithms only"] = lambda ctx: tfidf(ctx, norm=None, use_idf=False, sublinear=True)
KINDS["TfidfTransformer, nothing"] = lambda ctx: tfidf(ctx, norm=None, use_idf=False)
KINDS["DictVectorizer"] = lambda ctx: dicts(ctx, False)
KINDS["DictVectorizer, sparse"] = lambda ctx: dicts(ctx, True)
KINDS["Pipeline"] = lambda ctx: pipeline(ctx, "classifier")
KINDS["Pipeline, transformer"] = lambda ctx: pipeline(ctx, "transformer")
KINDS["Pipeline, no last step"] = lambda ctx: pipeline(ctx, "nothing")
KINDS["FeatureUnion"] = union
KINDS["FeatureUnion, sparse"] = union_sparse
KINDS["FeatureUnion, passing"] = union_passing
KINDS["FeatureUnion, passing, sparse"] = lambda ctx: union_passing(ctx, "sparse")
KINDS["FastText"] = lambda ctx: fast(ctx, True)


# ------------------------------------------------------------ answers
def plain(v):
    """answers as plain nested lists, sparse rows as sorted pairs; NaN as text"""
    from pure_sklearn.utils import issparse
    if issparse(v):
        return ["sparse", v.size, [plain(r) for r in v]]
    if isinstance(v, dict):
        return [[k, plain(v[k])] for k in sorted(v)]
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, float) and v != v:
        return "nan"
    return v


def answer_rows(got, supervised=False):
    """one plain entry per record"""
    if isinstance(got, tuple):
        return [[plain(a), plain(b)] for a, b in zip(got[0], got[1])]
    return [plain(r) for r in got]
