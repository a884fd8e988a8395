"""C25: unsupported models and malformed input are refused"""
from harness.zoo import *

BOUNDS = ("every class name of up to 12 characters, and every supported name with any one character changed, dropped or added; every "
          "strategy, loss, objective, booster, analyser, accent and stop-word setting of up to 12 characters and every supported one with "
          "one character changed; numbers of outputs, subword lengths and word n-grams up to 1000; every supported kind of model with "
          "empty, non-list, flat, ragged, too narrow, too wide and (where unsupported) sparse input of 1-2 records, all presence patterns, all real entries in "
          "[-100,100]")
ASSUMPTIONS = ["a model that cannot answer is refused at conversion or raises from every method it offers"]

LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ:_"
SUPPORTED = ["LogisticRegression", "RidgeClassifier", "SGDClassifier", "Perceptron", "PassiveAggressiveClassifier", "LinearSVC",
             "DecisionTreeClassifier", "DecisionTreeRegressor", "ExtraTreeClassifier", "ExtraTreeRegressor", "RandomForestClassifier",
             "BaggingClassifier", "GradientBoostingClassifier", "XGBClassifier", "ExtraTreesClassifier", "GaussianNB", "MultinomialNB",
             "ComplementNB", "SimpleImputer", "MissingIndicator", "DummyClassifier", "Pipeline", "FeatureUnion", "OneHotEncoder",
             "OrdinalEncoder", "StandardScaler", "MinMaxScaler", "MaxAbsScaler", "Normalizer", "DictVectorizer", "TfidfVectorizer",
             "CountVectorizer", "TfidfTransformer", "HashingVectorizer"]
OTHERS = ["SVC", "KNeighborsClassifier", "MLPClassifier", "AdaBoostClassifier", "BernoulliNB", "RobustScaler", "VotingClassifier",
          "RandomForestRegressor", "GradientBoostingRegressor", "HistGradientBoostingClassifier", "ColumnTransformer", "LinearRegression",
          "LogisticRegressionCV", "RidgeClassifierCV", "XGBRegressor", "XGBRFClassifier", "KBinsDiscretizer", "LabelEncoder", "str", "dict"]


class Named:
    def __init__(self, name):
        self.__name__ = name


class Odd:
    """an estimator whose class has any name"""

    def __init__(self, name, donor=None):
        self.named = Named(name)
        if donor is not None:
            for a, v in donor.__dict__.items():
                setattr(self, a, v)

    def __getstate__(self):
        return {"_sklearn_version": "0.23.2"}

    __class__ = property(lambda self: self.named)


def word(ctx, name, known, most=12):
    """any string that is none of the known ones"""
    how = ctx.choice(name + "_how", ["short"] + [k for k in known if len(k) > 1])
    if how == "short":
        s = ctx.str(name, ctx.choice(name + "_len", list(range(most + 1))), LETTERS)
    else:
        edit = ctx.choice(name + "_edit", ["change", "drop", "add"])
        i = ctx.choice(name + "_at", [0, 1, len(how) // 2, len(how) - 2, len(how) - 1]) if len(how) > 3 else 0
        c = ctx.str(name + "_c", 1, LETTERS)
        s = how[:i] + ("" if edit == "drop" else c) + how[i if edit == "add" else i + 1:]
    for k in known:
        ctx.assume(s != k)
    return s


def refused(ctx, build, ask, what):
    """raises at conversion, or whenever the model is asked"""
    try:
        m = build()
    except Exception:
        ctx.ensure(True, what + " is refused")
        return
    for f in ask(m):
        ctx.ensure(raises(f), what + " is answered")


def name(ctx):
    s = ctx.str("name", ctx.choice("length", list(range(13))), LETTERS)
    for k in SUPPORTED:
        ctx.assume(s != k)
    ctx.ensure(raises(lambda: convert(Odd(s))), "unknown class converted")


def near(ctx, known):
    edit = ctx.choice("edit", ["change", "drop", "add"])
    at = ctx.choice("at", list(range(len(known))))
    c = ctx.str("c", 1, LETTERS)
    s = known[:at] + ("" if edit == "drop" else c) + known[at if edit == "add" else at + 1:]
    for k in SUPPORTED:
        ctx.assume(s != k)
    donors = [k for k in KINDS if k.split(",")[0] == known]
    donor = KINDS[ctx.choice("donor", donors)](ctx).est
    ctx.ensure(raises(lambda: convert(Odd(s, donor))), "unknown class converted")


def disguised(ctx, kind):
    """classes the package does not know, with everything another class has"""
    k = KINDS[kind](ctx)
    attrs = dict(k.est.__dict__)
    n = ctx.choice("class", OTHERS)
    ctx.ensure(raises(lambda: convert(make(n, **attrs))), "unknown class converted")


def other(ctx, inside):
    """estimators the package does not know, alone or as a part"""
    bad = make(ctx.choice("class", OTHERS), coef_=Arr([[1.0, 2.0]]), intercept_=Arr([0.0]), classes_=Arr([0, 1], "int64"), scale_=Arr([1.0, 1.0]),
               multi_class="ovr", solver="liblinear", n_outputs_=1)
    good = make("MaxAbsScaler", copy=True, scale_=Arr([2.0, 1.0]), max_abs_=Arr([2.0, 1.0]))
    if inside == "alone":
        est = bad
    elif inside == "pipeline":
        est = make("Pipeline", steps=[("a", good), ("b", bad)] if ctx.bool("last") else [("b", bad), ("a", good)], memory=None, verbose=False)
    elif inside == "union":
        est = make("FeatureUnion", transformer_list=[("a", good), ("b", bad)] if ctx.bool("last") else [("b", bad), ("a", good)], n_jobs=None,
                   transformer_weights=None, verbose=False)
    elif inside == "bagging":
        est = bagging(ctx).est
        est.estimators_[ctx.choice("at", [0, 1])] = bad
    elif inside == "boosting":
        est = boosting(ctx, "deviance", 2).est
        est.init_ = bad
    ctx.ensure(raises(lambda: convert(est)), "unknown class converted")


def placeholder(ctx, inside):
    """steps given by a string that stands for nothing"""
    s = word(ctx, "step", ["passthrough" if inside == "pipeline" else "drop"])
    good = make("MaxAbsScaler", copy=True, scale_=Arr([2.0, 1.0]), max_abs_=Arr([2.0, 1.0]))
    steps = [("a", good), ("b", s)] if ctx.bool("last") else [("b", s), ("a", good)]
    if inside == "pipeline":
        est = make("Pipeline", steps=steps, memory=None, verbose=False)
    else:
        est = make("FeatureUnion", transformer_list=steps, n_jobs=None, transformer_weights=None, verbose=False)
    refused(ctx, lambda: convert(est), lambda m: [lambda: m.transform([[1.0, 2.0]])], "a step given by a string")


def setting(ctx, kind, attr, known, methods=None):
    """a setting that is none of the supported ones"""
    k = KINDS[kind](ctx)
    setattr(k.est, attr, word(ctx, "v", known))
    X = k.batch([k.record(0)])
    methods = k.methods if methods is None else methods
    refused(ctx, lambda: convert(k.est), lambda m: [lambda f=f: getattr(m, f)(X) for f in methods], attr)


def real_setting(ctx, kind, attr, values, methods=None):
    """the unsupported settings of the original library"""
    k = KINDS[kind](ctx)
    setattr(k.est, attr, ctx.choice("v", values))
    X = k.batch([k.record(0)])
    methods = k.methods if methods is None else methods
    refused(ctx, lambda: convert(k.est), lambda m: [lambda f=f: getattr(m, f)(X) for f in methods], attr)


def outputs(ctx, kind):
    """trees with several outputs"""
    k = KINDS[kind](ctx)
    n = ctx.int("n", 2, 1000)
    k.est.n_outputs_ = n
    ctx.ensure(raises(lambda: convert(k.est)), "a multi-output tree converted")


def classes(ctx, loss):
    """losses for another number of classes"""
    k = boosting(ctx, "deviance", 3)
    k.est.loss = loss
    n = ctx.choice("n", [1, 3] if loss == "exponential" else [1])
    k.est.classes_ = Arr(["a", "b", "c"][:n])
    k.est.n_classes_ = n
    ctx.ensure(raises(lambda: convert(k.est)), "a loss for another number of classes converted")


def version(ctx, inside):
    """gradient boosting of a version before 0.21 stores other attributes"""
    k = boosting(ctx, "deviance", 2)
    k.est._version = ctx.choice("version", ["0.20.0", "0.20.4", "0.20rc1", "0.19.2", "0.18", "0.9", "0.20.99"])
    type(k.est)._version = k.est._version
    est = k.est
    if inside:
        est = make("Pipeline", steps=[("only", k.est)], memory=None, verbose=False)
    ctx.ensure(raises(lambda: convert(est)), "an unsupported version converted")


def old_booster(ctx):
    """boosters that cannot list their trees"""
    k = xgb(ctx, 2)

    class Old:
        pass
    k.est.get_booster = lambda: Old()
    ctx.ensure(raises(lambda: convert(k.est)), "an old booster converted")


def categorical(ctx, k):
    """trees with categorical splits have no threshold"""
    kind = xgb(ctx, k)
    cols = kind.est.get_booster().cols
    roots = [i for i, n in enumerate(cols["Node"]) if n == 0]
    i = ctx.choice("tree", roots)
    cols["Split"][i] = float("nan")
    cols["Category"][i] = [1, 2]
    ctx.ensure(raises(lambda: convert(kind.est)), "categorical splits converted")


def multi_dummy(ctx):
    est = make("DummyClassifier", strategy="prior", _strategy="prior", class_prior_=[Arr([0.5, 0.5]), Arr([1.0])],
               classes_=[Arr(["a", "b"]), Arr(["c"])], n_classes_=[2, 1], n_outputs_=2, constant=None)
    refused(ctx, lambda: convert(est), lambda m: [lambda: m.predict([[1.0]]), lambda: m.predict_proba([[1.0]])], "several outputs")


def callables(ctx, kind):
    """settings that are functions cannot be converted"""
    k = KINDS[kind](ctx)
    attr = ctx.choice("attr", ["analyzer", "preprocessor", "tokenizer", "strip_accents"])
    setattr(k.est, attr, lambda s: s)
    refused(ctx, lambda: convert(k.est), lambda m: [], attr)
    ctx.ensure(raises(lambda: convert(k.est)), "a function as " + attr)


def fasttext(ctx, what):
    from pure_fasttext import FastText
    words = ["a", "b", EOS]
    rows = [[ctx.real("r0"), 1.0], [0.0, -2.0], [1.0, 1.0]]
    sup = (["__label__x", "__label__y"], [[1.0, 0.5], [-1.0, 0.0]])
    if what == "subwords":
        m = Model(words, rows, maxn=ctx.int("maxn", 1, 1000))
        ctx.ensure(raises(lambda: FastText(m)), "subwords converted")
    elif what == "supervised subwords":
        m = Model(words, rows, sup[0], sup[1], maxn=ctx.int("maxn", 1, 1000))
        ctx.ensure(raises(lambda: FastText(m)), "subwords converted")
    elif what == "word n-grams":
        m = Model(words, rows, sup[0], sup[1], wordNgrams=ctx.int("wn", 2, 1000))
        ctx.ensure(raises(lambda: FastText(m)), "word n-grams converted")
    elif what == "both":
        m = Model(words, rows, sup[0], sup[1], wordNgrams=ctx.int("wn", 2, 1000), maxn=ctx.int("maxn", 1, 1000))
        ctx.ensure(raises(lambda: FastText(m)), "subwords and word n-grams converted")
    elif what == "loss":
        s = ctx.choice("loss", ["hs", "ns", "ova"])
        m = Model(words, rows, sup[0], sup[1], loss=s)
        ctx.ensure(raises(lambda: FastText(m)), "loss converted")
    elif what == "any loss":
        s = word(ctx, "loss", ["softmax"])
        m = Model(words, rows, sup[0], sup[1], loss=s)
        refused(ctx, lambda: FastText(m), lambda p: [lambda: p.predict("a"), lambda: p.predict(["a"])], "loss")
    elif what == "unsupervised":
        m = FastText(Model(words, rows, loss=ctx.choice("loss", ["hs", "ns", "softmax"])))
        for t in ("a", "", "zz"):
            ctx.ensure(raises(lambda: m.predict(t)), "prediction of an unsupervised model")
            ctx.ensure(raises(lambda: m.predict([t])), "prediction of an unsupervised model")
    elif what == "k":
        m = FastText(Model(words, rows, sup[0], sup[1]))
        n = ctx.int("k", -1000, 0)
        ctx.assume(n != -1)
        ctx.ensure(raises(lambda: m.predict("a", k=n)), "k below one")
        ctx.ensure(raises(lambda: m.predict(["a", "b"], k=n)), "k below one")
    elif what == "newline":
        m = FastText(Model(words, rows, sup[0], sup[1]))
        n = ctx.choice("n", [0, 1, 2, 3])
        s = ctx.str("s", n, "ab \n")
        ctx.assume("\n" in s)
        ctx.ensure(raises(lambda: m.predict(s)), "several lines")
        ctx.ensure(raises(lambda: m.predict(["a", s])), "several lines")
        ctx.ensure(raises(lambda: m.get_sentence_vector(s)), "several lines")


class Records:
    """iterable of records that is no list"""

    def __init__(self, rows):
        self.rows = rows

    def __iter__(self):
        return iter(self.rows)

    def __len__(self):
        return len(self.rows)

    def __getitem__(self, i):
        return self.rows[i]


class Frozen(dict):
    pass


def malformed(ctx, kind):
    """dense records in anything but a non-empty list"""
    k = KINDS[kind](ctx)
    m = k.pure(k.est)
    r = k.record(0)
    how = ctx.choice("how", ["empty", "tuple", "record tuple", "none", "number", "text", "mapping", "iterator", "sequence", "array", "flat",
                             "bytes", "set"])
    X = {"empty": lambda: [], "tuple": lambda: (list(r),), "record tuple": lambda: tuple(r), "none": lambda: None, "number": lambda: r[0],
         "text": lambda: "text", "mapping": lambda: {0: list(r)}, "iterator": lambda: iter([list(r)]), "sequence": lambda: Records([list(r)]),
         "array": lambda: Arr([list(r)]), "flat": lambda: list(r), "bytes": lambda: b"text", "set": lambda: {1.0, 2.0}}[how]
    for method in k.methods:
        ctx.ensure(raises(lambda: getattr(m, method)(X())), how + " input to " + method)


def ragged(ctx, kind):
    """records of different lengths"""
    k = KINDS[kind](ctx)
    m = k.pure(k.est)
    a, b = list(k.record(0)), list(k.record(1))
    how = ctx.choice("how", ["shorter", "longer", "first shorter", "first longer", "nothing", "middle shorter", "middle longer",
                             "fourth shorter", "middle empty", "late", "last of many"])
    X = {"late": [a] * 110 + [b[:1]] + [a] * 30, "last of many": [b] * 300 + [a + a[:1]], "middle shorter": [a, b[:1], a], "middle longer": [a, b + a[:1], b], "fourth shorter": [a, b, a, b[:1], a], "middle empty": [b, [], a],
         "shorter": [a, b[:1]], "longer": [a, b + b[:1]], "first shorter": [a[:1], b], "first longer": [a + a[:1], b], "nothing": [a, []]}[how]
    for method in k.methods:
        ctx.ensure(raises(lambda: getattr(m, method)(X)), how + " records to " + method)


def mixed(ctx, kind):
    """some records are no lists"""
    k = KINDS[kind](ctx)
    m = k.pure(k.est)
    a, b = list(k.record(0)), list(k.record(1))
    # rows given as tuples work with the normaliser, which asks for no width
    odd = [] if kind in FREE else ["first tuple", "all tuples"]
    how = ctx.choice("how", ["tuple", "mapping", "text", "none", "bytes", "third", "middle tuple", "middle mapping", "middle none", "late"] + odd)
    X = {"late": [a] * 110 + [None] + [b] * 30, "middle tuple": [a, tuple(b), a], "middle mapping": [a, {0: b[0], 1: b[1]}, b], "middle none": [b, None, a], "tuple": [a, tuple(b)], "mapping": [a, {0: b[0], 1: b[1]}], "text": [a, "ab"], "first tuple": [tuple(a), b], "all tuples": [tuple(a), tuple(b)],
         "none": [a, None], "bytes": [a, b"ab"], "third": [a, b, tuple(b)]}[how]
    for method in k.methods:
        ctx.ensure(raises(lambda: getattr(m, method)(X)), how + " records to " + method)


def width(ctx, kind):
    """records with another number of features than the model was fitted with"""
    k = KINDS[kind](ctx)
    m = k.pure(k.est)
    n = ctx.choice("n", [1, 2])
    f = ctx.choice("f", [1, 3, 4, 20])
    X = []
    for i in range(n):
        r = k.record(i)
        if k.store == "sparse":
            X.append({j: v for j, v in r.items() if j < f})
        else:
            X.append((list(r) * 10)[:f])
    if k.store == "sparse":
        X = sparse(X, f)
    for method in k.methods:
        ctx.ensure(raises(lambda: getattr(m, method)(X)), "records of the wrong width to " + method)


FREE = ["Normalizer, l1", "Normalizer, l2", "Normalizer, max", "Normalizer, l1, sparse", "Normalizer, l2, sparse", "Normalizer, max, sparse",
        "TfidfTransformer, logarithms only", "TfidfTransformer, nothing"]


def sparse_refused(ctx, kind, n):
    """sparse records where they are unsupported"""
    k = KINDS[kind](ctx)
    m = k.pure(k.est)
    rows = []
    for i in range(n):
        row = {}
        for j in range(2):
            if ctx.bool("has%d_%d" % (i, j)):
                row[j] = ctx.real("s%d_%d" % (i, j))
        rows.append(row)
    X = sparse(rows, 2)
    for method in k.methods:
        ctx.ensure(raises(lambda: getattr(m, method)(X)), "sparse input to " + method)


def sparse_malformed(ctx, kind):
    """models for sparse records want a list as well"""
    k = KINDS[kind](ctx)
    m = k.pure(k.est)
    r = k.record(0)
    how = ctx.choice("how", ["empty", "tuple", "none", "mapping", "iterator"])
    X = {"empty": lambda: [], "tuple": lambda: (dict(r),), "none": lambda: None, "mapping": lambda: dict(r), "iterator": lambda: iter([dict(r)])}[how]
    for method in k.methods:
        ctx.ensure(raises(lambda: getattr(m, method)(X())), how + " input to " + method)


def text_input(ctx, kind):
    """one text is no list of texts"""
    k = KINDS[kind](ctx)
    m = k.pure(k.est)
    s = ctx.str("s", ctx.choice("n", list(range(6))), "ab ")
    ctx.ensure(raises(lambda: m.transform(s)), "a single text")
    ctx.ensure(raises(lambda: m.transform(None)), "no texts")
    ctx.ensure(raises(lambda: m.transform([])), "no texts")
    ctx.ensure(raises(lambda: m.transform(["ab", None])), "a text that is none")
    ctx.ensure(raises(lambda: m.transform(["ab", float("nan")])), "a missing text")
    ctx.ensure(raises(lambda: m.transform([["ab"]])), "a list in place of a text")


def dict_input(ctx, kind):
    k = KINDS[kind](ctx)
    m = k.pure(k.est)
    x = ctx.real("x")
    for X in (None, [], "ab", x, [x], [[x]], ["ab"], [None]):
        ctx.ensure(raises(lambda: m.transform(X)), "records that are no mappings")


DENSE_ONLY = ["GradientBoostingClassifier", "GradientBoostingClassifier, exponential", "GradientBoostingClassifier, 3 classes", "XGBClassifier",
              "GradientBoostingClassifier, model", "XGBClassifier, 3 classes", "GaussianNB", "MultinomialNB", "ComplementNB", "StandardScaler",
              "MinMaxScaler", "OneHotEncoder", "OneHotEncoder, sparse", "OrdinalEncoder", "SimpleImputer", "SimpleImputer, flags",
              "MissingIndicator", "Pipeline", "Pipeline, transformer", "FeatureUnion", "FeatureUnion, sparse"]
WORDY = ["CountVectorizer", "TfidfVectorizer", "HashingVectorizer"]


def cases(tier):
    deep = tier == "thorough"
    out = []
    o = dict(validate=2, max_paths=60000)
    out.append(("name", {}, o))
    for known in SUPPORTED:
        out.append(("near", dict(known=known), o))
    for kind in KINDS:
        if kind != "FastText":
            out.append(("disguised", dict(kind=kind), o))
    for inside in ("alone", "pipeline", "union", "bagging", "boosting"):
        out.append(("other", dict(inside=inside), o))
    for inside in ("pipeline", "union"):
        out.append(("placeholder", dict(inside=inside), o))

    out.append(("setting", dict(kind="DummyClassifier", attr="_strategy", known=["prior"]), o))
    out.append(("real_setting", dict(kind="DummyClassifier", attr="_strategy", values=["stratified", "uniform", "most_frequent", "constant"]), o))
    for kind in ("GradientBoostingClassifier", "GradientBoostingClassifier, 3 classes"):
        out.append(("setting", dict(kind=kind, attr="loss", known=["deviance", "exponential"]), o))
        out.append(("setting", dict(kind=kind, attr="init_", known=["zero"]), o))
    for kind in ("XGBClassifier", "XGBClassifier, 3 classes"):
        out.append(("setting", dict(kind=kind, attr="objective", known=["binary:logistic", "multi:softprob"]), o))
        out.append(("real_setting", dict(kind=kind, attr="objective", values=["multi:softmax", "binary:hinge", "binary:logitraw", "rank:pairwise",
                                                                               "reg:squarederror", "count:poisson"]), o))
        out.append(("setting", dict(kind=kind, attr="booster", known=["gbtree"]), o))
        out.append(("real_setting", dict(kind=kind, attr="booster", values=["gblinear", "dart"]), o))
    out.append(("setting", dict(kind="SGDClassifier", attr="loss", known=["log"], methods=["predict_proba", "predict_log_proba"]), o))
    out.append(("real_setting", dict(kind="SGDClassifier", attr="loss", values=["hinge", "modified_huber", "squared_hinge", "perceptron", "huber"],
                                     methods=["predict_proba", "predict_log_proba"]), o))
    for kind in ("OneHotEncoder", "OneHotEncoder, sparse"):
        out.append(("setting", dict(kind=kind, attr="drop", known=["\n"]), o))
        out.append(("real_setting", dict(kind=kind, attr="drop", values=["first", "if_binary", ["a", 1]]), o))
    for kind in WORDY:
        out.append(("setting", dict(kind=kind, attr="analyzer", known=["word", "char", "char_wb"]), o))
        out.append(("setting", dict(kind=kind, attr="strip_accents", known=["", "ascii", "unicode"]), o))
        out.append(("setting", dict(kind=kind, attr="stop_words", known=["\n"]), o))
        out.append(("real_setting", dict(kind=kind, attr="stop_words", values=["english"]), o))
        out.append(("callables", dict(kind=kind), o))
        out.append(("text_input", dict(kind=kind), o))
    for norm in ("l1", "l2", "max"):
        out.append(("setting", dict(kind="Normalizer, " + norm, attr="norm", known=["l1", "l2", "max"]), o))
    for kind in TREES:
        out.append(("outputs", dict(kind=kind), o))
    for loss in ("deviance", "exponential"):
        out.append(("classes", dict(loss=loss), o))
    for inside in (False, True):
        out.append(("version", dict(inside=inside), o))
    out.append(("old_booster", {}, o))
    for k in (2, 3):
        out.append(("categorical", dict(k=k), o))
    out.append(("multi_dummy", {}, o))
    for what in ("subwords", "supervised subwords", "word n-grams", "both", "loss", "any loss", "unsupervised", "k", "newline"):
        out.append(("fasttext", dict(what=what), o))
    for kind in KINDS:
        store = "sparse" if "sparse" in kind and kind not in ("OneHotEncoder, sparse", "FeatureUnion, sparse", "DictVectorizer, sparse") else "dense"
        if kind == "DummyClassifier" or "Vectorizer" in kind or kind == "FastText":
            continue
        if kind not in FREE:
            out.append(("width", dict(kind=kind), o))
        if kind.startswith("TfidfTransformer") or store == "sparse":
            if kind != "TfidfTransformer, nothing":
                out.append(("sparse_malformed", dict(kind=kind), o))
            continue
        out.append(("malformed", dict(kind=kind), o))
        out.append(("ragged", dict(kind=kind), o))
        out.append(("mixed", dict(kind=kind), o))
    for kind in DENSE_ONLY:
        out.append(("sparse_refused", dict(kind=kind, n=1), o))
        if deep:
            out.append(("sparse_refused", dict(kind=kind, n=2), o))
    for kind in ("DictVectorizer", "DictVectorizer, sparse"):
        out.append(("dict_input", dict(kind=kind), o))
    return out
