"""C03: joint likelihoods, labels and posteriors of naive Bayes"""
from harness.lib import *

KINDS = ["GaussianNB", "MultinomialNB", "ComplementNB"]
LABELS = [["only"], ["no", "yes"], ["", "B", "a"], [30, 10, 20, 40]]
BOUNDS = ("all real parameters and records in [-100,100] (variances and priors positive), 1-4 classes, 1-3 features, "
          "1-2 records; stability for joint log-likelihoods in [-1e6,1e6] with IEEE exp "
          "and for 4 features of variance 1e-200 to 1e200")
ASSUMPTIONS = ["sums, products and log are idealised as real arithmetic; exp is the real exponential, except that in "
               "the stability cases it overflows and underflows as in IEEE 754"]


def model(ctx, kind, k, f):
    """(pure model, reference joint log-likelihood of one record)"""
    classes = LABELS[k - 1] if k < 5 else list(range(k))
    if kind == "GaussianNB":
        prior = reals(ctx, "p", k, pos=True, hi=1)
        th = matrix(ctx, "t", k, f)
        sg = matrix(ctx, "s", k, f, pos=True)
        m = convert(make(kind, class_prior_=Arr(list(prior)), classes_=Arr(list(classes)),
                         theta_=Arr([list(r) for r in th]), sigma_=Arr([list(r) for r in sg])))

        def jll(x):
            out = []
            for i in range(k):
                t = math.log(prior[i])
                for j in range(f):
                    d = x[j] - th[i][j]
                    t = t - 0.5 * math.log(2.0 * math.pi * sg[i][j]) - 0.5 * d * d / sg[i][j]
                out.append(t)
            return out
    else:
        lp = reals(ctx, "p", k)
        fl = matrix(ctx, "l", k, f)
        m = convert(make(kind, class_log_prior_=Arr(list(lp)), classes_=Arr(list(classes)),
                         feature_log_prob_=Arr([list(r) for r in fl])))

        def jll(x):
            out = []
            for i in range(k):
                t = rdot(x, fl[i])
                if kind == "MultinomialNB" or k == 1:
                    t = t + lp[i]
                out.append(t)
            return out
    return m, jll, classes


def labels(ctx, kind, k, f, n):
    m, jll, classes = model(ctx, kind, k, f)
    D = matrix(ctx, "x", n, f)
    got = m.predict([list(x) for x in D])
    want = [classes[first_max(ctx, jll(x))] for x in D]
    ctx.eq(got, want, "predict")


def posteriors(ctx, kind, k, f, n, what):
    m, jll, classes = model(ctx, kind, k, f)
    D = matrix(ctx, "x", n, f)
    X = [list(x) for x in D]
    if what == "proba":
        ctx.eq(m.predict_proba(X), [softmax(jll(x)) for x in D], "predict_proba")
        return
    want = []
    for x in D:
        j = jll(x)
        top = j[0]
        for a in j[1:]:
            if a > top:
                top = a
        t = 0.0
        for a in j:
            t = t + math.exp(a - top)
        want.append([a - top - math.log(t) for a in j])
    ctx.eq(m.predict_log_proba(X), want, "predict_log_proba")


def stable(ctx, kind, k):
    """no likelihood is too small or too large"""
    classes = LABELS[k - 1]
    if kind == "GaussianNB":
        m = convert(make(kind, class_prior_=Arr([1.0 / k] * k), classes_=Arr(list(classes)),
                         theta_=Arr([[a] for a in [0.0, 1.0, 1.0, 1.0][:k]]), sigma_=Arr([[0.5]] * k)))
        x = [ctx.real("x", lo=-1000, hi=1000)]
    else:
        if k < 3:
            j = reals(ctx, "j", k, lo=-1000000, hi=1000000)
        else:
            a = ctx.real("j", lo=-1000000, hi=1000000)
            j = [a, 1.0 - a, 3.0, 3.0][:k]
        m = convert(make(kind, class_log_prior_=Arr(list(j)), classes_=Arr(list(classes)),
                         feature_log_prob_=Arr([[a] for a in j])))
        x = [0.5 if kind == "MultinomialNB" else 1.0]
    p = m.predict_proba([list(x)])[0]
    t = 0.0
    for a in p:
        ctx.ensure(a >= 0, "negative or NaN posterior")
        ctx.ensure(a <= 1.000001, "posterior above one")
        t = t + a
    ctx.ensure(t > 0.999999, "posteriors do not sum to one")
    ctx.ensure(t < 1.000001, "posteriors do not sum to one")
    for a in m.predict_log_proba([list(x)])[0]:
        ctx.ensure(a > -math.inf, "log-posterior not finite")
        ctx.ensure(a <= 0.000001, "log-posterior above zero")


def narrow(ctx, k, f, exponent):
    """tiny or huge variances of several features: their product is out of the range of floats, their logarithms are not"""
    classes = LABELS[k - 1]
    s = 10.0 ** exponent
    m = convert(make("GaussianNB", class_prior_=Arr([1.0 / k] * k), classes_=Arr(list(classes)),
                     theta_=Arr([[0.0] * f for i in range(k)]), sigma_=Arr([[s * (i + 1)] * f for i in range(k)])))
    u = ctx.real("u", lo=-1000, hi=1000)
    x = [u * 10.0 ** (exponent // 2)] * f
    for a in m.predict_log_proba([list(x)])[0]:
        ctx.ensure(a > -math.inf, "log-posterior not finite")
        ctx.ensure(a <= 0.000001, "log-posterior above zero")
    t = 0.0
    for a in m.predict_proba([list(x)])[0]:
        ctx.ensure(a >= 0, "negative or NaN posterior")
        t = t + a
    ctx.ensure(t > 0.999999, "posteriors do not sum to one")
    ctx.ensure(t < 1.000001, "posteriors do not sum to one")
    if u * u > 10 and k == 2:
        ctx.eq(m.predict([list(x)]), [classes[1]], "predict far away")
    if u * u < 0.5 and k == 2:
        ctx.eq(m.predict([list(x)]), [classes[0]], "predict near the mean")


def width(ctx, kind):
    f = ctx.choice("f", [1, 2, 3])
    g = ctx.choice("g", [1, 2, 3, 4])
    ctx.assume(g != f)
    m, jll, classes = model(ctx, kind, 2, f)
    X = [reals(ctx, "x", g)]
    if ctx.bool("second"):
        X = [reals(ctx, "y", f)] + X
    ctx.ensure(raises(lambda: m.predict(X)), "record of the wrong width labelled")
    ctx.ensure(raises(lambda: m.predict_log_proba(X)), "record of the wrong width scored")
    ctx.ensure(raises(lambda: m.predict_proba(X)), "record of the wrong width scored")


def cases(tier):
    deep = tier == "thorough"
    out = []
    for kind in KINDS:
        for k in (1, 2, 3, 4) if deep else (1, 2, 3):
            for f in (1, 2, 3) if deep else (2,):
                out.append(("labels", dict(kind=kind, k=k, f=f, n=1)))
                for what in ("proba", "log"):
                    out.append(("posteriors", dict(kind=kind, k=k, f=f, n=1, what=what)))
            out.append(("stable", dict(kind=kind, k=k), dict(ieee=True)))
        out.append(("labels", dict(kind=kind, k=2, f=1, n=2)))
        out.append(("posteriors", dict(kind=kind, k=2, f=1, n=2, what="log")))
        out.append(("width", dict(kind=kind)))
        # terms of a Gaussian density round differently by their order, which labels of fixed numbers would show at ties
        sizes = ((2, 12, 1), (3, 2, 130)) if kind == "GaussianNB" else ((2, 300, 1), (12, 30, 1), (3, 2, 130))
        for k, f, n in sizes:
            free = {"free": ["x0_%d" % (f - 1), "x%d_1" % (n - 1)]}
            if kind != "GaussianNB":
                out.append(("labels", dict(kind=kind, k=k, f=f, n=n), free))
            for what in ("proba", "log") if k < 12 else ():
                out.append(("posteriors", dict(kind=kind, k=k, f=f, n=n, what=what), free))
    for e in (-200, 200, -120, 120):
        for k in (2, 3):
            out.append(("narrow", dict(k=k, f=4, exponent=e), dict(ieee=True)))
    return out
