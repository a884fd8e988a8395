"""C19: calls change neither records, nor model, nor earlier answers"""
from harness.zoo import *

BOUNDS = ("every supported kind of model (dense and sparse records where both are supported), a batch of 2 records and another of 1: all "
          "real entries in [-100,100] (text, categories and mappings from small sets); one or two free parameters per model; every "
          "method called, each again after every other (thorough: every sequence of three calls), after answers for other records, after the list given before was filled with "
          "others, and after the caller changed an answer; "
          "the numeric helper functions for rows, scaling and similarity on 2 records of 2 features")
ASSUMPTIONS = ["attributes a model gains on first use (caches) are not looked at: only what it had after conversion has to stay the same, "
               "and answers have to stay the same in any case"]


def state(v, seen=()):
    """everything reachable from v as plain lists"""
    from pure_sklearn.utils import issparse
    if any(v is s for s in seen):
        return "again"
    if issparse(v):
        return ["sparse", v.size, v.dtype.__name__, [state(x, seen + (v,)) for x in v]]
    if isinstance(v, dict):
        return ["dict"] + [[k, state(x, seen + (v,))] for k, x in v.items()]
    if isinstance(v, (list, tuple)):
        return [type(v).__name__] + [state(x, seen + (v,)) for x in v]
    if isinstance(v, (set, frozenset)):
        return ["set", sorted(v)]
    if isinstance(v, float) and v != v:
        return "nan"
    if v is None or isinstance(v, (bool, int, float, str, bytes)):
        return v
    if isinstance(v, type) or callable(v):
        return "code"
    d = getattr(v, "__dict__", None)
    if type(v).__module__.startswith("pure_") and d is not None:
        return [type(v).__name__, {k: state(x, seen + (v,)) for k, x in d.items()}]
    return type(v).__name__


def unchanged(ctx, before, now, what):
    """as ctx.eq; attributes that were not there before do not count"""
    if isinstance(before, list) and len(before) == 2 and isinstance(before[1], dict):
        ctx.ensure(isinstance(now, list) and len(now) == 2 and now[0] == before[0], what)
        for k in before[1]:
            if k not in now[1]:
                ctx.ensure(False, what + "." + k + " is gone")
            unchanged(ctx, before[1][k], now[1][k], what + "." + k)
    elif isinstance(before, list) and any(isinstance(b, list) for b in before):
        if not isinstance(now, list) or len(now) != len(before):
            ctx.ensure(False, what + ": shape")
            return
        for b, n in zip(before, now):
            unchanged(ctx, b, n, what)
    else:
        ctx.eq(now, before, what)


def calls(ctx, kind, order, full):
    """every method, one after the other, twice"""
    k = KINDS[kind](ctx)
    m = k.pure(k.est)
    if not full:
        # the state of the model is looked at with small numbers of records
        recs, other = [k.record(0)], [k.record(1)]
    else:
        recs, other = [k.record(0), k.record(1)], [k.record(2)]
    X, Z = k.batch(recs), k.batch(other)
    x0, z0, m0 = state(X), state(Z), state(m)
    methods = list(k.methods)
    if order == "down":
        methods = methods[::-1]
    held, want = {}, {}
    for method in methods:
        f = getattr(m, method)
        got = f(X)
        held[method] = got
        want[method] = plain(got)
        unchanged(ctx, x0, state(X), method + ": records")
        unchanged(ctx, m0, state(m), method + ": model")
        ctx.eq(plain(f(X)), want[method], method + ": asked again")
        ctx.eq(plain(got), want[method], method + ": answer given earlier, asked again")
    for method in methods:
        f = getattr(m, method)
        other = plain(f(Z))
        unchanged(ctx, z0, state(Z), method + ": other records")
        ctx.eq(plain(held[method]), want[method], method + ": answer given earlier, other records")
        ctx.eq(plain(f(X)), want[method], method + ": asked again after other records")
        ctx.eq(plain(f(Z)), other, method + ": other records asked again")
    for method in methods:
        ctx.eq(plain(held[method]), want[method], method + ": answer given earlier")
    unchanged(ctx, x0, state(X), "records")
    unchanged(ctx, m0, state(m), "model")


def repeated(ctx, kind):
    """one record object twice in a batch"""
    k = KINDS[kind](ctx)
    m = k.pure(k.est)
    r = k.record(0)
    X = k.batch([r])
    x0 = state(X[0])
    if k.store == "sparse":
        X = sparse([X[0], X[0]], k.width)
    else:
        X = [X[0], X[0]]
    for method in k.methods:
        got = plain(getattr(m, method)(X))
        unchanged(ctx, x0, state(X[0]), method + ": record")
        unchanged(ctx, x0, state(X[1]), method + ": record")
        ctx.eq(plain(getattr(m, method)(X)), got, method + ": asked again")


def copied(r):
    return list(r) if isinstance(r, list) else dict(r) if isinstance(r, dict) else r


def spoil(v):
    """what a caller may do to an answer that is his"""
    if isinstance(v, dict):
        for k in list(v):
            v[k] = 7.0
        v[0] = 9.0
    elif isinstance(v, list):
        for x in v:
            spoil(x)
        if not v or not isinstance(v[0], (list, dict)):
            v[:] = [7.0] * (len(v) + 1)


def reused(ctx, kind, how):
    """the caller's list filled anew, and answers the caller has changed"""
    k = KINDS[kind](ctx)
    m, fresh = k.pure(k.est), k.pure(k.est)
    r = k.record(1)
    X = k.batch([copied(k.record(0))])
    Z = k.batch([copied(r)])
    want = {method: plain(getattr(fresh, method)(k.batch([copied(r)]))) for method in k.methods}
    for method in k.methods:
        getattr(m, method)(X)
    if how == "cells" and isinstance(X[0], list):
        X[0][:] = Z[0]
    elif how == "cells" and isinstance(X[0], dict):
        X[0].clear()
        X[0].update(Z[0])
    else:
        X[0] = Z[0]
    for method in k.methods:
        got = getattr(m, method)(X)
        ctx.eq(plain(got), want[method], method + " of a list filled anew")
        X[0] = copied(r) if k.store != "sparse" else k.batch([copied(r)])[0]
        spoil(got)
        again = k.batch([copied(r)])
        ctx.eq(plain(getattr(m, method)(again)), want[method], method + " after the answer was changed")
        X[0] = again[0]


def sequences(ctx, kind):
    """three calls in any order"""
    k = KINDS[kind](ctx)
    m = k.pure(k.est)
    X, Z = k.batch([k.record(0)]), k.batch([k.record(1)])
    want = {}
    for method in k.methods:
        want[method] = (plain(getattr(k.pure(k.est), method)(X)), plain(getattr(k.pure(k.est), method)(Z)))
    for i in range(3):
        method = ctx.choice("call%d" % i, list(k.methods))
        j = ctx.choice("on%d" % i, [0, 1])
        ctx.eq(plain(getattr(m, method)((X, Z)[j])), want[method][j], method + " after other calls")


def normalise(ctx, norm, axis, copy, store):
    from pure_sklearn.preprocessing._data import normalize_pure
    X, D = records(ctx, "x", 2, 2, store)
    x0 = state(X)
    for ret in (False, True) if store == "dense" or norm == "max" else (False,):
        a = normalize_pure(X, norm=norm, axis=axis, copy=copy, return_norm=ret)
        unchanged(ctx, x0, state(X), "records")
        got = state(a)
        b = normalize_pure(X, norm=norm, axis=axis, copy=copy, return_norm=ret)
        ctx.eq(state(b), got, "asked again")
        ctx.eq(state(a), got, "answer given earlier")


def similar(ctx, fn, store, second):
    from pure_sklearn.metrics import pairwise as p
    f = getattr(p, fn)
    X, _ = records(ctx, "x", 2, 2, store)
    Y = None if second == "none" else X if second == "same" else [[ctx.real("y0"), 1.0]]
    x0, y0 = state(X), state(Y)
    a = f(X, Y)
    got = state(a)
    unchanged(ctx, x0, state(X), "first argument")
    unchanged(ctx, y0, state(Y), "second argument")
    ctx.eq(state(f(X, Y)), got, "asked again")
    ctx.eq(state(a), got, "answer given earlier")
    unchanged(ctx, x0, state(X), "first argument")
    unchanged(ctx, y0, state(Y), "second argument")


def matrices(ctx, store):
    """the matrix helpers of the package"""
    from pure_sklearn import base as b, utils as u
    X, _ = records(ctx, "x", 2, 2, store, rev=False)
    W = [[1.0, ctx.real("w")], [0.0, 2.0]]
    x0, w0 = state(X), state(W)
    fs = [lambda: b.dot_2d(X, W), lambda: b.dot(X[0], W), lambda: b.slice_column(X, 1), lambda: b.slice_column(X, [1, 1]),
          lambda: b.apply_axis_2d(X, sum, axis=1), lambda: b.sfmax(X[0]), lambda: b.matmult_same_dim(X, X), lambda: u.shape(X)]
    if store == "dense":
        fs += [lambda: b.transpose(X), lambda: b.ravel(X), lambda: b.operate_2d(X, W, rdiff), lambda: b.apply_2d(X, rtwice),
               lambda: b.apply_axis_2d(X, sum, axis=0), lambda: u.tosparse(X), lambda: list(b.accumu(X[0]))]
    else:
        fs += [lambda: b.apply_2d_sparse(X, rtwice), lambda: u.todense(X), lambda: b.apply_axis_2d(X, sum)]
    for i, f in enumerate(fs):
        a = f()
        got = state(a)
        unchanged(ctx, x0, state(X), "helper %d: argument" % i)
        unchanged(ctx, w0, state(W), "helper %d: weights" % i)
        ctx.eq(state(f()), got, "helper %d: asked again" % i)
        ctx.eq(state(a), got, "helper %d: earlier answer" % i)


def rdiff(a, b):
    return a - b


def rtwice(a):
    return a + a


def vectors(ctx, supervised):
    """fastText's look-ups, and what a caller does to their answers"""
    k = fast(ctx, supervised)
    m = load(k.est)
    m0 = state(m)

    asks = [lambda: m.get_word_vector("a"), lambda: m.get_word_vector("zz"), lambda: m.get_input_vector(0), lambda: m.get_input_vector(1),
            lambda: m.get_sentence_vector("a"), lambda: m.get_sentence_vector("b a"), lambda: m.get_sentence_vector("zz"),
            lambda: m.get_word_id("b")]
    if supervised:
        asks += [lambda: m.predict("a"), lambda: m.predict("a", k=2), lambda: m.predict(["a", "b"], k=-1)]
    want = [state(f()) for f in asks]
    unchanged(ctx, m0, state(m), "model")
    for i in range(len(asks)):
        got = asks[i]()
        ctx.eq(state(got), want[i], "asked again")
        if isinstance(got, list) and i < 7:
            got[0] = 5.0
            got.append(1.0)
            unchanged(ctx, m0, state(m), "model, after its answer was changed")
            for j in range(len(asks)):
                ctx.eq(state(asks[j]()), want[j], "asked after an answer was changed")


def lines(ctx):
    """a list of lines stays as it is"""
    k = fast(ctx, True)
    m = load(k.est)
    X = [k.record(0), k.record(1)]
    x0 = state(X)
    want = plain(m.predict(X, k=2))
    unchanged(ctx, x0, state(X), "lines")
    ctx.eq(plain(m.predict(X, k=2)), want, "asked again")


def cases(tier):
    deep = tier == "thorough"
    out = []
    o = dict(validate=2, max_paths=60000)
    for kind in KINDS:
        out.append(("calls", dict(kind=kind, order="up", full=deep), o))
        if deep:
            out.append(("calls", dict(kind=kind, order="down", full=False), o))
            out.append(("sequences", dict(kind=kind), o))
        out.append(("repeated", dict(kind=kind), o))
        for how in ("rows", "cells"):
            few = {} if deep or not any(w in kind for w in ("Boost", "XGB")) else {"free": ["x0_0", "x1_0", "x1_1"]}
            out.append(("reused", dict(kind=kind, how=how), dict(o, **few)))
    for store in ("dense", "sparse"):
        out.append(("matrices", dict(store=store), o))
        for norm in ("l1", "l2", "max"):
            for axis in (0, 1):
                for copy in (True, False):
                    if store == "dense" or axis == 1:
                        out.append(("normalise", dict(norm=norm, axis=axis, copy=copy, store=store), o))
        for fn in ("linear_kernel_pure", "cosine_similarity_pure", "cosine_distances_pure"):
            for second in ("none", "same", "other"):
                if store == "dense" or second == "other":
                    out.append(("similar", dict(fn=fn, store=store, second=second), o))
    for s in (False, True):
        out.append(("vectors", dict(supervised=s), o))
    out.append(("lines", {}, o))
    return out
