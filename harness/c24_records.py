"""C24: each record is answered on its own"""
from harness.zoo import *

BOUNDS = ("every supported kind of model (dense and sparse records where both are supported), batches of 2 (thorough 3) records: all "
          "real entries in [-100,100] (text, categories and mappings from small sets), repeated records and the same record object "
          "twice; one or two free parameters per model")
ASSUMPTIONS = ["arithmetic is idealised as real arithmetic"]


FREE = ["x149_0", "doc0", "line149", "c149", "d0", "m149_1", "n149_0", "has149_0", "v149"]


def call(k, m, method, X):
    got = getattr(m, method)(X)
    return got


def poke(v, n):
    """change every entry of one answer; returns False if it has none"""
    from pure_sklearn.utils import issparse
    if isinstance(v, tuple):
        v = v[1]
    row = v[n]
    if isinstance(row, dict):
        for key in list(row):
            row[key] = 12345.0
        row[0] = 12345.0
    elif isinstance(row, list):
        for i in range(len(row)):
            row[i] = 12345.0
        row.append(12345.0)


def alone(ctx, kind, n):
    """a batch gives the answers of its records alone, in order"""
    k = KINDS[kind](ctx)
    m = k.pure(k.est)
    recs = [k.record(i) for i in range(n)]
    for method in k.methods:
        got = getattr(m, method)(k.batch(recs))
        one = [getattr(m, method)(k.batch([r])) for r in recs]
        rows = answer_rows(got)
        ctx.eq(len(rows), n, method + ": answers")
        for i in range(n):
            w = answer_rows(one[i])
            ctx.eq(len(w), 1, method + ": answers for one record")
            ctx.eq(rows[i], w[0], method + ": record alone")


def separate(ctx, kind, n, repeated):
    """changing one answer changes no other, nor later ones"""
    k = KINDS[kind](ctx)
    m = k.pure(k.est)
    r = k.record(0)
    recs = [r] * n if repeated else [r] + [k.record(i) for i in range(1, n)]
    X = k.batch(recs)
    if repeated and k.store == "dense":
        X = [X[0]] * n
    for method in k.methods:
        want = answer_rows(getattr(m, method)(k.batch(recs)))
        got = getattr(m, method)(X)
        ctx.eq(answer_rows(got), want, method)
        shared = [any(g is x for x in X) for g in got] if not isinstance(got, tuple) else [False] * n
        if any(shared):
            # the very records came back: what happens to them is the caller's doing
            continue
        poke(got, 0)
        rows = answer_rows(got)
        ctx.eq(rows[1:], want[1:], method + ": other answers after one was changed")
        ctx.eq(answer_rows(getattr(m, method)(k.batch(recs))), want, method + ": later answers after one was changed")


def cases(tier):
    deep = tier == "thorough"
    out = []
    o = dict(validate=2, max_paths=60000)
    for kind in KINDS:
        out.append(("alone", dict(kind=kind, n=2), o))
        if deep:
            out.append(("alone", dict(kind=kind, n=3), o))
        out.append(("alone", dict(kind=kind, n=150), dict(o, free=FREE)))
        for rep in (False, True):
            out.append(("separate", dict(kind=kind, n=2, repeated=rep), o))
    return out
