"""C11: imputation and missing flags"""
from harness.lib import *

BOUNDS = ("1-3 columns, 1-2 records, all real cells or strings of up to 2 letters, markers NaN, 0, -1 (integer), empty and "
          "'?' strings and None, every set of columns without statistic, every set of flagged columns; other cells may be "
          "NaN when the marker is a number, and strings or None when it is a string or None")
ASSUMPTIONS = []
NAN = float("nan")
MARKERS = {"nan": NAN, "zero": 0.0, "minus": -1, "empty": "", "mark": "?", "none": None}


def isnan(v):
    return isinstance(v, float) and v != v


def missing(ctx, v, marker):
    if isnan(marker):
        return isnan(v)
    if isinstance(marker, (int, float)):
        if isnan(v):
            return False
        return bool(v == marker)
    if marker is None:
        return v is None
    return isinstance(v, str) and bool(v == marker)


def cell(ctx, name, marker):
    """a cell of a column that may hold the marker"""
    if isnan(marker):
        if ctx.bool(name + "_missing"):
            return NAN
        return ctx.real(name)
    if isinstance(marker, (int, float)):
        k = ctx.choice(name + "_kind", ["number", "marker", "nan"])
        return ctx.real(name) if k == "number" else marker if k == "marker" else NAN
    k = ctx.choice(name + "_kind", ["text", "marker", "none", "number", "empty"] + ["spaced"] * name.endswith("0_0"))
    if k == "spaced":
        # a string that contains the marker is no marker
        return ctx.choice(name + "_spaced", [" ", "? ", " ?", "??", "None", "nan", "NaN"])
    if k == "empty":
        return ""
    if k == "text":
        return ctx.str(name, 1, "ab?")
    if k == "none":
        return None
    if k == "number":
        return 3
    return marker


def matrix_(ctx, n, f, marker):
    return [[cell(ctx, "x%d_%d" % (i, j), marker) for j in range(f)] for i in range(n)]


def same(ctx, got, want, what):
    """cells agree, NaN with NaN"""
    ctx.eq([len(r) for r in got], [len(r) for r in want], what + " width")
    for r, w in zip(got, want):
        for a, b in zip(r, w):
            if isnan(b):
                ctx.ensure(isnan(a), what + ": NaN cell changed")
            elif b is None:
                ctx.ensure(a is None, what + ": None cell changed")
            elif isnan(a) or a is None:
                ctx.ensure(False, what + ": cell became missing")
            else:
                ctx.eq(a, b, what)


def indicator(marker, f, flagged, error, features="missing-only"):
    return make("MissingIndicator", features=features, features_=Arr(list(flagged), "int64"), _n_features=f,
                missing_values=marker, error_on_new=error, sparse="auto")


def imputer(ctx, f, n, marker, strategy, flags=None, holes=True):
    mk = MARKERS[marker]
    text = not isinstance(mk, (int, float))
    stats = []
    for j in range(f):
        if holes and ctx.bool("nostat%d" % j):
            stats.append(NAN)
        elif text:
            stats.append("s%d" % j)
        else:
            stats.append(ctx.real("s%d" % j))
    if strategy != "constant":
        ctx.assume(any([not isnan(s) for s in stats]))
    extra = dict(add_indicator=False)
    if flags is not None:
        extra = dict(add_indicator=True, indicator_=indicator(mk, f, flags, True))
    elif ctx.bool("old"):
        extra = dict(add_indicator=False, indicator_=None)
    m = convert(make("SimpleImputer", statistics_=Arr(list(stats)), strategy=strategy, missing_values=mk, fill_value=None,
                     verbose=0, copy=True, **extra))
    X = matrix_(ctx, n, f, mk)
    want = []
    for x in X:
        row = []
        for j in range(f):
            if strategy != "constant" and isnan(stats[j]):
                continue
            row.append(stats[j] if missing(ctx, x[j], mk) else x[j])
        if flags is not None:
            for j in flags:
                row.append(1 if missing(ctx, x[j], mk) else 0)
        want.append(row)
    same(ctx, m.transform([list(x) for x in X]), want, "transform")


def flagging(ctx, f, n, marker, features, flagged, error):
    mk = MARKERS[marker]
    m = convert(indicator(mk, f, flagged, error, features))
    X = matrix_(ctx, n, f, mk)
    miss = [[missing(ctx, v, mk) for v in x] for x in X]
    if features == "missing-only" and error:
        new = False
        for j in range(f):
            if j not in flagged:
                for r in miss:
                    if r[j]:
                        new = True
        if new:
            ctx.ensure(raises(lambda: m.transform([list(x) for x in X])), "unexpected missing values accepted")
            return
    sel = list(range(f)) if features == "all" else flagged
    same(ctx, m.transform([list(x) for x in X]), [[1 if r[j] else 0 for j in sel] for r in miss], "flags")


def width(ctx, kind):
    f = ctx.choice("f", [1, 2, 3])
    g = ctx.choice("g", [1, 2, 3, 4])
    ctx.assume(f != g)
    if kind == "imputer":
        st = ctx.choice("strategy", ["mean", "constant"])
        hole = ctx.bool("hole")
        extra = dict(add_indicator=False)
        if ctx.bool("flags"):
            extra = dict(add_indicator=True, indicator_=indicator(NAN, f, [0], True))
        stats = [1.0] * f
        if hole and f > 1:
            stats[0] = NAN
        m = convert(make("SimpleImputer", statistics_=Arr(stats), strategy=st, missing_values=NAN, **extra))
    else:
        m = convert(indicator(NAN, f, [0], ctx.bool("error"), ctx.choice("features", ["all", "missing-only"])))
    X = [[ctx.real("x%d" % j) for j in range(g)]]
    ctx.ensure(raises(lambda: m.transform(X)), "records of the wrong width accepted")


def cases(tier):
    deep = tier == "thorough"
    out = []
    for mk in MARKERS:
        for st in ("mean", "constant") if mk in ("nan", "zero", "minus") else ("most_frequent", "constant"):
            holes = st != "constant"
            out.append(("imputer", dict(f=2, n=1, marker=mk, strategy=st, holes=holes)))
            if mk in ("nan", "none") or deep:
                out.append(("imputer", dict(f=3, n=1, marker=mk, strategy=st, holes=holes)))
                out.append(("imputer", dict(f=1, n=2, marker=mk, strategy=st, holes=False)))
            for flags in ([0], [1], [0, 1]):
                out.append(("imputer", dict(f=2, n=1, marker=mk, strategy=st, flags=flags, holes=holes)))
            if mk == "nan":
                out.append(("imputer", dict(f=3, n=1, marker=mk, strategy=st, flags=[0, 2], holes=holes)))
                out.append(("imputer", dict(f=2, n=2, marker=mk, strategy=st, flags=[1], holes=holes)))
        for error in (True, False):
            for flagged in ([0], [1], [0, 1]):
                out.append(("flagging", dict(f=2, n=1, marker=mk, features="missing-only", flagged=flagged, error=error)))
            if mk == "nan" or deep:
                out.append(("flagging", dict(f=3, n=1, marker=mk, features="missing-only", flagged=[0, 2], error=error)))
                out.append(("flagging", dict(f=2, n=2, marker=mk, features="missing-only", flagged=[1], error=error)))
                out.append(("flagging", dict(f=2, n=1, marker=mk, features="missing-only", flagged=[], error=error)))
        out.append(("flagging", dict(f=2, n=1, marker=mk, features="all", flagged=[0, 1], error=True)))
        out.append(("flagging", dict(f=1, n=2, marker=mk, features="all", flagged=[0], error=False)))
    for f, n in ((70, 2), (2, 150)):
        last = f - 1
        free = {"free": ["x0_%d" % last, "x0_%d_missing" % last, "x0_%d_kind" % last, "x%d_0" % (n - 1), "x%d_0_kind" % (n - 1), "s0", "nostat%d" % last]}
        flagged = [0, last] + ([5, 6, 20, 21, 40] if f > 9 else [])
        for mk in MARKERS:
            for st in ("mean", "constant") if mk in ("nan", "zero", "minus") else ("most_frequent", "constant"):
                holes = st != "constant"
                out.append(("imputer", dict(f=f, n=n, marker=mk, strategy=st, holes=holes), free))
                out.append(("imputer", dict(f=f, n=n, marker=mk, strategy=st, flags=sorted(flagged), holes=holes), free))
            for error in (True, False):
                out.append(("flagging", dict(f=f, n=n, marker=mk, features="missing-only", flagged=sorted(flagged), error=error), free))
            out.append(("flagging", dict(f=f, n=n, marker=mk, features="missing-only", flagged=list(range(f)), error=True), free))
            out.append(("flagging", dict(f=f, n=n, marker=mk, features="all", flagged=list(range(f)), error=True), free))
    for kind in ("imputer", "indicator"):
        out.append(("width", dict(kind=kind)))
    return out
