"""C27: what is said about models of old library versions"""
import warnings

from harness.lib import *
from harness.zoo import KINDS

BOUNDS = ("every kind of scikit-learn estimator, on its own and inside pipelines, unions, bagging and gradient boosting; all versions of two "
          "or three numbers of 1-3 digits, with and without a suffix of one letter and digit, and no version at all")
ASSUMPTIONS = ["versions are told through __getstate__, as scikit-learn tells them", "0.21 always has a third number"]
NUMBERS = False
DIGITS = "0123456789"


def told(est, version, only=None):
    """every part of the estimator (or only one kind of part) tells this version; the kinds of parts"""
    seen = []

    def walk(o):
        if any(o is s for s in seen):
            return
        seen.append(o)
        if isinstance(o, Stub) and (only is None or type(o).__name__ == only):
            type(o)._version = version
            if version is None:
                type(o).__getstate__ = lambda self: dict(self.__dict__)
        if isinstance(o, (list, tuple)):
            for x in o:
                walk(x)
        elif isinstance(o, dict):
            for x in o.values():
                walk(x)
        elif hasattr(o, "__dict__") and not isinstance(o, type) and not callable(o):
            for x in list(o.__dict__.values()):
                walk(x)
    walk(est)
    return [type(o).__name__ for o in seen if isinstance(o, Stub)]


def digits(ctx, name, n):
    """a number of n digits, and its value"""
    first = ctx.str(name, 1, DIGITS if n == 1 else DIGITS[1:])
    text = first + ctx.str(name + "rest", n - 1, DIGITS) if n > 1 else first
    return text, int(text)


def convert_warned(est):
    """(converted model or None, warned that it may not work)"""
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        try:
            m = convert(est)
        except Exception:
            m = None
    return m, any(issubclass(w.category, UserWarning) for w in seen)


def numbered(ctx, kind, lengths, suffix):
    k = KINDS[kind](ctx)
    parts = [digits(ctx, "v%d_" % i, n) for i, n in enumerate(lengths)]
    version = parts[0][0]
    for t, _ in parts[1:]:
        version = version + "." + t
    if suffix:
        version = version + ctx.choice("suffix", ["rc1", "b2", ".post1", ".dev0", "a0"])
    a, b = parts[0][1], parts[1][1]
    # (there was no release 0.21 without a third number)
    ctx.assume(len(parts) > 2 or b != 21 or a != 0)
    names = told(k.est, version)
    m, warned = convert_warned(k.est)
    if "GradientBoostingClassifier" in names and (a < 1 and b < 21):
        ctx.ensure(m is None, "an unsupported version converted")
        return
    ctx.ensure(m is not None, "a supported version refused")
    if a < 1 and b < 20:
        ctx.ensure(warned, "no warning about an old version")
    else:
        ctx.ensure(not warned, "a warning about a recent version")
    X = k.batch([k.record(0)])
    told(k.est, "0.23.2")
    n, warned = convert_warned(k.est)
    for method in k.methods:
        ctx.eq(plain(getattr(m, method)(X)), plain(getattr(n, method)(X)), method)


def plain(v):
    from pure_sklearn.utils import issparse
    return v.todense() if issparse(v) else v


def one_part(ctx, kind):
    """a single kind of part of an old version"""
    k = KINDS[kind](ctx)
    names = []
    for name in told(k.est, "0.23.2"):
        if name not in names:
            names.append(name)
    if ctx.bool("none"):
        m, warned = convert_warned(k.est)
        ctx.ensure(m is not None, "a supported version refused")
        ctx.ensure(not warned, "a warning about a recent version")
        return
    which = ctx.choice("part", names)
    told(k.est, ctx.choice("version", ["0.19.2", "0.9", "0.0.1", "0.18"]), which)
    m, warned = convert_warned(k.est)
    if which == "GradientBoostingClassifier":
        ctx.ensure(m is None, "an unsupported version converted")
    else:
        ctx.ensure(m is not None, "a supported version refused")
        ctx.ensure(warned, "no warning about an old part")


def unknown(ctx, kind):
    k = KINDS[kind](ctx)
    told(k.est, None)
    m, warned = convert_warned(k.est)
    ctx.ensure(m is not None, "an estimator of unknown version refused")
    ctx.ensure(warned, "no warning about an unknown version")


def cases(tier):
    deep = tier == "thorough"
    out = []
    o = dict(validate=2)
    for i, kind in enumerate(KINDS):
        if kind == "FastText" or kind.startswith("XGB"):
            continue
        for lengths in ([1, 2, 1], [1, 1, 1], [1, 3], [1, 2]) if deep else ([1, 2, 1], [[1, 1, 1], [1, 3], [1, 2], [2, 1, 2]][i % 4]):
            out.append(("numbered", dict(kind=kind, lengths=lengths, suffix=len(lengths) == 3 and i % 3 == 0), o))
        out.append(("unknown", dict(kind=kind), o))
        out.append(("one_part", dict(kind=kind), o))
    return out
