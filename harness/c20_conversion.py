"""C20: conversion gives an equivalent, pickle-able model of builtin types"""
import io
import pickle

import numpy as np

from harness.lib import _deep
from harness.trees import FittedTree
from harness.zoo import *
from harness.c19_no_change import state, unchanged

BOUNDS = ("every supported kind of model (dense and sparse records where both are supported) with one or two free parameters; every "
          "scalar setting of the fitted estimator and its parts as a builtin or as the NumPy scalar of that value, one at a time and all "
          "together, array elements as NumPy scalars; answers of the unpickled model and of the model after the original was "
          "overwritten, for a batch of one record with all real entries in [-100,100]")
ASSUMPTIONS = ["arithmetic is idealised as real arithmetic",
               "free parameters are builtin floats; NumPy scalars carry the concrete ones"]

PLAIN = (int, float, bool, str, bytes)
OWN = ("pure_sklearn", "pure_fasttext")


class NpArr(Arr):
    """array whose elements come out as NumPy scalars unless converted"""

    def __init__(self, data, dtype="float64"):
        Arr.__init__(self, data, dtype)

    def _out(self, v):
        if isinstance(v, list):
            return NpArr(v, self.dtype)
        return npy(v)

    def __iter__(self):
        return iter([self._out(v) for v in self._d])

    def __getitem__(self, i):
        if isinstance(i, tuple):
            d = self._d
            for k in i:
                d = d[k]
            return self._out(d)
        if isinstance(i, slice):
            return NpArr(self._d[i], self.dtype)
        return self._out(self._d[i])

    @property
    def T(self):
        return NpArr([list(r) for r in zip(*self._d)], self.dtype)

    def ravel(self):
        a = Arr.ravel(self)
        return NpArr(a._d, self.dtype)

    def astype(self, t):
        a = Arr.astype(self, t)
        return NpArr(a._d, self.dtype)

    def copy(self):
        a = Arr.copy(self)
        return NpArr(a._d, self.dtype)


def is_free(v):
    """symbolic values are not of the builtin types themselves"""
    return object.__getattribute__(v, "__class__") not in (int, float, bool, str, bytes)


def npy(v):
    if v is None or is_free(v):
        return v
    if isinstance(v, bool):
        return np.bool_(v)
    if isinstance(v, int):
        return np.int64(v)
    if isinstance(v, float):
        return np.float64(v)
    if isinstance(v, str):
        return np.str_(v)
    return v


def wrapped(v):
    """a setting with NumPy scalars, or None if it has none"""
    if isinstance(v, (bool, int, float, str)) and not is_free(v):
        return npy(v)
    if v is float or v is int:
        return np.float64 if v is float else np.int64
    if isinstance(v, tuple) and len(v) > 0 and all(isinstance(x, (int, float)) for x in v):
        return tuple([npy(x) for x in v])
    if isinstance(v, dict) and len(v) > 0 and all(isinstance(x, (int, float)) for x in v.values()):
        return {k: npy(x) for k, x in v.items()}
    return None


def parts(est, out=None):
    """the estimator and every estimator or tree in it"""
    out = [] if out is None else out
    if any(est is o for o in out):
        return out
    if isinstance(est, (list, tuple)):
        for e in est:
            parts(e, out)
    elif isinstance(est, Rows):
        parts(est.rows, out)
    elif isinstance(est, (Stub, FittedTree, XGBClassifier, Model)):
        out.append(est)
        for v in list(est.__dict__.values()):
            parts(v, out)
    return out


def settings(est):
    out = []
    for o in parts(est):
        for a, v in o.__dict__.items():
            if not (isinstance(o, Model) and a[0] == "_") and wrapped(v) is not None:
                out.append((o, a))
    return out


def arrays(est):
    """array elements that are not converted come out as NumPy scalars"""
    for o in parts(est):
        for a, v in list(o.__dict__.items()):
            if type(v) is Arr:
                setattr(o, a, NpArr(v._d, v.dtype))
            elif isinstance(v, list) and len(v) > 0 and type(v[0]) is Arr:
                setattr(o, a, [NpArr(x._d, x.dtype) for x in v])
        if isinstance(o, Model):
            o.get_input_matrix = lambda o=o: NpArr([list(r) for r in o._r], "float32")
            if o._o:
                o.get_output_matrix = lambda o=o: NpArr([list(r) for r in o._o], "float32")


def foreign(v, path, seen, out):
    """what is stored that is neither builtin nor the package's own"""
    if any(v is s for s in seen):
        return out
    if v is None or type(v) in PLAIN:
        return out
    if isinstance(v, type):
        if v.__module__ not in ("builtins", "symx.shadows"):
            out.append(path + ": " + v.__module__ + "." + v.__name__)
        return out
    if type(v) in (list, tuple, set, frozenset):
        for x in v:
            foreign(x, path + "[]", seen + (v,), out)
        return out
    if type(v) is dict:
        for k, x in v.items():
            foreign(k, path + " key", seen, out)
            foreign(x, path + "[]", seen + (v,), out)
        return out
    if type(v).__module__.split(".")[0] in OWN:
        for k, x in v.__dict__.items():
            foreign(x, path + "." + k, seen + (v,), out)
        return out
    out.append(path + ": " + type(v).__module__ + "." + type(v).__name__)
    return out


class Reader(pickle.Unpickler):
    """notes which modules unpickling asks for"""

    def find_class(self, module, name):
        self.asked.append(module)
        return pickle.Unpickler.find_class(self, module, name)


def again(m, asked):
    r = Reader(io.BytesIO(pickle.dumps(m, protocol=4)))
    r.asked = asked
    return r.load()


KNOWN = ("builtins", "copyreg", "_codecs", "collections", "functools", "operator", "symx")


def types(ctx, kind):
    """whatever scalar types the settings have, the stored model is the same and builtin"""
    k = KINDS[kind](ctx)
    want = state(k.pure(k.est))
    sites = settings(k.est)
    which = ctx.choice("numpy", ["none", "elements", "all"] + list(range(len(sites))))
    if which in ("all", "elements"):
        arrays(k.est)
    if which == "all":
        for o, a in sites:
            setattr(o, a, wrapped(getattr(o, a)))
    elif which not in ("none", "elements"):
        o, a = sites[which]
        setattr(o, a, wrapped(getattr(o, a)))
    m = k.pure(k.est)
    bad = foreign(m, "model", (), [])
    ctx.ensure(not bad, "stored: " + ", ".join(bad[:3]))
    ctx.eq(state(m), want, "model converted from NumPy scalars")
    own = type(m).__name__
    ctx.ensure(own in (type(k.est).__name__ + "Pure", "_FastText"), "converted to " + own)


def pickled(ctx, kind):
    """the unpickled model is the same and answers the same, and needs no other package"""
    k = KINDS[kind](ctx)
    m = k.pure(k.est)
    X = k.batch([k.record(0)])
    m0 = state(m)
    want = {method: plain(getattr(m, method)(X)) for method in k.methods}
    asked = []
    n = again(m, asked)
    ctx.ensure(type(n) is type(m), "type of the unpickled model")
    for module in asked:
        ctx.ensure(module.split(".")[0] in OWN + KNOWN, "unpickling needs " + module)
    unchanged(ctx, m0, state(n), "unpickled model")
    for method in k.methods:
        ctx.eq(plain(getattr(n, method)(X)), want[method], method + " of the unpickled model")
    # once more, before any call was made
    fresh = again(k.pure(k.est), [])
    for method in k.methods:
        ctx.eq(plain(getattr(fresh, method)(X)), want[method], method + " of a model pickled before use")


def spoil(v, seen):
    """overwrites everything in the original"""
    if any(v is s for s in seen):
        return
    seen.append(v)
    if isinstance(v, list):
        for x in list(v):
            spoil(x, seen)
        for i in range(len(v)):
            if not isinstance(v[i], (list, dict, Stub, tuple)):
                v[i] = "spoilt"
        v.append("spoilt")
        v.reverse()
    elif isinstance(v, dict):
        for x in list(v.values()):
            spoil(x, seen)
        for key in list(v):
            v[key] = 77
        v["spoilt"] = 78
    elif isinstance(v, (tuple, Rows)):
        for x in v:
            spoil(x, seen)
        if isinstance(v, Rows):
            spoil(v.rows, seen)
    elif isinstance(v, Arr):
        spoil(v._d, seen)
    elif isinstance(v, (Stub, FittedTree, XGBClassifier, Model, Booster)):
        for a in list(v.__dict__):
            x = getattr(v, a)
            spoil(x, seen)
            setattr(v, a, "spoilt")


def apart(ctx, kind):
    """later changes to the original do not reach the converted model"""
    k = KINDS[kind](ctx)
    m = k.pure(k.est)
    X = k.batch([k.record(0)])
    m0 = state(m)
    want = {method: plain(getattr(m, method)(X)) for method in k.methods}
    n = k.pure(k.est)
    spoil(k.est, [])
    ctx.eq(state(n), m0, "model after its original changed")
    for method in k.methods:
        ctx.eq(plain(getattr(n, method)(X)), want[method], method + " after the original changed")


def untouched(ctx, kind):
    """conversion leaves the original as it was, and two conversions agree"""
    k = KINDS[kind](ctx)
    before = [raw(o) for o in parts(k.est)]
    a = k.pure(k.est)
    b = k.pure(k.est)
    ctx.eq([raw(o) for o in parts(k.est)], before, "original after conversion")
    ctx.eq(state(a), state(b), "second conversion")


def raw(o):
    out = []
    for a in sorted(o.__dict__):
        v = o.__dict__[a]
        if isinstance(v, Arr):
            out.append([a, _deep(v._d)])
        elif isinstance(v, (list, tuple, dict)):
            out.append([a, state(v)])
        elif isinstance(v, float) and v != v:
            out.append([a, "nan"])
        elif v is None or isinstance(v, PLAIN):
            out.append([a, v])
    return out


def cases(tier):
    out = []
    o = dict(validate=2, max_paths=60000)
    for kind in KINDS:
        for fn in ("types", "pickled", "apart", "untouched"):
            out.append((fn, dict(kind=kind), o))
    return out
