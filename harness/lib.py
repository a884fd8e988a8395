"""Stand-ins for fitted estimators and reference formulas shared by harnesses.

Harness code runs twice: lowered and symbolic under symx, and as ordinary
Python on the real package when a counterexample is replayed."""
import math


class Arr:
    """the slice of numpy.ndarray that fitted attributes are read through"""

    def __init__(self, data, dtype="float64"):
        self._d = data
        self.dtype = dtype

    def tolist(self):
        return _deep(self._d)

    @property
    def shape(self):
        s = []
        d = self._d
        while isinstance(d, list):
            s.append(len(d))
            if not d:
                break
            d = d[0]
        return tuple(s)

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        n = 1
        for k in self.shape:
            n *= k
        return n

    @property
    def T(self):
        return Arr([list(r) for r in zip(*self._d)])

    def ravel(self):
        return Arr(_flat(self._d))

    flatten = ravel

    def copy(self):
        return Arr(_deep(self._d), self.dtype)

    def astype(self, t):
        return Arr(_map(self._d, t))

    def __len__(self):
        return len(self._d)

    def __iter__(self):
        return iter([Arr(x, self.dtype) if isinstance(x, list) else x for x in self._d])

    def __getitem__(self, i):
        if isinstance(i, tuple):
            d = self._d
            for k in i:
                d = d[k]
            return d
        r = self._d[i]
        return Arr(r, self.dtype) if isinstance(r, list) else r


def _deep(d):
    return [_deep(x) for x in d] if isinstance(d, list) else d


def _flat(d):
    out = []
    for x in d:
        if isinstance(x, list):
            out.extend(_flat(x))
        else:
            out.append(x)
    return out


def _map(d, f):
    return [_map(x, f) for x in d] if isinstance(d, list) else f(d)


class Stub:
    """a fitted estimator as conversion sees it"""

    _version = "0.23.2"

    def __getstate__(self):
        d = dict(self.__dict__)
        d["_sklearn_version"] = self._version
        return d


def make(clsname, **attrs):
    version = attrs.pop("sklearn_version", "0.23.2")
    o = type(clsname, (Stub,), {"_version": version})()
    for k, v in attrs.items():
        setattr(o, k, v)
    return o


def convert(est):
    from pure_sklearn.map import convert_estimator
    return convert_estimator(est)


def reals(ctx, name, n, **k):
    return [ctx.real("%s%d" % (name, i), **k) for i in range(n)]


def matrix(ctx, name, n, m, **k):
    return [[ctx.real("%s%d_%d" % (name, i, j), **k) for j in range(m)] for i in range(n)]


def sparse(rows, size, dtype=float):
    from pure_sklearn.utils import sparse_list
    return sparse_list(rows, size=size, dtype=dtype)


def sparse_records(ctx, name, n, m, full=False, rev=True, **k):
    """(sparse_list, dense rows): every presence pattern, stored zeros allowed,
    keys in either order"""
    rows, dense = [], []
    for i in range(n):
        d = {}
        x = [0.0] * m
        order = list(range(m))
        if rev and m > 1 and ctx.bool("%s_rev%d" % (name, i)):
            order = order[::-1]
        for j in order:
            if full or ctx.bool("%s_has%d_%d" % (name, i, j)):
                v = ctx.real("%s%d_%d" % (name, i, j), **k)
                d[j] = v
                x[j] = v
        rows.append(d)
        dense.append(x)
    return sparse(rows, m), dense


def records(ctx, name, n, m, store, **k):
    """(X as the package takes it, dense rows)"""
    if store == "sparse":
        return sparse_records(ctx, name, n, m, **k)
    k.pop("rev", None)
    X = matrix(ctx, name, n, m, **k)
    return [list(r) for r in X], X


def raises(f, kinds=Exception):
    try:
        f()
    except kinds:
        return True
    return False


# ------------------------------------------------------------ reference maths
def rdot(x, w):
    t = 0.0
    for a, b in zip(x, w):
        t = t + a * b
    return t


def first_max(ctx, v, linear=False):
    """index of the first largest entry; ties are exact, near ties skipped"""
    best = 0
    for i in range(1, len(v)):
        d = v[i] - v[best]
        ctx.margin(d, linear)
        if d > 0:
            best = i
    return best


def sigmoid(x):
    if x >= 0:
        return 1.0 / (1.0 + math.exp(-x))
    e = math.exp(x)
    return e / (1.0 + e)


def softmax(v):
    m = v[0]
    for x in v[1:]:
        if x > m:
            m = x
    e = [math.exp(x - m) for x in v]
    t = 0.0
    for x in e:
        t = t + x
    return [x / t for x in e]


def rlog(x):
    """numpy's log of a probability"""
    if x == 0:
        return -math.inf
    return math.log(x)


def f32(x):
    from array import array
    return array("f", [x])[0]
