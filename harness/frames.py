"""the slice of pandas.DataFrame a booster's tree table is read through"""


class Series:
    def __init__(self, v, name=None, index=None):
        self._v = list(v)
        self.name = name
        self.index = list(index) if index is not None else list(range(len(self._v)))

    def __len__(self):
        return len(self._v)

    def __iter__(self):
        return iter(self._v)

    def tolist(self):
        return list(self._v)

    to_list = tolist

    @property
    def values(self):
        return Series(self._v)

    to_numpy = copy = lambda self: Series(self._v, self.name, self.index)

    @property
    def shape(self):
        return (len(self._v),)

    @property
    def size(self):
        return len(self._v)

    @property
    def empty(self):
        return not self._v

    def _op(self, o, f):
        if isinstance(o, Series):
            return Series([f(a, b) for a, b in zip(self._v, o._v)], self.name, self.index)
        return Series([f(a, o) for a in self._v], self.name, self.index)

    def __eq__(self, o):
        return self._op(o, lambda a, b: bool(a == b))

    def __ne__(self, o):
        return self._op(o, lambda a, b: bool(a != b))

    def __lt__(self, o):
        return self._op(o, lambda a, b: bool(a < b))

    def __le__(self, o):
        return self._op(o, lambda a, b: bool(a <= b))

    def __gt__(self, o):
        return self._op(o, lambda a, b: bool(a > b))

    def __ge__(self, o):
        return self._op(o, lambda a, b: bool(a >= b))

    def __and__(self, o):
        return self._op(o, lambda a, b: bool(a and b))

    def __or__(self, o):
        return self._op(o, lambda a, b: bool(a or b))

    def __invert__(self):
        return Series([not a for a in self._v], self.name, self.index)

    __hash__ = None

    def isin(self, o):
        o = list(o)
        return Series([a in o for a in self._v], self.name, self.index)

    def unique(self):
        out = []
        for a in self._v:
            if a not in out:
                out.append(a)
        return Series(out)

    drop_duplicates = unique

    def nunique(self):
        return len(self.unique())

    def max(self):
        return max(self._v)

    def min(self):
        return min(self._v)

    def isnull(self):
        return Series([a is None or (isinstance(a, float) and a != a) for a in self._v], self.name, self.index)

    isna = isnull

    def notnull(self):
        return ~self.isnull()

    notna = notnull

    def map(self, f):
        if isinstance(f, dict):
            return Series([f[a] if a in f else float("nan") for a in self._v], self.name, self.index)
        return Series([f(a) for a in self._v], self.name, self.index)

    apply = map

    def astype(self, t):
        return Series([t(a) for a in self._v] if callable(t) else self._v, self.name, self.index)

    def fillna(self, x):
        return Series([x if a is None or (isinstance(a, float) and a != a) else a for a in self._v], self.name, self.index)

    def sort_values(self):
        return Series(sorted(self._v), self.name)

    @property
    def iloc(self):
        return self._v

    def items(self):
        return list(zip(self.index, self._v))

    def to_dict(self):
        return dict(zip(self.index, self._v))

    def __getitem__(self, i):
        if isinstance(i, Series):
            return Series([a for a, m in zip(self._v, i) if m], self.name)
        return self._v[i]


class Row(dict):
    def __getattr__(self, k):
        try:
            return self[k]
        except KeyError:
            raise AttributeError(k)


class _Loc:
    def __init__(self, f):
        self.f = f

    def __getitem__(self, k):
        f = self.f
        if isinstance(k, tuple):
            rows, cols = k
            f = self[rows] if not isinstance(rows, slice) else f
            return f[cols]
        if isinstance(k, slice):
            return f
        if isinstance(k, int):
            return Row((c, v[f.index.index(k)]) for c, v in f._c.items())
        return f[k]


class _ILoc(_Loc):
    def __getitem__(self, k):
        f = self.f
        if isinstance(k, int):
            return Row((c, v[k]) for c, v in f._c.items())
        if isinstance(k, slice):
            return Frame({c: v[k] for c, v in f._c.items()}, f.index[k])
        return f._take(list(k))


class Frame:
    def __init__(self, cols, index=None):
        self._c = {k: list(v) for k, v in cols.items()}
        n = len(list(self._c.values())[0]) if self._c else 0
        self.index = list(index) if index is not None else list(range(n))

    @property
    def columns(self):
        return list(self._c.keys())

    keys = lambda self: list(self._c.keys())

    def __len__(self):
        return len(self.index)

    def __iter__(self):
        return iter(list(self._c.keys()))

    def __contains__(self, k):
        return k in self._c

    @property
    def shape(self):
        return (len(self.index), len(self._c))

    @property
    def empty(self):
        return not self.index

    def _take(self, idx):
        return Frame({k: [v[i] for i in idx] for k, v in self._c.items()}, [self.index[i] for i in idx])

    def __getitem__(self, k):
        if isinstance(k, str):
            return Series(self._c[k], k, self.index)
        k = list(k)
        if k and isinstance(k[0], str):
            return Frame({c: self._c[c] for c in k}, self.index)
        return self._take([i for i in range(len(k)) if k[i]])

    def __getattr__(self, k):
        if not k.startswith("_") and k in self._c:
            return self[k]
        raise AttributeError(k)

    @property
    def loc(self):
        return _Loc(self)

    @property
    def iloc(self):
        return _ILoc(self)

    def copy(self):
        return Frame(self._c, self.index)

    def reset_index(self, drop=False):
        return Frame(self._c)

    def sort_values(self, by, ascending=True):
        by = [by] if isinstance(by, str) else list(by)
        idx = sorted(range(len(self)), key=lambda i: tuple(self._c[b][i] for b in by), reverse=not ascending)
        return self._take(idx)

    def groupby(self, by, sort=True):
        keys = self[by].unique().tolist()
        if sort:
            keys = sorted(keys)
        return [(k, self[self[by] == k]) for k in keys]

    def iterrows(self):
        return [(self.index[i], Row((k, v[i]) for k, v in self._c.items())) for i in range(len(self))]

    def itertuples(self, index=True):
        return [Row((k, v[i]) for k, v in self._c.items()) for i in range(len(self))]

    def to_dict(self, orient="dict"):
        if orient == "list":
            return {k: list(v) for k, v in self._c.items()}
        if orient == "records":
            return [{k: v[i] for k, v in self._c.items()} for i in range(len(self))]
        if orient == "index":
            return {self.index[i]: {k: v[i] for k, v in self._c.items()} for i in range(len(self))}
        return {k: {self.index[i]: v[i] for i in range(len(self))} for k, v in self._c.items()}
