"""Replacements for the builtins and standard-library functions that would
otherwise look inside symbolic values."""
import builtins
import collections
import copy
import importlib
import math as _math
import struct as _struct
import sys
import types

from . import core
from .core import SymNum, SymBool
from . import strs
from .strs import SymStr, SymBytes, SymBV, issym

FUNCTIONS = set()


# ---------------------------------------------------------------- containers
class _DictMeta(type):
    def __instancecheck__(cls, x):
        if cls is SDict:
            return builtins.isinstance(x, builtins.dict)
        return type.__instancecheck__(cls, x)

    def __eq__(cls, o):
        return o is cls or (cls is SDict and o is builtins.dict)

    def __hash__(cls):
        return builtins.hash(builtins.dict) if cls is SDict else type.__hash__(cls)


_MISSING = object()


class SDict(builtins.dict, metaclass=_DictMeta):
    """dict whose keys may be symbolic"""

    def __init__(self, *a, **k):
        builtins.dict.__init__(self)
        self._sl = None
        self._fill(*a, **k)

    def _fill(self, *a, **k):
        if a:
            src = a[0]
            if builtins.hasattr(src, "keys"):
                for kk in src.keys():
                    self[kk] = src[kk]
            else:
                for kk, v in src:
                    self[kk] = v
        for kk, v in k.items():
            self[kk] = v

    def _slow(self):
        if self._sl is None:
            self._sl = [[k, v] for k, v in builtins.dict.items(self)]
            builtins.dict.clear(self)

    def _find(self, k):
        """entry [k, v] or None"""
        if isinstance_sym(k):
            if self._sl is None:
                for kk in builtins.list(builtins.dict.keys(self)):
                    if eqv(kk, k):
                        return [kk, builtins.dict.__getitem__(self, kk)]
                return None
            for e in self._sl:
                if eqv(e[0], k):
                    return e
            return None
        if self._sl is None:
            if builtins.dict.__contains__(self, k):
                return [k, builtins.dict.__getitem__(self, k)]
            return None
        hash(k)
        for e in self._sl:
            if eqv(e[0], k):
                return e
        return None

    def __getitem__(self, k):
        e = self._find(k)
        if e is None:
            m = getattr(builtins.type(self), "__missing__", None)
            if m is not None:
                return m(self, k)
            raise KeyError(k)
        return e[1]

    def __setitem__(self, k, v):
        if self._sl is None and not isinstance_sym(k):
            builtins.dict.__setitem__(self, k, v)
            return
        if self._sl is None:
            e = self._find(k)
            if e is not None:
                builtins.dict.__setitem__(self, e[0], v)
                return
            self._slow()
            self._sl.append([k, v])
            return
        e = self._find(k)
        if e is not None:
            e[1] = v
        else:
            self._sl.append([k, v])

    def __delitem__(self, k):
        e = self._find(k)
        if e is None:
            raise KeyError(k)
        if self._sl is None:
            builtins.dict.__delitem__(self, e[0])
        else:
            self._sl = [x for x in self._sl if x is not e]

    def __contains__(self, k):
        return self._find(k) is not None

    def get(self, k, d=None):
        e = self._find(k)
        return d if e is None else e[1]

    def setdefault(self, k, d=None):
        e = self._find(k)
        if e is None:
            self[k] = d
            return d
        return e[1]

    def pop(self, k, d=_MISSING):
        e = self._find(k)
        if e is None:
            if d is _MISSING:
                raise KeyError(k)
            return d
        del self[e[0]]
        return e[1]

    def popitem(self):
        ks = builtins.list(self.keys())
        if not ks:
            raise KeyError("popitem(): dictionary is empty")
        k = ks[-1]
        return k, self.pop(k)

    def clear(self):
        builtins.dict.clear(self)
        self._sl = None

    def keys(self):
        return builtins.dict.keys(self) if self._sl is None else KView([e[0] for e in self._sl])

    def values(self):
        return builtins.dict.values(self) if self._sl is None else [e[1] for e in self._sl]

    def items(self):
        return builtins.dict.items(self) if self._sl is None else [(e[0], e[1]) for e in self._sl]

    def __iter__(self):
        return builtins.iter(self.keys())

    def __reversed__(self):
        return builtins.reversed(builtins.list(self.keys()))

    def __len__(self):
        return builtins.dict.__len__(self) if self._sl is None else builtins.len(self._sl)

    def __bool__(self):
        return builtins.len(self) > 0

    def update(self, *a, **k):
        self._fill(*a, **k)

    def __ior__(self, o):
        self._fill(o)
        return self

    def __or__(self, o):
        r = self.copy()
        r._fill(o)
        return r

    def copy(self):
        return SDict(self.items())

    __copy__ = copy

    def __deepcopy__(self, memo):
        r = builtins.type(self).__new__(builtins.type(self))
        builtins.dict.__init__(r)
        r._sl = None
        for k, v in self.__dict__.items():
            if k != "_sl":
                r.__dict__[k] = copy.deepcopy(v, memo)
        for k, v in self.items():
            r[copy.deepcopy(k, memo)] = copy.deepcopy(v, memo)
        return r

    def __reduce_ex__(self, proto):
        return (_mkdict, (builtins.type(self), builtins.list(self.items())))

    def __eq__(self, o):
        if not builtins.isinstance(o, builtins.dict) or builtins.len(self) != builtins.len(o):
            return False
        o = SDict(o.items())
        for k, v in self.items():
            e = o._find(k)
            if e is None or not eqv(e[1], v):
                return False
        return True

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __repr__(self):
        return "{" + ", ".join("%r: %r" % kv for kv in self.items()) + "}"

    @classmethod
    def fromkeys(cls, it, v=None):
        r = cls()
        for k in it:
            r[k] = v
        return r


def _mkdict(cls, items):
    d = cls()
    for k, v in items:
        d[k] = v
    return d


class KView(builtins.list):
    def __contains__(self, k):
        return any(eqv(k, x) for x in self)


class SDefaultDict(SDict):
    def __init__(self, f=None, *a, **k):
        self.default_factory = f
        SDict.__init__(self, *a, **k)

    def __missing__(self, k):
        if self.default_factory is None:
            raise KeyError(k)
        v = self.default_factory()
        self[k] = v
        return v

    def copy(self):
        return SDefaultDict(self.default_factory, self.items())

    __copy__ = copy


class SCounter(SDict):
    def __init__(self, it=None, **k):
        SDict.__init__(self)
        self.update(it, **k)

    def __missing__(self, k):
        return 0

    def update(self, it=None, **k):
        if it is not None:
            if builtins.isinstance(it, builtins.dict):
                for kk, v in it.items():
                    self[kk] = self[kk] + v
            else:
                for x in it:
                    self[x] = self[x] + 1
        for kk, v in k.items():
            self[kk] = self[kk] + v

    def elements(self):
        for k, v in self.items():
            for _ in builtins.range(v):
                yield k

    def most_common(self, n=None):
        r = builtins.sorted(self.items(), key=lambda kv: kv[1], reverse=True)
        return r if n is None else r[:n]

    def copy(self):
        return SCounter(self)


class _SetMeta(type):
    def __instancecheck__(cls, x):
        if cls is SSet:
            return type.__instancecheck__(cls, x) and not builtins.isinstance(x, SFrozenSet) or builtins.isinstance(x, builtins.set)
        if cls is SFrozenSet:
            return type.__instancecheck__(cls, x) or builtins.isinstance(x, builtins.frozenset)
        return type.__instancecheck__(cls, x)

    def __eq__(cls, o):
        return o is cls or (cls is SSet and o is builtins.set) or (cls is SFrozenSet and o is builtins.frozenset)

    def __hash__(cls):
        return type.__hash__(cls)


class SSet(metaclass=_SetMeta):
    """set of possibly symbolic values"""

    def __init__(self, it=()):
        self.d = SDict()
        for x in it:
            self.d[x] = True

    def _new(self, it):
        return builtins.type(self)(it)

    def __contains__(self, x):
        return x in self.d

    def __iter__(self):
        return builtins.iter(builtins.list(self.d.keys()))

    def __len__(self):
        return builtins.len(self.d)

    def __bool__(self):
        return builtins.len(self.d) > 0

    def add(self, x):
        if x not in self.d:
            self.d[x] = True

    def discard(self, x):
        self.d.pop(x, None)

    def remove(self, x):
        self.d.pop(x)

    def pop(self):
        return self.d.popitem()[0]

    def clear(self):
        self.d.clear()

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def copy(self):
        return self._new(self)

    __copy__ = copy

    def union(self, *its):
        r = self._new(self)
        for it in its:
            for x in it:
                if x not in r.d:
                    r.d[x] = True
        return r

    def difference(self, *its):
        os = [mkset(it) for it in its]
        return self._new([x for x in self if not any(x in o for o in os)])

    def intersection(self, *its):
        os = [mkset(it) for it in its]
        return self._new([x for x in self if all(x in o for o in os)])

    def symmetric_difference(self, o):
        o = mkset(o)
        return self._new([x for x in self if x not in o] + [x for x in o if x not in self])

    def difference_update(self, *its):
        self.d = self.difference(*its).d

    def intersection_update(self, *its):
        self.d = self.intersection(*its).d

    def issubset(self, o):
        o = mkset(o)
        return all(x in o for x in self)

    def issuperset(self, o):
        return all(x in self for x in o)

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    __or__ = lambda s, o: s.union(o)
    __ror__ = __or__
    __sub__ = lambda s, o: s.difference(o)
    __rsub__ = lambda s, o: mkset(o).difference(s)
    __and__ = lambda s, o: s.intersection(o)
    __rand__ = __and__
    __xor__ = lambda s, o: s.symmetric_difference(o)
    __le__ = lambda s, o: s.issubset(o)
    __ge__ = lambda s, o: s.issuperset(o)
    __lt__ = lambda s, o: builtins.len(s) < builtins.len(o) and s.issubset(o)
    __gt__ = lambda s, o: builtins.len(s) > builtins.len(o) and s.issuperset(o)

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __eq__(self, o):
        if not isinstance_any_set(o):
            return False
        o = mkset(o)
        return builtins.len(self) == builtins.len(o) and self.issubset(o)

    __hash__ = None

    def __repr__(self):
        return "{%s}" % ", ".join(builtins.repr(x) for x in self)


class SFrozenSet(SSet):
    def __hash__(self):
        return builtins.len(self)


def isinstance_any_set(o):
    return builtins.isinstance(o, (builtins.set, builtins.frozenset)) or SSet in builtins.type(o).__mro__


def mkset(o):
    if SSet in builtins.type(o).__mro__:
        return o
    return SSet(o)


def eqv(a, b):
    if a is b:
        return True
    r = a == b
    if r is NotImplemented:
        return False
    return builtins.bool(r)


def isinstance_sym(x):
    t = builtins.type(x)
    if t is SymNum or t is SymStr or t is SymBytes or t is SymBool or t is SymBV:
        return True
    if t is builtins.tuple:
        return any(isinstance_sym(y) for y in x)
    return False


# ------------------------------------------------------------- scalar types
def _scalar(name, real, symtest, conv):
    class M(type):
        def __instancecheck__(cls, x):
            return builtins.isinstance(x, real) or symtest(x)

        def __subclasscheck__(cls, c):
            return c is cls or (builtins.isinstance(c, type) and type.__subclasscheck__(real, c))

        def __call__(cls, *a, **k):
            return conv(*a, **k)

        def __eq__(cls, o):
            return o is cls or o is real

        def __ne__(cls, o):
            return not (o is cls or o is real)

        def __hash__(cls):
            return builtins.hash(real)

        def __getattr__(cls, n):
            f = getattr(real, n)
            if not callable(f):
                return f

            def call(*a, **k):
                if a and (symtest(a[0])):
                    return getattr(a[0], n)(*a[1:], **k)
                if a and builtins.type(a[0]) is real and any(isinstance_sym(y) or isinstance(y, builtins.list) for y in a[1:]):
                    return sx_attr(a[0], n)(*a[1:], **k)
                return f(*a, **k)
            return call

        def __repr__(cls):
            return builtins.repr(real)

        def mro(cls):
            return type.mro(cls)
    m = M(name, (), {"__module__": "symx.shadows", "__qualname__": name})
    return m


def _float(x=0.0):
    if builtins.isinstance(x, SymBool):
        return builtins.float(builtins.bool(x))
    if builtins.type(x) is SymNum:
        return SymNum(x.p, False)
    if builtins.type(x) is SymStr:
        return builtins.float(x.concretize())
    return builtins.float(x)


def _int(x=0, *a):
    if builtins.isinstance(x, SymBool):
        return builtins.int(builtins.bool(x))
    if builtins.type(x) is SymNum:
        return core.to_int(x)
    if builtins.type(x) is SymBV:
        return x
    if builtins.type(x) is SymStr:
        if not a and len(x.c) <= 9 and x.isascii() and x.isdigit():
            return strs.number(x)
        return builtins.int(x.concretize(), *a)
    return builtins.int(x, *a)


def _bool(x=False):
    return builtins.bool(x)


def _str(*a, **k):
    if a and builtins.type(a[0]) is SymStr:
        return a[0]
    if a and builtins.type(a[0]) is SymBytes and builtins.len(a) > 1:
        return a[0].decode(*a[1:], **k)
    return builtins.str(*a, **k)


def _bytes(*a, **k):
    if a and builtins.type(a[0]) is SymBytes:
        return a[0]
    if a and builtins.type(a[0]) is SymStr:
        return a[0].encode(*a[1:])
    return builtins.bytes(*a, **k)


def _bytearray(*a, **k):
    if a and builtins.type(a[0]) is SymBytes:
        return a[0]
    if a and builtins.type(a[0]) is SymStr:
        return a[0].encode(*a[1:])
    return builtins.bytearray(*a, **k)


float = _scalar("float", builtins.float, lambda x: builtins.type(x) is SymNum and not x.int, _float)
int = _scalar("int", builtins.int,
              lambda x: builtins.isinstance(x, SymBool) or (builtins.type(x) is SymNum and x.int) or builtins.type(x) is SymBV, _int)


def from_bytes(bs, byteorder="big", *, signed=False):
    bs = builtins.list(bs)
    if byteorder == "big":
        bs = bs[::-1]
    r = 0
    for i, b in builtins.enumerate(bs):
        r = r | (b << (8 * i) if i else b)
    if signed and bs and r >= 1 << (8 * builtins.len(bs) - 1):
        r = r - (1 << (8 * builtins.len(bs)))
    return r


def to_bytes(x, length=1, byteorder="big", *, signed=False):
    if builtins.type(x) is not SymBV:
        return builtins.int(x).to_bytes(length, byteorder, signed=signed)
    lo, hi = (-(1 << (8 * length - 1)), 1 << (8 * length - 1)) if signed else (0, 1 << (8 * length))
    if x < lo or x >= hi:
        raise OverflowError("int too big to convert")
    x = x & ((1 << (8 * length)) - 1)
    out = [(x >> (8 * i)) & 255 for i in builtins.range(length)]
    return strs.mkb(out[::-1] if byteorder == "big" else out)


builtins.type.__setattr__(int, "from_bytes", from_bytes)
builtins.type.__setattr__(int, "to_bytes", to_bytes)
SymBV.to_bytes = to_bytes
bool = _scalar("bool", builtins.bool, lambda x: builtins.isinstance(x, SymBool), _bool)
str = _scalar("str", builtins.str, lambda x: builtins.type(x) is SymStr, _str)
bytes = _scalar("bytes", builtins.bytes, lambda x: builtins.type(x) is SymBytes, _bytes)
bytearray = _scalar("bytearray", builtins.bytearray, lambda x: builtins.type(x) is SymBytes, _bytearray)

_TYPEMAP = {builtins.float: float, builtins.int: int, builtins.bool: bool, builtins.str: str,
            builtins.bytes: bytes, builtins.dict: SDict, builtins.set: SSet, builtins.frozenset: SFrozenSet}


def sx_type(x):
    t = builtins.type(x)
    if t is SymNum:
        return int if x.int else float
    if t is SymBool:
        return bool
    if t is SymStr:
        return str
    if t is SymBytes:
        return bytes
    if t is SymBV:
        return int
    return _TYPEMAP.get(t, t)


def sx_is(a, b):
    if builtins.isinstance(a, SymBool):
        return builtins.bool(a) is b
    return a is b


def sx_in(a, b):
    t = builtins.type(b)
    if t is SymStr or (t is builtins.str and builtins.type(a) is SymStr):
        return strs.S(b).contains(a)
    if t is SymBytes or (t is builtins.bytes and builtins.type(a) is SymBytes):
        return strs.contains_bytes(b, a)
    if t is builtins.range and isinstance_sym(a):
        return builtins.any(eqv(a, x) for x in b)
    if isinstance_sym(a) and t in (builtins.dict, builtins.set, builtins.frozenset, type({}.keys())):
        return builtins.any(eqv(a, x) for x in b)
    r = a in b
    return r


def sx_notin(a, b):
    return not sx_in(a, b)


def sx_dict(parts):
    d = SDict()
    for p in parts:
        if p[0]:
            d.update(p[1])
        else:
            d[p[1]] = p[2]
    return d


def sx_set(parts):
    return SSet(parts)


def sx_item(o, k):
    if builtins.type(o) is builtins.dict and isinstance_sym(k):
        for kk, v in o.items():
            if eqv(kk, k):
                return v
        raise KeyError(k)
    if builtins.type(k) is SymBV:
        k = k.enumerate()
    return o[k]


def sx_attr(o, name):
    t = builtins.type(o)
    if t is builtins.str:
        f = getattr(o, name)

        def call(*a, **k):
            if name == "join" and builtins.len(a) == 1:
                a = (builtins.list(a[0]),)
                if builtins.any(isinstance_sym(x) for x in a[0]):
                    return strs.S(o).join(a[0])
                return f(*a)
            if name == "format":
                return strs.format_(o, a, k)
            if builtins.any(isinstance_sym(x) for x in a):
                return getattr(strs.S(o), name)(*a, **k)
            return f(*a, **k)
        return call
    if t is builtins.bytes:
        f = getattr(o, name)

        def call(*a, **k):
            if name == "join" and builtins.len(a) == 1:
                a = (builtins.list(a[0]),)
                if builtins.any(isinstance_sym(x) for x in a[0]):
                    return strs.join_bytes(o, a[0])
            return f(*a, **k)
        return call
    if name == "fromkeys" and o is builtins.dict:
        return SDict.fromkeys
    return getattr(o, name)


def sx_mod(a, b):
    if builtins.type(a) in (builtins.str, SymStr):
        return strs.percent(a, b)
    return a % b


def sx_fstr(*parts):
    out = []
    for p in parts:
        if builtins.isinstance(p, builtins.tuple):
            v, conv, spec = p
            if builtins.type(v) is SymStr and conv == -1 and spec == "":
                out.append(v)
            elif isinstance_sym(v):
                out.append("<sym>")
            else:
                if conv == 114:
                    v = builtins.repr(v)
                elif conv == 115:
                    v = builtins.str(v)
                elif conv == 97:
                    v = builtins.ascii(v)
                out.append(builtins.format(v, spec if builtins.isinstance(spec, builtins.str) else ""))
        else:
            out.append(p)
    if builtins.any(isinstance_sym(x) for x in out):
        return strs.S("").join(out)
    return "".join(out)


def sx_enter(name):
    FUNCTIONS.add(name)


def s_ord(c):
    if builtins.type(c) is SymStr:
        return c.ord()
    return builtins.ord(c)


def s_chr(i):
    if builtins.type(i) is SymNum:
        i = i.__index__()
    if builtins.type(i) is SymBV:
        i = i.enumerate()
    return builtins.chr(i)


def s_repr(x):
    if isinstance_sym(x):
        return "<sym>"
    return builtins.repr(x)


def s_round(x, n=None):
    if builtins.type(x) is SymNum:
        return x.__round__(n)
    return builtins.round(x, n) if n is not None else builtins.round(x)


def s_divmod(a, b):
    return (a // b, a % b)


def s_pow(a, b, m=None):
    return builtins.pow(a, b) if m is None else builtins.pow(a, b, m)


def s_hash(x):
    if isinstance_sym(x):
        return builtins.hash(x)
    return builtins.hash(x)


# ------------------------------------------------------------------ modules
def _module(name, real, over):
    m = types.ModuleType(name)
    m.__dict__.update(real.__dict__)
    m.__dict__.update(over)
    return m


def _isnan(x):
    if builtins.isinstance(x, (SymBool,)) or builtins.type(x) in (SymNum, SymBV):
        return False
    if builtins.type(x) is SymStr:
        raise TypeError("must be real number, not str")
    return _math.isnan(x)


def _isinf(x):
    if builtins.type(x) is SymNum or builtins.isinstance(x, SymBool):
        return False
    return _math.isinf(x)


def _isfinite(x):
    if builtins.type(x) is SymNum or builtins.isinstance(x, SymBool):
        return True
    return _math.isfinite(x)


def _fsum(it):
    r = 0.0
    for x in it:
        r = r + x
    return r


def _hypot(*a):
    return core.sqrt_(_fsum(x * x for x in a))


def _prod(it, start=1):
    for x in it:
        start = start * x
    return start


def _sumprod(a, b):
    a, b = builtins.list(a), builtins.list(b)
    if builtins.len(a) != builtins.len(b):
        raise ValueError("Inputs are not the same length")
    return builtins.sum(x * y for x, y in builtins.zip(a, b))


def _mpow(a, b):
    if isinstance_sym(a) or isinstance_sym(b):
        return _float(a) ** b
    return _math.pow(a, b)


def _copysign(a, b):
    if isinstance_sym(a) or isinstance_sym(b):
        m = builtins.abs(a)
        return m if b >= 0 else -m
    return _math.copysign(a, b)


def _isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
    if isinstance_sym(a) or isinstance_sym(b):
        d = builtins.abs(a - b)
        return builtins.bool(d <= abs_tol) or builtins.bool(d <= rel_tol * builtins.max(builtins.abs(a), builtins.abs(b)))
    return _math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)


def _fmod(a, b):
    if isinstance_sym(a) or isinstance_sym(b):
        return core.CTX.concretize(a) % core.CTX.concretize(b)
    return _math.fmod(a, b)


def _trunc(x):
    return core.to_int(x) if builtins.type(x) is SymNum else _math.trunc(x)


def _floor(x):
    return core.floor_(x) if builtins.type(x) is SymNum else _math.floor(x)


def _ceil(x):
    return -core.floor_(-x) if builtins.type(x) is SymNum else _math.ceil(x)


def _dist(p, q):
    return core.sqrt_(builtins.sum((a - b) ** 2 for a, b in builtins.zip(p, q)))


def _log2(x):
    return core.log_(x) / _math.log(2) if isinstance_sym(x) else _math.log2(x)


def _log10(x):
    return core.log_(x) / _math.log(10) if isinstance_sym(x) else _math.log10(x)


def _fabs(x):
    return _float(builtins.abs(x))


def _tanh(x):
    if isinstance_sym(x):
        e = core.exp_(2 * x)
        return (e - 1) / (e + 1)
    return _math.tanh(x)


MATH = dict(exp=core.exp_, log=core.log_, sqrt=core.sqrt_, isnan=_isnan, isinf=_isinf, isfinite=_isfinite,
            fsum=_fsum, hypot=_hypot, prod=_prod, sumprod=_sumprod, pow=_mpow, copysign=_copysign, isclose=_isclose,
            fmod=_fmod, trunc=_trunc, floor=_floor, ceil=_ceil, dist=_dist, log1p=core.log1p_, expm1=core.expm1_,
            log2=_log2, log10=_log10, fabs=_fabs, tanh=_tanh)


class S32Array(builtins.list):
    """array('f', ...): elements rounded to single precision"""
    typecode = "f"
    itemsize = 4

    def tolist(self):
        return builtins.list(self)

    def append(self, x):
        builtins.list.append(self, core.round32_(x))

    def __setitem__(self, i, x):
        builtins.list.__setitem__(self, i, core.round32_(x))

    def __getitem__(self, i):
        r = builtins.list.__getitem__(self, i)
        return S32Array._raw(r) if builtins.isinstance(i, slice) else r

    @classmethod
    def _raw(cls, it):
        a = cls()
        builtins.list.extend(a, it)
        return a


def _array(code, it=()):
    import array as _a
    if code == "f":
        r = S32Array()
        for x in it:
            if x is None or builtins.isinstance(x, (builtins.str, SymStr)):
                raise TypeError("must be real number, not %s" % builtins.type(x).__name__)
            builtins.list.append(r, core.round32_(x))
        return r
    it = builtins.list(it)
    if builtins.any(isinstance_sym(x) for x in it):
        return it
    return _a.array(code, it)


def _pack(fmt, *vals):
    if builtins.any(builtins.type(v) is SymBV for v in vals):
        codes = fmt.lstrip("<>=!@")
        if builtins.len(codes) == builtins.len(vals) and builtins.all(c in _SIZES for c in codes):
            order = "big" if fmt[:1] in (">", "!") else "little"
            out = []
            for c, v in builtins.zip(codes, vals):
                out.extend(to_bytes(v, _SIZES[c][0], order, signed=_SIZES[c][1]))
            return strs.mkb(out)
    if builtins.any(isinstance_sym(v) for v in vals):
        return PackedF(fmt, [core.round32_(v) if fmt.strip("<>=@!0123456789") .strip("f") == "" else v for v in vals])
    return _struct.pack(fmt, *vals)


class _CInt:
    """ctypes integer of a fixed width: wraps"""
    bits, signed = 32, True

    def __init__(self, v=0):
        v = v & ((1 << self.bits) - 1)
        if self.signed and v >= 1 << (self.bits - 1):
            v = v - (1 << self.bits)
        self.value = v


def _cint(b, s):
    return builtins.type("c_int", (_CInt,), dict(bits=b, signed=s))


class PackedF:
    def __init__(self, fmt, vals):
        self.fmt, self.vals = fmt, vals


def _unpack(fmt, b):
    if builtins.isinstance(b, PackedF):
        return builtins.tuple(b.vals)
    if builtins.type(b) is SymBytes:
        if _struct.calcsize(fmt) != builtins.len(b):
            raise _struct.error("unpack requires a buffer of %d bytes" % _struct.calcsize(fmt))
        return _fields(fmt, b)
    return _struct.unpack(fmt, b)


_SIZES = {"b": (1, True), "B": (1, False), "h": (2, True), "H": (2, False), "i": (4, True), "I": (4, False), "l": (4, True),
          "L": (4, False), "q": (8, True), "Q": (8, False)}


def _fields(fmt, b):
    order = "big" if fmt[:1] in (">", "!") else "little"
    if fmt[:1] in ("@", "") or fmt[:1].isalnum():
        if not builtins.set(fmt.strip("@")) <= builtins.set("0123456789bBhHiIqQ"):
            return _struct.unpack(fmt, b.concretize())
    out, i, n = [], 0, ""
    for c in fmt.lstrip("<>=!@"):
        if c.isdigit():
            n += c
            continue
        times = builtins.int(n) if n else 1
        n = ""
        if c not in _SIZES and c != "x":
            return _struct.unpack(fmt, b.concretize())
        for _ in builtins.range(times):
            if c == "x":
                i += 1
                continue
            k, signed = _SIZES[c]
            out.append(from_bytes(b[i:i + k], order, signed=signed))
            i += k
    return builtins.tuple(out)


def _unpack_from(fmt, b, offset=0):
    if builtins.type(b) is SymBytes:
        return _unpack(fmt, b[offset:offset + _struct.calcsize(fmt)])
    return _struct.unpack_from(fmt, b, offset)


def _iter_unpack(fmt, b):
    if builtins.type(b) is SymBytes:
        k = _struct.calcsize(fmt)
        return builtins.iter([_unpack(fmt, b[i:i + k]) for i in builtins.range(0, builtins.len(b), k)])
    return _struct.iter_unpack(fmt, b)


class _StructObj:
    def __init__(self, fmt):
        self.format = fmt
        self.size = _struct.calcsize(fmt)

    def pack(self, *v):
        return _pack(self.format, *v)

    def unpack(self, b):
        return _unpack(self.format, b)

    def unpack_from(self, b, offset=0):
        return _unpack_from(self.format, b, offset)

    def iter_unpack(self, b):
        return _iter_unpack(self.format, b)


class _CFloat:
    def __init__(self, v=0.0):
        self.value = core.round32_(v)


def _fmean(it):
    it = builtins.list(it)
    return builtins.sum(it) / builtins.len(it)


def _versions():
    """version strings with symbolic characters, taken apart as LooseVersion does"""
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        from distutils import version

    def kind(c):
        return "digit" if "0" <= c <= "9" else "letter" if "a" <= c <= "z" else "dot" if c == "." else "other"

    class LooseVersion(version.LooseVersion):
        def parse(self, vstring):
            if builtins.type(vstring) is not SymStr:
                return version.LooseVersion.parse(self, vstring)
            self.vstring = vstring
            parts = []
            for c in vstring.c:
                k = c.fork(kind) if builtins.isinstance(c, strs.SChar) else kind(c)
                if k == "dot" or not parts or parts[-1][0] != k:
                    parts.append((k, []))
                parts[-1][1].append(c)
            self.version = [_int(strs.mks(p)) if k == "digit" else strs.mks(p) for k, p in parts if k != "dot"]

        def __init__(self, vstring=None):
            if vstring:
                self.parse(vstring)

    return _module("distutils.version", version, dict(LooseVersion=LooseVersion))


_SHADOWS = {}


def shadow_module(name):
    m = _SHADOWS.get(name)
    if m is not None:
        return m
    if name == "math":
        m = _module(name, _math, MATH)
    elif name == "collections":
        m = _module(name, collections, dict(defaultdict=SDefaultDict, Counter=SCounter, OrderedDict=SDict))
    elif name == "array":
        import array
        m = _module(name, array, dict(array=_array))
    elif name == "struct":
        m = _module(name, _struct, dict(pack=_pack, unpack=_unpack, unpack_from=_unpack_from, iter_unpack=_iter_unpack, Struct=_StructObj))
    elif name == "ctypes":
        import ctypes
        m = _module(name, ctypes, dict(c_float=_CFloat, c_int32=_cint(32, True), c_uint32=_cint(32, False), c_int=_cint(32, True),
                                       c_uint=_cint(32, False), c_int64=_cint(64, True), c_uint64=_cint(64, False)))
    elif name == "statistics":
        import statistics
        m = _module(name, statistics, dict(mean=_fmean, fmean=_fmean))
    elif name == "re":
        m = strs.re_module()
    elif name == "distutils.version":
        m = _versions()
    elif name == "unicodedata":
        import unicodedata
        m = _module(name, unicodedata, dict(normalize=strs.ud_normalize, combining=strs.ud_combining,
                                            category=strs.ud_category))
    elif name == "operator":
        import operator
        m = _module(name, operator, dict(contains=lambda a, b: sx_in(b, a), mod=sx_mod,
                                         getitem=sx_item, truth=_bool))
    elif name == "json":
        import json
        m = json
    else:
        return None
    _SHADOWS[name] = m
    return m


def s_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        m = shadow_module(name)
        if m is not None:
            return m
    return builtins.__import__(name, globals, locals, fromlist, level)


BUILTINS = dict(builtins.__dict__)
BUILTINS.update(
    float=float, int=int, bool=bool, str=str, bytes=bytes, bytearray=bytearray,
    dict=SDict, set=SSet, frozenset=SFrozenSet, ord=s_ord, chr=s_chr, repr=s_repr,
    round=s_round, divmod=s_divmod, __import__=s_import,
    __sx_in__=sx_in, __sx_notin__=sx_notin, __sx_is__=sx_is, __sx_dict__=sx_dict, __sx_set__=sx_set,
    __sx_fstr__=sx_fstr, __sx_mod__=sx_mod, __sx_attr__=sx_attr, __sx_type__=sx_type, __sx_item__=sx_item,
    __sx_enter__=sx_enter,
)
