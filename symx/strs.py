"""Symbolic text: strings of concrete length whose characters are symbolic over
a finite alphabet, byte strings, and exact bounded integers over bytes."""
import builtins
import operator
import re as _re
import unicodedata as _ud

import z3

from . import core
from .core import SymBool, SymNum, fsym

try:
    from re import _parser as sre_parse, _constants as sre_c
except ImportError:                       # pragma: no cover
    import sre_parse
    import sre_constants as sre_c


# ------------------------------------------------------------------ characters
class CVar:
    """one symbolic character: a z3 integer index into an alphabet"""

    def __init__(self, name, alphabet):
        self.name = name
        self.alphabet = list(alphabet)
        self.z = z3.Int("c!" + name)

    def dom(self):
        d = core.CTX.chardom.get(self.name)
        if d is None:
            d = core.CTX.chardom[self.name] = frozenset(range(len(self.alphabet)))
            core.CTX.solver.add(z3.And(self.z >= 0, self.z < len(self.alphabet)))
        return d

    def member(self, idxs):
        """formula: index in idxs"""
        return z3.Or([self.z == i for i in sorted(idxs)]) if idxs else z3.BoolVal(False)

    def narrow(self, idxs):
        core.CTX.chardom[self.name] = frozenset(idxs)


class SChar:
    """image of a character variable under a table index -> character"""
    __slots__ = ("v", "tab")

    def __init__(self, v, tab):
        self.v = v
        self.tab = tab

    def values(self):
        return {self.tab[i] for i in self.v.dom()}

    def settle(self):
        """concrete char if determined on this path"""
        vs = self.values()
        return next(iter(vs)) if len(vs) == 1 else None

    def fork(self, key):
        """fork on key(char); returns the key value of the branch taken"""
        groups = {}
        for i in sorted(self.v.dom()):
            groups.setdefault(key(self.tab[i]), []).append(i)
        ks = list(groups)
        for n, k in enumerate(ks):
            if n == len(ks) - 1:
                self.v.narrow(groups[k])
                return k
            b = fsym(self.v.member(groups[k]))
            if b is True or (b is not False and bool(b)):
                self.v.narrow(groups[k])
                return k
            self.v.narrow([i for kk in ks[n + 1:] for i in groups[kk]])
        raise core.PathEnd()

    def map(self, f):
        return SChar(self.v, {i: f(c) for i, c in self.tab.items()})

    def value(self, model):
        i = model.eval(self.v.z, model_completion=True).as_long()
        return self.tab.get(i, self.tab[min(self.tab)])


def number(s):
    """the integer a string of decimal digits stands for"""
    from . import poly as P
    n = 0
    for c in s.c:
        if isinstance(c, SChar) and c.settle() is not None:
            c = c.settle()
        if isinstance(c, SChar):
            name = "digit %s %s" % (c.v.name, "".join(str(c.tab[i]) for i in sorted(c.tab)))
            a = P.atom("v", name, None, name)
            a.is_int = a.nonneg = True
            a.lo, a.hi = 0, 9
            core.CTX._declare(name, a)
            z = core.CTX.zvar(a)
            core.CTX.lemma(z3.And([z3.Implies(c.v.z == i, z == int(c.tab[i])) for i in c.v.dom()]))
            d = core.mk(P.var(a), True)
        else:
            d = int(c)
        n = n * 10 + d
    return n


def eqf(a, b):
    """formula for equality of two characters (str or SChar)"""
    if isinstance(a, SChar) and isinstance(b, SChar):
        if a.v is b.v:
            s = [i for i in a.v.dom() if a.tab[i] == b.tab[i]]
            if len(s) == len(a.v.dom()):
                return True
            return a.v.member(s) if s else False
        pairs = []
        for ca in sorted(a.values() & b.values()):
            ia = [i for i in a.v.dom() if a.tab[i] == ca]
            ib = [i for i in b.v.dom() if b.tab[i] == ca]
            pairs.append(z3.And(a.v.member(ia), b.v.member(ib)))
        if not pairs:
            return False
        return z3.Or(pairs)
    if isinstance(b, SChar):
        a, b = b, a
    if isinstance(a, SChar):
        s = [i for i in a.v.dom() if a.tab[i] == b]
        if not s:
            return False
        if len(s) == len(a.v.dom()):
            return True
        return a.v.member(s)
    return a == b


def conj(fs):
    out = []
    for f in fs:
        if f is False:
            return False
        if f is not True:
            out.append(f)
    if not out:
        return True
    return SymBool(f=z3.And(out) if len(out) > 1 else out[0])


def disj(fs):
    out = []
    for f in fs:
        if f is True:
            return True
        if f is not False:
            out.append(f)
    if not out:
        return False
    return SymBool(f=z3.Or(out) if len(out) > 1 else out[0])


def raw(b):
    return b.f if isinstance(b, SymBool) else b


def issym(x):
    return type(x) in (SymStr, SymBytes, SymBV)


def mks(chars):
    """str when every character is determined, else SymStr"""
    out = []
    sym = False
    for c in chars:
        if isinstance(c, SChar):
            s = c.settle()
            if s is not None:
                c = s
            else:
                sym = True
        out.append(c)
    if not sym:
        return "".join(out)
    return SymStr(out)


def S(x):
    """SymStr view of any string"""
    return x if type(x) is SymStr else SymStr(list(x))


class SymStr:
    __slots__ = ("c",)

    def __init__(self, chars):
        self.c = list(chars)

    def __len__(self):
        return len(self.c)

    def __bool__(self):
        return len(self.c) > 0

    def __iter__(self):
        return iter([mks([c]) for c in self.c])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mks(self.c[i])
        if type(i) is SymNum:
            i = i.__index__()
        return mks([self.c[i]])

    def __add__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return mks(self.c + S(o).c)

    def __radd__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return mks(S(o).c + self.c)

    def __mul__(self, n):
        return mks(self.c * int(n))

    __rmul__ = __mul__

    def __mod__(self, o):
        return percent(self, o)

    def eqf(self, o):
        if not isinstance(o, (str, SymStr)):
            return False
        if len(o) != len(self.c):
            return False
        oc = o.c if type(o) is SymStr else list(o)
        return conj([eqf(a, b) for a, b in zip(self.c, oc)])

    def __eq__(self, o):
        return self.eqf(o)

    def __ne__(self, o):
        r = self.eqf(o)
        return (not r) if isinstance(r, bool) else r.negate()

    def _lt(self, o, strict):
        oc = S(o).c
        for a, b in zip(self.c, oc):
            e = eqf(a, b)
            if e is True:
                continue
            if e is not False and bool(fsym(e)):
                continue
            ka = a.fork(lambda x: x) if isinstance(a, SChar) else a
            kb = b.fork(lambda x: x) if isinstance(b, SChar) else b
            return ka < kb
        return len(self.c) < len(oc) if strict else len(self.c) <= len(oc)

    def __lt__(self, o):
        return self._lt(o, True)

    def __le__(self, o):
        return self._lt(o, False)

    def __gt__(self, o):
        return not self._lt(o, False)

    def __ge__(self, o):
        return not self._lt(o, True)

    def __hash__(self):
        return hash(self.concretize())

    def __contains__(self, o):
        return bool(self.contains(o))

    def contains(self, o):
        oc = S(o).c
        n = len(oc)
        r = disj([raw(conj([eqf(a, b) for a, b in zip(self.c[i:i + n], oc)])) for i in range(len(self.c) - n + 1)])
        return bool(r)

    def concretize(self, why="str"):
        core.CTX.stats.concretized[why] = core.CTX.stats.concretized.get(why, 0) + 1
        return "".join(c.fork(lambda x: x) if isinstance(c, SChar) else c for c in self.c)

    def ord(self):
        if len(self.c) != 1:
            raise TypeError("ord() expected a character")
        return SymCode(self.c[0])

    def __repr__(self):
        return "<symstr%d>" % len(self.c)

    __str__ = __repr__

    def __format__(self, spec):
        return "<symstr>"

    def __copy__(self):
        return self

    def __deepcopy__(self, m):
        return self

    def __reduce__(self):
        return (core.restore, (core.CTX.stash(self),))

    # -- predicates
    def _pred(self, name):
        if not self.c:
            return False
        for c in self.c:
            k = c.fork(lambda x: getattr(x, name)()) if isinstance(c, SChar) else getattr(c, name)()
            if not k:
                return False
        return True

    def isspace(self):
        return self._pred("isspace")

    def isalnum(self):
        return self._pred("isalnum")

    def isalpha(self):
        return self._pred("isalpha")

    def isdigit(self):
        return self._pred("isdigit")

    def isascii(self):
        for c in self.c:
            k = c.fork(lambda x: x.isascii()) if isinstance(c, SChar) else c.isascii()
            if not k:
                return False
        return True

    # -- mappings
    def multi(self, f):
        """apply char -> str map"""
        out = []
        for c in self.c:
            if isinstance(c, SChar):
                n = c.fork(lambda x: len(f(x)))
                for j in range(n):
                    out.append(SChar(c.v, {i: f(c.tab[i])[j] if i in c.v.dom() else "\0" for i in c.tab}))
            else:
                out.extend(f(c))
        return mks(out)

    def lower(self):
        return self.multi(lambda x: x.lower())

    def upper(self):
        return self.multi(lambda x: x.upper())

    def casefold(self):
        return self.multi(lambda x: x.casefold())

    def translate(self, tab):
        return self.multi(lambda x: x.translate(tab))

    # -- searching
    def _at(self, i, o):
        oc = S(o).c
        if i + len(oc) > len(self.c):
            return False
        r = conj([eqf(a, b) for a, b in zip(self.c[i:i + len(oc)], oc)])
        return bool(r)

    def find(self, o, start=0, end=None):
        n = len(self.c) if end is None else min(end, len(self.c))
        for i in range(start, n - len(o) + 1):
            if self._at(i, o):
                return i
        return -1

    def rfind(self, o):
        for i in range(len(self.c) - len(o), -1, -1):
            if self._at(i, o):
                return i
        return -1

    def index(self, o, *a):
        r = self.find(o, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, o):
        n = i = 0
        while i + len(o) <= len(self.c):
            if self._at(i, o):
                n += 1
                i += max(1, len(o))
            else:
                i += 1
        return n

    def startswith(self, o, *a):
        if isinstance(o, tuple):
            return any(self.startswith(x) for x in o)
        return self._at(a[0] if a else 0, o)

    def endswith(self, o):
        if isinstance(o, tuple):
            return any(self.endswith(x) for x in o)
        return len(o) <= len(self.c) and self._at(len(self.c) - len(o), o)

    def replace(self, a, b, n=-1):
        out = []
        i = 0
        while i < len(self.c):
            if n != 0 and len(a) and self._at(i, a):
                out.extend(S(b).c)
                i += len(a)
                n -= 1
            else:
                out.append(self.c[i])
                i += 1
        return mks(out)

    def _sp(self, i, chars=None):
        c = self.c[i]
        f = (lambda x: x.isspace()) if chars is None else (lambda x: x in chars)
        return c.fork(f) if isinstance(c, SChar) else f(c)

    def lstrip(self, chars=None):
        i = 0
        while i < len(self.c) and self._sp(i, chars):
            i += 1
        return mks(self.c[i:])

    def rstrip(self, chars=None):
        j = len(self.c)
        while j > 0 and self._sp(j - 1, chars):
            j -= 1
        return mks(self.c[:j])

    def strip(self, chars=None):
        i, j = 0, len(self.c)
        while i < j and self._sp(i, chars):
            i += 1
        while j > i and self._sp(j - 1, chars):
            j -= 1
        return mks(self.c[i:j])

    def split(self, sep=None, maxsplit=-1):
        out = []
        if sep is None:
            cur = []
            for i in range(len(self.c)):
                if maxsplit >= 0 and len(out) >= maxsplit:
                    if not cur and self._sp(i):
                        continue
                    rest = mks(cur + self.c[i:])
                    out.append(rest.rstrip() if maxsplit >= 0 else rest)
                    return out
                if self._sp(i):
                    if cur:
                        out.append(mks(cur))
                    cur = []
                else:
                    cur.append(self.c[i])
            if cur:
                out.append(mks(cur))
            return out
        i = j = 0
        while j + len(sep) <= len(self.c):
            if (maxsplit < 0 or len(out) < maxsplit) and self._at(j, sep):
                out.append(mks(self.c[i:j]))
                j += len(sep)
                i = j
            else:
                j += 1
        out.append(mks(self.c[i:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit == -1:
            return self.split(sep)
        if sep is None:
            return self.concretize().rsplit(sep, maxsplit)
        r = self.split(sep)
        if len(r) > maxsplit + 1:
            k = len(r) - maxsplit
            r = [S(sep).join(r[:k])] + r[k:]
        return r

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (mks(self.c), "", "")
        return (mks(self.c[:i]), sep, mks(self.c[i + len(sep):]))

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ("", "", mks(self.c))
        return (mks(self.c[:i]), sep, mks(self.c[i + len(sep):]))

    def splitlines(self, keepends=False):
        return self.concretize().splitlines(keepends)

    def removeprefix(self, p):
        return mks(self.c[len(p):]) if self.startswith(p) else mks(self.c)

    def removesuffix(self, p):
        return mks(self.c[:len(self.c) - len(p)]) if p and self.endswith(p) else mks(self.c)

    def join(self, it):
        out = []
        for n, x in enumerate(it):
            if not isinstance(x, (str, SymStr)):
                raise TypeError("sequence item %d: expected str instance, %s found" % (n, type(x).__name__))
            if n:
                out.extend(self.c)
            out.extend(S(x).c)
        return mks(out)

    def format(self, *a, **k):
        return self.concretize().format(*a, **k)

    def encode(self, encoding="utf-8", errors="strict"):
        enc = encoding.lower().replace("_", "-")
        out = []
        kept, whole = [], True

        def back(x):
            try:
                return x.encode(enc, errors).decode(enc) == x
            except UnicodeError:
                return False
        for c in self.c:
            if isinstance(c, SChar):
                def tryenc(x):
                    try:
                        return len(x.encode(enc, errors))
                    except UnicodeEncodeError:
                        return -1
                n = c.fork(tryenc)
                if n < 0:
                    x = next(iter(c.values()))
                    x.encode(enc, errors)      # raises
                if n:
                    kept.append(c)
                    whole = whole and all(back(x) for x in c.values())
                for j in range(n):
                    out.append(SymBV.table(c, lambda x, j=j: x.encode(enc, errors)[j]))
            else:
                e = c.encode(enc, errors)
                out.extend(e)
                if e:
                    kept.append(c)
                    whole = whole and back(c)
        return mkb(out, (mks(kept), enc) if whole else None)


class SymCode:
    """ord() of a symbolic character"""

    def __init__(self, ch):
        self.ch = ch

    def _cmp(self, f):
        if isinstance(self.ch, str):
            return f(ord(self.ch))
        return self.ch.fork(lambda x: f(ord(x)))

    def __lt__(self, o):
        return self._cmp(lambda v: v < o)

    def __le__(self, o):
        return self._cmp(lambda v: v <= o)

    def __gt__(self, o):
        return self._cmp(lambda v: v > o)

    def __ge__(self, o):
        return self._cmp(lambda v: v >= o)

    def __eq__(self, o):
        return self._cmp(lambda v: v == o)

    def __ne__(self, o):
        return self._cmp(lambda v: v != o)

    def __hash__(self):
        return hash(self.__index__())

    def __index__(self):
        return self._cmp(lambda v: v)

    __int__ = __index__

    def __sub__(self, o):
        return self.__index__() - o

    def __add__(self, o):
        return self.__index__() + o


# ------------------------------------------------------------------ formatting
def _piece(v):
    if type(v) is SymStr:
        return v
    if type(v) in (SymNum, SymBytes, SymBV) or isinstance(v, SymBool):
        return "<sym>"
    return str(v)


def percent(fmt, args):
    if type(fmt) is SymStr:
        fmt = fmt.concretize()
    if isinstance(args, dict):
        return "<formatted>"
    if not isinstance(args, tuple):
        args = (args,)
    if not any(type(a) in (SymStr, SymNum, SymBytes, SymBV) or isinstance(a, SymBool) for a in args):
        try:
            return fmt % args
        except TypeError:
            if any(_deep(a) for a in args):
                return "<formatted>"
            raise
    parts = _re.split(r"(%[-#0 +]*\d*(?:\.\d+)?[sdrifgeGEx%])", fmt)
    out = []
    i = 0
    for p in parts:
        if p == "%%":
            out.append("%")
        elif p.startswith("%") and len(p) > 1:
            if i >= len(args):
                raise TypeError("not enough arguments for format string")
            v = args[i]
            i += 1
            if type(v) in (SymStr, SymNum, SymBytes, SymBV) or isinstance(v, SymBool):
                if p == "%s":
                    out.append(_piece(v))
                else:
                    out.append("<sym>")
            else:
                out.append(p % (v,))
        else:
            out.append(p)
    if i != len(args):
        raise TypeError("not all arguments converted during string formatting")
    return S("").join(out)


def _deep(a):
    if isinstance(a, (list, tuple)):
        return any(_deep(x) for x in a)
    return type(a) in (SymStr, SymNum, SymBytes, SymBV) or isinstance(a, SymBool)


def format_(fmt, a, k):
    if not any(type(x) is SymStr for x in list(a) + list(k.values())):
        return fmt.format(*a, **k)
    if any(type(x) is SymStr for x in k.values()):
        toks = {n: "\x01%s\x02" % n for n in k if type(k[n]) is SymStr}
    else:
        toks = {}
    aa = ["\x01%d\x02" % i if type(x) is SymStr else x for i, x in enumerate(a)]
    kk = {n: toks.get(n, v) for n, v in k.items()}
    try:
        s = fmt.format(*aa, **kk)
    except (ValueError, TypeError):
        return "<formatted>"
    out = []
    for p in _re.split("(\x01[^\x02]*\x02)", s):
        if p.startswith("\x01"):
            n = p[1:-1]
            out.append(k[n] if n in k else a[int(n)])
        else:
            out.append(p)
    return S("").join(out)


# ------------------------------------------------------------------ regexes
def _tests(p, out, flags):
    for op, av in p:
        name = str(op)
        if op in (sre_c.LITERAL, sre_c.NOT_LITERAL):
            out.append(("lit", chr(av)))
        elif op is sre_c.IN:
            out.append(("in", av))
        elif op is sre_c.ANY:
            out.append(("lit", "\n"))
        elif op is sre_c.AT:
            out.append(("word", None))
            out.append(("lit", "\n"))
        elif op in (sre_c.MAX_REPEAT, sre_c.MIN_REPEAT) or name == "POSSESSIVE_REPEAT":
            _tests(av[2], out, flags)
        elif op is sre_c.SUBPATTERN:
            _tests(av[3], out, flags)
        elif op is sre_c.BRANCH:
            for b in av[1]:
                _tests(b, out, flags)
        elif op in (sre_c.ASSERT, sre_c.ASSERT_NOT):
            _tests(av[1], out, flags)
        elif name == "ATOMIC_GROUP":
            _tests(av, out, flags)
        elif op is sre_c.CATEGORY:
            out.append(("in", [(op, av)]))
        else:
            raise core.EngineError("regex " + name)


class SPattern:
    def __init__(self, real):
        self.real = real
        self.pattern = real.pattern
        self.flags = real.flags
        self.groups = real.groups
        self.groupindex = real.groupindex
        self._cls = {}
        self._t = None

    def __reduce__(self):
        return (_repat, (self.pattern, self.flags))

    def __deepcopy__(self, m):
        return self

    def key(self, ch):
        r = self._cls.get(ch)
        if r is None:
            if self._t is None:
                t = []
                try:
                    _tests(sre_parse.parse(self.pattern, self.flags & ~_re.UNICODE if isinstance(self.pattern, str) else self.flags), t, self.flags)
                    self._t = t
                except core.EngineError:
                    self._t = [("self", None)]
            if self.flags & _re.IGNORECASE:
                r = ch
            else:
                r = tuple(_test(t, ch, self.flags) for t in self._t)
            self._cls[ch] = r
        return r

    def rep(self, s):
        """representative concrete string after forking on character classes"""
        out = []
        for c in S(s).c:
            if isinstance(c, SChar):
                k = c.fork(self.key)
                out.append(sorted(x for x in c.values())[0])
            else:
                out.append(c)
        return "".join(out)

    def _sl(self, s, a, b):
        return mks(S(s).c[a:b])

    def findall(self, s, *a):
        if type(s) is not SymStr:
            return self.real.findall(s, *a)
        out = []
        for m in self.real.finditer(self.rep(s)):
            if self.groups == 0:
                out.append(self._sl(s, *m.span()))
            elif self.groups == 1:
                out.append(self._sl(s, *m.span(1)) if m.span(1)[0] >= 0 else "")
            else:
                out.append(tuple(self._sl(s, *m.span(g + 1)) if m.span(g + 1)[0] >= 0 else "" for g in range(self.groups)))
        return out

    def finditer(self, s, *a):
        if type(s) is not SymStr:
            return self.real.finditer(s, *a)
        return iter([SMatch(m, s) for m in self.real.finditer(self.rep(s))])

    def _m(self, meth, s, a):
        if type(s) is not SymStr:
            return getattr(self.real, meth)(s, *a)
        m = getattr(self.real, meth)(self.rep(s), *a)
        return None if m is None else SMatch(m, s)

    def match(self, s, *a):
        return self._m("match", s, a)

    def search(self, s, *a):
        return self._m("search", s, a)

    def fullmatch(self, s, *a):
        return self._m("fullmatch", s, a)

    def sub(self, repl, s, count=0):
        if type(s) is not SymStr:
            if type(repl) is SymStr:
                s = S(s)
            else:
                return self.real.sub(repl, s, count)
        out = []
        pos = 0
        n = 0
        for m in self.real.finditer(self.rep(s)):
            if count and n >= count:
                break
            a, b = m.span()
            out.extend(S(s).c[pos:a])
            if callable(repl):
                out.extend(S(repl(SMatch(m, s))).c)
            elif isinstance(repl, str) and "\\" in repl:
                tail = _re.split(r"\\(\d)", repl)
                for i, t in enumerate(tail):
                    out.extend(S(self._sl(s, *m.span(int(t)))).c if i % 2 else list(t))
            else:
                out.extend(S(repl).c)
            pos = b
            n += 1
        out.extend(S(s).c[pos:])
        return mks(out)

    def split(self, s, maxsplit=0):
        if type(s) is not SymStr:
            return self.real.split(s, maxsplit)
        out = []
        pos = 0
        for m in self.real.finditer(self.rep(s)):
            if maxsplit and len(out) >= maxsplit:
                break
            a, b = m.span()
            out.append(self._sl(s, pos, a))
            for g in range(self.groups):
                out.append(self._sl(s, *m.span(g + 1)) if m.span(g + 1)[0] >= 0 else None)
            pos = b
        out.append(self._sl(s, pos, len(s)))
        return out


def _repat(p, f):
    return SPattern(_re.compile(p, f))


def _test(t, ch, flags):
    k, av = t
    if k == "lit":
        return ch == av
    if k == "word":
        return bool(_re.match(r"\w", ch, _re.ASCII if flags & _re.ASCII else 0))
    if k == "self":
        return ch
    neg = False
    hit = False
    for op, a in av:
        if op is sre_c.NEGATE:
            neg = True
        elif op is sre_c.LITERAL:
            hit |= ch == chr(a)
        elif op is sre_c.RANGE:
            hit |= a[0] <= ord(ch) <= a[1]
        elif op is sre_c.CATEGORY:
            pat = {"CATEGORY_DIGIT": r"\d", "CATEGORY_NOT_DIGIT": r"\D", "CATEGORY_SPACE": r"\s",
                   "CATEGORY_NOT_SPACE": r"\S", "CATEGORY_WORD": r"\w", "CATEGORY_NOT_WORD": r"\W"}[str(a)]
            hit |= bool(_re.match(pat, ch, flags & _re.ASCII))
    return hit != neg


class SMatch:
    def __init__(self, m, s):
        self.m = m
        self.s = s
        self.string = s
        self.lastindex = m.lastindex

    def span(self, g=0):
        return self.m.span(g)

    def start(self, g=0):
        return self.m.start(g)

    def end(self, g=0):
        return self.m.end(g)

    def group(self, *g):
        if not g:
            g = (0,)
        r = tuple(mks(S(self.s).c[slice(*self.m.span(x))]) if self.m.span(x)[0] >= 0 else None for x in g)
        return r[0] if len(r) == 1 else r

    __getitem__ = group

    def groups(self, d=None):
        return tuple(self.group(i + 1) for i in range(self.m.re.groups))

    def __bool__(self):
        return True


def re_module():
    import types
    m = types.ModuleType("re")
    m.__dict__.update(_re.__dict__)

    def comp(p, flags=0):
        if isinstance(p, SPattern):
            return p
        if type(p) is SymStr:
            p = p.concretize()
        return SPattern(_re.compile(p, flags))
    m.compile = comp
    for n in ("findall", "finditer", "match", "search", "fullmatch", "split"):
        def f(p, s, *a, flags=0, _n=n, **k):
            return getattr(comp(p, flags), _n)(s, *a, **k)
        setattr(m, n, f)

    def sub(p, r, s, count=0, flags=0):
        return comp(p, flags).sub(r, s, count)
    m.sub = sub
    m.Pattern = SPattern
    return m


# ------------------------------------------------------------------ unicodedata
def ud_normalize(form, s):
    if type(s) is not SymStr:
        return _ud.normalize(form, s)
    r = s.multi(lambda x: _ud.normalize(form, x))
    return r


def ud_combining(c):
    if type(c) is not SymStr:
        return _ud.combining(c)
    ch = c.c[0]
    return ch.fork(lambda x: _ud.combining(x))


def ud_category(c):
    if type(c) is not SymStr:
        return _ud.category(c)
    return c.c[0].fork(lambda x: _ud.category(x))


# ------------------------------------------------------------------ bytes
def mkb(bs, origin=None):
    if all(isinstance(b, int) for b in bs):
        return bytes(bs)
    return SymBytes(bs, origin)


class SymBytes:
    __slots__ = ("b", "origin")

    def __init__(self, bs, origin=None):
        self.b = list(bs)
        self.origin = origin

    def __len__(self):
        return len(self.b)

    def __iter__(self):
        return iter(self.b)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mkb(self.b[i])
        return self.b[i]

    def __add__(self, o):
        return mkb(self.b + list(o))

    def __radd__(self, o):
        return mkb(list(o) + self.b)

    def eqf(self, o):
        if not isinstance(o, (bytes, bytearray, SymBytes)) or len(o) != len(self.b):
            return False
        fs = []
        for a, b in zip(self.b, o):
            r = (a == b)
            fs.append(raw(r) if isinstance(r, SymBool) else r)
        return conj(fs)

    def __eq__(self, o):
        return self.eqf(o)

    def __ne__(self, o):
        r = self.eqf(o)
        return (not r) if isinstance(r, bool) else r.negate()

    def __hash__(self):
        return hash(self.concretize())

    def __copy__(self):
        return self

    def __deepcopy__(self, m):
        return self

    def __reduce__(self):
        return (core.restore, (core.CTX.stash(self),))

    def concretize(self):
        core.CTX.stats.concretized["bytes"] = core.CTX.stats.concretized.get("bytes", 0) + 1
        return bytes(x if isinstance(x, int) else x.enumerate() for x in self.b)

    def decode(self, encoding="utf-8", errors="strict"):
        enc = encoding.lower().replace("_", "-")
        if self.origin is not None and self.origin[1] == enc:
            return self.origin[0]
        return self.concretize().decode(encoding, errors)

    def find(self, o, *a):
        return self.concretize().find(o, *a)

    def __repr__(self):
        return "<symbytes%d>" % len(self.b)


def contains_bytes(b, a):
    if isinstance(a, int) or type(a) is SymBV:
        return any(bool(x == a) for x in b)
    return bytes_c(a) in bytes_c(b)


def bytes_c(x):
    return x.concretize() if type(x) is SymBytes else x


def join_bytes(sep, parts):
    out = []
    for i, p in enumerate(parts):
        if i:
            out.extend(sep)
        out.extend(p)
    return mkb(out)


# ------------------------------------------------------------------ exact ints
class SymBV:
    """Non-negative Python integer (or its negation) given as an expression
    tree over bytes; materialised as a bit-vector of the width a query needs."""
    __slots__ = ("op", "a", "b", "w", "neg", "memo")

    def __init__(self, op, a, b, w, neg=False):
        self.op, self.a, self.b, self.w, self.neg = op, a, b, w, neg
        self.memo = {}

    @staticmethod
    def var(name, w):
        return SymBV("var", z3.BitVec(name, w), None, w)

    @staticmethod
    def table(ch, f):
        """byte f(char) of a symbolic character"""
        return rows((ch.v,), {(i,): f(ch.tab[i]) for i in ch.v.dom()})

    # small joint domains are computed row by row, one row per assignment of
    # the character variables involved
    def _joint(self, o, f):
        if self.op != "tab":
            return None
        tree = (lambda: f(plainbv(self), plainbv(o))) if f in TREE else None
        if isinstance(o, int):
            return rows(self.a, {k: f(v, o) for k, v in self.b.items()}, tree)
        if type(o) is not SymBV or o.op != "tab":
            return None
        new = [v for v in o.a if v not in self.a]
        vs = self.a + tuple(new)
        at = [vs.index(v) for v in o.a]
        if not new:
            return rows(vs, {k: f(v, o.b[tuple(k[i] for i in at)]) for k, v in self.b.items()
                             if tuple(k[i] for i in at) in o.b}, tree)
        shared = [i for i, v in enumerate(o.a) if v in self.a]
        if len(self.b) * len(o.b) > 1500:
            return None
        out = {}
        for k, v in self.b.items():
            for k2, v2 in o.b.items():
                if all(k2[i] == k[at[i]] for i in shared):
                    out[k + tuple(k2[i] for i in range(len(k2)) if o.a[i] in new)] = f(v, v2)
        return rows(vs, out, tree)

    def _where(self, keys):
        """formula: the assignment is one of keys"""
        if len(self.a) == 1:
            return self.a[0].member([k[0] for k in keys])
        return z3.Or([z3.And([v.z == i for v, i in zip(self.a, k)]) for k in sorted(keys)])

    def bv(self):
        """as an expression over a bit-vector"""
        if self.op != "tab":
            return self
        r = self.memo.get("bv")
        if r is None and "tree" in self.memo:
            r = self.memo["bv"] = self.memo["tree"]()
        if r is None:
            vals = {}
            for k, v in self.b.items():
                vals.setdefault(v, []).append(k)
            if min(vals) < 0 < max(vals):
                return self.enumerate()
            w = self.w
            key = "t!%s!%x" % ("-".join(v.name for v in self.a), hash(tuple(sorted(self.b.items()))) & 0xFFFFFFFFFFFF)
            z = z3.BitVec(key, w)
            items = sorted(vals.items())
            e = z3.BitVecVal(abs(items[-1][0]), w)
            for v, ks in items[:-1]:
                e = z3.If(self._where(ks), z3.BitVecVal(abs(v), w), e)
            r = SymBV("var", z, None, w, min(vals) < 0)
            self.memo["bv"] = r
            if key not in core.CTX.tabvars:
                core.CTX.tabvars.add(key)
                core.CTX.solver.add(z == e)
        return r

    # low k bits
    def mat(self, k):
        r = self.memo.get(k)
        if r is not None:
            return r
        op, a, b = self.op, self.a, self.b
        if op == "tab":
            x = self.bv()
            return z3.BitVecVal(x, k) if isinstance(x, int) else x.mat(k)
        if k > self.w:
            r = z3.ZeroExt(k - self.w, self.mat(self.w))
        elif op == "var":
            r = a if k == a.size() else z3.Extract(k - 1, 0, a)
        elif op == "*":
            r = product(M(a, k), M(b, k))
        elif op in ("+", "^", "|", "&"):
            x, y = M(a, k), M(b, k)
            r = {"+": lambda: x + y, "^": lambda: x ^ y, "|": lambda: x | y,
                 "&": lambda: x & y}[op]()
        elif op == "-":
            r = M(a, k) - M(b, k)
        elif op == "<<":
            if b >= k:
                r = z3.BitVecVal(0, k)
            else:
                r = z3.Concat(M(a, k - b), z3.BitVecVal(0, b)) if b else M(a, k)
        elif op == ">>":
            full = M(a, min(a.w, k + b))
            hi = full.size() - 1
            if b > hi:
                r = z3.BitVecVal(0, k)
            else:
                r = z3.Extract(hi, b, full)
                if r.size() < k:
                    r = z3.ZeroExt(k - r.size(), r)
        elif op == "trunc":
            # materialised in full so that equal terms stay equal
            r = M(a, min(W(a), b))
            r = z3.Extract(k - 1, 0, r) if r.size() > k else z3.ZeroExt(k - r.size(), r) if r.size() < k else r
        elif op == "%":
            r = z3.URem(M(a, a.w), z3.BitVecVal(b, a.w))
            r = z3.Extract(k - 1, 0, r) if k <= a.w else z3.ZeroExt(k - a.w, r)
        elif op == "//":
            r = z3.UDiv(M(a, a.w), z3.BitVecVal(b, a.w))
            r = z3.Extract(k - 1, 0, r) if k <= a.w else z3.ZeroExt(k - a.w, r)
        else:
            raise core.EngineError(op)
        r = z3.simplify(r)
        self.memo[k] = r
        return r

    def full(self):
        return self.mat(self.w)

    def bits(self):
        """mask of the bits that may be set"""
        r = self.memo.get("bits")
        if r is None:
            op, a, b = self.op, self.a, self.b
            top = (1 << self.w) - 1
            if op in ("|", "^"):
                r = B(a) | B(b)
            elif op == "&":
                r = B(a) & B(b)
            elif op == "<<":
                r = B(a) << b
            elif op == ">>":
                r = B(a) >> b
            elif op == "trunc":
                r = B(a)
            elif op == "var" and z3.is_bv_value(a):
                r = a.as_long()
            else:
                r = top
            r &= top
            self.memo["bits"] = r
        return r

    # -- arithmetic
    def _c(self, o):
        if isinstance(o, bool):
            o = int(o)
        if type(o) is SymNum or isinstance(o, SymBool):
            o = o.__index__()
        return o

    def _bad(self, o):
        return not isinstance(o, (int, SymBV)) or (isinstance(o, int) and o < 0) or (type(o) is SymBV and o.neg) or self.neg

    def __add__(self, o):
        o = self._c(o)
        t = self._joint(o, operator.add)
        if t is not None:
            return t
        self, o = plainbv(self), plainbv(o)
        if isinstance(self, int):
            return operator.add(self, o)
        if isinstance(o, float):
            return self.enumerate() + o
        if type(o) is SymBV and o.neg and not self.neg:
            return self - (-o)
        if isinstance(o, int) and o < 0 and not self.neg:
            return self - (-o)
        if self.neg:
            if type(o) is SymBV and o.neg or (isinstance(o, int) and o <= 0):
                return -((-self) + (-o))
            return _int(o) - (-self) if isinstance(o, int) else o - (-self)
        if not B(self) & B(o):
            return self | o
        return SymBV("+", self, o, max(self.w, W(o)) + 1)

    def __radd__(self, o):
        return self + o

    def __sub__(self, o):
        o = self._c(o)
        t = self._joint(o, operator.sub)
        if t is not None:
            return t
        self, o = plainbv(self), plainbv(o)
        if isinstance(self, int):
            return operator.sub(self, o)
        if self.neg:
            return -((-self) + o)
        if (type(o) is SymBV and o.neg) or (isinstance(o, int) and o < 0):
            return self + (-o)
        k = max(self.w, W(o))
        ge = fsym(z3.UGE(M(self, k), M(o, k)))
        if ge is True or (ge is not False and bool(ge)):
            return SymBV("-", self, o, k)
        return SymBV("-", _int(o), self, k, neg=True)

    def __rsub__(self, o):
        return -(self - o)

    def __neg__(self):
        if self.op == "tab":
            return rows(self.a, {k: -v for k, v in self.b.items()})
        return SymBV(self.op, self.a, self.b, self.w, not self.neg)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.op == "tab":
            return rows(self.a, {k: abs(v) for k, v in self.b.items()})
        return SymBV(self.op, self.a, self.b, self.w, False)

    def __mul__(self, o):
        o = self._c(o)
        t = self._joint(o, operator.mul)
        if t is not None:
            return t
        self, o = plainbv(self), plainbv(o)
        if isinstance(self, int):
            return operator.mul(self, o)
        if isinstance(o, float) or not isinstance(o, (int, SymBV)):
            return self.enumerate() * o
        neg = self.neg != ((o < 0) if isinstance(o, int) else o.neg)
        o = abs(o)
        return SymBV("*", abs(self), o, self.w + W(o), neg)

    __rmul__ = __mul__

    def __and__(self, o):
        o = self._c(o)
        t = self._joint(o, operator.and_)
        if t is not None:
            return t
        self, o = plainbv(self), plainbv(o)
        if isinstance(self, int):
            return operator.and_(self, o)
        if isinstance(o, int) and o >= 0:
            if o & (o + 1) == 0:
                k = o.bit_length()
                if self.neg:
                    return SymBV("-", 1 << k, SymBV("trunc", abs(self), k, k), k + 1)._trunc(k)
                return self._trunc(k)
            if not self.neg:
                return SymBV("&", self, o, min(self.w, o.bit_length()))
        if self._bad(o):
            return self.enumerate() & (o if isinstance(o, int) else o.enumerate())
        return SymBV("&", self, o, min(self.w, W(o)))

    def _trunc(self, k):
        if k == 0:
            return 0
        if self.w <= k:
            return self
        return SymBV("trunc", self, k, k)

    __rand__ = __and__

    def __or__(self, o):
        o = self._c(o)
        t = self._joint(o, operator.or_)
        if t is not None:
            return t
        self, o = plainbv(self), plainbv(o)
        if isinstance(self, int):
            return operator.or_(self, o)
        if self._bad(o):
            return self.enumerate() | (o if isinstance(o, int) else o.enumerate())
        if isinstance(o, int) and o == 0:
            return self
        return SymBV("|", self, o, max(self.w, W(o)))

    __ror__ = __or__

    def __xor__(self, o):
        o = self._c(o)
        t = self._joint(o, operator.xor)
        if t is not None:
            return t
        self, o = plainbv(self), plainbv(o)
        if isinstance(self, int):
            return operator.xor(self, o)
        if self._bad(o):
            return self.enumerate() ^ (o if isinstance(o, int) else o.enumerate())
        if not B(self) & B(o):
            return self | o
        return SymBV("^", self, o, max(self.w, W(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return -(self + 1)

    def __lshift__(self, n):
        if self.op == "tab":
            return rows(self.a, {k: v << int(n) for k, v in self.b.items()}, lambda: plainbv(self) << int(n))
        return SymBV("<<", abs(self), int(n), self.w + int(n), self.neg)

    def __rshift__(self, n):
        n = int(n)
        if self.op == "tab":
            return rows(self.a, {k: v >> n for k, v in self.b.items()}, lambda: plainbv(self) >> n)
        if self.neg:
            return self.enumerate() >> n
        if n >= self.w:
            return 0
        return SymBV(">>", self, n, self.w - n)

    def __rlshift__(self, o):
        return o << self.enumerate()

    def __rrshift__(self, o):
        return o >> self.enumerate()

    def __mod__(self, n):
        n = self._c(n)
        if n == 1 and isinstance(n, int):
            return 0 if operator.mod is operator.mod else self
        t = self._joint(n, operator.mod) if n else None
        if t is not None:
            return t
        self = plainbv(self)
        if isinstance(self, int):
            return operator.mod(self, n)
        if not isinstance(n, int) or n <= 0:
            return self.enumerate() % n
        if n & (n - 1) == 0:
            return self & (n - 1)
        if self.neg:
            r = SymBV("%", abs(self), n, n.bit_length())
            if r == 0:
                return 0
            return n - r
        return SymBV("%", self, n, n.bit_length())

    def __floordiv__(self, n):
        n = self._c(n)
        if n == 1 and isinstance(n, int):
            return 0 if operator.floordiv is operator.mod else self
        t = self._joint(n, operator.floordiv) if n else None
        if t is not None:
            return t
        self = plainbv(self)
        if isinstance(self, int):
            return operator.floordiv(self, n)
        if self.neg or not isinstance(n, int) or n <= 0:
            return self.enumerate() // n
        if n & (n - 1) == 0:
            return self >> (n.bit_length() - 1)
        return SymBV("//", self, n, self.w)

    def __truediv__(self, n):
        return self.enumerate() / n

    def __pow__(self, n):
        return self.enumerate() ** n

    # -- comparison
    def _cmp(self, o, name):
        o = self._c(o)
        if not isinstance(o, (int, SymBV)):
            if isinstance(o, float):
                return getattr(self.enumerate(), name)(o)
            return NotImplemented
        t = self._joint(o, lambda a, b: getattr(a, name)(b))
        if t is not None:
            if isinstance(t, (bool, int)):
                return bool(t)
            yes = [k for k, v in t.b.items() if v]
            no = [k for k, v in t.b.items() if not v]
            return SymBool(f=t._where(yes)) if len(yes) <= len(no) else SymBool(f=z3.Not(t._where(no)))
        self, o = plainbv(self), plainbv(o)
        if isinstance(self, int):
            return getattr(self, name)(o) if isinstance(o, int) else o._cmp(self, SWAP[name])
        if self.neg and (o.neg if type(o) is SymBV else o < 0):
            return abs(o)._cmp(abs(self), name) if type(o) is SymBV else abs(self)._cmp(-o, SWAP[name])
        k = max(self.w, W(o)) + 1
        x = z3.ZeroExt(k - self.w, self.full())
        x = -x if self.neg else x
        y = M(abs(o), k)
        if (o.neg if type(o) is SymBV else o < 0):
            y = -y
        f = {"__lt__": lambda: x < y, "__le__": lambda: x <= y, "__gt__": lambda: x > y, "__ge__": lambda: x >= y,
             "__eq__": lambda: x == y, "__ne__": lambda: x != y}[name]()
        f = fsym(f)
        if name in ("__eq__", "__ne__") and isinstance(f, SymBool) and always_equal(x, y):
            return name == "__eq__"
        return f

    def __lt__(self, o):
        return self._cmp(o, "__lt__")

    def __le__(self, o):
        return self._cmp(o, "__le__")

    def __gt__(self, o):
        return self._cmp(o, "__gt__")

    def __ge__(self, o):
        return self._cmp(o, "__ge__")

    def __eq__(self, o):
        return self._cmp(o, "__eq__")

    def __ne__(self, o):
        return self._cmp(o, "__ne__")

    def __bool__(self):
        return bool(self._cmp(0, "__ne__"))

    def __hash__(self):
        return hash(self.enumerate())

    def __index__(self):
        return self.enumerate()

    __int__ = __index__

    def __float__(self):
        return float(self.enumerate())

    def __copy__(self):
        return self

    def __deepcopy__(self, m):
        return self

    def __repr__(self):
        return "<symint>"

    def bit_length(self):
        return self.enumerate().bit_length()

    def to_bytes(self, n, order="big", signed=False):
        bs = [(self >> (8 * i)) & 255 for i in range(n)]
        return mkb(bs if order == "little" else bs[::-1])

    def enumerate(self):
        """fork over all feasible values"""
        c = core.CTX
        if self.op == "tab":
            groups = {}
            for k, v in sorted(self.b.items()):
                groups.setdefault(v, []).append(k)
            vals = list(groups)
            for v in vals[:-1]:
                if bool(SymBool(f=self._where(groups[v]))):
                    return v
            return vals[-1]
        e = self.full()
        for _ in range(600):
            if c.pos < len(c.prefix) and isinstance(c.prefix[c.pos][0], tuple):
                _, v = c.prefix[c.pos][0]
            else:
                if c.check() != z3.sat:
                    raise core.PathEnd()
                v = c.solver.model().eval(e, model_completion=True).as_long()
            c.trail.append((("val", v), ()))
            c.pos += 1
            b = fsym(e == v)
            if b is True or (b is not False and bool(b)):
                return -v if self.neg else v
        raise core.EngineError("enumeration of %d-bit value" % self.w)


def product(x, y):
    """x*y as a variable defined on this path, so that what is computed from
    it can be compared without looking inside"""
    x, y = z3.simplify(x), z3.simplify(y)
    if z3.is_bv_value(x) and z3.is_bv_value(y):
        return z3.simplify(x * y)
    a, b = sorted((x.sexpr(), y.sexpr()))
    key = "*%d!%s!%s" % (x.size(), a, b)
    name = PRODUCTS.setdefault(key, "m!%d" % len(PRODUCTS))
    z = z3.BitVec(name, x.size())
    if name not in core.CTX.tabvars:
        core.CTX.tabvars.add(name)
        core.CTX.solver.add(z == x * y)
    return z


PRODUCTS = {}
HARD = {z3.Z3_OP_BUREM, z3.Z3_OP_BUDIV, z3.Z3_OP_BUREM_I, z3.Z3_OP_BUDIV_I}


def always_equal(x, y):
    """equal whatever the values of the products and quotients inside them"""
    x, y = z3.simplify(x), z3.simplify(y)
    cut, seen, todo = {}, set(), [x, y]
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if e.decl().kind() in HARD:
            cut[e.get_id()] = e
            continue
        todo.extend(e.children())
    sub = [(e, z3.BitVec("cut!%d" % i, e.size())) for i, e in enumerate(cut.values())]
    s = z3.SolverFor("QF_BV")
    s.set("timeout", 3000)
    s.add(z3.substitute(x, *sub) != z3.substitute(y, *sub))
    core.CTX.stats.queries += 1
    return s.check() == z3.unsat


def rows(vs, tab, tree=None):
    """integer given row by row, rows ruled out on this path dropped; tree
    rebuilds it over the bit-vectors of its operands"""
    doms = [v.dom() for v in vs]
    live = {k: v for k, v in tab.items() if all(i in d for i, d in zip(k, doms))}
    if not live:
        raise core.PathEnd()
    vals = set(live.values())
    if len(vals) == 1:
        return next(iter(vals))
    r = SymBV("tab", tuple(vs), live, max(1, max(abs(v).bit_length() for v in vals)))
    if tree is not None and min(vals) >= 0:
        r.memo["tree"] = tree
    return r


def plainbv(x):
    return x.bv() if type(x) is SymBV else x


TREE = {operator.add, operator.mul, operator.and_, operator.or_, operator.xor, operator.mod, operator.floordiv}
SWAP = {"__lt__": "__gt__", "__le__": "__ge__", "__gt__": "__lt__", "__ge__": "__le__", "__eq__": "__eq__", "__ne__": "__ne__"}


def B(o):
    return o.bits() if type(o) is SymBV else o


def W(o):
    return o.w if type(o) is SymBV else max(1, o.bit_length())


def M(o, k):
    if type(o) is SymBV:
        return o.mat(k)
    return z3.BitVecVal(o, k)


class _int_:
    pass


def _int(o):
    """constant as SymBV operand"""
    if type(o) is SymBV:
        return o
    return SymBV("var", z3.BitVecVal(o, max(1, o.bit_length())), None, max(1, o.bit_length()))
