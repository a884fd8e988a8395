"""Exact multivariate Laurent polynomials over interned atoms.

An atom is an input variable or one application of a function that the
arithmetic of the code under test needs (exp, log, sqrt, inverse of a sum,
rounding to single precision, truncation).  Everything here is canonical: two
expressions that are equal by the field axioms together with the defining
equations of the atoms end up as the same polynomial once denominators are
cleared (`together`, `cleared`)."""
from fractions import Fraction
import math
import struct

ONE = ()


class Atom:
    __slots__ = ("id", "kind", "arg", "name", "pos", "nonneg", "nonzero", "is_int",
                 "lo", "hi", "z", "deps")

    def __init__(self, id_, kind, arg, name):
        self.id = id_
        self.kind = kind
        self.arg = arg
        self.name = name
        self.pos = self.nonneg = self.nonzero = self.is_int = False
        self.lo = self.hi = None
        self.z = None
        self.deps = frozenset()


ATOMS = []
_INTERN = {}


def reset():
    del ATOMS[:]
    _INTERN.clear()
    _SUBC.clear()


def atom(kind, key, arg=None, name=None):
    k = (kind, key)
    a = _INTERN.get(k)
    if a is None:
        a = Atom(len(ATOMS), kind, arg, name)
        if kind in ("v", "bv"):
            a.deps = frozenset([a.id])
        elif isinstance(arg, Poly):
            a.deps = arg.atomdeps()
        ATOMS.append(a)
        _INTERN[k] = a
    return a


def snap(f):
    """Rational meant by a float literal or a native float intermediate."""
    if isinstance(f, int):
        return Fraction(f)
    if f == int(f) and abs(f) < 1e15:
        return Fraction(int(f))
    q = Fraction(f)
    r = q.limit_denominator(20000)
    if r and abs(r - q) <= abs(q) * Fraction(1, 1 << 51):
        return r
    return Fraction(repr(f))


def _norm_exp(e):
    if isinstance(e, Fraction) and e.denominator == 1:
        return e.numerator
    return e


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] < y[0]:
            out.append(x)
            i += 1
        elif x[0] > y[0]:
            out.append(y)
            j += 1
        else:
            e = _norm_exp(x[1] + y[1])
            if e:
                out.append((x[0], e))
            i += 1
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def mono_pow(m, k):
    if k == 0:
        return ONE
    return tuple((a, _norm_exp(e * k)) for a, e in m)


class Poly:
    __slots__ = ("t", "_k", "_h", "_d")

    def __init__(self, t):
        self.t = t
        self._k = None
        self._h = None
        self._d = None

    # -- basic ------------------------------------------------------------
    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.t.items(), key=lambda kv: _mono_key(kv[0])))
        return self._k

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and ONE in self.t)

    def const(self):
        return self.t.get(ONE, Fraction(0))

    def atomdeps(self):
        """variable atoms this polynomial depends on, through nested atoms"""
        if self._d is None:
            d = set()
            for m in self.t:
                for a, _ in m:
                    d |= ATOMS[a].deps
            self._d = frozenset(d)
        return self._d

    def __add__(self, o):
        if len(self.t) < len(o.t):
            self, o = o, self
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m)
            if v is None:
                t[m] = c
            else:
                v = v + c
                if v:
                    t[m] = v
                else:
                    del t[m]
        return Poly(t)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, c):
        if not c:
            return ZERO
        return Poly({m: v * c for m, v in self.t.items()})

    def mulmono(self, mm, c=1):
        return reduce_sqrt(Poly({mono_mul(m, mm): v * c for m, v in self.t.items()}))

    def __mul__(self, o):
        if len(self.t) > len(o.t):
            self, o = o, self
        if self.is_const():
            return o.scale(self.const())
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mono_mul(m1, m2)
                v = t.get(m)
                v = c1 * c2 if v is None else v + c1 * c2
                if v:
                    t[m] = v
                else:
                    t.pop(m, None)
        return reduce_sqrt(Poly(t))

    def pow(self, n):
        r = CONST1
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def __repr__(self):
        return show(self)


def _mono_key(m):
    return (sum(abs(e) for _, e in m), tuple((a, float(e)) for a, e in m))


ZERO = Poly({})
CONST1 = Poly({ONE: Fraction(1)})


def const(c):
    c = Fraction(c)
    return Poly({ONE: c}) if c else ZERO


def var(a, e=1):
    return Poly({((a.id, e),): Fraction(1)})


def reduce_sqrt(p):
    """S(q)^2 -> q (positive powers only) and I(q)^-1 -> q."""
    hit = False
    for m in p.t:
        for a, e in m:
            k = ATOMS[a].kind
            if (k == "S" and e >= 2) or (k == "I" and e < 0):
                hit = True
                break
        if hit:
            break
    if not hit:
        return p
    out = ZERO
    for m, c in p.t.items():
        extra = CONST1
        rest = []
        for a, e in m:
            at = ATOMS[a]
            if at.kind == "S" and e >= 2:
                k = int(e) // 2
                extra = extra * at.arg.pow(k)
                e = _norm_exp(e - 2 * k)
                if e:
                    rest.append((a, e))
            elif at.kind == "I" and e < 0:
                extra = extra * at.arg.pow(int(-e))
            else:
                rest.append((a, e))
        out = out + extra * Poly({tuple(rest): c})
    return out


def content(p):
    """(monomial, primitive part): largest monomial dividing every term
    (negative powers included)."""
    low = None
    for m in p.t:
        d = dict(m)
        if low is None:
            low = d
        else:
            for a in list(low):
                low[a] = min(low[a], d.get(a, 0))
            for a, e in d.items():
                if a not in low:
                    low[a] = min(0, e)
    mm = tuple(sorted((a, _norm_exp(e)) for a, e in low.items() if e))
    if not mm:
        return ONE, p
    inv = mono_pow(mm, -1)
    return mm, Poly({mono_mul(m, inv): c for m, c in p.t.items()})


def lead(p):
    return min(p.t.items(), key=lambda kv: _mono_key(kv[0]))[1]


def together(p):
    """p = num * prod I(q)^k with num free of I atoms; returns (num, {aid:k})"""
    den = {}
    while True:
        best = None
        for m in p.t:
            for a, e in m:
                if ATOMS[a].kind == "I" and (best is None or a > best):
                    best = a
        if best is None:
            return p, den
        q = ATOMS[best].arg
        K = 0
        for m in p.t:
            for a, e in m:
                if a == best and e > K:
                    K = e
        pows = [CONST1]
        for _ in range(int(K)):
            pows.append(pows[-1] * q)
        # group by remaining power so that q^k is multiplied once per group
        groups = {}
        for m, c in p.t.items():
            e = 0
            rest = m
            for i, (a, ee) in enumerate(m):
                if a == best:
                    e = int(ee)
                    rest = m[:i] + m[i + 1:]
                    break
            groups.setdefault(K - e, {})[rest] = groups.get(K - e, {}).get(rest, 0) + c
        acc, mag = {}, {}
        for k, t in groups.items():
            for m1, c1 in t.items():
                for m2, c2 in pows[int(k)].t.items():
                    c = c1 * c2
                    if not c:
                        continue
                    m = mono_mul(m1, m2)
                    acc[m] = acc.get(m, 0) + c
                    if abs(c) > mag.get(m, 0):
                        mag[m] = abs(c)
        den[best] = den.get(best, 0) + int(K)
        # what is left of a cancellation of native float constants is noise
        p = reduce_sqrt(Poly({m: c for m, c in acc.items() if c and abs(c) > mag[m] * NOISE}))


def _lexkey(m):
    return tuple((-a, float(e)) for a, e in m)


def exact_div(p, q):
    """p / q when q divides p exactly (q has a unique lexicographic leader)"""
    if len(q.t) < 2 or len(p.t) < 2 or len(p.t) > 60:
        return None
    ids = sorted({a for m in q.t for a, e in m} | {a for m in p.t for a, e in m})

    def key(m):
        d = dict(m)
        return tuple(float(d.get(a, 0)) for a in ids)
    lm = max(q.t, key=key)
    lc = q.t[lm]
    minv = mono_pow(lm, -1)
    r = dict(p.t)
    out = {}
    for _ in range(4 * len(p.t) + 8):
        if not r:
            return Poly(out)
        m = max(r, key=key)
        f = mono_mul(m, minv)
        if any(e < 0 for a, e in f):
            return None
        c = r[m] / lc
        out[f] = out.get(f, 0) + c
        for m2, c2 in q.t.items():
            k = mono_mul(f, m2)
            old = r.get(k, 0)
            v = old - c * c2
            if not v or abs(v) <= max(abs(old), abs(c * c2)) * NOISE:
                r.pop(k, None)
            else:
                r[k] = v
    return None


TINY = Fraction(1, 10 ** 13)
NOISE = Fraction(1, 10 ** 12)


def tidy(p):
    """Drop coefficients that are rounding noise of native float constants."""
    if not p.t:
        return p
    mx = max(abs(c) for c in p.t.values())
    lim = mx * TINY
    if all(abs(c) > lim for c in p.t.values()):
        return p
    if any(_epower(m) for m in p.t):
        # nor small once the constant factor is counted in
        w = {m: math.log(abs(c.numerator)) - math.log(c.denominator) + _epower(m) if c else -1e9 for m, c in p.t.items()}
        top = max(w.values()) + math.log(float(TINY))
        return Poly({m: c for m, c in p.t.items() if abs(c) > lim or w[m] > top})
    return Poly({m: c for m, c in p.t.items() if abs(c) > lim})


def _epower(m):
    n = 0
    for a, e in m:
        if ATOMS[a].kind == "E" and ATOMS[a].arg.is_const():
            n += e
    return float(n)


def cleared(p):
    """num with no I atom and no negative power; zero iff p is zero."""
    num, _ = together(p)
    for _ in range(20):
        if not num.t:
            return num
        neg = {}
        for m in num.t:
            for a, e in m:
                if e < 0 and e < neg.get(a, 0):
                    neg[a] = e
        if not neg:
            # odd powers of square roots: nothing to do
            return num
        mm = tuple(sorted((a, _norm_exp(-e)) for a, e in neg.items()))
        num = tidy(num.mulmono(mm))
        num, _ = together(num)
    return num


# ---------------------------------------------------------------- functions
def mono_positive(m):
    for a, e in m:
        at = ATOMS[a]
        if at.pos:
            continue
        if isinstance(e, int) and e % 2 == 0 and at.nonzero:
            continue
        return False
    return True


def mono_nonneg(m):
    for a, e in m:
        at = ATOMS[a]
        if at.pos or at.nonneg:
            continue
        if isinstance(e, int) and e % 2 == 0:
            continue
        return False
    return True


def syn_sign(p):
    """syntactic sign: '+', '-', '>=', '<=' or None"""
    if not p.t:
        return "0"
    some = False
    for s, strict, weak in ((1, "+", ">="), (-1, "-", "<=")):
        if all(c * s > 0 and mono_nonneg(m) for m, c in p.t.items()):
            some = any(mono_positive(m) for m in p.t)
            return strict if some else weak
    return None


def inv(p):
    """1/p for p known to be non-zero"""
    num, den = together(p)
    out = CONST1
    for a, k in den.items():
        out = out * ATOMS[a].arg.pow(k)
    mm, q = content(num)
    c = lead(q)
    q = q.scale(1 / c)
    r = Poly({mono_pow(mm, -1): 1 / c})
    if q.is_const():
        r = r.scale(1 / q.const())
    else:
        q = roundcoef(q)
        a = atom("I", q, q)
        s = syn_sign(q)
        a.pos = s in ("+", ">=")
        a.nonzero = True
        r = r * var(a)
    r = reduce_sqrt(r)
    return r * out


def roundcoef(p):
    """collapse float noise in coefficients so that keys intern"""
    t = {}
    for m, c in p.t.items():
        if c.denominator > 10 ** 9 or (c.denominator > 1 and c.numerator.bit_length() + c.denominator.bit_length() > 44):
            r = c.limit_denominator(10 ** 6)
            if abs(r - c) <= abs(c) * Fraction(1, 10 ** 14):
                c = r
            else:
                c = Fraction("%.12g" % float(c))
        t[m] = c
    return Poly(t)


def _eatom(m):
    a = atom("E", m, Poly({m: Fraction(1)}))
    a.pos = a.nonzero = a.nonneg = True
    return a


def exp(p):
    """exp(sum c_i m_i) = prod E(m_i)^c_i"""
    c0 = p.t.get(ONE, Fraction(0))
    coef = Fraction(1)
    mono = []
    for m, c in p.t.items():
        if m == ONE:
            # a large constant factor stays an exponential: next to it, other coefficients would count as noise
            if abs(c0) > 12:
                c = Fraction(round(c0))
                c0 -= c
                mono.append((_eatom(m).id, int(c)))
            if c0:
                coef = snap(math.exp(float(c0)))
            continue
        # log atoms: exp(c*log q) = q^c for integral c
        if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "L" and c.denominator in (1, 2):
            q = ATOMS[m[0][0]].arg
            if c.denominator == 1:
                f = q.pow(int(c)) if c > 0 else inv(q).pow(int(-c))
            else:
                f = sqrt(q)
                f = f.pow(int(2 * c)) if c > 0 else inv(f).pow(int(-2 * c))
            return f * exp(Poly({k: v for k, v in p.t.items() if k != m}))
        mono.append((_eatom(m).id, _norm_exp(c)))
    return Poly({tuple(sorted(mono)): coef})


EULER = Fraction(math.e)


def folded(p, noise):
    """powers of the number e as coefficients, dropping monomials that cancel"""
    if not any(m and any(ATOMS[a].kind == "E" and ATOMS[a].arg.is_const() for a, e in m) for m in p.t):
        return p
    acc, mag = {}, {}
    for m, c in p.t.items():
        if abs(c) <= noise:
            continue
        rest = []
        for a, e in m:
            if ATOMS[a].kind == "E" and ATOMS[a].arg.is_const() and isinstance(e, int) and abs(e) < 600:
                c = c * EULER ** e
            else:
                rest.append((a, e))
        rest = tuple(rest)
        acc[rest] = acc.get(rest, 0) + c
        mag[rest] = max(mag.get(rest, 0), abs(c))
    return Poly({m: c for m, c in acc.items() if abs(c) > mag[m] * FOLD})


FOLD = Fraction(1, 10 ** 9)


def log(p):
    """log of p, known positive"""
    num, den = together(p)
    out = ZERO
    for a, k in den.items():
        out = out - log(ATOMS[a].arg).scale(k)
    mm, q = content(num)
    keep = []
    for a, e in mm:
        at = ATOMS[a]
        if at.kind == "E":
            out = out + at.arg.scale(Fraction(e))
        elif at.kind == "S":
            out = out + log(at.arg).scale(Fraction(e) / 2)
        elif at.pos:
            out = out + _logatom(var(at)).scale(Fraction(e))
        else:
            keep.append((a, e))
    if keep:
        q = q.mulmono(tuple(keep))
    c = abs(lead(q))
    q = roundcoef(q.scale(1 / c))
    if c != 1:
        out = out + const(snap(math.log(c)))
    if q.is_const():
        if q.const() != 1:
            out = out + const(snap(math.log(float(q.const()))))
        return out
    return out + _logatom(q)


def _logatom(q):
    a = atom("L", q, q)
    if len(q.t) == 1:
        (m, c), = q.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].lo is not None and ATOMS[m[0][0]].lo >= 1:
            a.nonneg = True
    return var(a)


def sqrt(p):
    """sqrt of p, known non-negative"""
    num, den = together(p)
    out = CONST1
    for a, k in den.items():
        if k % 2:
            num = num * ATOMS[a].arg
            k += 1
        out = out * var(ATOMS[a]).pow(k // 2)
    mm, q = content(num)
    keep = []
    for a, e in mm:
        at = ATOMS[a]
        if at.pos and at.kind == "E":
            out = out * Poly({((a, _norm_exp(Fraction(e) / 2)),): Fraction(1)})
        elif at.pos and isinstance(e, int) and e % 2 == 0:
            out = out.mulmono(((a, e // 2),))
        else:
            keep.append((a, e))
    if keep:
        q = q.mulmono(tuple(keep))
    c = abs(lead(q))
    q = roundcoef(q.scale(1 / c))
    r = snap(math.sqrt(c))
    rr = r * r
    if rr != c and abs(rr - c) < c * Fraction(1, 10 ** 14):
        pass
    out = out.scale(r)
    if q.is_const():
        return out.scale(snap(math.sqrt(float(q.const()))))
    a = atom("S", q, q)
    a.nonneg = True
    if syn_sign(q) == "+":
        a.pos = a.nonzero = True
    return out * var(a)


def f32(x):
    try:
        return struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError:
        return math.inf if x > 0 else -math.inf


def round32(p):
    if p.is_const():
        return const(Fraction(f32(float(p.const()))))
    num, den = together(p)
    if den:
        key = p
    else:
        key = num
    # idempotent
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "R" and abs(c) == 1:
            return p
    # odd function: round(-x) = -round(x)
    s = 1 if lead(p) > 0 else -1
    q = roundcoef(p.scale(s))
    a = atom("R", q, q)
    return var(a).scale(s)


# -------------------------------------------------------------- substitution
_SUBC = {}


def subst(p, sigma, ver):
    """replace variable atoms by polynomials, rebuilding nested atoms"""
    if not sigma or not (p.atomdeps() & sigma.keys()):
        return p
    k = (ver, p)
    r = _SUBC.get(k)
    if r is not None:
        return r
    out = ZERO
    for m, c in p.t.items():
        term = const(c)
        for a, e in m:
            at = ATOMS[a]
            if at.deps & sigma.keys():
                b = _rebuild(at, sigma, ver)
                if at.kind == "E":
                    # exp(arg)^e
                    f = exp(subst(at.arg, sigma, ver).scale(Fraction(e)))
                elif isinstance(e, int) and e > 0:
                    f = b.pow(e)
                elif isinstance(e, int):
                    if not b.t:
                        raise ZeroDivisionError("substitution")
                    f = inv(b).pow(-e)
                else:
                    f = var(at, e)
                term = term * f
            else:
                term = term * Poly({((a, e),): Fraction(1)})
        out = out + term
    _SUBC[k] = out
    return out


def _rebuild(at, sigma, ver):
    if at.kind == "v":
        return sigma.get(at.id) or (ZERO if at.id in sigma else var(at))
    if not isinstance(at.arg, Poly):
        return var(at)
    q = subst(at.arg, sigma, ver)
    if at.kind == "E":
        return exp(q)
    if at.kind == "I":
        if not q.t:
            raise ZeroDivisionError("substitution")
        return inv(q)
    if at.kind == "L":
        if q.is_const():
            v = q.const()
            return const(snap(math.log(float(v)))) if v > 0 else var(at)
        return log(q)
    if at.kind == "S":
        if q.is_const():
            v = q.const()
            return const(snap(math.sqrt(float(v)))) if v >= 0 else var(at)
        return sqrt(q)
    if at.kind == "R":
        return round32(q)
    return var(at)


# -------------------------------------------------------------- evaluation
class EvalError(Exception):
    pass


def evaluate(p, env, cache=None):
    """float value of p under {var atom id: float}"""
    cache = {} if cache is None else cache
    tot = 0.0
    for m, c in p.t.items():
        v = float(c)
        for a, e in m:
            b = _evalatom(a, env, cache)
            try:
                v *= b ** (float(e) if isinstance(e, Fraction) else e)
            except (ZeroDivisionError, OverflowError, ValueError):
                raise EvalError("power")
            if isinstance(v, complex):
                raise EvalError("complex")
        tot += v
    return tot


def _evalatom(a, env, cache):
    v = cache.get(a)
    if v is not None:
        return v
    at = ATOMS[a]
    if at.kind == "v":
        v = env.get(a)
        if v is None:
            v = env[a] = 0.0 if not at.pos else 1.0
        v = float(v)
    else:
        x = evaluate(at.arg, env, cache) if isinstance(at.arg, Poly) else None
        try:
            if at.kind == "E":
                v = math.exp(x)
            elif at.kind == "L":
                v = math.log(x)
            elif at.kind == "S":
                v = math.sqrt(max(x, 0.0))
            elif at.kind == "I":
                v = 1.0 / x
            elif at.kind == "R":
                v = f32(x)
            elif at.kind == "T":
                v = float(math.trunc(x))
            elif at.kind == "F":
                v = float(math.floor(x))
            else:
                raise EvalError(at.kind)
        except (ValueError, OverflowError, ZeroDivisionError):
            raise EvalError(at.kind)
    cache[a] = v
    return v


def show(p, depth=0):
    if not p.t:
        return "0"
    s = []
    for m, c in p.key():
        f = []
        for a, e in m:
            at = ATOMS[a]
            n = at.name if at.kind == "v" else "%s(%s)" % (at.kind, show(at.arg, depth + 1) if isinstance(at.arg, Poly) else at.arg)
            f.append(n if e == 1 else "%s^%s" % (n, e))
        cs = str(float(c)) if c.denominator > 1000 else str(c)
        s.append("*".join(([cs] if (c != 1 or not f) else []) + f))
        if len(s) > 12:
            s.append("...")
            break
    return " + ".join(s)
