"""Symbolic values and the path explorer.

`SymNum`/`SymBool` stand for numbers the code under test computes with.  A
branch on a symbolic condition asks z3 which sides are feasible under the path
condition; the explorer (`explore`) re-executes the harness for each side until
every feasible path has been covered."""
import math
import os
import time
from fractions import Fraction

import z3

from . import poly as P
from .poly import Poly, ATOMS
from .concrete import limits


class Control(BaseException):
    """engine control flow; must never be caught by code under test"""


class PathEnd(Control):
    pass


class Budget(Control):
    pass


class EngineError(Control):
    pass


class FoundViolation(Control):
    def __init__(self, info):
        self.info = info


CTX = None

NEG, ZER, POS = 1, 2, 4
ALLS = 7
OPS = {"lt": NEG, "le": NEG | ZER, "gt": POS, "ge": POS | ZER, "eq": ZER, "ne": NEG | POS}


def ctx():
    return CTX


# ------------------------------------------------------------------ booleans
class SymBool:
    """sign(poly) in set, or an arbitrary z3 formula"""
    __slots__ = ("p", "set", "f", "key")

    def __init__(self, p=None, set_=None, f=None):
        self.p = p
        self.set = set_
        self.f = f

    def __bool__(self):
        return CTX.branch(self)

    def formula(self):
        if self.f is not None:
            return self.f
        t = CTX.z(self.p)
        s = self.set
        return {1: t < 0, 2: t == 0, 3: t <= 0, 4: t > 0, 5: t != 0, 6: t >= 0}[s]

    def negate(self):
        if self.f is not None:
            return SymBool(f=z3.Not(self.f))
        return SymBool(self.p, ALLS & ~self.set)

    # arithmetic on booleans: decide first
    def _n(self):
        return int(bool(self))

    def __int__(self):
        return self._n()

    __index__ = __int__

    def __float__(self):
        return float(self._n())

    def __add__(self, o):
        return self._n() + o

    def __radd__(self, o):
        return o + self._n()

    def __sub__(self, o):
        return self._n() - o

    def __rsub__(self, o):
        return o - self._n()

    def __mul__(self, o):
        return self._n() * o

    def __rmul__(self, o):
        return o * self._n()

    def __neg__(self):
        return -self._n()

    def __pos__(self):
        return self._n()

    def __truediv__(self, o):
        return self._n() / o

    def __eq__(self, o):
        return bool(self) == o

    def __ne__(self, o):
        return bool(self) != o

    def __lt__(self, o):
        return self._n() < o

    def __le__(self, o):
        return self._n() <= o

    def __gt__(self, o):
        return self._n() > o

    def __ge__(self, o):
        return self._n() >= o

    def __and__(self, o):
        return bool(self) & o

    __rand__ = __and__

    def __or__(self, o):
        return bool(self) | o

    __ror__ = __or__

    def __xor__(self, o):
        return bool(self) ^ o

    __rxor__ = __xor__

    def __invert__(self):
        return ~self._n()

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return "SymBool"


def fsym(f):
    """SymBool of a z3 formula, folded when constant"""
    f = z3.simplify(f)
    if z3.is_true(f):
        return True
    if z3.is_false(f):
        return False
    return SymBool(f=f)


def sign_in(p, s):
    """truth of 'sign of p is in s', as bool or SymBool"""
    p = p0 = CTX.sub(p)
    if p.is_const():
        c = p.const()
        k = NEG if c < 0 else POS if c > 0 else ZER
        return bool(s & k)
    num, den = P.together(p)
    num = P.tidy(num)
    if den and len(num.t) > 1:
        # common factors cancel: what was divided by is not zero
        den = dict(den)
        for a in list(den):
            while True:
                d = P.exact_div(num, ATOMS[a].arg)
                if d is None:
                    break
                num = d
                den[a] -= 1
    flip = False
    if s != ZER and s != (NEG | POS):
        for a, k in den.items():
            if k % 2:
                q = ATOMS[a].arg
                sg = P.syn_sign(q)
                if sg in ("-", "<="):
                    flip = not flip
                elif sg not in ("+", ">="):
                    if not sign_in(q, POS):
                        flip = not flip
    if num.is_const():
        p = num
        c = p.const() * (-1 if flip else 1)
        k = NEG if c < 0 else POS if c > 0 else ZER
        return bool(s & k)
    mm, q = P.content(num)
    drop = []
    only_eq = s in (ZER, NEG | POS)
    for a, e in mm:
        at = ATOMS[a]
        if at.pos or (only_eq and at.nonzero):
            continue
        if at.nonzero and isinstance(e, int) and e % 2 == 0:
            continue
        if at.nonneg and e < 0:
            continue
        drop.append((a, e))
    if drop:
        drop2 = []
        for a, e in drop:
            if isinstance(e, int) and e < 0:
                # multiply by an even power (atom is non-zero: it was divided by)
                e = 0 if e % 2 == 0 else 1
            if e:
                drop2.append((a, e))
        q = q.mulmono(tuple(drop2)) if drop2 else q
    if q.is_const():
        c = q.const() * (-1 if flip else 1)
        k = NEG if c < 0 else POS if c > 0 else ZER
        return bool(s & k)
    # a + b*E  with a<0<b etc: take logarithms
    if len(q.t) == 2:
        r = _log2(q)
        if r is not None:
            q = r
            if q.is_const():
                c = q.const() * (-1 if flip else 1)
                k = NEG if c < 0 else POS if c > 0 else ZER
                return bool(s & k)
            return sign_in(q, _flip(s) if flip else s)
    if len(q.t) == 1:
        # single monomial: sign from factors when possible
        (m, c), = q.t.items()
        if len(m) == 1 and isinstance(m[0][1], int):
            a, e = m[0]
            at = ATOMS[a]
            if at.kind == "L":
                r = at.arg - P.CONST1
                return sign_in(r if c > 0 else -r, _flip(s) if flip else s)
            if at.kind == "S":
                # S >= 0 and S == 0 iff arg == 0
                ss = _flip(s) if flip else s
                if c < 0:
                    ss = _flip(ss)
                if (ss & (POS | ZER)) == (POS | ZER):
                    return True
                if not ss & (POS | ZER):
                    return False
                return sign_in(at.arg, ss & (POS | ZER) | (NEG if ss & ZER else 0)) if ss & ZER else sign_in(at.arg, POS)
            if e > 1 and e % 2 == 1:
                q = Poly({((a, 1),): c})
            elif e > 1 and (s if not flip else _flip(s)) is not None:
                # even power: sign is 0 iff atom 0 else sign of c
                ss = _flip(s) if flip else s
                sc = POS if c > 0 else NEG
                z, nz = bool(ss & ZER), bool(ss & sc)
                if z and nz:
                    return True
                if not z and not nz:
                    return False
                return sign_in(Poly({((a, 1),): Fraction(1)}), ZER if z else (NEG | POS))
    # S(q) vs const:  a*S + b
    if len(q.t) == 2 and P.ONE in q.t:
        m = [m for m in q.t if m != P.ONE][0]
        if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "S":
            a, b = q.t[m], q.t[P.ONE]
            ss = _flip(s) if flip else s
            if a < 0:
                ss = _flip(ss)
            v = -b / a
            if v < 0:
                return bool(ss & POS)
            return sign_in(ATOMS[m[0][0]].arg - P.const(v * v), ss)
        if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "L":
            a, b = q.t[m], q.t[P.ONE]
            ss = _flip(s) if flip else s
            if a < 0:
                ss = _flip(ss)
            try:
                v = math.exp(float(-b / a))
                return sign_in(ATOMS[m[0][0]].arg - P.const(P.snap(v)), ss)
            except OverflowError:
                return bool(ss & NEG)
    if len(q.t) == 2 and all(len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "S" for m in q.t):
        (m1, c1), (m2, c2) = q.t.items()
        if c1 * c2 < 0:
            ss = _flip(s) if flip else s
            if c1 < 0:
                m1, c1, m2, c2 = m2, c2, m1, c1
            return sign_in(ATOMS[m1[0][0]].arg.scale(c1 * c1) - ATOMS[m2[0][0]].arg.scale(c2 * c2), ss)
    if flip:
        s = _flip(s)
    l = P.lead(q)
    if l < 0:
        s = _flip(s)
    q = P.roundcoef(q.scale(1 / l))
    sg = P.syn_sign(q)
    if sg == "+":
        return bool(s & POS)
    if sg == "-":
        return bool(s & NEG)
    if sg == ">=":
        s = s & ~NEG
    elif sg == "<=":
        s = s & ~POS
    if s == 0:
        return False
    if sg == ">=" and s == (POS | ZER) or sg == "<=" and s == (NEG | ZER):
        return True
    if sg in (">=", "<="):
        # sums of non-negative terms: zero iff every term is zero
        if s == ZER or s == POS or s == NEG:
            if len(q.t) > 1:
                r = True
                for m in q.t:
                    t = sign_in(Poly({m: Fraction(1)}), ZER)
                    if t is False:
                        r = False
                        break
                    if t is True:
                        continue
                    # decide term by term so that substitutions are learnt
                    if not t:
                        r = False
                        break
                return r if s == ZER else not r
    # float kinds: |p| coefficients already normalised
    if len(p0.t) <= 40 and len(q.t) <= 40 and set(p0.t) != set(q.t):
        if not only_eq or (all(ATOMS[a].pos or (isinstance(e, int) and e % 2 == 0) for a, e in mm) and
                           all(k % 2 == 0 or P.syn_sign(ATOMS[a].arg) in ("+", ">=") for a, k in den.items())):
            CTX.samesign(p0, q if flip == (l < 0) else -q)
    CTX.dominance(q)
    CTX.grouped(q)
    CTX.logform(q)
    return CTX.known(q, s)


def _flip(s):
    return (s & ZER) | (POS if s & NEG else 0) | (NEG if s & POS else 0)


def _log2(q):
    (m1, c1), (m2, c2) = q.t.items()
    if c1 * c2 >= 0:
        return None
    lin = P.ZERO
    for m, sg in ((m1, 1), (m2, -1)):
        for a, e in m:
            at = ATOMS[a]
            if at.kind != "E":
                return None
            lin = lin + at.arg.scale(Fraction(e) * sg)
    c = abs(c1) / abs(c2)
    if c != 1:
        lin = lin + P.const(P.snap(math.log(c)))
    return lin if c1 > 0 else -lin


# ------------------------------------------------------------------- numbers
def lift(x):
    """Poly of a concrete or symbolic number, None for anything else"""
    if type(x) is SymNum:
        return x.p
    if isinstance(x, SymBool):
        return P.const(int(bool(x)))
    if isinstance(x, (bool, int)):
        return P.const(int(x))
    if isinstance(x, float):
        if x != x or x in (math.inf, -math.inf):
            return None
        return P.const(P.snap(x))
    if isinstance(x, Fraction):
        return P.const(x)
    return None


def special(x):
    return isinstance(x, float) and (x != x or x in (math.inf, -math.inf))


def isintkind(x):
    if type(x) is SymNum:
        return x.int
    return isinstance(x, (bool, int, SymBool))


def mk(p, int_=False):
    p = CTX.sub(p)
    if p.is_const():
        c = p.const()
        if int_ and c.denominator == 1:
            return int(c)
        f = float(c)
        return f
    return SymNum(p, int_)


class SymNum:
    __slots__ = ("p", "int")

    def __init__(self, p, int_=False):
        self.p = p
        self.int = int_

    # -- arithmetic
    def _bin(self, o, f, r=False):
        q = lift(o)
        if q is None:
            if special(o):
                return NotImplemented
            if not isinstance(o, (int, float, SymNum, SymBool)):
                return NotImplemented
        res = f(q, self.p) if r else f(self.p, q)
        return mk(res, self.int and isintkind(o))

    def __add__(self, o):
        if special(o):
            return o
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        if special(o):
            return -o
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        if special(o):
            return o
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if special(o):
            if o != o:
                return o
            if self > 0:
                return o
            if self < 0:
                return -o
            return math.nan
        if isinstance(o, (list, tuple, str)):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if special(o):
            return math.nan if o != o else 0.0
        q = lift(o)
        if q is None:
            return NotImplemented
        return divide(self.p, q)

    def __rtruediv__(self, o):
        if special(o):
            if o != o:
                return o
            if self == 0:
                raise ZeroDivisionError("float division by zero")
            return o if self > 0 else -o
        q = lift(o)
        if q is None:
            return NotImplemented
        return divide(q, self.p)

    def __neg__(self):
        return mk(-self.p, self.int)

    def __pos__(self):
        return self

    def __abs__(self):
        if self < 0:
            return -self
        return self

    def __pow__(self, o, m=None):
        if m is not None:
            return NotImplemented
        if isinstance(o, SymNum):
            if o.int:
                o = o.__index__()
            else:
                if self > 0:
                    return exp_(log_(self) * o)
                o = CTX.concretize(o)
        if isinstance(o, float) and o == int(o):
            r = self ** int(o)
            return r
        if isinstance(o, (int, bool)):
            if o >= 0:
                return mk(self.p.pow(int(o)), self.int)
            return 1.0 / (self ** -o)
        if o == 0.5:
            if self >= 0:
                return mk(P.sqrt(CTX.sub(self.p)))
        if o == -0.5:
            return 1.0 / self ** 0.5
        return CTX.concretize(self) ** o

    def __rpow__(self, o):
        if self.int:
            return o ** self.__index__()
        if lift(o) is not None and o > 0:
            return exp_(self * math.log(o))
        return o ** CTX.concretize(self)

    def __floordiv__(self, o):
        return divmod_(self, o)[0]

    def __mod__(self, o):
        return divmod_(self, o)[1]

    def __rfloordiv__(self, o):
        return divmod_(o, self)[0]

    def __rmod__(self, o):
        return divmod_(o, self)[1]

    def __divmod__(self, o):
        return divmod_(self, o)

    # -- comparison
    def _cmp(self, o, op):
        if special(o):
            if o != o:
                return op == "ne"
            big = o > 0
            return {"lt": big, "le": big, "gt": not big, "ge": not big, "eq": False, "ne": True}[op]
        q = lift(o)
        if q is None:
            if op == "eq":
                return NotImplemented
            if op == "ne":
                return NotImplemented
            return NotImplemented
        d = self.p - q
        if d.t:
            mx = max(abs(c) for c in d.t.values())
            sc = max([abs(c) for c in self.p.t.values()] + [abs(c) for c in q.t.values()])
            if mx <= sc * P.TINY:
                d = P.ZERO
        return sign_in(d, OPS[op])

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def __eq__(self, o):
        return self._cmp(o, "eq")

    def __ne__(self, o):
        return self._cmp(o, "ne")

    def __bool__(self):
        r = sign_in(self.p, NEG | POS)
        return bool(r)

    def __hash__(self):
        return hash(CTX.concretize(self, "hash"))

    # -- conversions
    def __float__(self):
        return float(CTX.concretize(self, "float"))

    def __int__(self):
        return int(CTX.concretize(self, "int"))

    def __index__(self):
        if not self.int:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return CTX.enumerate(self)

    def __trunc__(self):
        return to_int(self)

    def __floor__(self):
        return floor_(self)

    def __ceil__(self):
        return -floor_(-self)

    def __round__(self, n=None):
        if self.int:
            return self
        if n is None or n == 0:
            r = nearest(self)
            return r if n is None else r * 1.0
        if type(n) is int and abs(n) <= 20:
            s = Fraction(10) ** n
            return SymNum(lift(nearest(mk(self.p.scale(s)))).scale(1 / s), False)
        return round(CTX.concretize(self, "round"), n)

    def is_integer(self):
        return CTX.concretize(self, "is_integer").is_integer()

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def conjugate(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (restore, (CTX.stash(self),))

    def __format__(self, spec):
        return "<sym>"

    def __repr__(self):
        return "<sym>"

    __str__ = __repr__


def restore(tok):
    return CTX.stashed[tok]


def divide(a, b):
    b = CTX.sub(b)
    if b.is_const():
        c = b.const()
        if c == 0:
            raise ZeroDivisionError("float division by zero")
        return mk(a.scale(1 / c), False)
    z = sign_in(b, ZER)
    if z is True or (z is not False and bool(z)):
        raise ZeroDivisionError("float division by zero")
    b = CTX.sub(b)
    a = CTX.sub(a)
    for m in b.t:
        for x, e in m:
            if len(b.t) == 1:
                ATOMS_nonzero(x)
    return mk(a * P.inv(b), False)


def ATOMS_nonzero(x):
    # on this path the atom is known non-zero
    CTX.nonzero.add(x)


def floor_(x):
    x = num(x)
    if not isinstance(x, SymNum):
        return math.floor(x)
    if x.int:
        return x
    a = P.atom("F", x.p, x.p)
    a.is_int = True
    r = SymNum(P.var(a), True)
    CTX.lemma(z3.And(CTX.z(P.var(a)) <= CTX.z(x.p), CTX.z(x.p) < CTX.z(P.var(a)) + 1))
    return r


def nearest(x):
    """the nearest integer, of two the even one"""
    x = num(x)
    if not isinstance(x, SymNum):
        return round(x)
    f = floor_(x)
    d = x - f
    if d < 0.5:
        return f
    if d == 0.5:
        return f if f % 2 == 0 else f + 1
    return f + 1


def to_int(x):
    if isinstance(x, SymNum):
        if x.int:
            return x
        if x >= 0:
            return floor_(x)
        return -floor_(-x)
    return int(x)


def divmod_(a, b):
    if special(a) or special(b):
        return divmod(CTX.concretize(a), CTX.concretize(b))
    ik = isintkind(a) and isintkind(b)
    if b == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    if isinstance(b, SymNum):
        b = b.__index__() if b.int else CTX.concretize(b)
    pa = lift(a)
    q = pa.scale(1 / lift(b).const())
    at = P.atom("F", q, q)
    at.is_int = True
    fl = SymNum(P.var(at), True)
    CTX.lemma(z3.And(CTX.z(P.var(at)) <= CTX.z(q), CTX.z(q) < CTX.z(P.var(at)) + 1))
    rem = mk(pa - fl.p * lift(b), ik)
    return (fl if ik else SymNum(fl.p, False)), rem


def num(x):
    if isinstance(x, SymBool):
        return int(bool(x))
    return x


# ---------------------------------------------------------------- math funcs
EXP_MAX = Fraction("709.782712893384")
EXP_MIN = Fraction("-745.1332191019412")


def exp_(x):
    x = num(x)
    if not isinstance(x, SymNum):
        return math.exp(x)
    if CTX.ieee:
        if sign_in(x.p - P.const(EXP_MAX), POS):
            raise OverflowError("math range error")
        if sign_in(x.p - P.const(EXP_MIN), NEG):
            return 0.0
    return mk(P.exp(CTX.sub(x.p)))


def expm1_(x):
    return exp_(x) - 1.0


def log_(x, base=None):
    x = num(x)
    if base is not None:
        return log_(x) / log_(base)
    if not isinstance(x, SymNum):
        return math.log(x)
    if not (x > 0):
        raise ValueError("math domain error")
    return mk(P.log(CTX.sub(x.p)))


def log1p_(x):
    return log_(1 + x)


def sqrt_(x):
    x = num(x)
    if not isinstance(x, SymNum):
        return math.sqrt(x)
    if x < 0:
        raise ValueError("math domain error")
    r = P.sqrt(CTX.sub(x.p))
    if CTX.rounding and not r.is_const():
        # square roots come out up to an ulp off
        CTX.nround += 1
        d = CTX.real("rounding%d" % CTX.nround, lo=-ULP, hi=ULP)
        r = r + r * d.p
    return mk(r)


def snapshot(v):
    if isinstance(v, (list, tuple)):
        return type(v)([snapshot(x) for x in v]) if type(v) in (list, tuple) else v
    return dict(v) if type(v) is dict else v


ULP = Fraction(1, 1 << 52)


def round32_(x):
    x = num(x)
    if not isinstance(x, SymNum):
        return P.f32(x)
    return mk(P.round32(CTX.sub(x.p)))


# ------------------------------------------------------------------- context
class Stats:
    def __init__(self):
        self.paths = 0
        self.decisions = 0
        self.queries = 0
        self.solver_s = 0.0
        self.obligations = 0
        self.discharged = 0
        self.inconclusive = []
        self.concretized = {}
        self.validated = 0
        self.mismatch = []
        self.samples = []
        self.functions = set()
        self.violations = []
        self.pruned = 0
        self.replays = 0
        self.truncated = False


class Ctx:
    symbolic = True

    def __init__(self, stats, replayer=None, seed=1, ieee=False, deadline=None, timeout_ms=10000, rounding=False, span=100, free=None):
        self.span = span
        self.free = free
        self.rounding = rounding
        self.stats = stats
        self.replayer = replayer
        self.seed = seed
        self.ieee = ieee
        self.deadline = deadline
        self.timeout_ms = timeout_ms
        self.prefix = []

    # ---- path life cycle
    def start(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.trail = []          # (choice, alternatives left)
        self.solver = z3.Solver()
        self.solver.set("timeout", self.timeout_ms)
        self.solver.set("random_seed", self.seed)
        self.asserted = []       # z3 path conditions (without lemmas)
        self.polyconds = []      # (Poly, set) for evaluation / NRA
        self.lemmaset = set()
        self.knownsign = {}
        self.knownf = {}
        self.sigma = {}
        self.sver = 0
        self.nonzero = set()
        self.vars = {}           # name -> atom (numbers)
        self.specials = {}       # name -> concrete value chosen by forking
        self.choices = {}
        self.fixedstrs = {}
        self.fixed = {}          # inputs given a constant (large cases)
        self.order = {}
        self.strvars = {}
        self.bytevars = {}
        self.chardom = {}
        self.tabvars = set()
        self.stashed = {}
        self.observed = []
        self.model = None
        self.checks = 0
        self.zcache = {}
        self.rlemmas = []
        self.signpairs = set()
        self.nround = 0

    def stash(self, v):
        t = "t%d" % len(self.stashed)
        self.stashed[t] = v
        return t

    # ---- z3 interface
    def zvar(self, a):
        if a.z is None:
            nm = "a%d" % a.id
            a.z = z3.ToReal(z3.Int(nm)) if a.is_int else z3.Real(nm)
        return a.z

    def zmono(self, m):
        if len(m) == 1 and m[0][1] == 1:
            v = self.zvar(ATOMS[m[0][0]])
        else:
            v = z3.Real("m" + "_".join("%d^%s" % (a, e) for a, e in m))
        if m not in self.lemmaset:
            self.lemmaset.add(m)
            self.mono_lemmas(m, v)
        return v

    def z(self, p):
        e = self.zcache.get(p)
        if e is None:
            terms = []
            for m, c in p.t.items():
                cc = z3.RealVal(str(c)) if c.denominator != 1 else z3.RealVal(c.numerator)
                terms.append(cc if m == P.ONE else (self.zmono(m) if c == 1 else cc * self.zmono(m)))
            e = z3.Sum(terms) if len(terms) > 1 else (terms[0] if terms else z3.RealVal(0))
            self.zcache[p] = e
        return e

    def lemma(self, f):
        self.solver.add(f)

    def mono_lemmas(self, m, v):
        if P.mono_positive(m):
            self.lemma(v > 0)
        elif P.mono_nonneg(m):
            self.lemma(v >= 0)
        if len(m) == 1 and m[0][1] == 1:
            at = ATOMS[m[0][0]]
            if at.kind == "E":
                x = self.z(at.arg)
                self.lemma(v >= 1 + x)
                self.lemma(z3.Implies(x < 0, v < 1))
                self.lemma(z3.Implies(x <= -40, v <= z3.RealVal("1/1000000000000000")))
            elif at.kind == "R":
                x = self.z(at.arg)
                d = z3.RealVal("1/16777216")
                ab = z3.If(x >= 0, x, -x)
                tiny = z3.RealVal("1/1" + "0" * 44)
                self.lemma(z3.And(v - x <= ab * d + tiny, x - v <= ab * d + tiny))
                self.lemma(z3.And(z3.Implies(x >= 0, v >= 0), z3.Implies(x <= 0, v <= 0)))
                for q, w in self.rlemmas:
                    y = self.z(q)
                    self.lemma(z3.And(z3.Implies(x <= y, v <= w), z3.Implies(x >= y, v >= w)))
                self.rlemmas.append((at.arg, v))
            elif at.kind == "L":
                x = self.z(at.arg)
                self.lemma(v <= x - 1)
                self.lemma(z3.And(z3.Implies(x > 1, v > 0), z3.Implies(x < 1, v < 0)))
                self.lse_lemmas(at.arg, v)
            elif at.kind == "S":
                x = self.z(at.arg)
                self.lemma(z3.And(z3.Implies(x > 1, z3.And(v > 1, v < x)), z3.Implies(x < 1, v < 1),
                                  z3.Implies(x == 0, v == 0), z3.Implies(x > 0, v > 0)))
            elif at.kind == "I":
                x = self.z(at.arg)
                self.lemma(z3.And(z3.Implies(x > 0, v > 0), z3.Implies(x < 0, v < 0),
                                  z3.Implies(x > 1, v < 1), z3.Implies(z3.And(x > 0, x < 1), v > 1)))
        elif len(m) > 1 or m[0][1] != 1:
            for a, e in m:
                at = ATOMS[a]
                if not at.pos and isinstance(e, int) and e > 0:
                    self.lemma(z3.Implies(self.zmono(((a, 1),)) == 0, v == 0))
            if len(m) == 2 and m[0][1] == 1 and m[1][1] == 1:
                x, y = self.zmono((m[0],)), self.zmono((m[1],))
                self.lemma(z3.And(z3.Implies(z3.Or(z3.And(x > 0, y > 0), z3.And(x < 0, y < 0)), v > 0),
                                  z3.Implies(z3.Or(z3.And(x > 0, y < 0), z3.And(x < 0, y > 0)), v < 0)))

    def samesign(self, p, q):
        """p equals q up to a positive factor: keep both forms comparable, so
        that sums of the one form follow from facts about the other"""
        if (p, q) in self.signpairs:
            return
        self.signpairs.add((p, q))
        a, b = self.z(p), self.z(q)
        self.lemma(z3.And((a > 0) == (b > 0), (a < 0) == (b < 0)))

    def exponents(self, q):
        """log of the size of each term when every term is c*exp(...)"""
        out = []
        for m, c in q.t.items():
            lin = P.const(P.snap(math.log(abs(float(c))))) if abs(c) != 1 else P.ZERO
            for a, e in m:
                at = ATOMS[a]
                if at.kind != "E":
                    return None
                lin = lin + at.arg.scale(Fraction(e))
            out.append((lin, c))
        return out

    def dominance(self, q):
        """a sum of exponentials has the sign of a term far above the others"""
        if len(q.t) < 2 or len(q.t) > 6 or ("dom", q) in self.signpairs:
            return
        self.signpairs.add(("dom", q))
        ts = self.exponents(q)
        if ts is None:
            return
        ts = [(self.z(l), c) for l, c in ts]
        v = self.z(q)
        for i, (t, c) in enumerate(ts):
            self.lemma(z3.Implies(z3.And([o - t <= -40 for j, (o, _) in enumerate(ts) if j != i]),
                                  v > 0 if c > 0 else v < 0))

    def logform(self, q):
        """log a - log b + x has the sign of a*exp(x) - b"""
        if len(q.t) > 8 or ("log", q) in self.signpairs:
            return
        self.signpairs.add(("log", q))
        cs = [abs(c) for m, c in q.t.items() if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "L"]
        if not cs or any(c != cs[0] for c in cs):
            return
        num, den = P.together(P.exp(q.scale(1 / cs[0])) - P.CONST1)
        if any(k % 2 and P.syn_sign(ATOMS[a].arg) not in ("+", ">=") and not self.positive(ATOMS[a].arg) for a, k in den.items()):
            return
        mm, r = P.content(num)
        if all(ATOMS[a].pos or (ATOMS[a].nonneg and e < 0) or (isinstance(e, int) and e % 2 == 0 and ATOMS[a].nonzero) for a, e in mm):
            l = P.lead(r)
            r = P.roundcoef(r.scale(1 / l))
            self.samesign(q, r if l > 0 else -r)

    def positive(self, p):
        """the path condition settles that p is positive"""
        return self.check(self.z(p) <= 0) == z3.unsat

    def grouped(self, q):
        """coefficients of different exponentials with one sign give the sum
        that sign"""
        if len(q.t) < 2 or len(q.t) > 24 or ("grp", q) in self.signpairs:
            return
        self.signpairs.add(("grp", q))
        groups = {}
        for m, c in q.t.items():
            ex = tuple(x for x in m if ATOMS[x[0]].kind == "E")
            rest = tuple(x for x in m if ATOMS[x[0]].kind != "E")
            groups.setdefault(ex, {})[rest] = c
        if len(groups) < 2 or all(len(g) < 2 for g in groups.values()):
            return
        v = self.z(q)
        rs = [self.z(Poly(g)) for g in groups.values()]
        self.lemma(z3.Implies(z3.And([r >= 0 for r in rs]), v >= 0))
        self.lemma(z3.Implies(z3.And([r <= 0 for r in rs]), v <= 0))
        self.lemma(z3.Implies(z3.And(z3.And([r >= 0 for r in rs]), z3.Or([r > 0 for r in rs])), v > 0))
        self.lemma(z3.Implies(z3.And(z3.And([r <= 0 for r in rs]), z3.Or([r < 0 for r in rs])), v < 0))

    def lse_lemmas(self, q, v):
        """log of a sum of exponentials lies just above the largest exponent"""
        if len(q.t) > 8 or any(c <= 0 for c in q.t.values()):
            return
        terms = self.exponents(q)
        if terms is None:
            return
        terms = [self.z(l) for l, c in terms]
        if len(terms) < 2:
            return
        n = len(terms)
        up = z3.RealVal(str(P.snap(math.log(n))))
        for t in terms:
            self.lemma(v >= t)
            self.lemma(z3.Implies(z3.And([o - t <= -40 for o in terms if o is not t]),
                                  v <= t + z3.RealVal("1/10000000000000")))
        self.lemma(z3.Or([v <= t + up + z3.RealVal("1/1000000") for t in terms]))

    def check(self, *fs):
        t = time.time()
        if self.deadline and t > self.deadline:
            raise Budget()
        r = self.solver.check(*fs)
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        return r

    # ---- substitution learnt from equalities
    def sub(self, p):
        if self.sigma:
            return P.subst(p, self.sigma, self.sver)
        return p

    def learn(self, p):
        """p == 0 on this path: solve for a variable when linear in one"""
        p = self.sub(p)
        best = None
        for m, c in p.t.items():
            if len(m) == 1 and m[0][1] == 1:
                a = ATOMS[m[0][0]]
                if a.kind != "v":
                    continue
                if any(a.id in P.Poly({mm: Fraction(1)}).atomdeps() for mm in p.t if mm != m):
                    continue
                if a.is_int and not p.t.get(P.ONE, Fraction(0)).denominator == 1:
                    continue
                best = (a, c)
                if len(p.t) <= 2:
                    break
        if best is None:
            return
        a, c = best
        rest = P.Poly({m: v for m, v in p.t.items() if m != ((a.id, 1),)}).scale(-1 / c)
        one = {a.id: rest}
        self.sver += 1
        Ctx._ver += 1
        v = Ctx._ver
        new = {k: P.subst(q, one, -v) for k, q in self.sigma.items()}
        new[a.id] = rest
        self.sigma = new
        self.sver = v
        self.knownsign = {}

    _ver = 0

    # ---- branching
    def known(self, q, s):
        """sign(q) in s for canonical non-constant q"""
        k = self.knownsign.get(q, ALLS)
        if not (k & ~s):
            return True
        if not (k & s):
            return False
        return SymBool(q, s)

    def branch(self, b):
        if b.f is None:
            r = self.known(b.p, b.set)
            if r is True or r is False:
                return r
        else:
            r = self.knownf.get(b.f.get_id())
            if r is not None:
                return r
        f = b.formula()
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos][0]
            left = self.prefix[self.pos][1]
            self.trail.append((v, left))
            self.pos += 1
        else:
            self.stats.decisions += 1
            nf = z3.Not(f)
            rt = self.check(f)
            rf = self.check(nf) if rt != z3.unsat else z3.sat
            if rt == z3.unsat:
                v, left = False, ()
            elif rf == z3.unsat:
                v, left = True, ()
            else:
                v, left = True, (False,)
            self.trail.append((v, left))
            self.pos += 1
        self.take(b, f, v)
        return v

    def take(self, b, f, v):
        g = f if v else z3.Not(f)
        self.solver.add(g)
        self.asserted.append(g)
        if b.f is None:
            s = b.set if v else ALLS & ~b.set
            self.polyconds.append((b.p, s))
            k = self.knownsign.get(b.p, ALLS) & s
            self.knownsign[b.p] = k
            if k == ZER:
                self.learn(b.p)
        else:
            self.knownf[b.f.get_id()] = v
            self._keep = getattr(self, "_keep", [])
            self._keep.append(b.f)

    def pick(self, name, options):
        """harness-level choice: every option is explored"""
        n = len(options)
        if name in self.choices:
            return options[self.choices[name]]
        if self.pos < len(self.prefix):
            v, left = self.prefix[self.pos]
        else:
            v, left = 0, tuple(range(1, n))
            if n > 1:
                self.stats.decisions += 1
        self.trail.append((v, left))
        self.pos += 1
        self.choices[name] = v
        return options[v]

    def enumerate(self, x):
        """value of a symbolic integer; forks over all feasible values"""
        for _ in range(400):
            if self.pos < len(self.prefix) and self.prefix[self.pos][0] is not None and isinstance(self.prefix[self.pos][0], tuple):
                _, v = self.prefix[self.pos][0]
            else:
                if self.check() != z3.sat:
                    raise PathEnd()
                v = self.solver.model().eval(self.z(self.sub(x.p)), model_completion=True)
                v = int(v.as_fraction()) if hasattr(v, "as_fraction") else int(str(v))
            self.trail.append((("val", v), ()))
            self.pos += 1
            if x == v:
                return v
        raise EngineError("unbounded enumeration")

    def concretize(self, x, why="value"):
        if isinstance(x, SymBool):
            return bool(x)
        if not isinstance(x, SymNum):
            return x
        self.stats.concretized[why] = self.stats.concretized.get(why, 0) + 1
        if self.pos < len(self.prefix):
            _, vals = self.prefix[self.pos][0]
        else:
            env = self.numeric_model()
            if env is None:
                raise PathEnd()
            vals = tuple((a, env[a]) for a in sorted(self.sub(x.p).atomdeps()))
        self.trail.append((("pin", vals), ()))
        self.pos += 1
        for a, v in vals:
            at = ATOMS[a]
            s = SymNum(P.var(at), at.is_int)
            c = s == (int(v) if at.is_int else v)
            if c is not True:
                if c is False:
                    raise PathEnd()
                self.take(c, c.formula(), True)
        p = self.sub(x.p)
        if p.is_const():
            c = p.const()
            return int(c) if x.int else float(c)
        v = P.evaluate(p, {})
        return int(v) if x.int else v

    # ---- harness API
    def real(self, name, lo=None, hi=None, pos=False, nonneg=False):
        lo, hi = limits(self.span, lo, hi)
        if self.held("real", name):
            if name not in self.fixed:
                l, h = (lo, hi) if lo > 4 or hi < -4 else (max(lo, -4), min(hi, 4))
                v = l + (h - l) * (self.draw(name) % 997) / 997.0
                r = math.floor(v * 8) / 8.0
                v = r if r >= lo and (r > 0 or not pos) else v
                self.fixed[name] = v if v > 0 or not pos else h / 2.0
            return self.fixed[name]
        a = P.atom("v", name, None, name)
        if pos:
            a.pos = a.nonneg = a.nonzero = True
        if nonneg or (lo is not None and lo >= 0):
            a.nonneg = True
        a.lo, a.hi = lo, hi
        self._declare(name, a)
        return mk(P.var(a))

    def held(self, kind, name):
        """large cases: all but the named, or every n-th, inputs are constants"""
        if self.free is None:
            return False
        if isinstance(self.free, (list, tuple)):
            return name not in self.free
        n = self.free.get(kind, 1) if isinstance(self.free, dict) else self.free
        if n is None:
            return True
        if (kind, name) not in self.order:
            k = self.order[kind] = self.order.get(kind, 0) + 1
            self.order[(kind, name)] = k - 1
        return self.order[(kind, name)] % n != n // 2

    def draw(self, name):
        import zlib
        return zlib.crc32(("%s/%d" % (name, self.seed)).encode()) >> 7

    def int(self, name, lo=0, hi=10):
        if self.held("int", name):
            return self.fixed.setdefault(name, lo + self.draw(name) % (hi - lo + 1))
        a = P.atom("v", name, None, name)
        a.is_int = True
        a.lo, a.hi = lo, hi
        if lo >= 0:
            a.nonneg = True
        if lo > 0:
            a.pos = a.nonzero = True
        self._declare(name, a)
        return mk(P.var(a), True)

    def str(self, name, length, alphabet):
        from .strs import CVar, SChar, mks
        if self.held("str", name):
            v = [alphabet[self.draw("%s.%d" % (name, i)) % len(alphabet)] for i in range(length)]
            self.fixedstrs[name] = v
            return "".join(v)
        cs = []
        for i in range(length):
            v = CVar("%s.%d" % (name, i), alphabet)
            v.dom()
            cs.append(SChar(v, dict(enumerate(alphabet))))
        self.strvars[name] = cs
        return mks(cs)

    def bytes(self, name, length):
        from .strs import SymBV, mkb
        bs = [SymBV.var("b!%s.%d" % (name, i), 8) for i in range(length)]
        self.bytevars[name] = bs
        return mkb(bs)

    def bits(self, name, width):
        from .strs import SymBV
        b = SymBV.var("n!%s" % name, width)
        self.bytevars[name] = b
        return b

    def _declare(self, name, a):
        if name in self.vars:
            return
        self.vars[name] = a
        z = self.zvar(a)
        self.zmono(((a.id, 1),))
        if a.lo is not None:
            self.solver.add(z > 0 if (a.pos and a.lo <= 0) else z >= z3.RealVal(str(Fraction(a.lo))))
        if a.hi is not None:
            self.solver.add(z <= z3.RealVal(str(Fraction(a.hi))))

    def choice(self, name, options):
        options = list(options)
        if self.held("choice", name):
            i = self.choices.setdefault(name, self.draw(name) % len(options))
            return options[i]
        return self.pick(name, list(options))

    def bool(self, name):
        return self.choice(name, [False, True])

    def assume(self, c):
        if isinstance(c, SymBool):
            f = c.formula()
            r = None
            if c.f is None:
                r = self.known(c.p, c.set)
            if r is True:
                return
            if r is False or self.check(f) == z3.unsat:
                self.stats.pruned += 1
                raise PathEnd()
            self.take(c, f, True)
        elif isinstance(c, SymNum):
            self.assume(c != 0)
        elif not c:
            self.stats.pruned += 1
            raise PathEnd()

    def ensure(self, c, what=""):
        """property assertion"""
        self.checks += 1
        self.stats.obligations += 1
        if isinstance(c, SymNum):
            c = c != 0
        if isinstance(c, SymBool):
            r = self.known(c.p, c.set) if c.f is None else None
            if r is True:
                c = True
            elif r is False:
                c = False
        if c is True or (not isinstance(c, SymBool) and c):
            # decided during execution under the solver's path condition
            self.stats.discharged += 1
            return
        if not isinstance(c, SymBool):
            self.fail([], what)
            return
        nf = z3.Not(c.formula())
        r = self.check(nf)
        if r == z3.unsat:
            self.stats.discharged += 1
            return
        self.fail([nf], what, [(c.p, ALLS & ~c.set)] if c.f is None else [])

    def zero(self, d, what, scale=None):
        """obligation d == 0"""
        self.stats.obligations += 1
        d0 = self.sub(d)
        lim = Fraction(1, 10 ** 10) * (scale or 1)
        p = P.folded(P.cleared(d0), lim / 100)
        t = {m: c for m, c in p.t.items() if abs(c) > lim}
        p = Poly(t)
        f = self.z(p) != 0
        r = self.check(f)
        if r == z3.unsat:
            self.stats.discharged += 1
            return
        self.fail([f], what, [(p, NEG | POS)])

    def eq(self, got, want, what="result"):
        self.checks += 1
        self.observed.append((what, snapshot(got)))
        self._eq(got, want, what)

    def multiset(self, got, want, what):
        """the same texts, each as often, in any order"""
        from .strs import S, SymStr
        self.checks += 1
        self.stats.obligations += 1
        got, want = list(got), list(want)
        self.observed.append((what, len(got)))
        if len(got) != len(want):
            self.fail([], "%s: %d, expected %d" % (what, len(got), len(want)))
            return

        def text(v):
            return isinstance(v, (str, SymStr))

        def surely(a, b):
            if not text(a) or not text(b):
                return a == b if not text(a) and not text(b) else False
            return len(a) == len(b) and S(a).eqf(S(b)) is True
        left = []
        for g in got:
            for i, w in enumerate(want):
                if surely(g, w) is True:
                    del want[i]
                    break
            else:
                left.append(g)
        if left:
            con = lambda v: v.concretize() if isinstance(v, SymStr) else v
            a, b = sorted(map(repr, map(con, left))), sorted(map(repr, map(con, want)))
            if a != b:
                self.fail([], "%s: %s, expected %s" % (what, a[:4], b[:4]))
                return
        self.stats.discharged += 1

    def _eq(self, a, b, what):
        from .strs import SymStr
        a, b = num(a), num(b)
        if isinstance(a, SymNum) or isinstance(b, SymNum):
            pa, pb = lift(a), lift(b)
            if pa is None or pb is None:
                self.stats.obligations += 1
                self.fail([], "%s: %r is not %r" % (what, a, b))
                return
            sc = max([abs(c) for c in pa.t.values()] + [abs(c) for c in pb.t.values()] + [Fraction(1, 10 ** 6)])
            self.zero(pa - pb, what, sc)
            return
        if isinstance(a, SymStr) or isinstance(b, SymStr) or (hasattr(a, "__sx_eq__") or hasattr(b, "__sx_eq__")):
            r = a == b
            if r is NotImplemented:
                r = False
            self.ensure(r, what)
            return
        if isinstance(b, (list, tuple)) and isinstance(a, (list, tuple)):
            if len(a) != len(b):
                self.stats.obligations += 1
                self.fail([], "%s: length %d, expected %d" % (what, len(a), len(b)))
                return
            for i, (x, y) in enumerate(zip(a, b)):
                self._eq(x, y, "%s[%d]" % (what, i))
            return
        if isinstance(b, dict) and isinstance(a, dict):
            if len(a) != len(b):
                self.stats.obligations += 1
                self.fail([], "%s: keys %r, expected %r" % (what, list(a), list(b)))
                return
            for k in list(b.keys()):
                if k not in a:
                    self.stats.obligations += 1
                    self.fail([], "%s: key %r missing" % (what, k))
                    return
                self._eq(a[k], b[k], "%s[%r]" % (what, k))
            return
        self.stats.obligations += 1
        if isinstance(a, bool) or isinstance(b, bool) or not (isinstance(a, (int, float)) and isinstance(b, (int, float))):
            if type(a) is type(b) or (isinstance(a, (int, float)) and isinstance(b, (int, float))):
                r = a == b
            else:
                r = a is b
            if r is NotImplemented:
                r = False
            if isinstance(r, SymBool):
                r = bool(r)
        else:
            r = close(a, b)
        if r:
            self.stats.discharged += 1
        else:
            self.fail([], "%s: %r, expected %r" % (what, a, b))

    def observe(self, what, v):
        self.observed.append((what, v))

    def margin(self, v, linear=False, ties=True):
        """concrete runs drop near ties; symbolic runs need not"""

    # ---- models
    def base_env(self, model):
        env = {}
        for name, a in self.vars.items():
            v = model.eval(self.zvar(a), model_completion=True)
            env[a.id] = tofloat(v, a.is_int)
        # variables eliminated by substitution follow from the others
        return self.close_env(env)

    def close_env(self, env):
        for _ in range(2):
            for a, q in self.sigma.items():
                try:
                    env[a] = P.evaluate(q, env)
                except P.EvalError:
                    pass
        return env

    def ok_env(self, env, extra=(), strict=False):
        """does the assignment satisfy the path condition numerically?"""
        cache = {}
        try:
            for name, a in self.vars.items():
                v = env[a.id]
                if a.lo is not None and v < float(a.lo) - 1e-12 or a.hi is not None and v > float(a.hi) + 1e-12:
                    return False
                if a.pos and v <= 0:
                    return False
            for p, s in list(self.polyconds) + list(extra):
                v = P.evaluate(p, env, cache)
                if strict and v != 0 and abs(v) < 1e-9:
                    return False
                k = ZER if abs(v) < 1e-11 else NEG if v < 0 else POS
                if not (k & s):
                    return False
        except P.EvalError:
            return False
        return True

    def rhints(self, env):
        """exact facts about single-precision rounding near a model"""
        out = []
        for a in list(ATOMS):
            if a.kind != "R" or ((a.id, 1),) not in self.lemmaset:
                continue
            try:
                x = P.evaluate(a.arg, env)
            except P.EvalError:
                continue
            v = P.f32(x)
            import numpy as np
            fv = np.float32(v)
            for c in (np.nextafter(fv, np.float32(-np.inf)), fv, np.nextafter(fv, np.float32(np.inf))):
                lo = Fraction(float(np.nextafter(c, np.float32(-np.inf))))
                hi = Fraction(float(np.nextafter(c, np.float32(np.inf))))
                cc = Fraction(float(c))
                l, h = (lo + cc) / 2, (hi + cc) / 2
                X = self.z(a.arg)
                out.append(z3.Implies(z3.And(X > z3.RealVal(str(l)), X < z3.RealVal(str(h))),
                                      self.zvar(a) == z3.RealVal(str(cc))))
        return out

    def nra(self, fs, extra):
        """precise query: monomials become products"""
        s = z3.Solver()
        s.set("timeout", 3000)
        for m in list(self.lemmaset):
            if len(m) == 1 and m[0][1] == 1:
                continue
            v = z3.Real("m" + "_".join("%d^%s" % (a, e) for a, e in m))
            num_, den = z3.RealVal(1), z3.RealVal(1)
            good = True
            for a, e in m:
                if not isinstance(e, int):
                    good = False
                    break
                b = self.zvar(ATOMS[a])
                for _ in range(abs(e)):
                    if e > 0:
                        num_ = num_ * b
                    else:
                        den = den * b
            if good:
                s.add(v * den == num_)
        for m in list(self.lemmaset):
            if len(m) == 1 and m[0][1] == 1:
                at = ATOMS[m[0][0]]
                b = self.zvar(at)
                if at.kind == "I":
                    s.add(b * self.z(at.arg) == 1)
                elif at.kind == "S":
                    s.add(b * b == self.z(at.arg))
        s.add(*self.solver.assertions())
        s.add(*fs)
        t = time.time()
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        return s.model() if r == z3.sat else None if r == z3.unknown else False

    def models(self, fs, extra=(), nra=True):
        """candidate assignments satisfying path and fs (best effort)"""
        import random
        rnd = random.Random(self.seed)
        seen = set()

        def emit(env):
            k = tuple(sorted(env.items()))
            if k in seen:
                return None
            seen.add(k)
            return env
        r = self.check(*fs)
        if r == z3.unsat:
            return
        base = None
        if r == z3.sat:
            base = self.base_env(self.solver.model())
            e = emit(base)
            if e is not None:
                yield e
            has_r = any(a.kind == "R" for a in ATOMS)
            if has_r:
                hints = []
                for _ in range(12):
                    hints += self.rhints(base)
                    if self.check(*(list(fs) + hints)) != z3.sat:
                        break
                    base = self.base_env(self.solver.model())
                    e = emit(base)
                    if e is not None:
                        yield e
        m = self.nra(fs, extra) if nra else None
        if m not in (None, False):
            base = self.base_env(m)
            e = emit(base)
            if e is not None:
                yield e
        names = list(self.vars.values())
        base = base or {a.id: 1.0 for a in names}
        for i in range(120 if not self.rounding else 1500):
            env = {}
            mode = i % 4
            for a in names:
                lo = float(a.lo) if a.lo is not None else -8.0
                hi = float(a.hi) if a.hi is not None else 8.0
                l, h = max(lo, -4.0), min(hi, 4.0)
                if l > h:
                    l, h = lo, hi
                unit = min(1.0, max(abs(l), abs(h)) / 4) or 1.0
                if a.is_int:
                    v = float(rnd.randint(int(math.ceil(l)), int(math.floor(h))))
                else:
                    v = round((l + (h - l) * rnd.random()) * 8 / unit) / 8.0 * unit
                    if mode == 3 and h > 4:
                        v = lo + (hi - lo) * rnd.random()
                    v = min(max(v, lo), hi)
                    if a.pos and v <= 0:
                        v = min(0.125 * unit, hi)
                if mode == 1 and rnd.random() < 0.5 and a.id in base:
                    v = base[a.id]
                if mode == 2 and a.id in base and not a.is_int:
                    v = base[a.id] + (rnd.random() - 0.5) * 0.25 * unit if rnd.random() < 0.5 else base[a.id]
                env[a.id] = v
            env = self.close_env(env)
            e = emit(env)
            if e is not None:
                yield e

    def numeric_model(self):
        for env in self.models([]):
            if self.ok_env(env):
                return env
        return None

    def inputs(self, env, model=None):
        d = {"vars": {}, "choices": dict(self.choices), "strs": {}, "bytes": {}, "span": self.span}
        d["vars"].update(self.fixed)
        d["strs"].update(self.fixedstrs)
        for name, a in self.vars.items():
            v = env[a.id]
            d["vars"][name] = int(round(v)) if a.is_int else v
        if (self.strvars or self.bytevars) and model is None:
            if self.check() != z3.sat:
                return d
            model = self.solver.model()
        if self.strvars:
            d["strs"].update(self.str_inputs(model))
        for name, b in self.bytevars.items():
            if isinstance(b, list):
                d["bytes"][name] = [model.eval(x.full(), model_completion=True).as_long() for x in b]
            else:
                d["bytes"][name] = model.eval(b.full(), model_completion=True).as_long()
        return d

    def str_inputs(self, model):
        if model is None:
            if self.check() != z3.sat:
                return {}
            model = self.solver.model()
        out = {}
        for name, chars in self.strvars.items():
            out[name] = [c.value(model) for c in chars]
        return out

    # ---- violations
    def fail(self, fs, what, extra=()):
        """the negated obligation is satisfiable: find inputs, replay them"""
        n = 0
        if self.strvars or self.bytevars:
            r = self.check(*fs)
            if r == z3.sat:
                m = self.solver.model()
                env = self.base_env(m)
                self.try_replay(self.inputs(env, m), what)
            for env in self.models(fs, extra):
                if self.check(*fs) == z3.sat:
                    self.try_replay(self.inputs(env, self.solver.model()), what)
                n += 1
                if n > 6:
                    break
        else:
            first = []
            for env in self.models(fs, extra):
                if self.ok_env(env) or n < 3:
                    self.try_replay(self.inputs(env), what)
                    n += 1
                if n > (25 if not self.rounding else 1200):
                    break
        self.stats.inconclusive.append(what)
        if os.environ.get("SX_TRACE"):
            print("INCONCLUSIVE", what)
            for p, st in self.polyconds:
                print("   ", "".join(x for x, b in (("<", NEG), ("=", ZER), (">", POS)) if st & b), P.show(p))
            for p, st in extra:
                print("  ? ", "".join(x for x, b in (("<", NEG), ("=", ZER), (">", POS)) if st & b), P.show(p))
        raise PathEnd()

    def try_replay(self, inp, what):
        self.stats.replays += 1
        if self.replayer is None:
            return
        res = self.replayer(inp)
        if res.get("status") == "fail":
            raise FoundViolation({"inputs": inp, "what": what, "real": res})

    def crashed(self, exc):
        self.stats.obligations += 1
        self.fail([], "unexpected %s: %s" % (type(exc).__name__, exc))


def close(a, b, rel=1e-6, ab=1e-9):
    if a == b:
        return True
    if a != a and b != b:
        return True
    if a in (math.inf, -math.inf) or b in (math.inf, -math.inf) or a != a or b != b:
        return False
    return abs(a - b) <= max(ab, rel * max(abs(a), abs(b)))


def tofloat(v, isint):
    try:
        if z3.is_algebraic_value(v):
            v = v.approx(20)
        f = v.as_fraction() if hasattr(v, "as_fraction") else Fraction(str(v))
    except Exception:
        f = Fraction(0)
    return int(f) if isint else float(f)


# ----------------------------------------------------------------- explorer
def explore(fn, args, c, max_paths=100000):
    """run fn(ctx, *args) on every feasible path"""
    global CTX
    CTX = c
    st = c.stats
    prefix = []
    try:
        while True:
            c.start(prefix)
            done = False
            try:
                try:
                    fn(c, *args)
                    done = True
                except (Control, KeyboardInterrupt):
                    raise
                except Exception as e:      # code under test blew up
                    import os
                    if os.environ.get("SX_TRACE"):
                        import traceback
                        traceback.print_exc()
                    c.crashed(e)
            except PathEnd:
                pass
            st.paths += 1 if done else 0
            if done and c.checks == 0:
                st.nochecks = getattr(st, "nochecks", 0) + 1
            if done:
                yield c
            trail = c.trail
            while trail and not trail[-1][1]:
                trail.pop()
            if not trail:
                return
            v, left = trail.pop()
            prefix = trail + [(left[0], left[1:])]
            prefix = [(a, b) for a, b in prefix]
            if st.paths >= max_paths:
                st.truncated = True
                return
    except Budget:
        st.truncated = True
