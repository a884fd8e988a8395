"""Concrete twin of the executor context: runs a harness on the real code with
given inputs.  Used to replay counterexamples and to validate sampled paths."""
import importlib
import json
import math
import os
import sys
import traceback


class AssumeFailed(BaseException):
    pass


class CheckFailed(BaseException):
    pass


def limits(span, lo, hi):
    """the range of an input: [-span,span] unless the harness says otherwise"""
    return -span if lo is None else lo, span if hi is None else hi


class ConcreteCtx:
    symbolic = False

    def __init__(self, inputs):
        self.inp = inputs
        self.span = inputs.get("span", 100)
        # over a wide range rounding is relative to the products of the inputs
        big = max([1.0] + [abs(v) for v in inputs["vars"].values() if isinstance(v, (int, float)) and abs(v) < 1e150])
        self.slack = 1e-13 * big * big if self.span > 100 else 1e-14 if self.span < 1 else 1e-9
        self.big = max([1.0] + [abs(v) for v in inputs["vars"].values() if isinstance(v, (int, float))])
        self.observed = []
        self.checks = 0

    def real(self, name, lo=None, hi=None, pos=False, nonneg=False):
        lo, hi = limits(self.span, lo, hi)
        v = self.inp["vars"].get(name)
        if v is None:
            v = 1.0 if pos else 0.0
        v = float(v)
        if v < lo or v > hi or (pos and v <= 0) or (nonneg and v < 0):
            raise AssumeFailed(name)
        return v

    def int(self, name, lo=0, hi=10):
        v = int(self.inp["vars"].get(name, lo))
        if v < lo or v > hi:
            raise AssumeFailed(name)
        return v

    def str(self, name, length, alphabet):
        v = self.inp["strs"].get(name)
        if v is None:
            v = [alphabet[0]] * length
        return "".join(v[:length]) + alphabet[0] * (length - len(v))

    def bytes(self, name, length):
        v = self.inp["bytes"].get(name) or [0] * length
        return bytes(v)

    def bits(self, name, width):
        return int(self.inp["bytes"].get(name) or 0)

    def choice(self, name, options):
        options = list(options)
        i = self.inp["choices"].get(name, 0)
        if i >= len(options):
            raise AssumeFailed(name)
        return options[i]

    def bool(self, name):
        return self.choice(name, [False, True])

    def assume(self, c):
        if not c:
            raise AssumeFailed("assume")

    def margin(self, v, linear=False, ties=True):
        """near ties are left out: the real code computes in floating point
        (linear: v is a short sum of products of two inputs; ties: it can be zero without rounding)"""
        bound = (1e-14 if len(self.inp["vars"]) <= 60 else 1e-12) * self.big ** 2 if linear else self.slack if self.span < 1 else max(1e-9, self.slack)
        if isinstance(v, float) and (v != 0 or not ties) and abs(v) < bound:
            raise AssumeFailed("near tie")

    def ensure(self, c, what=""):
        self.checks += 1
        if not c:
            raise CheckFailed(what)

    def observe(self, what, v):
        self.observed.append((what, enc(v)))

    def multiset(self, got, want, what):
        self.checks += 1
        got, want = list(got), list(want)
        self.observed.append((what, len(got)))
        a, b = sorted(map(repr, got)), sorted(map(repr, want))
        if a != b:
            raise CheckFailed("%s: %s, expected %s" % (what, got, want))

    def eq(self, got, want, what="result"):
        self.checks += 1
        self.observed.append((what, enc(got)))
        self._eq(got, want, what)

    def _eq(self, a, b, what):
        if isinstance(b, (list, tuple)) and isinstance(a, (list, tuple)):
            if len(a) != len(b):
                raise CheckFailed("%s: length %d, expected %d" % (what, len(a), len(b)))
            for i, (x, y) in enumerate(zip(a, b)):
                self._eq(x, y, "%s[%d]" % (what, i))
            return
        if isinstance(b, dict) and isinstance(a, dict):
            if len(a) != len(b):
                raise CheckFailed("%s: keys %r, expected %r" % (what, sorted(a, key=str), sorted(b, key=str)))
            for k in b:
                if k not in a:
                    raise CheckFailed("%s: key %r missing" % (what, k))
                self._eq(a[k], b[k], "%s[%r]" % (what, k))
            return
        num = (int, float)
        if isinstance(a, num) and isinstance(b, num):
            if not close(float(a) if abs(a) < 1e300 else a, float(b) if abs(b) < 1e300 else b, ab=max(1e-9, self.slack) if self.span >= 1 else self.slack):
                raise CheckFailed("%s: %r, expected %r" % (what, a, b))
            return
        if type(a) is type(b):
            ok = a == b
        else:
            ok = a is b
        if not ok:
            raise CheckFailed("%s: %r, expected %r" % (what, a, b))


def close(a, b, rel=1e-6, ab=1e-9):
    if a == b or (a != a and b != b):
        return True
    if a != a or b != b or math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= max(ab, rel * max(abs(a), abs(b)))


def enc(v):
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return v
    if isinstance(v, (int, float)):
        if isinstance(v, float) and (v != v or math.isinf(v)):
            return repr(v)
        return v
    if isinstance(v, (list, tuple)):
        return [enc(x) for x in v]
    if isinstance(v, dict):
        return {"#": sorted([[str(k), enc(x)] for k, x in v.items()], key=lambda p: p[0])}
    if isinstance(v, bytes):
        return "b:" + v.hex()
    return "<%s>" % type(v).__name__


def run(modname, case, inputs, args):
    mod = importlib.import_module("harness." + modname)
    c = ConcreteCtx(inputs)
    fn = getattr(mod, case)
    try:
        fn(c, **args)
    except AssumeFailed as e:
        return {"status": "skip", "why": str(e)}
    except CheckFailed as e:
        return {"status": "fail", "why": str(e), "obs": c.observed}
    except RecursionError:
        return {"status": "fail", "why": "RecursionError", "obs": c.observed}
    except Exception as e:
        return {"status": "fail", "why": "%s: %s" % (type(e).__name__, e), "obs": c.observed,
                "tb": traceback.format_exc().splitlines()[-6:]}
    return {"status": "pass", "obs": c.observed, "checks": c.checks}


def serve():
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    import signal
    import warnings
    warnings.simplefilter("ignore")

    def alarm(*a):
        raise CheckFailed("does not terminate within 20 s")
    signal.signal(signal.SIGALRM, alarm)
    for line in sys.stdin:
        q = json.loads(line)
        signal.alarm(20)
        try:
            r = run(q["mod"], q["fn"], q["inputs"], q["args"])
        except BaseException as e:
            r = {"status": "fail" if isinstance(e, CheckFailed) else "error", "why": "%s: %s" % (type(e).__name__, e)}
        signal.alarm(0)
        out.write(json.dumps(r, default=str) + "\n")
        out.flush()


if __name__ == "__main__":
    if len(sys.argv) > 1:
        q = json.load(open(sys.argv[1]))
        r = run(q["mod"], q["fn"], q["inputs"], q["args"])
        print(json.dumps(r, indent=1, default=str))
        sys.exit(1 if r["status"] == "fail" else 0)
    serve()
