"""symbolic decision trees shared by the tree, forest and boosting harnesses"""
from harness.lib import *

# (left, right) children by node; -1 at leaves.  The last two are not in
# depth-first order, as best-first growth leaves them.
SHAPES = {
    "leaf": ([-1], [-1]),
    "stump": ([1, -1, -1], [2, -1, -1]),
    "left": ([1, 2, -1, -1, -1], [4, 3, -1, -1, -1]),
    "right": ([1, -1, 3, -1, -1], [2, -1, 4, -1, -1]),
    "full": ([1, 2, -1, -1, 5, -1, -1], [4, 3, -1, -1, 6, -1, -1]),
    "best": ([1, 3, 5, -1, -1, -1, -1], [2, 4, 6, -1, -1, -1, -1]),
    "swap": ([2, -1, 4, -1, -1], [1, -1, 3, -1, -1]),
    "deep": ([1, 2, 3, -1, -1, -1, 7, -1, -1], [6, 5, 4, -1, -1, -1, 8, -1, -1]),
}


def _complete(depth):
    left, right = [], []

    def grow(d):
        i = len(left)
        left.append(-1)
        right.append(-1)
        if d:
            left[i] = grow(d - 1)
            right[i] = grow(d - 1)
        return i
    grow(depth)
    return left, right


def _chain(depth):
    """one long branch turning left and right"""
    left, right = [-1], [-1]
    at = 0
    for d in range(depth):
        n = len(left)
        left += [-1, -1]
        right += [-1, -1]
        left[at], right[at] = (n, n + 1) if d % 3 else (n + 1, n)
        at = n if d % 2 else n + 1
    return left, right


LARGE = {"complete": _complete(6), "chain": _chain(70), "bigchain": _chain(600)}


class FittedTree:
    pass


def symtree(ctx, name, shape, nfeat, k, regress=False, feats=None, lim=None):
    """(stand-in for tree_, reference leaf lookup)"""
    left, right = SHAPES.get(shape) or LARGE[shape]
    n = len(left)
    feat, thr, val = [], [], []
    for i in range(n):
        if left[i] == -1:
            feat.append(-2)
            thr.append(-2.0)
        else:
            feat.append(feats[i] if feats is not None else ctx.choice("%s_f%d" % (name, i), list(range(nfeat))))
            thr.append(ctx.real("%s_t%d" % (name, i), **({} if lim is None else dict(lo=-lim, hi=lim))))
        if regress:
            val.append([ctx.real("%s_v%d" % (name, i))])
        else:
            val.append([ctx.real("%s_v%d_%d" % (name, i, c), nonneg=True, lo=0 if k > 1 else 0.125, hi=100) for c in range(k)])
            if left[i] == -1:
                t = 0.0
                for a in val[-1]:
                    t = t + a
                ctx.assume(t > 0.001)
    t = FittedTree()
    t.children_left = Arr(list(left), "int64")
    t.children_right = Arr(list(right), "int64")
    t.feature = Arr(list(feat), "int64")
    t.threshold = Arr(list(thr))
    t.value = Arr([[list(v)] for v in val])
    t.node_count = n
    t.n_node_samples = Arr([10] * n, "int64")

    def leaf(x):
        i = 0
        while left[i] != -1:
            if f32(x[feat[i]]) <= thr[i]:
                i = left[i]
            else:
                i = right[i]
        return val[i]
    return t, leaf


def dist(w):
    t = 0.0
    for a in w:
        t = t + a
    return [a / t for a in w]
