"""C22: fastText classification"""
from harness.fast import *

BOUNDS = ("2-7 labels, dimensions 1-3, vocabularies of 1-3 words, lines of 0-3 known and unknown words, k from -1 to labels+2, "
          "all real output weights in [-100,100] and all thresholds in [0,1]; lists of 0-3 lines; scores up to 1e300 for finiteness")
ASSUMPTIONS = ["arithmetic is idealised as real arithmetic", "labels of equal probability may come in any order"]
LABELS = ["__label__b", "__label__a", "__label__c", "__label__d", "__label__g", "__label__e", "__label__f"] + ["__label__%d" % (i * 7 % 400) for i in range(400)]


def build(ctx, words, dim, labels, rows=None, **k):
    """(converted model, input rows, output rows)"""
    if rows is None:
        rows = [[float((2 * i + 3 * j) % 5 - 1) for j in range(dim)] for i in range(len(words))]
    out = matrix(ctx, "o", labels, dim, **k)
    return load(Model(words, rows, LABELS[:labels], out)), rows, out


def scores(words, rows, out, toks):
    v = sentence(words, rows, toks, True)
    return softmax([rdot(v, o) for o in out])


def ranked(ctx, got, probs, k, threshold, hard=False):
    """got is (labels, probabilities): the k best reaching the threshold (hard: scores are not exactly it)"""
    n = len(probs)
    if k == -1:
        k = n
    ctx.ensure(len(got) == 2 and len(got[0]) == len(got[1]), "labels without probabilities")
    labels, ps = list(got[0]), list(got[1])
    above = []
    for i in range(n):
        ctx.margin(probs[i] - threshold, not hard, ties=not hard)
        if probs[i] >= threshold:
            above.append(i)
    ctx.eq(len(labels), min(k, len(above)), "number of labels")
    ids = []
    for l in labels:
        ctx.ensure(l in LABELS[:n], "unknown label")
        ids.append(LABELS.index(l))
    ctx.ensure(len(set(ids)) == len(ids), "label given twice")
    for i, p in zip(ids, ps):
        ctx.eq(p, probs[i], "probability")
        ctx.ensure(i in above, "label below the threshold")
    for a, b in zip(ids, ids[1:]):
        ctx.margin(probs[a] - probs[b], True)
        ctx.ensure(probs[a] >= probs[b], "order of labels")
    if ids:
        for i in above:
            if i not in ids:
                ctx.margin(probs[ids[-1]] - probs[i], True)
                ctx.ensure(probs[ids[-1]] >= probs[i], "a more probable label left out")


def answers(ctx, labels, dim, words, toks, pool, ks, thresholds, **k):
    m, rows, out = build(ctx, words, dim, labels, **k)
    line = [ctx.choice("t%d" % i, pool) for i in range(toks)]
    kk = ctx.choice("k", ks)
    t = ctx.choice("threshold", thresholds)
    hard = t not in (0.0, 0.0625, 0.5, 1.0)
    got = m.predict(ctx.choice("sep", [" ", "\t "]).join(line), k=kk, threshold=t)
    ranked(ctx, got, scores(words, rows, out, line), kk, t, hard)


def any_threshold(ctx, labels, kk):
    m, rows, out = build(ctx, ["a", EOS], 1, labels, rows=[[1.0], [1.0]])
    t = ctx.real("threshold", lo=0, hi=1)
    ranked(ctx, m.predict("a", k=kk, threshold=t), scores(["a", EOS], rows, out, ["a"]), kk, t)


def embeddings(ctx, labels, dim, words, line):
    """the input matrix varies too"""
    rows = matrix(ctx, "w", len(words), dim, lo=-10, hi=10)
    out = [[1.0 + i - j for j in range(dim)] for i in range(labels)]
    m = load(Model(words, rows, LABELS[:labels], out))
    ranked(ctx, m.predict(" ".join(line), k=-1), scores(words, rows, out, line), -1, 0.0)


def defaults(ctx, labels):
    m, rows, out = build(ctx, ["a", EOS], 1, labels)
    ranked(ctx, m.predict("a"), scores(["a", EOS], rows, out, ["a"]), 1, 0.0)
    ranked(ctx, m.predict("a", k=labels), scores(["a", EOS], rows, out, ["a"]), labels, 0.0)


def many(ctx, labels, kk):
    """more labels, one weight free among fixed ones"""
    at = ctx.choice("free", [0, labels // 2, labels - 1])
    out = [[float((3 * i) % labels) - 1.0] for i in range(labels)]
    out[at] = [ctx.real("o", lo=-20, hi=20)]
    m = load(Model(["a", EOS], [[1.0], [1.0]], LABELS[:labels], out))
    t = ctx.choice("threshold", [0.0, 0.1])
    hard = t > 0
    ranked(ctx, m.predict("a", k=kk, threshold=t), softmax([o[0] for o in out]), kk, t, hard)


def lists(ctx, n, kk):
    words = ["a", "b", EOS]
    m, rows, out = build(ctx, words, 1, 2)
    lines = [ctx.choice("line%d" % i, ["a", "b b", "", "zz a"] if n < 3 or n > 9 else ["a", ""]) for i in range(n)]
    t = ctx.choice("threshold", [0.0, 0.6])
    hard = t > 0
    given = list(lines)
    got = m.predict(lines, k=kk, threshold=t)
    ctx.ensure(len(got) == 2 and len(got[0]) == n and len(got[1]) == n, "one answer per line")
    for i in range(n):
        ranked(ctx, (got[0][i], got[1][i]), scores(words, rows, out, lines[i].split()), kk, t, hard)
        one = m.predict(lines[i], k=kk, threshold=t)
        ctx.eq([list(got[0][i]), list(got[1][i])], [list(one[0]), list(one[1])], "answer of a line on its own")
    ctx.ensure(lines == given, "lines changed")


def newline(ctx, length):
    m, _, _ = build(ctx, ["a", EOS], 1, 2)
    i = ctx.choice("at", list(range(length + 1)))
    text = ctx.str("text", length, "a \r")
    text = text[:i] + "\n" + text[i:]
    ctx.ensure(raises(lambda: m.predict(text)), "several lines taken for one")
    ctx.ensure(raises(lambda: m.predict([text])), "several lines taken for one, in a list")
    ctx.ensure(raises(lambda: m.predict(["a", text])), "several lines taken for one, in a list")


def refused(ctx):
    m, _, _ = build(ctx, ["a", EOS], 1, 2)
    kk = ctx.choice("k", [0, -2, -5])
    ctx.ensure(raises(lambda: m.predict("a", k=kk)), "k below one")
    u = load(Model(["a", "b"], matrix(ctx, "w", 2, 1)))
    ctx.ensure(raises(lambda: u.predict("a")), "unsupervised model predicts")
    ctx.ensure(raises(lambda: u.predict(["a"])), "unsupervised model predicts")


def finite(ctx, labels, scale):
    """scores of any size"""
    out = [[ctx.real("o%d" % i, lo=-1000, hi=1000)] for i in range(labels)] if scale == 1 else \
        [[ctx.choice("o%d" % i, [1.0, -1.0, 0.0, 0.5])] for i in range(labels)]
    m = load(Model(["a", EOS], [[scale], [scale]], LABELS[:labels], out))
    got = m.predict("a", k=-1)
    ctx.eq(len(got[0]), labels, "number of labels")
    t = 0.0
    for p in got[1]:
        ctx.ensure(p >= 0, "probability below 0")
        ctx.ensure(p < 1.000001, "probability above 1")
        t = t + p
    ctx.ensure(t > 0.999999, "probabilities sum to less than 1")
    ctx.ensure(t < 1.000001, "probabilities sum to more than 1")


def cases(tier):
    deep = tier == "thorough"
    w2 = ["a", "b", EOS]
    out = []
    out.append(("answers", dict(labels=2, dim=1, words=["a", EOS], toks=1, pool=["a", "zz"], ks=[-1, 1, 2, 3], thresholds=[0.0, 0.5, 0.7, 1.0])))
    out.append(("answers", dict(labels=2, dim=2, words=w2, toks=2, pool=["a", "b", "zz"], ks=[1, 2], thresholds=[0.0])))
    out.append(("answers", dict(labels=3, dim=1, words=["a", EOS], toks=1, pool=["a"], ks=[-1, 1, 2, 3, 5], thresholds=[0.0, 0.4])))
    out.append(("answers", dict(labels=2, dim=3, words=w2, toks=0, pool=["a"], ks=[1, 2], thresholds=[0.0, 0.5])))
    out.append(("answers", dict(labels=2, dim=1, words=w2, toks=3, pool=["a", "b", "zz"], ks=[2], thresholds=[0.5])))
    out.append(("answers", dict(labels=3, dim=2, words=w2, toks=1, pool=["a", "b"], ks=[2], thresholds=[0.0])))
    out.append(("answers", dict(labels=2, dim=1, words=["a", "b"], toks=1, pool=["zz"], ks=[1, 2], thresholds=[0.0, 0.5])))
    if deep:
        out.append(("answers", dict(labels=4, dim=1, words=["a", EOS], toks=1, pool=["a"], ks=[-1, 1, 2, 3], thresholds=[0.0, 0.3]), dict(max_paths=60000)))
        out.append(("answers", dict(labels=3, dim=3, words=w2, toks=2, pool=["a", "b", "zz"], ks=[-1, 2], thresholds=[0.0, 0.34])))
    for k in (1, -1):
        out.append(("any_threshold", dict(labels=2, kk=k)))
    if deep:
        out.append(("any_threshold", dict(labels=3, kk=2)))
    for dim in (1, 2):
        out.append(("embeddings", dict(labels=2, dim=dim, words=w2, line=["b", "a"])))
        out.append(("embeddings", dict(labels=3, dim=dim, words=w2, line=["a", "a"])))
    for labels, k in ((5, 2), (5, -1), (7, 4), (7, -1)):
        out.append(("many", dict(labels=labels, kk=k)))
    for labels, dim, toks, n in ((30, 2, 3, 1), (2, 300, 3, 1), (12, 20, 200, 1)):
        ws = ["w%d" % i for i in range(30)] + [EOS]
        free = {"free": ["o%d_1" % (labels // 2)]}
        for k in (1, 3, labels // 2, labels, -1, labels + 7):
            out.append(("answers", dict(labels=labels, dim=dim, words=ws, toks=toks, pool=ws[:8] + ["zz"], ks=[k], thresholds=[0.0]), free))
            out.append(("answers", dict(labels=labels, dim=dim, words=ws, toks=toks, pool=ws[:8] + ["zz"], ks=[k], thresholds=[0.0625]), free))
    out.append(("lists", dict(n=150, kk=-1), {"free": ["o0_0"]}))
    for labels in (2, 3):
        out.append(("defaults", dict(labels=labels)))
    for n in (1, 2, 3):
        out.append(("lists", dict(n=n, kk=-1)))
    out.append(("lists", dict(n=0, kk=1)))
    for length in (0, 2):
        out.append(("newline", dict(length=length)))
    out.append(("refused", {}))
    for labels in (2, 3) if not deep else (2, 3, 4):
        for scale in (1, 1e4, 1e300, 1e-300):
            out.append(("finite", dict(labels=labels, scale=scale), dict(ieee=True)))
    return out
