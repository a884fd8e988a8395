"""C23: fastText word and sentence vectors"""
from harness.fast import *

BOUNDS = ("vocabularies of 1-4 words in any order, dimensions 1-3, all real matrix entries in [-100,100] including zero rows; sentences "
          "of 0-8 known and unknown words and all texts of up to 4 characters over letters, the documented separators and other "
          "blanks that are not separators; supervised and unsupervised models")
ASSUMPTIONS = ["arithmetic is idealised as real arithmetic"]
BLANKS = ["\x1c", "\x1f", "\x85", "\u00a0", "\u2003", "\u3000", "\x08"]


def build(ctx, words, dim, supervised, concrete=False, **k):
    rows = [[float(3 * i - 2 * j + 1) for j in range(dim)] for i in range(len(words))] if concrete else matrix(ctx, "w", len(words), dim, **k)
    if supervised:
        labels = ["__label__a", "__label__b"]
        return load(Model(words, rows, labels, [[1.0] * dim, [0.5] * dim])), rows
    return load(Model(words, rows)), rows


def shuffled(ctx, words):
    left = list(words)
    out = []
    while left:
        w = ctx.choice("order%d" % len(out), left) if len(left) > 1 else left[0]
        left = [x for x in left if x != w]
        out.append(w)
    return out


def word(ctx, words, dim, supervised):
    words = shuffled(ctx, words)
    m, rows = build(ctx, words, dim, supervised)
    for t in list(words) + ["zz", "", "A", "a ", "b\n"]:
        want = rows[words.index(t)] if t in words else [0.0] * dim
        ctx.eq(m.get_word_vector(t), want, "vector of a word")
    for i in range(len(words)):
        ctx.eq(m.get_input_vector(i), rows[i], "input vector")
        ctx.eq(m.get_word_id(words[i]), i, "word id")
    ctx.eq(m.get_word_id("zz"), -1, "id of an unknown word")


def any_word(ctx, length, supervised):
    words = ["a", "ab", EOS, "bb", "b"]
    m, rows = build(ctx, words, 2, supervised)
    t = ctx.str("word", length, "abc")
    want = [0.0, 0.0]
    for w, r in zip(words, rows):
        if t == w:
            want = r
    ctx.eq(m.get_word_vector(t), want, "vector of a word")


def line(ctx, words, dim, n, supervised, pool, **k):
    words = shuffled(ctx, words)
    m, rows = build(ctx, words, dim, supervised, **k)
    toks = [ctx.choice("t%d" % i, pool) for i in range(n)]
    sep = ctx.choice("sep", [" ", "\t", "  "])
    edge = ctx.choice("edge", ["", " ", "\x0b "])
    ctx.eq(m.get_sentence_vector(edge + sep.join(toks) + edge), sentence(words, rows, toks, supervised), "sentence vector")


def separators(ctx, length, supervised, letters, odd):
    """every text: words end at exactly the documented separators"""
    words = ["a", "b", "ab", "aa"] + ([EOS] if supervised else []) + ["a" + odd, odd, "a" + odd + "a"]
    m, rows = build(ctx, words, 1, supervised, lo=1, hi=100, pos=True) if supervised else build(ctx, words, 2, supervised, concrete=True)
    text = ctx.str("text", length, letters + odd)
    toks, w = [], ""
    for i in range(length + 1):
        c = text[i] if i < length else " "
        if c in SEPS:
            if len(w):
                toks.append(w)
            w = ""
        else:
            w = w + c
    known = []
    for t in toks:
        for x in words:
            if t == x:
                known.append(x)
    ctx.eq(m.get_sentence_vector(text), sentence(words, rows, known, supervised), "sentence vector")


def newline(ctx, length, supervised):
    m, _ = build(ctx, ["a", EOS], 1, supervised)
    i = ctx.choice("at", list(range(length + 1)))
    text = ctx.str("text", length, "a \r\t")
    text = text[:i] + "\n" + text[i:]
    ctx.ensure(raises(lambda: m.get_sentence_vector(text)), "several lines taken for one")


def separate(ctx, supervised):
    """vectors handed out are the caller's own"""
    words = ["a", "b", EOS]
    m, rows = build(ctx, words, 2, supervised, lo=1, hi=100, pos=True)
    want = sentence(words, rows, ["a"], supervised)
    for got, again, w in ((m.get_word_vector("a"), lambda: m.get_word_vector("a"), rows[0]),
                          (m.get_sentence_vector("a"), lambda: m.get_sentence_vector("a"), want),
                          (m.get_word_vector("q"), lambda: m.get_word_vector("q"), [0.0, 0.0]),
                          (m.get_input_vector(1), lambda: m.get_input_vector(1), rows[1])):
        ctx.eq(got, w, "vector")
        got[0] = 1000.0
        ctx.eq(again(), w, "vector after the caller changed an earlier one")


def cases(tier):
    deep = tier == "thorough"
    out = []
    for s in (False, True):
        e = [EOS] if s else []
        out.append(("word", dict(words=["a", "b"] + e, dim=2, supervised=s)))
        out.append(("word", dict(words=["a"], dim=3, supervised=s)))
        for n in (1, 2, 3):
            out.append(("any_word", dict(length=n, supervised=s)))
        for n in (0, 1, 2):
            out.append(("line", dict(words=["a", "b"] + e, dim=2, n=n, supervised=s, pool=["a", "b", "zz"])))
        out.append(("line", dict(words=["a", "b"] + e, dim=1, n=3, supervised=s, pool=["a", "b", "zz"])))
        out.append(("line", dict(words=["b", "a"], dim=1, n=2, supervised=s, pool=["a", "b", EOS])))
        out.append(("line", dict(words=["b", EOS, "a"], dim=1, n=2, supervised=s, pool=["a", "b", EOS, "</s", "s"])))
        for n in (5, 8):
            out.append(("line", dict(words=["a"] + e, dim=1, n=n, supervised=s, pool=["a"])))
            out.append(("line", dict(words=["a", "b"] + e, dim=1, n=n, supervised=s, pool=["a", "b"] if n == 5 else ["b"], lo=1, hi=100, pos=True)))
        out.append(("line", dict(words=["a"] + e, dim=3, n=1, supervised=s, pool=["a", "zz"])))
        if deep:
            out.append(("line", dict(words=["a", "b", "c"] + e, dim=2, n=3, supervised=s, pool=["a", "b", "c", "zz"], lo=1, hi=100, pos=True), dict(max_paths=60000)))
            out.append(("line", dict(words=["a", "b"], dim=2, n=4, supervised=s, pool=["a", "b", "zz", "A"]), dict(max_paths=60000)))
        for odd in BLANKS:
            out.append(("separators", dict(length=3, supervised=s, letters="a ", odd=odd)))
        out.append(("separators", dict(length=4 if deep else 3, supervised=s, letters="ab" + SEPS, odd="\u00a0")))
        if deep:
            for odd in BLANKS:
                out.append(("separators", dict(length=4, supervised=s, letters="a" + SEPS[:3], odd=odd)))
        ws = ["w%d" % i for i in range(70)] + e
        for dim, n in ((300, 2), (2, 300), (30, 30)):
            out.append(("line", dict(words=ws, dim=dim, n=n, supervised=s, pool=ws[:40] + ["zz"], lo=1, hi=100, pos=True),
                        {"free": ["w0_1", "w3_0", "t1"][: 3 if dim < 9 else 2]}))
        out.append(("word", dict(words=ws, dim=300, supervised=s), {"free": ["w0_299", "w60_0"]}))
        for n in (0, 2):
            out.append(("newline", dict(length=n, supervised=s)))
        out.append(("separate", dict(supervised=s)))
    return out
