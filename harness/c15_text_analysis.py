"""C15: tokens and n-grams"""
from harness.lib import *

BOUNDS = ("documents of 0-5 characters (thorough 0-6) over alphabets mixing letters of both cases, digits, underscore, "
          "blanks, tabs, line breaks, punctuation, accented, compatibility, CJK and combining characters; n-gram ranges "
          "(1,1) to (1,3) and (2,2) to (3,3) (thorough to 4), three analysers, lower-casing, both accent strippers, stop word "
          "lists, five token patterns, text, bytes, open files and named files (with every line ending and byte order mark) in three encodings")
ASSUMPTIONS = []
NUMBERS = False
WORD = r"(?u)\b\w\w+\b"
FLAT = {"unicode": {"é": "e", "É": "E", "ü": "u", "ﬁ": "fi", "ñ": "n", "漢": "漢", "\u0301": "", "ß": "ß", "½": "1\u20442", "𝐀": "A", "Σ": "Σ"},
        "ascii": {"é": "e", "É": "E", "ü": "u", "ﬁ": "fi", "ñ": "n", "漢": "", "\u0301": "", "ß": "", "½": "12", "𝐀": "A", "Σ": ""}}


def vectoriser(kind="CountVectorizer", **k):
    a = dict(dtype=float, binary=False, analyzer="word", preprocessor=None, tokenizer=None, stop_words=None,
             token_pattern=WORD, ngram_range=(1, 1), strip_accents=None, decode_error="strict", encoding="utf-8",
             lowercase=True, input="content")
    if kind == "HashingVectorizer":
        a.update(norm=None, n_features=64, alternate_sign=False)
    else:
        a.update(vocabulary_={"x": 0})
    a.update(k)
    return convert(make(kind, **a))


# ---------------------------------------------------------------- reference
def lowered(s):
    return [c for ch in s for c in ch.lower()]


def flattened(cs, how):
    if how is None:
        return cs
    out = []
    for c in cs:
        done = False
        for k, v in FLAT[how].items():
            if c == k:
                out.extend(list(v))
                done = True
                break
        if not done:
            out.append(c)
    return out


def wordchar(c):
    return c.isalnum() or c == "_"


def runs(cs, keep, least):
    """maximal runs of characters that satisfy keep, of at least so many"""
    out, run = [], []
    for c in list(cs) + [None]:
        if c is not None and keep(c):
            run.append(c)
            continue
        if len(run) >= least:
            out.append(run)
        run = []
    return out


def tokens(cs, pattern):
    if pattern == WORD:
        return runs(cs, wordchar, 2)
    if pattern == r"(?u)\b\w+\b" or pattern == r"\w+":
        return runs(cs, wordchar, 1)
    if pattern == r"[^,]+":
        return runs(cs, lambda c: c != ",", 1)
    if pattern == r"\b(\w)\w*":
        return [r[:1] for r in runs(cs, wordchar, 1)]
    if pattern == r"\w\w":
        return [r[i:i + 2] for r in runs(cs, wordchar, 2) for i in range(0, len(r) - 1, 2)]
    raise ValueError(pattern)


def word_ngrams(words, lo, hi, stop):
    if stop:
        words = [w for w in words if not any("".join(w) == s for s in stop)]
    out = []
    for i in range(len(words)):
        for n in range(lo, hi + 1):
            if i + n <= len(words):
                g = list(words[i])
                for w in words[i + 1:i + n]:
                    g = g + [" "] + w
                out.append("".join(g))
    return out


def collapsed(cs):
    """runs of two or more blanks become one space"""
    out, i = [], 0
    while i < len(cs):
        j = i
        while j < len(cs) and cs[j].isspace():
            j += 1
        if j - i >= 2:
            out.append(" ")
            i = j
        else:
            out.append(cs[i])
            i += 1
    return out


def windows(cs, n):
    return ["".join(cs[i:i + n]) for i in range(len(cs) - n + 1)]


def char_ngrams(cs, lo, hi):
    cs = collapsed(cs)
    return [g for n in range(lo, hi + 1) for g in windows(cs, n)]


def char_wb_ngrams(cs, lo, hi):
    out = []
    for w in runs(cs, lambda c: not c.isspace(), 1):
        w = [" "] + w + [" "]
        for n in range(lo, hi + 1):
            if n >= len(w):
                out.append("".join(w))
                break
            out.extend(windows(w, n))
    return out


def expected(cs, analyzer, rng, pattern, stop):
    if analyzer == "word":
        return word_ngrams(tokens(cs, pattern), rng[0], rng[1], stop)
    return (char_ngrams if analyzer == "char" else char_wb_ngrams)(cs, rng[0], rng[1])


# -------------------------------------------------------------------- cases
def analyse(ctx, analyzer, length, alphabet, rng=(1, 1), lower=True, accents=None, pattern=WORD, stop=None,
            kind="CountVectorizer", pad=""):
    m = vectoriser(kind, analyzer=analyzer, ngram_range=tuple(rng), lowercase=lower, strip_accents=accents, token_pattern=pattern,
                   stop_words=stop)
    doc = pad + (ctx.str("doc", length, alphabet) if length else "") + pad
    cs = [c for c in doc]
    if lower:
        cs = lowered(cs)
    cs = flattened(cs, accents)
    ctx.multiset(m.build_analyzer()(doc), expected(cs, analyzer, rng, pattern, stop), "features")


def word_list(ctx, count, rng, stop, lower):
    """documents built of whole words, separated by any run of non-word
    characters"""
    words = [["ab"], ["Cd"], ["the"], ["THE"], ["x"]]
    ws = [ctx.choice("w%d" % i, ["ab", "Cd", "the", "x"]) for i in range(count)]
    sep = ctx.str("sep", 2, " ,\t")
    doc = sep.join(ws) if count else ""
    m = vectoriser(ngram_range=tuple(rng), lowercase=lower, stop_words=stop)
    got = m.build_analyzer()(doc)
    kept = [list(w.lower() if lower else w) for w in ws if len(w) > 1]
    ctx.multiset(got, word_ngrams(kept, rng[0], rng[1], stop), "features")


class Handle:
    def __init__(self, data):
        self.data = data

    def read(self):
        return self.data


def encoded(ctx, encoding, length, alphabet, analyzer, source):
    m = vectoriser(analyzer=analyzer, encoding=encoding, input=source, lowercase=False, token_pattern=r"(?u)\b\w+\b")
    doc = ctx.str("doc", length, alphabet)
    given = doc.encode(encoding)
    if source == "file":
        given = Handle(given)
    ctx.multiset(m.build_analyzer()(given), expected(list(doc), analyzer, (1, 1), r"(?u)\b\w+\b", None), "features")


def disk(ctx, encoding, pieces, analyzer, source, how="strict"):
    """documents read from files of the caller"""
    import os
    import tempfile
    doc = ""
    for i in range(3):
        doc += ctx.choice("piece%d" % i, pieces)
    m = vectoriser(analyzer=analyzer, encoding=encoding, input=source, lowercase=False, token_pattern=r"(?u)\b\w+\b", decode_error=how)
    fd, path = tempfile.mkstemp(prefix="c15_")
    try:
        os.write(fd, doc.encode(encoding) + (b"\xff" if how != "strict" else b""))
        os.close(fd)
        if source == "filename":
            got = m.build_analyzer()(path)
        else:
            with open(path, "rb" if source == "file" else "r") as f:
                got = m.build_analyzer()(f)
    finally:
        os.unlink(path)
    if how == "replace":
        doc += "\ufffd"
    ctx.multiset(got, expected(list(doc), analyzer, (1, 1), r"(?u)\b\w+\b", None), "features")


def broken(ctx, how):
    m = vectoriser(analyzer="char", decode_error=how, lowercase=False)
    a = ctx.choice("a", ["", "b", "é"])
    b = ctx.choice("b", ["", "c", "漢"])
    data = a.encode("utf-8") + ctx.choice("bad", [b"\xff", b"\xc3", b"\xe6\xbc"]) + b.encode("utf-8")
    if how == "strict":
        ctx.ensure(raises(lambda: m.build_analyzer()(data)), "undecodable bytes accepted")
        return
    ctx.multiset(m.build_analyzer()(data), list(a) + (["\ufffd"] if how == "replace" else []) + list(b), "features")


def missing(ctx):
    m = vectoriser(analyzer=ctx.choice("analyzer", ["word", "char", "char_wb"]))
    ctx.ensure(raises(lambda: m.build_analyzer()(float("nan"))), "NaN accepted as a document")
    ctx.ensure(raises(lambda: m.transform("a string")), "a string taken for a list of documents")


def counted(ctx, analyzer, length, alphabet, rng, kind, stop=None):
    """what transform counts are the features of the document"""
    m = vectoriser(kind, analyzer=analyzer, ngram_range=tuple(rng), lowercase=True, stop_words=stop, vocabulary_={"a": 0, "ab": 1, "b a": 2, " a": 3})
    doc = ctx.str("doc", length, alphabet)
    want = expected(lowered(doc), analyzer, rng, WORD, stop)
    got = m.transform([doc])
    if kind == "CountVectorizer":
        row = []
        for t in ["a", "ab", "b a", " a"]:
            row.append(sum([1 for w in want if w == t]))
        ctx.eq(got.todense(), [row], "counts")
    else:
        t = 0
        for v in got[0].values():
            t = t + v
        ctx.eq(t, len(want), "total")


def cases(tier):
    deep = tier == "thorough"
    out = []

    def add(analyzer, length, alphabet, **k):
        out.append(("analyse", dict(analyzer=analyzer, length=length, alphabet=alphabet, **k)))
    N = 6 if deep else 5
    plain = "aB1_ ,\t"
    ranges = [(1, 1), (1, 2), (2, 2), (2, 3), (1, 3), (3, 3)] + ([(1, 4), (2, 4), (4, 4)] if deep else [])
    for n in range(0, N + 1):
        add("word", n, plain)
        add("word", n, plain, lower=False, rng=(1, 2))
        add("char", n, "aB \t\n,")
        add("char_wb", n, "aB \t\n,")
    for rng in ranges:
        add("word", 5, "aB ", rng=rng, pattern=r"(?u)\b\w+\b")
        add("char", 4, "aB \t", rng=rng)
        add("char_wb", 5 if deep else 4, "aB \t", rng=rng)
        add("char_wb", 3, "aé\n", rng=rng, lower=False)
        add("char", 3, "aé\n", rng=rng, lower=False, kind="HashingVectorizer")
        add("word", 5, "ab ", rng=rng, pattern=r"\w+", stop=["a", "bb"])
        add("word", 4, "ab ", rng=rng, pattern=r"\w+", stop=["aba"])
        add("word", 3, "ab ", rng=rng, pattern=r"\w+", stop=[])
        out.append(("word_list", dict(count=3, rng=rng, stop=["the", "of"], lower=True)))
        out.append(("word_list", dict(count=4 if deep else 3, rng=rng, stop=None, lower=False)))
    out.append(("word_list", dict(count=4, rng=(1, 3), stop=["the", "cd"], lower=True)))
    out.append(("word_list", dict(count=3, rng=(2, 2), stop=["THE", "Cd"], lower=True)))
    out.append(("word_list", dict(count=3, rng=(1, 2), stop=["THE", "Cd"], lower=False)))
    out.append(("word_list", dict(count=0, rng=(1, 2), stop=["the"], lower=False)))
    for pattern in (r"(?u)\b\w+\b", r"[^,]+", r"\b(\w)\w*", r"\w\w", r"\w+"):
        for n in (3, 5):
            add("word", n, "aB,é ", pattern=pattern, rng=(1, 2) if n == 3 else (1, 1))
    for accents in ("unicode", "ascii"):
        for analyzer in ("word", "char", "char_wb"):
            add(analyzer, 3, "aé漢ñ ﬁ\u0301", accents=accents, lower=True, pattern=r"\w+")
            add(analyzer, 2, "aÉßü ½", accents=accents, lower=False, rng=(1, 2))
            add(analyzer, 4, "aB é", accents=accents, lower=True, rng=(2, 2))
    for accents in (None, "unicode", "ascii"):
        add("word", 3, "aßÉ𝐀", accents=accents, lower=True, pattern=r"\w+")
        add("char", 2, "aßÉ𝐀", accents=accents, lower=True, rng=(1, 2))
    add("word", 4, "aÀé漢 ", lower=True)
    for rng in ((2, 4), (3, 5), (4, 4), (1, 5)):
        for analyzer in ("char_wb", "char"):
            add(analyzer, 3, "aB ", rng=rng)
    add("char", 3, "İaÉ ", lower=True)
    add("word", 4, "aB_ ", kind="HashingVectorizer", rng=(1, 2))
    add("char", 4, "a\u00a0\u2003\r", rng=(1, 2))
    add("char_wb", 4, "a\u00a0\u2003\x0b", rng=(1, 2))
    for pad in ("ab Cd_e9 f \t g" * 12, "word" * 40, " ,\n" * 50, "a " * 100):
        for analyzer in ("word", "char", "char_wb"):
            for rng in ((1, 1), (1, 3), (5, 5)):
                add(analyzer, 2, "aB \t", rng=rng, pad=pad)
            add(analyzer, 2, "aB \t", rng=(1, 2), pad=pad, kind="HashingVectorizer")
        add("word", 2, "ab ", rng=(1, 2), pattern=r"\w+", stop=["a", "bb", "g"] + ["s%d" % i for i in range(200)], pad=pad)
        for accents in ("unicode", "ascii"):
            add("word", 2, "aé ", accents=accents, pad="é" + pad, pattern=r"\w+")
    for rng in ((1, 12), (12, 14), (9, 9)):
        for analyzer in ("word", "char", "char_wb"):
            add(analyzer, 2, "aB ", rng=rng, pad="b c dd e " * 2, pattern=r"\w+")
    for encoding, alphabet in (("utf-8", "aé漢 "), ("latin-1", "aé\xa0,"), ("utf-16-le", "aé漢 "), ("ascii", "aB, ")):
        for analyzer in ("word", "char"):
            for source in ("content", "file"):
                out.append(("encoded", dict(encoding=encoding, length=3, alphabet=alphabet, analyzer=analyzer, source=source)))
    for source in ("filename", "file"):
        for analyzer in ("word", "char"):
            for encoding, pieces in (("utf-8", ["", "a", "\r\n", "\r", "é", "\ufeff", "\x1a"]), ("latin-1", ["", "é", "\r\n", "\x85"]),
                                     ("utf-16-le", ["a", "漢", "\r\n", "\u0d0a"])):
                out.append(("disk", dict(encoding=encoding, pieces=pieces, analyzer=analyzer, source=source)))
        for how in ("ignore", "replace"):
            out.append(("disk", dict(encoding="utf-8", pieces=["", "a", "\r\n"], analyzer="char", source=source, how=how)))
    for how in ("strict", "ignore", "replace"):
        out.append(("broken", dict(how=how)))
    out.append(("missing", {}))
    for kind in ("CountVectorizer", "HashingVectorizer"):
        for analyzer in ("word", "char", "char_wb"):
            for rng in ((1, 1), (1, 2), (2, 3)):
                out.append(("counted", dict(analyzer=analyzer, length=4, alphabet="aB ", rng=rng, kind=kind)))
    return out
