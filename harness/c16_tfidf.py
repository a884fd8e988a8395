"""C16: counts and tf-idf weights"""
from harness.lib import *

BOUNDS = ("vocabularies of 1-4 terms (words, bigrams, characters) in any column order, 1-3 documents of 0-4 tokens known and unknown; "
          "tf-idf: 1-4 columns, 1-2 rows, all counts from 1 to 50 (any real, for the weighting), all positive idf weights, every "
          "presence pattern, every combination of idf, sublinear counts and norm")
ASSUMPTIONS = ["arithmetic is idealised as real arithmetic", "rows whose weights are all zero are left out where a norm is set "
               "(C09 decides them)"]
TERMS = ["aa", "bb", "cc", "zz"]


def counts_model(kind="CountVectorizer", **k):
    a = dict(dtype=float, binary=False, analyzer="word", preprocessor=None, tokenizer=None, stop_words=None,
             token_pattern=r"(?u)\b\w\w+\b", ngram_range=(1, 1), strip_accents=None, decode_error="strict", encoding="utf-8",
             lowercase=True, input="content")
    a.update(k)
    return make(kind, **a)


def vocabulary(ctx, terms):
    """terms with their columns in any order"""
    left = list(range(len(terms)))
    v = {}
    for t in terms:
        i = ctx.choice("column_" + t.replace(" ", "_"), left) if len(left) > 1 else left[0]
        left = [j for j in left if j != i]
        v[t] = i
    return v


def grams(tokens, lo, hi):
    return [" ".join(tokens[i:i + n]) for n in range(lo, hi + 1) for i in range(len(tokens) - n + 1)]


def counted(ctx, terms, lengths, rng, binary, dtype="float", words=TERMS):
    v = vocabulary(ctx, terms)
    dt = {"float": float, "int": int}[dtype]
    m = convert(counts_model(binary=binary, ngram_range=tuple(rng), vocabulary_=dict(v), dtype=dt))
    toks = [[ctx.choice("t%d_%d" % (i, j), words) for j in range(n)] for i, n in enumerate(lengths)]
    sep = ctx.choice("sep", [" ", ", "])
    got = m.transform([sep.join(t).upper() if i % 2 else sep.join(t) for i, t in enumerate(toks)])
    want = []
    for t in toks:
        row = [0] * len(terms)
        for g in grams(t, rng[0], rng[1]):
            if g in v:
                row[v[g]] = 1 if binary else row[v[g]] + 1
        want.append(row)
    shaped(ctx, got, len(lengths), len(terms), want)
    ctx.ensure(got.dtype is dt, "type of absent entries")


def capitals(ctx, lowercase, tfidf_too):
    """a vocabulary given by the user is matched letter by letter"""
    terms = ["Aa", "aa", "AA", "bb"]
    v = vocabulary(ctx, terms)
    k = dict(vocabulary_=dict(v), lowercase=lowercase)
    if tfidf_too:
        k.update(norm=None, use_idf=False, smooth_idf=True, sublinear_tf=False, _tfidf=transformer([], False, False, None))
    m = convert(counts_model("TfidfVectorizer" if tfidf_too else "CountVectorizer", **k))
    toks = [ctx.choice("t%d" % i, terms + ["Bb"]) for i in range(2)]
    row = [0] * 4
    for t in toks:
        t = t.lower() if lowercase else t
        if t in v:
            row[v[t]] += 1
    shaped(ctx, m.transform([" ".join(toks)]), 1, 4, [row])


def crowd(ctx, terms, tokens, docs, binary, rng, dtype="float"):
    """large vocabularies, long documents, many of them"""
    words = ["w%d" % i for i in range(terms + 5)]
    v = {w: (7 * i + 3) % terms for i, w in enumerate(words[:terms])}
    if rng[1] > 1:
        for i in range(terms):
            v[words[i] + " " + words[(i * 3) % terms]] = terms + i
    dt = {"float": float, "int": int}[dtype]
    m = convert(counts_model(binary=binary, ngram_range=tuple(rng), vocabulary_=dict(v), dtype=dt))
    toks = [[ctx.choice("t%d_%d" % (i, j), words) for j in range(tokens)] for i in range(docs)]
    want = []
    for t in toks:
        row = [0] * len(v)
        for g in grams(t, rng[0], rng[1]):
            if g in v:
                row[v[g]] = 1 if binary else row[v[g]] + 1
        want.append(row)
    got = m.transform([" ".join(t) for t in toks])
    shaped(ctx, got, docs, len(v), want)
    ctx.ensure(got.dtype is dt, "type of absent entries")


def free_text(ctx, length, alphabet, analyzer, binary, rng):
    """any text against a vocabulary of character sequences"""
    v = vocabulary(ctx, ["ab", "b", "a"]) if analyzer == "char" else {"ab": 0, "bb": 2, "ba": 1}
    m = convert(counts_model(binary=binary, analyzer=analyzer, vocabulary_=dict(v), ngram_range=tuple(rng), lowercase=False))
    doc = ctx.str("doc", length, alphabet)
    if analyzer == "char":
        feats = [doc[i:i + n] for n in range(rng[0], rng[1] + 1) for i in range(length - n + 1)]
    else:
        feats, w = [], ""
        for i in range(length + 1):
            c = doc[i] if i < length else " "
            if c == " ":
                if len(w) > 1:
                    feats.append(w)
                w = ""
            else:
                w = w + c
    row = [0] * len(v)
    for f in feats:
        for t in v:
            if f == t:
                row[v[t]] = 1 if binary else row[v[t]] + 1
    shaped(ctx, m.transform([doc]), 1, len(v), [row])


def shaped(ctx, got, n, f, want):
    from pure_sklearn.utils import issparse, shape
    ctx.ensure(issparse(got), "dense result")
    ctx.eq(list(shape(got)), [n, f], "shape")
    ctx.eq(got.todense(), want, "values")


def transformer(idf, use_idf, sublinear, norm, smooth=True):
    k = dict(norm=norm, use_idf=use_idf, smooth_idf=smooth, sublinear_tf=sublinear)
    if use_idf:
        f = len(idf)
        k.update(idf_=Arr(list(idf)), _idf_diag=Arr([[idf[i] if i == j else 0.0 for j in range(f)] for i in range(f)]))
    return make("TfidfTransformer", **k)


def weighted(rows, idf, use_idf, sublinear, norm):
    out = []
    for r in rows:
        w = []
        for j in range(len(r)):
            c = r[j]
            if c is None:
                w.append(0.0)
                continue
            v = 1 + math.log(c) if sublinear else c
            w.append(v * idf[j] if use_idf else v)
        if norm == "l1":
            z = 0.0
            for v in w:
                z = z + abs(v)
        elif norm == "l2":
            z = 0.0
            for v in w:
                z = z + v * v
            z = math.sqrt(z)
        else:
            z = 1.0
        known = any(c is not None for c in r)
        out.append([v / z for v in w] if norm and known else w)
    return out


def tfidf(ctx, f, n, use_idf, sublinear, norm, full=False):
    idf = reals(ctx, "idf", f, lo=0.5, hi=20, pos=True)
    rows = [[ctx.real("c%d_%d" % (i, j), lo=1, hi=50, pos=True) if full or ctx.bool("has%d_%d" % (i, j)) else None for j in range(f)]
            for i in range(n)]
    X = sparse([{j: v for j, v in enumerate(r) if v is not None} for r in rows], f)
    m = convert(transformer(idf, use_idf, sublinear, norm, ctx.bool("smooth")))
    want = weighted(rows, idf, use_idf, sublinear, norm)
    shaped(ctx, m.transform(X), n, f, want)
    shaped(ctx, m.transform(X, copy=False), n, f, want)
    ctx.eq(X.todense(), [[0.0 if v is None else v for v in r] for r in rows], "input")


def zeros(ctx, norm, use_idf):
    """stored zeros count as absent"""
    idf = reals(ctx, "idf", 2, lo=0.5, hi=20, pos=True)
    a = ctx.real("a", lo=1, hi=50, pos=True)
    m = convert(transformer(idf, use_idf, False, norm))
    want = weighted([[a, None], [None, None]], idf, use_idf, False, norm)
    shaped(ctx, m.transform(sparse([{0: a, 1: 0.0}, {1: 0.0}], 2)), 2, 2, want)


def width(ctx, store):
    f = ctx.choice("f", [1, 2, 3])
    g = ctx.choice("g", [1, 2, 3, 4])
    ctx.assume(f != g)
    m = convert(transformer(reals(ctx, "idf", f, pos=True), True, ctx.bool("sublinear"), ctx.choice("norm", [None, "l1", "l2"])))
    rows = [{0: ctx.real("c", lo=1, hi=50, pos=True)}, {} if ctx.bool("empty") else {g - 1: ctx.real("d", lo=1, hi=50, pos=True)}]
    ctx.ensure(raises(lambda: m.transform(sparse(rows, g))), "counts of the wrong width weighted")


def vectoriser(ctx, terms, lengths, use_idf, sublinear, norm, binary):
    v = vocabulary(ctx, terms)
    idf = reals(ctx, "idf", len(terms), lo=0.5, hi=20, pos=True)
    m = convert(counts_model("TfidfVectorizer", binary=binary, vocabulary_=dict(v), norm=norm, use_idf=use_idf, smooth_idf=True,
                             sublinear_tf=sublinear, _tfidf=transformer(idf, use_idf, sublinear, norm)))
    toks = [[ctx.choice("t%d_%d" % (i, j), TERMS[:3]) for j in range(n)] for i, n in enumerate(lengths)]
    rows = []
    for t in toks:
        row = [None] * len(terms)
        for w in t:
            if w in v:
                row[v[w]] = 1 if binary or row[v[w]] is None else row[v[w]] + 1
        rows.append(row)
    got = m.transform([" ".join(t) for t in toks])
    shaped(ctx, got, len(lengths), len(terms), weighted(rows, idf, use_idf, sublinear, norm))


def cases(tier):
    deep = tier == "thorough"
    out = []
    for binary in (False, True):
        for terms, lengths, rng, words in (
                (["aa"], [3], (1, 1), TERMS[:2]), (["aa", "bb"], [2, 2], (1, 1), TERMS[:3]), (["aa", "bb", "cc"], [3], (1, 1), TERMS),
                (["bb", "aa"], [0, 3], (1, 1), TERMS[:3]), (["aa bb", "bb aa", "aa"], [3], (1, 2), TERMS[:2]),
                (["aa bb", "bb bb"], [4], (2, 2), TERMS[:2]), (["aa bb aa", "bb"], [1, 3], (1, 3), TERMS[:2]),
                (["aa"], [0, 0], (1, 1), TERMS[:2])):
            out.append(("counted", dict(terms=terms, lengths=lengths, rng=rng, binary=binary, words=words)))
        out.append(("counted", dict(terms=["aa", "bb"], lengths=[2], rng=(1, 1), binary=binary, dtype="int")))
        for rng in ((1, 1), (1, 2), (2, 2)):
            out.append(("free_text", dict(length=5 if deep else 4, alphabet="abc", analyzer="char", binary=binary, rng=rng)))
        out.append(("free_text", dict(length=6 if deep else 5, alphabet="ab ", analyzer="word", binary=binary, rng=(1, 1))))
        if deep:
            out.append(("counted", dict(terms=["aa", "bb", "cc", "zz"], lengths=[4], rng=(1, 1), binary=binary)))
            out.append(("counted", dict(terms=["aa", "bb", "cc"], lengths=[2, 2, 2], rng=(1, 1), binary=binary, words=TERMS[:3])))
    for lowercase in (True, False):
        for t in (False, True):
            out.append(("capitals", dict(lowercase=lowercase, tfidf_too=t)))
    for use_idf in (True, False):
        for sublinear in (True, False):
            for norm in (None, "l1", "l2"):
                out.append(("tfidf", dict(f=2, n=1, use_idf=use_idf, sublinear=sublinear, norm=norm)))
                out.append(("tfidf", dict(f=1, n=2, use_idf=use_idf, sublinear=sublinear, norm=norm)))
                out.append(("tfidf", dict(f=3, n=1, use_idf=use_idf, sublinear=sublinear, norm=norm, full=not deep)))
                for binary in (False, True):
                    out.append(("vectoriser", dict(terms=["aa", "bb"], lengths=[3], use_idf=use_idf, sublinear=sublinear, norm=norm, binary=binary)))
                if deep:
                    out.append(("tfidf", dict(f=4, n=1, use_idf=use_idf, sublinear=sublinear, norm=norm)))
                    out.append(("tfidf", dict(f=2, n=2, use_idf=use_idf, sublinear=sublinear, norm=norm)))
                    out.append(("vectoriser", dict(terms=["bb", "cc", "aa"], lengths=[0, 3, 1], use_idf=use_idf, sublinear=sublinear,
                                                   norm=norm, binary=False)))
                out.append(("vectoriser", dict(terms=["bb"], lengths=[0, 2], use_idf=use_idf, sublinear=sublinear, norm=norm, binary=False)))
        for norm in (None, "l1", "l2"):
            out.append(("zeros", dict(norm=norm, use_idf=use_idf)))
    for terms, tokens, docs in ((120, 40, 2), (3, 400, 2), (5, 3, 200)):
        free = {"free": ["t0_1", "t%d_0" % (docs - 1)] if terms < 100 else ["t0_1"]}
        for binary in (False, True):
            for rng in ((1, 1), (1, 2), (2, 2)):
                out.append(("crowd", dict(terms=terms, tokens=tokens, docs=docs, binary=binary, rng=rng, dtype="int" if rng == (2, 2) else "float"), free))
    for f, n in ((130, 2), (2, 130), (40, 40)):
        free = {"free": ["c0_%d" % (f - 1), "has0_%d" % (f - 1), "c%d_0" % (n - 1), "idf1"]}
        for use_idf in (True, False):
            for sublinear in (True, False):
                for norm in (None, "l1", "l2"):
                    out.append(("tfidf", dict(f=f, n=n, use_idf=use_idf, sublinear=sublinear, norm=norm), free))
    out.append(("width", dict(store="sparse")))
    return out
