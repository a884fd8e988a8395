"""C14: MurmurHash3 feature hashing"""
from harness.lib import *

BOUNDS = ("hash: all byte strings of 0-11 bytes (thorough 0-19) and all 32-bit seeds; tokens of 1-6 characters over ASCII, "
          "accented, CJK and emoji letters; vectoriser: documents of up to 4 tokens (thorough 5) over small alphabets, 1-7 and "
          "2**20 and 2**31-1 columns, with and without alternating signs, binary and each norm, 1-2 documents, empty tokens and tokens whose hash is 0, 1, -1 or at either end of the "
          "32-bit range")
ASSUMPTIONS = []
NUMBERS = False
M32 = 0xFFFFFFFF
WIDE = 2147483647
LETTERS = "abcdefghijklmnopqrstuvwxyz012345"


def rotl(v, r):
    return ((v << r) | (v >> (32 - r))) & M32


def murmur(data, seed):
    """reference MurmurHash3_x86_32, signed"""
    h = seed
    n = len(data)
    full = n - n % 4
    for i in range(0, full, 4):
        k = data[i] | (data[i + 1] << 8) | (data[i + 2] << 16) | (data[i + 3] << 24)
        k = (k * 0xCC9E2D51) & M32
        k = (rotl(k, 15) * 0x1B873593) & M32
        h = (rotl(h ^ k, 13) * 5 + 0xE6546B64) & M32
    if n > full:
        k = 0
        for j in range(n - 1, full - 1, -1):
            k = (k << 8) | data[j]
        k = (k * 0xCC9E2D51) & M32
        k = (rotl(k, 15) * 0x1B873593) & M32
        h = h ^ k
    h = h ^ n
    h = ((h ^ (h >> 16)) * 0x85EBCA6B) & M32
    h = ((h ^ (h >> 13)) * 0xC2B2AE35) & M32
    h = h ^ (h >> 16)
    return h


def signed(h):
    return h - 0x100000000 if h >= 0x80000000 else h


def hashed(ctx, length, seed):
    from pure_sklearn.feature_extraction._hash import _hash
    key = ctx.bytes("key", length)
    sd = ctx.bits("seed", 32) if seed is None else seed
    ctx.eq(_hash(key, sd), signed(murmur(list(key), sd)), "hash")


def long(ctx, length, at, size):
    """any bytes somewhere in a long key"""
    from pure_sklearn.feature_extraction._hash import _hash
    fill = bytes((i * 37 + length) % 256 for i in range(length))
    key = fill[:at] + ctx.bytes("key", size) + fill[at + size:]
    ctx.eq(len(key), length, "length")
    seed = ctx.bits("seed", 32) if length < 130 else 0
    ctx.eq(_hash(key, seed), signed(murmur(list(key), seed)), "hash")


def token(ctx, length, alphabet, pad=""):
    """a text token hashes as its UTF-8 bytes, with seed 0 by default"""
    from pure_sklearn.feature_extraction._hash import _hash
    t = pad + ctx.str("token", length, alphabet) + pad[1:]
    b = list(t.encode("utf-8"))
    ctx.eq(_hash(t), signed(murmur(b, 0)), "hash of a text token")


def vectoriser(n, alternate, binary, norm, **k):
    a = dict(dtype=float, norm=norm, binary=binary, analyzer="char", preprocessor=None, tokenizer=None, stop_words=None,
             token_pattern=r"(?u)\b\w\w+\b", ngram_range=(1, 1), strip_accents=None, decode_error="strict", encoding="utf-8",
             lowercase=False, input="content", n_features=n, alternate_sign=alternate)
    a.update(k)
    return convert(make("HashingVectorizer", **a))


def single(ctx, length, n, alternate, alphabet):
    """one token: its column and value give the hash away"""
    m = vectoriser(n, alternate, False, None, ngram_range=(length, length))
    t = ctx.str("token", length, alphabet)
    got = m.transform([t])
    from pure_sklearn.utils import issparse
    ctx.ensure(issparse(got) and got.size == n and len(got) == 1, "shape")
    h = signed(murmur(list(t.encode("utf-8")), 0))
    ctx.eq(len(got[0]), 1, "number of columns")
    items = [(k, v) for k, v in got[0].items()]
    ctx.eq(items[0][0], (h if h >= 0 else -h) % n, "column")
    ctx.eq(items[0][1], (1 if h >= 0 else -1) if alternate else 1, "value")


def counts(ctx, lengths, n, alternate, binary, norm, alphabet, analyzer="char"):
    """tokens accumulate in their columns"""
    if analyzer == "char":
        docs = [ctx.str("doc%d" % i, k, alphabet) for i, k in enumerate(lengths)]
        toks = [[d[i] for i in range(len(d))] for d in docs]
        m = vectoriser(n, alternate, binary, norm)
    elif analyzer == "long":
        docs = [LETTERS * k + ctx.str("doc%d" % i, 1, alphabet) + LETTERS[::-1] * k for i, k in enumerate(lengths)]
        toks = [[c for c in d] for d in docs]
        m = vectoriser(n, alternate, binary, norm)
    elif analyzer == "extreme":
        # tokens whose hashes are 0, -2^31, 2^31-1, 1, -1 and -2^31+1, and empty tokens between words
        words = ["xtaal0nd", "0apq6cn4", "13ux5uf9", "92z3eyxn", "ng6s74v9", "6d5ddr3a"]
        words = [[ctx.choice("word%d_%d" % (i, j), words) for j in range(k)] for i, k in enumerate(lengths)]
        docs = [" ".join(t) for t in words]
        toks = [[x for w in t for x in (w, "")] or [""] for t in words]
        m = vectoriser(n, alternate, binary, norm, analyzer="word", token_pattern="[a-z0-9]*")
    else:
        words = ["alpha", "beta", "gamma", "d9", "été"]
        toks = [[ctx.choice("word%d_%d" % (i, j), words[:len(alphabet)]) for j in range(k)] for i, k in enumerate(lengths)]
        docs = [" ".join(t) for t in toks]
        m = vectoriser(n, alternate, binary, norm, analyzer="word")
    got = m.transform(list(docs))
    want = []
    for t in toks:
        row, seen = [0.0] * n, [False] * n
        for w in t:
            h = signed(murmur(list(w.encode("utf-8")), 0))
            c = (h if h >= 0 else -h) % n
            for j in range(n):
                if c == j:
                    row[j] += -1.0 if alternate and h < 0 else 1.0
                    seen[j] = True
        if binary:
            row = [1.0 if s else 0.0 for s in seen]
        z = 0.0
        if norm == "l1":
            z = float(sum([abs(v) for v in row]))
        elif norm == "l2":
            z = math.sqrt(sum([v * v for v in row]))
        want.append([v / z for v in row] if z else row)
    from pure_sklearn.utils import shape
    ctx.eq(list(shape(got)), [len(docs), n], "shape")
    ctx.eq(got.todense(), want, "hashed counts")


def text(ctx):
    m = vectoriser(4, True, False, None)
    ctx.ensure(raises(lambda: m.transform("abc")), "a string taken for a list of documents")


def cases(tier):
    deep = tier == "thorough"
    out = []
    for length in range(20 if deep else 12):
        out.append(("hashed", dict(length=length, seed=None)))
        out.append(("hashed", dict(length=length, seed=0)))
    for alphabet in ("aZ~ 0\x7f\x00", "aé漢😀"):
        for length in (1, 2, 3, 4, 5) + ((6,) if deep else ()):
            if len(alphabet) > 4 or length <= (5 if deep else 3):
                out.append(("token", dict(length=length, alphabet=alphabet)))
    for n in (1, 2, 3, 7, 2 ** 20, WIDE):
        for alternate in (True, False):
            out.append(("single", dict(length=1, n=n, alternate=alternate, alphabet="abcdefgh")))
    out.append(("single", dict(length=3, n=WIDE, alternate=True, alphabet="ab漢")))
    out.append(("single", dict(length=2, n=5, alternate=True, alphabet="aé😀")))
    for length in (4, 5) if deep else (4,):
        for n in (2, 2 ** 20):
            for alternate in (True, False):
                out.append(("single", dict(length=length, n=n, alternate=alternate, alphabet=LETTERS)))
    for n in (1, 2, 3, 5):
        for alternate in (True, False):
            for binary in (True, False):
                for norm in (None, "l1", "l2"):
                    out.append(("counts", dict(lengths=[3], n=n, alternate=alternate, binary=binary, norm=norm, alphabet="abcd")))
    for alternate in (True, False):
        out.append(("counts", dict(lengths=[4], n=2, alternate=alternate, binary=False, norm=None, alphabet="abc")))
        out.append(("counts", dict(lengths=[2, 2], n=4, alternate=alternate, binary=False, norm="l2", alphabet="abcd")))
        out.append(("counts", dict(lengths=[0, 2], n=4, alternate=alternate, binary=True, norm="l1", alphabet="abcd")))
        out.append(("counts", dict(lengths=[3], n=6, alternate=alternate, binary=False, norm="l2", alphabet="abcde", analyzer="word")))
        for n in (1, 2, 3, 7, 64, 100):
            for norm in (None, "l2"):
                out.append(("counts", dict(lengths=[2, 0], n=n, alternate=alternate, binary=False, norm=norm, alphabet="", analyzer="extreme")))
        if deep:
            for n in (1, 2, 3, 4, 7):
                for norm in (None, "l1", "l2"):
                    out.append(("counts", dict(lengths=[5], n=n, alternate=alternate, binary=False, norm=norm, alphabet="abcd")))
                    out.append(("counts", dict(lengths=[2, 2], n=n, alternate=alternate, binary=True, norm=norm, alphabet="abcd")))
    for length in (20, 31, 32, 33, 64, 127, 128, 255, 256, 257, 1000) if deep else (20, 33, 64, 127, 255, 256, 1001):
        for at in (0, length // 2, length - 3):
            out.append(("long", dict(length=length, at=at, size=3)))
    for pad in ("ab" * 20, "é" * 31, "x漢" * 9 + "yz", "😀" * 65, "a" * 255, "b" * 300):
        out.append(("token", dict(length=2, alphabet="aé漢😀", pad=pad)))
    for n in (3, 40, 2 ** 20 if deep else 200):
        for alternate in (True, False):
            for binary in (True, False):
                for norm in (None, "l1", "l2"):
                    if n < 300:
                        out.append(("counts", dict(lengths=[6, 0, 2], n=n, alternate=alternate, binary=binary, norm=norm, alphabet="ab", analyzer="long"), ))
    out.append(("text", {}))
    return out
