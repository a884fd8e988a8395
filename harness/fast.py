"""Stand-in for a loaded fastText model and the reference for its vectors"""
from harness.lib import *

EOS = "</s>"
SEPS = " \t\x0b\r\x0c\x00"


class Loss:
    def __init__(self, name):
        self.name = name


class Model:
    """what conversion reads of a fastText model"""

    def __init__(self, words, rows, labels=None, out=None, label="__label__", maxn=0, wordNgrams=1, loss="softmax", quantized=False):
        self.label = label
        self.maxn = maxn
        self.minn = 0
        self.wordNgrams = wordNgrams
        self.loss = Loss(loss)
        self._w, self._r, self._l, self._o, self._q = words, rows, labels, out, quantized

    def get_words(self):
        return list(self._w)

    def get_labels(self):
        return list(self._l) if self._l else list(self._w)

    def get_input_matrix(self):
        return Arr([list(r) for r in self._r], "float32")

    def get_output_matrix(self):
        return Arr([list(r) for r in self._o], "float32")

    def get_dimension(self):
        return len(self._r[0])

    def is_quantized(self):
        return self._q


def load(model):
    from pure_fasttext import FastText
    return FastText(model)


def mean(rows, dim):
    if not rows:
        return [0.0] * dim
    out = []
    for j in range(dim):
        t = 0.0
        for r in rows:
            t = t + r[j]
        out.append(t / len(rows))
    return out


def sentence(words, rows, toks, supervised):
    """vector of a line of words"""
    dim = len(rows[0])
    vecs = []
    if supervised:
        for t in list(toks) + [EOS]:
            if t in words:
                vecs.append(rows[words.index(t)])
            if t == EOS:
                break
        return mean(vecs, dim)
    for t in toks:
        if t in words:
            r = rows[words.index(t)]
            n = 0.0
            for a in r:
                n = n + a * a
            if n > 0:
                n = math.sqrt(n)
                vecs.append([a / n for a in r])
    return mean(vecs, dim)
