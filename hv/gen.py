"""
Strategies for corpora and common parameters, and their expansion.

A corpus in a case is one of
  {"keys": style, "docs": [ {field: [kind, values]}, ... ]}          explicit
  {"keys": style, "rand": {seed, n, vocab, length, layout}}           expanded by `expand`
"""

import random

from hypothesis import strategies as st

WORDS = ["a", "b", "c", "d", "e", "A", "é", "", " ", "a b", "'", '"', "0", "1", "日本", "<b>", "x,y", "\U0001f600", "%", "_", "a*"]
NUMS = [0, 1, 2, -1, 7, 1000, 2**40, 1.5]
FIELDS = ["text", "tag", "num", "f x", "Ünï", "a:b", "Tag", "t_g", "%", "ünï"]


def mix(*strategies):
    """One of the strategies; unlike st.one_of, repeating one makes it more likely."""
    return st.integers(0, len(strategies) - 1).flatmap(lambda i: strategies[i])


def values(small=False):
    base = st.sampled_from(WORDS[:4] if small else WORDS)
    return mix(base, base, st.sampled_from(NUMS[:3] if small else NUMS))


def sized(elem, lo, hi):
    """Lists with evenly spread lengths (plain st.lists favours short ones)."""
    return st.integers(lo, hi).flatmap(lambda n: st.lists(elem, min_size=n, max_size=n))


def seq_values(max_len=14, none=False, words=None):
    v = st.sampled_from(words or ["a", "b", "c", "d", "e", "f"])
    if none:
        v = mix(*[v] * 12, st.none())
    return sized(v, 0, max_len)


def uniq(xs):
    out = []
    for x in xs:
        if not any(x == y and isinstance(x, str) == isinstance(y, str) for y in out):
            out.append(x)
    return out


@st.composite
def doc(draw, none=False, mixed=True):
    d = {}
    if draw(st.integers(0, 5)) > 0:
        d["text"] = [draw(st.sampled_from("LLLLT")), draw(seq_values(none=none))]
    if draw(st.booleans()):
        d["tag"] = ["S", uniq(draw(st.lists(values(), max_size=4)))]
    if draw(st.integers(0, 3)) == 0:
        d["num"] = ["S", uniq(draw(st.lists(st.sampled_from(NUMS), max_size=3)))]
    if mixed and draw(st.integers(0, 3)) == 0:
        f = draw(st.sampled_from(FIELDS[3:] + ["tag"]))
        kind = draw(st.sampled_from("LS"))
        vs = draw(st.lists(values(), max_size=5))
        d[f] = [kind, uniq(vs) if kind == "S" else vs]
    return d


KEYS = st.sampled_from(["seq", "rev", "str", "hash", "one"])


def keys_for(style, n):
    if style == "seq":
        return list(range(n))
    if style == "one":
        return list(range(1, n + 1))
    if style == "rev":
        return [n - i for i in range(n)]
    if style == "str":
        return [f"k{(i * 7) % 1009:04}-{i}" for i in range(n)]
    return [(i * 7919) % 100003 for i in range(n)]


LAYOUTS = ["zipf", "uniform", "text", "sparse"]


def rand_corpus(max_docs, min_docs=1, vocab=40, length=20):
    return st.fixed_dictionaries(
        {
            "keys": KEYS,
            "rand": st.fixed_dictionaries(
                {
                    "seed": st.integers(0, 2**16),
                    "n": st.integers(min_docs, max_docs),
                    "vocab": st.integers(1, vocab),
                    "length": st.integers(0, length),
                    "layout": st.sampled_from(LAYOUTS),
                }
            ),
        }
    )


def small_corpus(max_docs=10, none=False, mixed=True, min_docs=0):
    return st.fixed_dictionaries(
        {
            "keys": KEYS,
            "docs": sized(doc(none=none, mixed=mixed), min_docs, max_docs),
        }
    )


def corpus(max_docs=10, big=60, none=False, mixed=True, min_docs=0):
    return st.one_of(
        small_corpus(max_docs, none=none, mixed=mixed, min_docs=min_docs),
        rand_corpus(big, min_docs=max(1, min_docs)),
    )


_cache = {}


def expand_rand(r):
    key = tuple(sorted(r.items()))
    if key in _cache:
        return _cache[key]
    rnd = random.Random(r["seed"])
    v, out = r["vocab"], []
    words = [f"w{i}" for i in range(v)]
    weights = [1 / (i + 1) for i in range(v)]
    for i in range(r["n"]):
        d = {}
        lay = r["layout"]
        length = rnd.randint(0, r["length"])
        if lay == "zipf":
            d["text"] = ["L", rnd.choices(words, weights, k=length)]
            d["tag"] = ["S", sorted(set(rnd.choices(words, weights, k=min(length, 3))))]
        elif lay == "uniform":
            d["text"] = ["L", rnd.choices(words, k=length)]
            d["num"] = ["S", sorted({i % 3, i // 10})]
        elif lay == "text":
            if rnd.random() < 0.85:
                d["text"] = ["L", rnd.choices(words[: max(1, v // 4)], k=length)]
            if rnd.random() < 0.4:
                d["title"] = ["L", rnd.choices(words, k=rnd.randint(0, 5))]
        else:
            if rnd.random() < 0.5:
                d["tag"] = ["S", sorted(set(rnd.choices(words, k=2)))]
            if rnd.random() < 0.3:
                d["text"] = ["L", rnd.choices(words, k=min(3, length))]
        out.append(d)
    if len(_cache) > 50:
        _cache.clear()
    _cache[key] = out
    return out


def expand(c):
    """-> list of (key, fields)"""
    docs = expand_rand(c["rand"]) if "rand" in c else c["docs"]
    return list(zip(keys_for(c["keys"], len(docs)), docs))


CHOICES = st.lists(st.integers(0, 11), min_size=1, max_size=8)
SEEDS = st.integers(0, 1000)


def sched():
    return st.fixed_dictionaries({"workers": st.integers(1, 4), "choices": CHOICES})


def batch_size():
    return mix(st.integers(1, 4), st.integers(1, 4), st.integers(1, 40), st.just(1000))
