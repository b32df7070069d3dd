"""P15: ranking by number of matching features."""
from hypothesis import strategies as st

from hv import editing, gen, model
from hv.core import Sub, expect, expect_eq
from hv.util import BitMap, FrozenBitMap, build, features

from hyperreal import utilities

RULE = (
    "Generated families of up to 40 document sets (dense, sparse, large ids, duplicates, empty) and generated corpora "
    "with feature lists (ids, keys, unknown keys, repetitions) and clusters; the accumulated weights are compared with "
    "plain counts and the top k, for several k on the same structure, with its definition. Non-trivial: at least 3 "
    "different counts occur and some k cuts off documents."
)


def check(matching, bitslice, counts, ks, what):
    expect_eq(set(matching), set(counts), f"{what}: matching documents")
    weights = list(utilities.weight_bitslice(bitslice))
    expect_eq(len(weights), len({d for d, _ in weights}), f"{what}: each document is weighted once")
    expect_eq(dict(weights), counts, f"{what}: number of matching features per document")
    cut = False
    for k in ks:
        got = set(utilities.bstm(matching, bitslice, k))
        if len(counts) <= k:
            want = set(counts)
        else:
            limit = sorted(counts.values(), reverse=True)[k - 1]
            want = {d for d, n in counts.items() if n >= limit}
            cut |= len(want) < len(counts)
        expect_eq(got, want, f"{what}: top {k} of {counts}")
    # ranking leaves the structure as it was
    expect_eq(set(matching), set(counts), f"{what}: matching documents after ranking")
    expect_eq(dict(utilities.weight_bitslice(bitslice)), counts, f"{what}: weights after ranking")
    return cut and len(set(counts.values())) >= 3


KS = gen.sized(st.one_of(st.integers(1, 6), st.integers(1, 60), st.integers(1, 500)), 1, 4)

raw_case = st.fixed_dictionaries(
    {
        "sets": gen.sized(
            st.one_of(
                gen.sized(st.integers(0, 12), 0, 8),
                gen.sized(st.sampled_from([0, 1, 65535, 65536, 2**31, 2**32 - 1, 7, 9]), 0, 8),
                st.tuples(st.integers(0, 50), st.integers(0, 60), st.integers(1, 4)).map(
                    lambda t: list(range(t[0], t[0] + t[1], t[2]))
                ),
            ),
            1,
            40,
        ),
        "ks": KS,
        "frozen": st.booleans(),
    }
)


def run_raw(case, env):
    counts = {}
    for s in case["sets"]:
        for d in set(s):
            counts[d] = counts.get(d, 0) + 1
    maps = [BitMap(s) for s in case["sets"]]
    matching, bitslice = utilities.compute_bitslice(iter(maps))
    r = check(matching, bitslice, counts, case["ks"], "bitslice")
    for m, s in zip(maps, case["sets"]):
        expect_eq(set(m), set(s), "input set after accumulation")
    return {"nontrivial": r}


def index_case(corpus, ids=400, most=20):
    return st.fixed_dictionaries(
        {
            "corpus": corpus,
            "n": st.integers(1, 5 if most == 20 else 2),
            "queries": gen.sized(
                st.tuples(gen.sized(st.integers(0, ids), 1, most), st.booleans(), KS), 1, 3
            ),
            "clusters": gen.sized(st.tuples(st.integers(0, 20), KS), most > 20, 2),
        }
    )


def run_index(case, env):
    idx, docs, ids, path = build(env, case["corpus"])
    feats = features(idx)
    fids = sorted(feats)
    if not fids:
        return {}
    nontrivial = False
    for xs, by_id, ks in case["queries"]:
        chosen = [fids[x % len(fids)] for x in xs]
        query = [f if (by_id or n % 3 == 0) else (feats[f][0], feats[f][1]) for n, f in enumerate(chosen)]
        if xs[0] % 4 == 0:
            query.append(("text", "never indexed"))
        counts = {}
        for f in chosen:
            for d in feats[f][3]:
                counts[d] = counts.get(d, 0) + 1
        matching, bitslice = idx.union_bitslice(query)
        nontrivial |= check(matching, bitslice, counts, ks, f"features {query}")
    idx.initialise_clusters(case["n"])
    cl = editing.RefModel.of(idx).clusters()
    for x, ks in case["clusters"]:
        c = sorted(cl)[x % len(cl)]
        counts = {}
        for f in cl[c]:
            for d in feats[f][3]:
                counts[d] = counts.get(d, 0) + 1
        matching, bitslice = idx.cluster_query(c)
        nontrivial |= check(matching, bitslice, counts, ks, f"cluster {c}")
        expect_eq(set(matching), set(idx.cluster_docs(c)), f"documents of cluster {c}")
    return {"nontrivial": nontrivial}


SUBS = [
    Sub("bitslice", lambda: raw_case, run_raw, quick=8000),
    Sub("index", lambda: index_case(gen.corpus(10, 80, min_docs=1)), run_index, quick=1500),
    Sub("large", lambda: index_case(gen.rand_corpus(400, min_docs=100, vocab=3000), 5000, 400), run_index, quick=16, thorough=400),
]
