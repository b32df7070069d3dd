"""P09: stored cluster summaries match the features in the clusters."""
import os

from hypothesis import strategies as st

from hv import editing, gen
from hv.core import Sub, expect, expect_eq
from hv.util import BitMap, Index, MemCorpus, build, check_summaries, features, open_index

TECHNIQUE = "stateful property-based testing (Hypothesis): invariant over generated edit/refine/reindex histories"
RULE = (
    "Generated corpus and history of 1-10 steps: model edits, refinement (with splits and dissolves), reindexing "
    "with a changed corpus, reopening, under generated background completion order. After every step stored "
    "document sets, counts, orderings and top-k listings are recomputed from the feature postings. Non-trivial: "
    "at least 2 clusters with different document sets after some step that changed the model."
)


def case_st(corpus, lo, hi):
    return st.fixed_dictionaries(
        {
            "corpus": corpus,
            "corpus2": gen.corpus(8, 40),
            "sched": gen.sched(),
            "seed": gen.SEEDS,
            "first": st.integers(1, 6),
            "ops": editing.ops_st(lo, hi, editing.BASIC + ["refine", "refine", "split", "index", "reopen"]),
            "ks": gen.sized(st.integers(0, 6), 1, 3),
        }
    )


def check_listings(idx, ks, what):
    feats = features(idx)
    ids = idx.cluster_ids
    full = {c: idx.cluster_features(c) for c in ids}
    for c in ids:
        counts = [r[3] for r in full[c]]
        expect_eq(counts, sorted(counts, reverse=True), f"{what}: order of the features of cluster {c}")
        for fid, field, value, n in full[c]:
            expect_eq((field, value, n), (feats[fid][0], feats[fid][1], len(feats[fid][3])), f"{what}: feature {fid}")
        union = set()
        for r in full[c]:
            union |= feats[r[0]][3]
        expect_eq(set(idx.cluster_docs(c)), union, f"{what}: cluster_docs({c})")
    for k in ks:
        for c in ids:
            part = idx.cluster_features(c, top_k=k)
            expect_eq([r[3] for r in part], [r[3] for r in full[c]][:k], f"{what}: top {k} of cluster {c}")
            expect(set(part) <= set(full[c]) and len(set(part)) == len(part), f"{what}: top {k} of cluster {c} are its features")
        top = idx.top_cluster_features(top_k=k)
        expect_eq([n for _, n, _ in top], sorted((n for _, n, _ in top), reverse=True), f"{what}: cluster order")
        expect_eq(sorted(c for c, _, _ in top), sorted(ids), f"{what}: clusters in the listing")
        for c, n, fs in top:
            expect_eq(n, len(idx.cluster_docs(c)), f"{what}: document count of cluster {c} in the listing")
            expect_eq([r[3] for r in fs], [r[3] for r in full[c]][:k], f"{what}: listed features of cluster {c}")
    return len({frozenset(idx.cluster_docs(c)) for c in ids}) >= 2


def run(case, env):
    idx, docs, ids, path = build(env, case["corpus"], sched=case["sched"], seed=case["seed"])
    ops = [["init", [case["first"] - 1, 1]]] + list(case["ops"])
    flip = 0
    nontrivial, kinds = False, set()
    for n, (op, xs) in enumerate(ops):
        what = f"after step {n + 1} ({op} {xs})"
        feats = sorted(features(idx))
        cids = idx.cluster_ids
        if op == "reopen":
            corpus = idx.corpus
            idx.close()
            idx = open_index(env, path, corpus, case["sched"], seed=case["seed"])
        elif op == "index":
            flip ^= 1
            idx.corpus = MemCorpus(gen.expand(case["corpus2" if flip else "corpus"]))
            idx.index(doc_batch_size=1 + xs[0] % 7, index_positions=bool(xs[0] % 2))
        elif op in ("refine", "split"):
            if not cids:
                continue
            idx.refine_clusters(
                iterations=1 + xs[0] % 3,
                target_clusters=None if op == "refine" else 1 + xs[-1] % 7,
                tolerance=0 if xs[0] % 2 else 0.05,
                move_acceptance_probability=1.0 if xs[0] % 3 == 0 else 0.5,
            )
        else:
            r = editing.resolve(op, xs, feats, cids)
            if r is None:
                continue
            editing.call(idx, r)
        kinds.add(op)
        check_summaries(idx, what)
        nontrivial |= check_listings(idx, case["ks"], what)
    return {"nontrivial": nontrivial, "labels": sorted(kinds)}


SUBS = [
    Sub("history", lambda: case_st(gen.corpus(8, 40, min_docs=1), 1, 10), run, quick=1200),
    Sub("large", lambda: case_st(gen.rand_corpus(400, min_docs=100, vocab=400), 3, 8), run, quick=24, thorough=600),
    Sub("wide", lambda: case_st(gen.rand_corpus(200, min_docs=100, vocab=3000), 1, 3), run, quick=8, thorough=100),
]
