"""P03: reindexing equals a fresh index, keeps feature ids, clusters and pins."""
import os

from hypothesis import strategies as st

from hv import gen, model
from hv.core import Sub, expect, expect_eq
from hv.util import (
    BitMap, MemCorpus, check_summaries, doc_id_map, feature_ids, features, model_state, open_index,
    pool,
)

RULE = (
    "A generated history of 2-4 corpora (edited, extended, shrunk, replaced or unchanged, possibly empty) is indexed "
    "into one index with generated batch sizes, positions and schedules, with generated model edits (initialise, "
    "create, merge, delete, pin) in between; after each run every lookup, the document mapping, field summary, "
    "iter_field_docs, passages and collocations are compared with a fresh index of the same corpus, feature ids with "
    "those before, and the model with the one before. Non-trivial: some feature of the model gained or lost "
    "documents in a reindexing run."
)


@st.composite
def case_st(draw, corpus):
    gens = [draw(corpus)]
    for _ in range(draw(st.integers(1, 3))):
        how = draw(st.sampled_from(["new", "same", "cut", "extend", "rotate"]))
        prev = gens[-1]
        if how == "same":
            gens.append(prev)
        elif how == "new" or "rand" in prev:
            gens.append(draw(corpus))
        else:
            docs = prev["docs"]
            if how == "cut":
                k = draw(st.integers(0, len(docs)))
                docs = docs[:k] + docs[k + 1 :]
            elif how == "extend":
                docs = docs + draw(gen.sized(gen.doc(), 1, 4))
            else:
                k = draw(st.integers(0, max(0, len(docs) - 1)))
                docs = docs[k:] + docs[:k]
            gens.append({"keys": draw(gen.KEYS), "docs": docs})
    steps = []
    for c in gens:
        steps.append(
            {
                "corpus": c,
                "batch": draw(gen.batch_size()),
                "positions": draw(st.booleans()),
                "edits": draw(
                    st.lists(
                        st.tuples(
                            st.sampled_from(["init", "create", "merge", "delete", "pinf", "pinc", "refine"]),
                            st.lists(st.integers(0, 60), min_size=1, max_size=4),
                        ),
                        max_size=4,
                    )
                ),
            }
        )
    return {
        "steps": steps,
        "sched": draw(gen.sched()),
        "seed": draw(gen.SEEDS),
        "reopen": draw(st.booleans()),
    }


def edit(idx, op, xs):
    fids = sorted(features(idx))
    cids = idx.cluster_ids
    if op == "init" and fids:
        idx.initialise_clusters(1 + xs[0] % 5, min_docs=xs[-1] % 3)
    elif op == "create" and fids:
        idx.create_cluster_from_features(sorted({fids[x % len(fids)] for x in xs}))
    elif op == "merge" and cids:
        idx.merge_clusters(list(dict.fromkeys(cids[x % len(cids)] for x in xs)))
    elif op == "delete" and cids:
        idx.delete_clusters([cids[xs[0] % len(cids)]])
    elif op == "pinf" and fids:
        idx.pin_features([fids[x % len(fids)] for x in xs], pinned=bool(xs[0] % 3))
    elif op == "pinc" and cids:
        idx.pin_clusters([cids[x % len(cids)] for x in xs], pinned=bool(xs[0] % 3))


def observe(idx, positions, windows=(1, 3)):
    """Everything a user can ask that does not depend on feature ids or document order."""
    out = {}
    ids = doc_id_map(idx)
    key = {i: k for k, i in ids.items()}
    out["keys"] = set(ids)
    live = {(f, v): frozenset(key[d] for d in ds) for f, v, n, ds in features(idx).values() if n}
    for (f, v), ds in live.items():
        expect_eq({key[d] for d in idx[(f, v)]}, set(ds), f"lookup of {(f, v)!r}")
    out["postings"] = live
    out["summary"] = sorted(map(tuple, idx.indexed_field_summary()))
    fields = sorted({f for f, _ in live})
    out["field_docs"] = {
        f: [(v, n, frozenset(key[d] for d in ds)) for v, n, ds in idx.iter_field_docs(f)] for f in fields
    }
    out["positional"] = set(idx.positional_fields)
    if positions:
        fid = feature_ids(idx)
        names = {i: fv for fv, i in fid.items()}
        out["colloc"], out["passages"] = {}, {}
        for f in fields:
            vs = sorted((fv for fv in fid if fv[0] == f), key=lambda t: model.sort_key(t[1]))
            for w in windows:
                for v in vs[:3]:
                    counts, a, b = idx.count_collocations(f, [fid[v]], w)
                    out["colloc"][f, v, w] = (
                        {names[i]: tuple(c) for i, c in counts.items()}, a, b
                    )
                clauses = [[v] for v in vs[:2]]
                if clauses:
                    p = idx.score_passages_dnf(clauses, w)
                    out["passages"][f, w] = {key[d]: sorted(map(tuple, ps)) for d, ps in p.items() if ps}
    return out


def run(case, env):
    d = env.fresh()
    path = os.path.join(d, "i.db")
    idx = open_index(env, path, MemCorpus([]), case["sched"], seed=case["seed"])
    known = {}
    nontrivial = False
    for n, step in enumerate(case["steps"]):
        docs = gen.expand(step["corpus"])
        if case["reopen"]:
            idx.close()
            idx = open_index(env, path, MemCorpus(docs), case["sched"], seed=case["seed"])
        idx.corpus = MemCorpus(docs)
        before_cl, before_fc = model_state(idx)
        before = features(idx)
        idx.index(doc_batch_size=step["batch"], index_positions=step["positions"])

        what = f"after indexing run {n + 1}"
        # against a fresh index
        fresh = open_index(env, os.path.join(d, f"fresh{n}.db"), MemCorpus(docs), case["sched"])
        fresh.index(doc_batch_size=1000, index_positions=step["positions"])
        got, want = observe(idx, step["positions"]), observe(fresh, step["positions"])
        for k in want:
            expect_eq(got[k], want[k], f"{what}: {k} against a fresh index")

        # stable ids, also for features that lost all their documents
        now = features(idx)
        by_key = {(f, v): i for i, (f, v, _, _) in now.items()}
        expect_eq(len(by_key), len(now), f"{what}: features have one id each")
        for i, (f, v, _, _) in before.items():
            expect_eq(by_key.get((f, v)), i, f"{what}: id of the feature {(f, v)!r}")
            expect_eq(idx.lookup_feature_id((f, v)), i, f"{what}: id of the feature {(f, v)!r}")
            expect_eq(set(idx[i]), set(idx[(f, v)]), f"{what}: lookup by id {i}")

        # the model
        cl, fc = model_state(idx)
        expect_eq(
            {f: (c, p) for f, (c, _, p) in fc.items()},
            {f: (c, p) for f, (c, _, p) in before_fc.items()},
            f"{what}: clusters and pins of features",
        )
        expect_eq(
            {c: r[4] for c, r in cl.items()}, {c: r[4] for c, r in before_cl.items()}, f"{what}: clusters and pins"
        )
        check_summaries(idx, what)
        nontrivial |= any(before[f][3] != now[f][3] for f in fc)

        for op, xs in step["edits"]:
            if op == "refine":
                if idx.cluster_ids:
                    idx.refine_clusters(iterations=1 + xs[0] % 2)
            else:
                edit(idx, op, xs)
    return {"nontrivial": nontrivial, "labels": [f"runs{len(case['steps'])}"]}


SUBS = [
    Sub("history", lambda: case_st(gen.corpus(8, 40)), run, quick=2200),
    Sub("large", lambda: case_st(gen.rand_corpus(500, min_docs=150, vocab=200, length=30)), run, quick=6, thorough=200),
]
