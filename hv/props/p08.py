"""P08: cluster edits against a plain feature-to-cluster mapping."""
import os

from hypothesis import strategies as st

from hv import editing, gen
from hv.core import Sub, expect, expect_eq
from hv.util import Index, MemCorpus, build, features, open_index

TECHNIQUE = "stateful model-based testing (Hypothesis): generated edit histories against a reference mapping"
RULE = (
    "Generated corpus, then a generated history of 1-14 edits (initialise with field and document limits, delete "
    "features/clusters, merge, create, pin/unpin features/clusters, reopen) with generated background completion "
    "order; after every edit the whole model is compared with a dictionary edited the same way. Non-trivial: the "
    "history contains at least 3 edits that changed the model, of at least 2 kinds."
)


ABSENT = ["TEXT", "tex", "no such field", "", "%", "t__t"]


def case_st(corpus, lo, hi):
    return st.fixed_dictionaries(
        {
            "corpus": corpus,
            "sched": gen.sched(),
            "seed": gen.SEEDS,
            "first": st.integers(0, 8),
            "ops": editing.ops_st(lo, hi, editing.BASIC + ["initf", "reopen"]),
        }
    )


def check_init(idx, kw, before_max):
    feats = features(idx)
    fields = kw.get("include_fields")
    want = {
        f for f, (field, _, n, _) in feats.items()
        if n >= kw.get("min_docs", 1) and (not fields or field in fields)
    }
    m = editing.RefModel.of(idx)
    expect_eq(set(m.fc), want, f"features in the model after initialise_clusters({kw})")
    sizes = [len(x) for x in m.clusters().values()]
    n = kw["n_clusters"]
    expect_eq(len(sizes), min(n, len(want)), f"number of clusters after initialise_clusters({kw})")
    if sizes:
        expect(max(sizes) - min(sizes) <= 1, f"cluster sizes {sizes} after initialise_clusters({kw})")
    return m


def run(case, env):
    idx, docs, ids, path = build(env, case["corpus"], sched=case["sched"], seed=case["seed"])
    feats = sorted(features(idx))
    all_fields = sorted({f for f, _, n, _ in features(idx).values()})
    m = editing.RefModel()
    ops = list(case["ops"])
    if case["first"]:
        ops.insert(0, ["init", [case["first"], 1]])
    effective, kinds = 0, set()
    for n, (op, xs) in enumerate(ops):
        what = f"after edit {n + 1} ({op} {xs})"
        if op == "reopen":
            corpus = idx.corpus
            idx.close()
            idx = open_index(env, path, corpus, case["sched"], seed=case["seed"])
            editing.compare(idx, m, what)
            continue
        r = editing.resolve(op, xs, feats, idx.cluster_ids)
        if r is None:
            continue
        if op == "initf" and all_fields:
            # one in eight: a name that no field has
            names = {all_fields[x % len(all_fields)] if x % 8 else ABSENT[x // 8 % len(ABSENT)] for x in xs[:2]}
            r[2]["include_fields"] = sorted(names)
        before = m.copy()
        if r[0] == "create_cluster_from_features":
            top = max(idx.cluster_ids, default=None)
            announced = idx.next_cluster_id()
        result = editing.call(idx, r)
        what = f"after edit {n + 1} ({r})"
        if r[0] == "initialise_clusters":
            new = check_init(idx, r[2], None)
        else:
            new = None
        if r[0] == "create_cluster_from_features":
            expect(isinstance(result, int), f"{what}: returned {result!r}")
            if top is not None:
                expect(result > top, f"{what}: new cluster id {result} is not above the existing {top}")
            expect_eq(result, announced, f"{what}: id announced by next_cluster_id")
        if r[0] == "merge_clusters":
            expect_eq(result, r[1][0][0], f"{what}: returned cluster")
        editing.apply_ref(m, r, result, new)
        editing.compare(idx, m, what)
        if m.key() != before.key():
            effective += 1
            kinds.add(r[0])
    return {"nontrivial": effective >= 3 and len(kinds) >= 2, "labels": sorted(kinds)}


SUBS = [
    Sub("edits", lambda: case_st(gen.corpus(8, 40, min_docs=1), 1, 14), run, quick=2000),
    Sub("long", lambda: case_st(gen.rand_corpus(200, min_docs=50, vocab=300), 20, 50), run, quick=40, thorough=1000),
    Sub("wide", lambda: case_st(gen.rand_corpus(200, min_docs=100, vocab=3000), 2, 6), run, quick=8, thorough=100),
]
