"""P14: pivoting and the cluster graph report exact similarities."""
from hypothesis import strategies as st

from hv import editing, gen, model
from hv.core import Sub, expect, expect_eq
from hv.util import BitMap, build, features

RULE = (
    "Generated corpus, model (initialise, edits, refine, reindexing so that some features have no documents) and "
    "schedule; pivots by generated document sets, cluster selections and k, and cluster graphs with generated label "
    "options, are compared with Jaccard similarities of Python sets. Non-trivial: at least 2 clusters share a document "
    "with a query and differ in similarity, or a graph has both connected and unconnected pairs."
)
ASSUMPTIONS = ["Similarities are compared within 1e-12; clusters or features with equal similarity may come in any order."]


def case_st(corpus, nmax=8):
    return st.fixed_dictionaries(
        {
            "corpus": corpus,
            "corpus2": gen.mix(st.none(), st.none(), gen.corpus(6, 30)),
            "sched": gen.sched(),
            "seed": gen.SEEDS,
            "n": st.integers(1, nmax),
            "ops": editing.ops_st(0, 5, ["delf", "delc", "merge", "create", "create"]),
            "pivots": gen.sized(
                st.fixed_dictionaries(
                    {
                        "how": st.sampled_from(["subset", "feature", "cluster", "all", "none"]),
                        "x": st.integers(0, 2**30),
                        "select": st.one_of(st.none(), st.lists(st.integers(0, 30), min_size=1, max_size=5)),
                        "k": st.one_of(st.integers(1, 5), st.integers(1, 50), st.integers(1, 3000)),
                    }
                ),
                1,
                4,
            ),
            "graph": st.tuples(st.integers(0, 6), st.booleans()),
        }
    )


def near(a, b):
    return abs(a - b) <= 1e-12


def run(case, env):
    idx, docs, ids, path = build(env, case["corpus"], sched=case["sched"], seed=case["seed"])
    idx.initialise_clusters(case["n"], min_docs=1)
    fids = sorted(features(idx))
    for op, xs in case["ops"]:
        r = editing.resolve(op, xs, fids, idx.cluster_ids)
        if r:
            editing.call(idx, r)
    if case["corpus2"] is not None:
        from hv.util import MemCorpus, doc_id_map

        docs = gen.expand(case["corpus2"])
        idx.corpus = MemCorpus(docs)
        idx.index()
        ids = doc_id_map(idx)
    feats = features(idx)
    fids = sorted(feats)
    cl = editing.RefModel.of(idx).clusters()
    cdocs = {c: set().union(*(feats[f][3] for f in fs)) for c, fs in cl.items()}
    all_docs = sorted(ids.values())
    nontrivial, labels = False, []
    for q in case["pivots"]:
        x = q["x"]
        if q["how"] == "subset":
            sel = {d for n, d in enumerate(all_docs) if (x >> (n % 30)) & 1}
        elif q["how"] == "feature" and fids:
            sel = feats[fids[x % len(fids)]][3]
        elif q["how"] == "cluster" and cl:
            sel = cdocs[sorted(cl)[x % len(cl)]]
        elif q["how"] == "all":
            sel = set(all_docs)
        else:
            sel = set()
        query = BitMap(sel)
        cids = sorted(cl)
        select = None
        if q["select"] is not None and cids:
            select = list(dict.fromkeys(cids[s % len(cids)] for s in q["select"]))
        k = q["k"]
        what = f"pivot by {short_set(sel)} select {select} top {k}"
        res = list(idx.pivot_clusters_by_query(query, cluster_ids=select, top_k=k))
        want = {c: model.jaccard(sel, cdocs[c]) for c in (select or cids) if sel & cdocs[c]}
        expect_eq(sorted(r[0] for r in res), sorted(want), f"{what}: clusters")
        sims = [r[1] for r in res]
        expect(
            all(a >= b - 1e-12 for a, b in zip(sims, sims[1:])), f"{what}: clusters not in descending order: {sims}"
        )
        for c, sim, fs in res:
            expect(near(sim, want[c]), f"{what}: similarity of cluster {c} is {sim}, expected {want[c]}")
            true = {f: model.jaccard(sel, feats[f][3]) for f in cl[c]}
            top = sorted((v for v in true.values() if v > 0), reverse=True)[:k]
            got = [r[3] for r in fs]
            expect(
                len(got) == len(top) and all(near(a, b) for a, b in zip(got, top)),
                f"{what}: feature similarities of cluster {c} are {got}, expected {top}",
            )
            expect_eq(len({r[0] for r in fs}), len(fs), f"{what}: distinct features of cluster {c}")
            for fid, field, value, score in fs:
                expect(fid in cl[c], f"{what}: feature {fid} is not in cluster {c}")
                expect_eq((field, value), feats[fid][:2], f"{what}: feature {fid}")
                expect(near(score, true[fid]), f"{what}: similarity of {(field, value)!r} is {score}, expected {true[fid]}")
        nontrivial |= len(set(want.values())) >= 2
        labels.append("selected") if select else None

    k, with_field = case["graph"]
    g = idx.create_cluster_cooccurrence_graph(top_k=k, include_field_in_label=with_field)
    expect_eq(sorted(g.nodes), sorted(cl), "nodes of the graph")
    listing = {c: fs for c, _, fs in idx.top_cluster_features(top_k=k)}
    for c in cl:
        expect_eq(g.nodes[c]["document_count"], len(cdocs[c]), f"document count of node {c}")
        label = ", ".join(f"{f}:{v}" if with_field else str(v) for _, f, v, _ in listing[c])
        expect_eq(g.nodes[c]["label"], label, f"label of node {c}")
    want = {
        frozenset((a, b)): model.jaccard(cdocs[a], cdocs[b]) for a in cl for b in cl if a < b and cdocs[a] & cdocs[b]
    }
    got = {frozenset((a, b)): w for a, b, w in g.edges(data="weight")}
    expect_eq(set(got), set(want), "edges of the graph")
    for e in want:
        expect(near(got[e], want[e]), f"weight of edge {sorted(e)} is {got[e]}, expected {want[e]}")
    pairs = len(cl) * (len(cl) - 1) // 2
    return {"nontrivial": nontrivial or 0 < len(want) < pairs, "labels": labels + ["edges"] * bool(want)}


def short_set(s):
    s = sorted(s)
    return s if len(s) < 40 else f"{s[:40]}... ({len(s)})"


SUBS = [
    Sub("pivot", lambda: case_st(gen.corpus(10, 60, min_docs=1)), run, quick=1500),
    Sub("large", lambda: case_st(gen.rand_corpus(600, min_docs=200, vocab=300), 40), run, quick=24, thorough=600),
    Sub("wide", lambda: case_st(gen.rand_corpus(200, min_docs=100, vocab=3000), 700), run, quick=8, thorough=200),
]
