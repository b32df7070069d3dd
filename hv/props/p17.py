"""P17: field summaries, field iteration and intersections."""
from hypothesis import strategies as st

from hv import gen, model
from hv.core import Sub, expect, expect_eq
from hv.util import BitMap, FrozenBitMap, MemCorpus, build, doc_id_map

RULE = (
    "Generated corpora (mixed number/text values, unicode and awkward field names, sequences and sets, empty fields), "
    "indexed once or reindexed with another corpus, with and without positions; the field summary, field iteration with "
    "generated minimum document counts and intersections with generated queries are compared with sets and sorted "
    "values computed from the documents. Non-trivial: a field with at least 3 values and a query sharing some but not "
    "all of its documents."
)


def case_st(corpus, queries=4):
    return st.fixed_dictionaries(
        {
            "corpus": corpus,
            "before": st.one_of(st.none(), gen.corpus(6, 30)),
            "batch": gen.batch_size(),
            "positions": st.booleans(),
            "sched": gen.sched(),
            "min_docs": gen.sized(st.integers(1, 6), 1, 3),
            "queries": gen.sized(st.tuples(st.integers(0, 2**30), st.booleans()), 0, queries),
        }
    )


def run(case, env):
    idx, docs, ids, path = build(
        env, case["before"] or case["corpus"], case["batch"], case["positions"], case["sched"]
    )
    if case["before"]:
        docs = gen.expand(case["corpus"])
        idx.corpus = MemCorpus(docs)
        idx.index(doc_batch_size=case["batch"], index_positions=case["positions"])
        ids = doc_id_map(idx)
    post = model.postings(docs, ids)
    fields = {}
    for (f, v), ds in post.items():
        fields.setdefault(f, {})[v] = ds
    counts = model.position_counts(docs)
    want = {}
    for f, vs in fields.items():
        order = sorted(vs, key=model.sort_key)
        want[f] = (f, len(order), order[0], order[-1], counts[f] if case["positions"] else 0)
    got = [tuple(r) for r in idx.indexed_field_summary()]
    expect_eq(len({r[0] for r in got}), len(got), "each field is listed once")
    expect_eq({r[0]: r for r in got}, want, "field summary")
    expect_eq(
        set(idx.positional_fields), {f for f, r in want.items() if r[4]}, "fields with positions"
    )
    all_docs = sorted(ids.values())
    queries = {}
    for n, (x, frozen) in enumerate(case["queries"]):
        s = [d for i, d in enumerate(all_docs) if (x >> (i % 30)) & 1]
        queries[("q", n) if n % 2 else f"q{n}"] = (FrozenBitMap if frozen else BitMap)(s)
    nontrivial = False
    for f in sorted(fields) + ["missing field"]:
        vs = fields.get(f, {})
        order = sorted(vs, key=model.sort_key)
        for m in [None] + case["min_docs"]:
            rows = list(idx.iter_field_docs(f)) if m is None else list(idx.iter_field_docs(f, min_docs=m))
            expect_eq(
                [(v, n, set(d)) for v, n, d in rows],
                [(v, len(vs[v]), vs[v]) for v in order if len(vs[v]) >= (m or 1)],
                f"values of field {f!r} with at least {m} documents",
            )
            expect_eq([type(r[0]) for r in rows], [type(v) for v in order if len(vs[v]) >= (m or 1)], "types of values")
        values, totals, inter = idx.intersect_queries_with_field(queries, f)
        expect_eq(list(values), order, f"values in the intersection with {f!r}")
        expect_eq(list(totals), [len(vs[v]) for v in order], f"totals in the intersection with {f!r}")
        expect(set(inter) <= set(queries), f"queries in the intersection with {f!r}: {list(inter)}")
        for name, q in queries.items():
            w = [len(vs[v] & set(q)) for v in order]
            expect_eq(list(inter.get(name, [])), w, f"intersection of {name!r} = {sorted(q)} with {f!r}")
            nontrivial |= len(order) >= 3 and 0 < sum(w) < sum(totals)
    return {"nontrivial": nontrivial}


SUBS = [
    Sub("fields", lambda: case_st(gen.corpus(10, 60)), run, quick=2500),
    Sub(
        "large",
        lambda: case_st(gen.rand_corpus(2500, min_docs=600, vocab=1500, length=60), 60),
        run,
        quick=16,
        thorough=300,
    ),
]
