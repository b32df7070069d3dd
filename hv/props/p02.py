"""P02: retrieving a query's documents."""
import html
import os

from hypothesis import strategies as st

from hv import gen
from hv.core import Sub, expect, expect_eq
from hv.util import BitMap, FrozenBitMap, build, raw, pool

RULE = (
    "Generated corpus (all key styles, up to 12 explicit or 300 pseudo-random documents), batch size and "
    "schedule; then generated queries (subsets of the document ids as BitMap or FrozenBitMap, results of feature "
    "lookups) are retrieved through docs, render_docs_html, render_docs_table and convert_query_to_keys with and "
    "without sampling, and compared with the documents given to the corpus. Non-trivial: the index has more "
    "than one document and some query holds some but not all documents."
)


def case_st(corpus):
    return st.fixed_dictionaries(
        {
            "corpus": corpus,
            "batch": gen.batch_size(),
            "sched": gen.sched(),
            "seed": gen.SEEDS,
            "queries": gen.sized(
                st.fixed_dictionaries(
                    {
                        "how": st.sampled_from(["subset", "subset", "slice", "feature", "all", "none"]),
                        "x": st.integers(0, 2**30),
                        "frozen": st.booleans(),
                        "n": st.one_of(st.integers(0, 6), st.integers(0, 400)),
                        "api": st.sampled_from(["html", "table", "bitmap"]),
                    }
                ),
                1,
                4,
            ),
        }
    )


def run(case, env):
    idx, docs, ids, path = build(
        env, case["corpus"], case["batch"], sched=case["sched"], seed=case["seed"]
    )
    corpus = idx.corpus
    rows = list(raw(path).execute("select doc_id, doc_key from doc_key"))
    expect_eq(len(rows), len(docs), "number of documents given an id")
    expect_eq(len({r[0] for r in rows}), len(docs), "distinct document ids")
    expect_eq({r[1] for r in rows}, {k for k, _ in docs}, "document keys")
    for i, k in rows:
        expect(isinstance(i, int) and i >= 0, f"document id {i!r}")
    key_of = {i: k for k, i in ids.items()}
    all_ids = sorted(key_of)
    content = dict(docs)
    tables = sorted({(f, v) for _, d in docs for f, (_, vs) in d.items() for v in vs if v is not None}, key=repr)
    nontrivial = False

    expect_eq(list(idx.docs(BitMap())), [], "documents of the empty query")

    for q in case["queries"]:
        if q["how"] == "all" or not all_ids:
            sel = list(all_ids)
        elif q["how"] == "none":
            sel = []
        elif q["how"] == "slice":
            a, b = q["x"] % len(all_ids), (q["x"] // 1009) % len(all_ids)
            sel = all_ids[min(a, b) : max(a, b) + 1]
        elif q["how"] == "feature" and tables:
            sel = sorted(idx[tables[q["x"] % len(tables)]])
        else:
            sel = [i for n, i in enumerate(all_ids) if (q["x"] >> (n % 30)) & 1]
        query = (FrozenBitMap if q["frozen"] else BitMap)(sel)
        nontrivial |= 0 < len(sel) < len(all_ids)

        keys = idx.convert_query_to_keys(query)
        expect_eq(dict(keys), {key_of[i]: i for i in sel}, "keys of the query")

        got = list(idx.docs(query))
        expect_eq(sorted((i, k) for i, k, _ in got), sorted((i, key_of[i]) for i in sel), "ids and keys from docs()")
        for i, k, doc in got:
            expect_eq(doc, {"key": k, "fields": content[k]}, f"content of document {k!r}")

        got = idx.render_docs_html(query)
        expect_eq(
            sorted(tuple(r) for r in got),
            sorted((i, key_of[i], corpus.render_one(key_of[i])) for i in sel),
            "render_docs_html",
        )
        got = idx.render_docs_table(query)
        expect_eq(
            sorted(((k, r) for k, r in got), key=lambda t: repr(t[0])),
            sorted(((key_of[i], corpus.row_one(key_of[i])) for i in sel), key=lambda t: repr(t[0])),
            "render_docs_table",
        )

        # sampling
        n = q["n"]
        want_n = min(n, len(sel))
        if q["api"] == "html":
            out = [(r[0], r[1], r[2]) for r in idx.render_docs_html(query, random_sample_size=n)]
            for i, k, text in out:
                expect_eq((key_of.get(i), text), (k, corpus.render_one(k)), "sampled document")
            got_ids = [r[0] for r in out]
        elif q["api"] == "table":
            out = list(idx.render_docs_table(query, random_sample_size=n))
            for k, row in out:
                expect_eq(row, corpus.row_one(k), "sampled document row")
            got_ids = [ids[k] for k, _ in out]
        else:
            s = idx.sample_bitmap(query, n)
            got_ids = list(s)
            if isinstance(s, BitMap):
                # the sample may be changed without touching the query
                s.add(2**31)
        expect_eq(len(got_ids), want_n, f"number of documents in a sample of {n} from {len(sel)}")
        expect_eq(len(set(got_ids)), want_n, "distinct documents in the sample")
        expect(set(got_ids) <= set(sel), f"sample {got_ids} is not within the query {sel}")
        expect_eq(list(query), sel, "the query after sampling")
    return {"nontrivial": nontrivial and len(docs) > 1, "labels": [q["how"] for q in case["queries"]]}


BASES = [64, 100, 128, 200, 250, 256, 400, 500, 512, 900, 998, 999, 1000, 1024]


def sizes_st():
    return st.fixed_dictionaries(
        {
            "corpus": st.fixed_dictionaries(
                {
                    "keys": gen.KEYS,
                    "rand": st.fixed_dictionaries(
                        {
                            "seed": st.integers(0, 99), "n": st.integers(2100, 2200), "vocab": st.just(3),
                            "length": st.just(1), "layout": st.just("uniform"),
                        }
                    ),
                }
            ),
            "sizes": gen.sized(st.tuples(st.sampled_from(BASES), st.integers(1, 8), st.sampled_from([-1, 0, 1, 1])), 8, 24),
            "from": st.integers(0, 2000),
        }
    )


def run_sizes(case, env):
    """Queries of sizes near multiples of round numbers, as work done in groups would split them."""
    idx, docs, ids, path = build(env, case["corpus"], 1000)
    key_of = {i: k for k, i in ids.items()}
    content = dict(docs)
    all_ids = sorted(key_of)
    corpus = idx.corpus
    used = set()
    for base, times, d in case["sizes"]:
        n = min(base * times + d, len(all_ids))
        start = case["from"] % (len(all_ids) - n + 1)
        sel = all_ids[start : start + n]
        query = BitMap(sel)
        used.add(n)
        expect_eq(dict(idx.convert_query_to_keys(query)), {key_of[i]: i for i in sel}, f"keys of {n} documents")
        got = sorted((i, k, doc["key"], doc["fields"]) for i, k, doc in idx.docs(query))
        expect(got == [(i, key_of[i], key_of[i], content[key_of[i]]) for i in sel], f"docs() of {n} documents")
        got = sorted(tuple(r) for r in idx.render_docs_html(query))
        expect(got == [(i, key_of[i], corpus.render_one(key_of[i])) for i in sel], f"render_docs_html of {n} documents")
        got = sorted((ids[k], r) for k, r in idx.render_docs_table(query))
        expect(got == [(i, corpus.row_one(key_of[i])) for i in sel], f"render_docs_table of {n} documents")
    return {"nontrivial": len(used) > 3, "labels": ["sizes"]}


SUBS = [
    Sub("sizes", sizes_st, run_sizes, quick=16, thorough=600),
    Sub("retrieve", lambda: case_st(gen.corpus(12, 300)), run, quick=2500),
    Sub("many", lambda: case_st(gen.rand_corpus(4000, min_docs=1500, length=3)), run, quick=8, thorough=400),
]
