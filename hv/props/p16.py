"""P16: structured samples and their CSV export."""
import csv
import os

from hypothesis import strategies as st

from hv import editing, gen
from hv.core import Sub, expect, expect_eq
from hv.corpora import RowCorpus
from hv.util import build, features, open_index, raw, doc_id_map

RULE = (
    "Generated corpora and models with overlapping clusters (edits, pins, merges), sample sizes including 0 and "
    "cluster selections; samples are checked against the without-replacement rule in frequency order, and the exported "
    "CSV, holding generated awkward texts (quotes, separators, line breaks, unicode), is read back. Non-trivial: at "
    "least 2 clusters overlap within the sample and at least one sample was limited."
)

TEXT = st.one_of(
    st.sampled_from(["", " ", "plain", 'qu"ote', "a,b", "x;y", "line\nbreak", "cr\rhere", "crlf\r\nend", "tab\t", "'", '""', "=1+1", "日本\U0001f600", "\u2028", "0", "None"]),
    st.text(st.characters(blacklist_categories=["Cs"]), max_size=8),
)


def case_st(corpus, clusters=6, per=40):
    return st.fixed_dictionaries(
        {
            "corpus": corpus,
            "rows": gen.sized(st.tuples(TEXT, st.one_of(TEXT, st.integers(-5, 5))), 1, 6),
            "fields": st.lists(st.sampled_from(["title", "body", "a field", "q\"f"]), min_size=1, max_size=3, unique=True),
            "sched": gen.sched(),
            "seed": gen.SEEDS,
            "n": st.integers(1, clusters),
            "ops": editing.ops_st(0, 4, ["delf", "delc", "merge", "create", "pinf", "pinc"]),
            "per": st.one_of(st.integers(0, 4), st.integers(0, per)),
            "select": st.one_of(st.none(), st.lists(st.integers(0, 30), min_size=1, max_size=4)),
        }
    )


def run(case, env):
    docs = gen.expand(case["corpus"])
    rows = {}
    for n, (k, _) in enumerate(docs):
        a, b = case["rows"][n % len(case["rows"])]
        vals = [a, b, f"{k}"]
        rows[k] = {f: vals[(i + n) % 3] for i, f in enumerate(case["fields"])}
        rows[k]["unlisted"] = "x"
    d = env.fresh()
    path = os.path.join(d, "i.db")
    idx = open_index(env, path, RowCorpus(docs, rows, case["fields"]), case["sched"], case["seed"])
    idx.index(doc_batch_size=7)
    ids = doc_id_map(idx)
    key_of = {i: k for k, i in ids.items()}
    idx.initialise_clusters(case["n"])
    feats = features(idx)
    for op, xs in case["ops"]:
        r = editing.resolve(op, xs, sorted(feats), idx.cluster_ids)
        if r:
            editing.call(idx, r)
    cl = editing.RefModel.of(idx).clusters()
    cdocs = {c: set().union(*(feats[f][3] for f in fs)) for c, fs in cl.items()}
    cids = sorted(cl)
    select = sorted({cids[x % len(cids)] for x in case["select"]}) if case["select"] and cids else None
    per = case["per"]
    samples, covers = idx.structured_doc_sample(docs_per_cluster=per, cluster_ids=select)
    what = f"sample of {per} per cluster of {cdocs} selected {select}"
    expect_eq(set(samples), set(select or cids), f"{what}: sampled clusters")
    counts = [len(cdocs[c]) for c in samples]
    expect_eq(counts, sorted(counts), f"{what}: order of the clusters by frequency")
    taken, limited = set(), False
    for c, s in samples.items():
        left = cdocs[c] - taken
        got = set(s)
        expect(got <= left, f"{what}: cluster {c} sampled {got}, only {left} were available")
        expect_eq(len(got), len(left) if per == 0 else min(per, len(left)), f"{what}: sample size of cluster {c}")
        limited |= len(got) < len(left)
        taken |= got
    want = {c: taken & cdocs[c] for c in cids if taken & cdocs[c]}
    expect_eq({c: set(s) for c, s in covers.items() if len(s)}, want, f"{what}: cluster map of the sample")

    out = os.path.join(d, "out.csv")
    idx.export_document_sample(samples, covers, out)
    with open(out, newline="", encoding="utf-8") as f:
        table = list(csv.reader(f))
    fields = case["fields"]
    header = ["doc_key", "sampled_cluster"] + fields + [f"cluster_{c}" for c in sorted(covers)]
    expect_eq(table[0], header, "columns of the CSV")
    sampled_in = {d: c for c, s in samples.items() for d in s}
    got_rows = {}
    for r in table[1:]:
        expect_eq(len(r), len(header), "number of values in a CSV row")
        rec = dict(zip(header, r))
        expect(rec["doc_key"] not in got_rows, f"document {rec['doc_key']} appears twice in the CSV")
        got_rows[rec["doc_key"]] = rec
    want_rows = {}
    for d_, c in sampled_in.items():
        k = key_of[d_]
        rec = {"doc_key": str(k), "sampled_cluster": str(c)}
        for f in fields:
            rec[f] = str(rows[k][f])
        for o in covers:
            rec[f"cluster_{o}"] = "1" if d_ in cdocs[o] else ""
        want_rows[str(k)] = rec
    expect_eq(set(got_rows), set(want_rows), "documents in the CSV")
    for k in want_rows:
        expect_eq(got_rows[k], want_rows[k], f"CSV row of document {k}")
    overlap = any(len([c for c in want if d_ in want[c]]) >= 2 for d_ in taken)
    return {"nontrivial": limited and overlap, "labels": ["limited"] * limited + ["overlap"] * overlap}


SUBS = [
    Sub("sample", lambda: case_st(gen.corpus(10, 60, min_docs=1)), run, quick=2500),
    Sub(
        "large",
        lambda: case_st(gen.rand_corpus(2500, min_docs=600, vocab=300, length=40), 60, 1500),
        run,
        quick=16,
        thorough=300,
    ),
]
