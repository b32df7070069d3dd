"""P01: a feature lookup returns exactly the documents that carry the feature."""
import os

from hypothesis import strategies as st

from hv import gen, model
from hv.core import Sub, expect, expect_eq
from hv.util import BitMap, Index, MemCorpus, open_index, doc_id_map, features, pool

RULE = (
    "Hypothesis generates a corpus (0-10 explicit documents with text/set/number fields, odd values, None, "
    "missing and empty fields, or a pseudo-random corpus of up to 60, 1500 or 70000 documents), batch size, "
    "positions on/off, working directory, worker count and completion order. Every (field, value) of the "
    "corpus, every feature id and several absent keys are looked up and compared with a dictionary built "
    "directly from the documents. Non-trivial: at least 2 batches of documents and at least 2 features with "
    "different non-empty document sets."
)
ASSUMPTIONS = [
    "Worker processes are modelled by an in-process pool with generated completion order (sub-check "
    "realpool uses real spawned processes)."
]


def case_st(corpus, none=True):
    return st.fixed_dictionaries(
        {
            "corpus": corpus,
            "batch": gen.batch_size(),
            "positions": st.booleans(),
            "wd": st.sampled_from([0, 0, 1]),
            "sched": gen.sched(),
        }
    )


def verify(idx, docs, ids):
    want = model.postings(docs, ids)
    feats = features(idx)
    got_keys = {(f, v) for f, v, _, _ in feats.values()}
    expect_eq(got_keys, set(want), "indexed (field, value) pairs")
    expect_eq(len(feats), len(want), "number of features")
    for (f, v), doc_ids in want.items():
        got = idx[(f, v)]
        expect(isinstance(got, BitMap), f"lookup of {(f, v)!r} returned {type(got)}")
        expect_eq(set(got), doc_ids, f"documents of {(f, v)!r}")
        fid = idx.lookup_feature_id((f, v))
        expect_eq(tuple(idx.lookup_feature(fid)), (f, v), f"feature id {fid}")
        expect_eq(type(idx.lookup_feature(fid)[1]), type(v), f"type of value of {fid}")
        expect_eq(set(idx[fid]), doc_ids, f"documents of feature id {fid}")
        expect_eq(feats[fid][2], len(doc_ids), f"document count of {(f, v)!r}")
    for key in [("text", "never"), ("nofield", "a"), ("text", 424242), ("", "")]:
        if key not in want:
            expect_eq(set(idx[key]), set(), f"documents of absent {key!r}")
            try:
                idx.lookup_feature_id(key)
                expect(False, f"absent feature {key!r} has an id")
            except KeyError:
                pass
    absent = max(feats, default=0) + 5
    expect_eq(set(idx[absent]), set(), "documents of an absent feature id")
    try:
        idx.lookup_feature(absent)
        expect(False, "absent feature id has a key")
    except KeyError:
        pass
    return want


def drop_none(docs):
    return [
        (k, {f: [t, [v for v in vs if v is not None] if t in "LT" else vs] for f, (t, vs) in d.items()})
        for k, d in docs
    ]


def run(case, env, pool_obj=None):
    docs = gen.expand(case["corpus"])
    if case["positions"]:
        # positional fields may not hold None
        docs = drop_none(docs)
    d = env.fresh()
    wd = None
    if case["wd"]:
        wd = os.path.join(d, "work")
        os.mkdir(wd)
    idx = open_index(env, os.path.join(d, "i.db"), MemCorpus(docs), case["sched"], pool_obj=pool_obj)
    idx.index(
        doc_batch_size=case["batch"],
        index_positions=case["positions"],
        working_dir=wd,
        workers=case.get("workers"),
    )
    ids = doc_id_map(idx)
    expect_eq(set(ids), {k for k, _ in docs}, "document keys")
    want = verify(idx, docs, ids)
    multi = len(docs) > case["batch"]
    distinct = len({frozenset(x) for x in want.values()})
    return {
        "nontrivial": multi and distinct >= 2,
        "labels": ["multi-batch"] * multi
        + ["positions"] * bool(case["positions"])
        + ["empty-corpus"] * (not docs)
        + ["workdir"] * bool(case["wd"]),
    }


def run_real(case, env):
    with pool.real_manager():
        return run(case, env, pool_obj=pool.real_pool(env))


SUBS = [
    Sub("lookup", lambda: case_st(gen.corpus(none=True)), run, quick=3000),
    Sub("large", lambda: case_st(gen.rand_corpus(1500, min_docs=300, vocab=400, length=60)), run, quick=16, thorough=300),
    Sub(
        "huge",
        lambda: st.fixed_dictionaries(
            {
                "corpus": gen.rand_corpus(70000, min_docs=66000, vocab=5, length=2),
                "batch": st.integers(1000, 40000),
                "positions": st.booleans(),
                "wd": st.just(0),
                "sched": gen.sched(),
            }
        ),
        run,
        quick=2,
        thorough=24,
    ),
    Sub("realpool", lambda: case_st(gen.corpus(none=True)), run_real, quick=24, thorough=400, shards=2),
]
