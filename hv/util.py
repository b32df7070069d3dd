"""Shared helpers for the property modules. Importing this imports the code under test."""

import os
import sqlite3

from hv import corpora, gen, model, pool
from hv.corpora import MemCorpus  # noqa: F401
from hv.core import Violation, expect, expect_eq, short  # noqa: F401

from pyroaring import AbstractBitMap, BitMap, FrozenBitMap  # noqa: F401

import hyperreal.index
from hyperreal.index import Index
from hyperreal import db_utilities


def open_index(env, path, corpus=None, sched=None, seed=None, pool_obj=None):
    p = pool_obj
    if p is None:
        s = sched or {"workers": 2, "choices": [0]}
        p = pool.SchedPool(s["workers"], s["choices"])
    idx = Index(path, corpus=corpus, pool=p, random_seed=seed)
    env.cleanups.append(lambda: idx.close())
    return idx


def raw(path):
    """A separate plain connection to an index or corpus database."""
    db = sqlite3.connect(path, isolation_level=None, detect_types=sqlite3.PARSE_DECLTYPES)
    return db


def doc_id_map(idx):
    """{corpus key: doc id} as recorded in the index."""
    rows = list(idx.db.execute("select doc_id, doc_key from doc_key"))
    return {k: i for i, k in rows}


def features(idx):
    """{feature_id: (field, value, docs_count, set(doc_ids))}"""
    return {
        r[0]: (r[1], r[2], r[3], set(r[4]))
        for r in idx.db.execute(
            "select feature_id, field, value, docs_count, doc_ids from inverted_index"
        )
    }


def feature_ids(idx, live_only=True):
    """{(field, value): feature_id}"""
    return {
        (f, v): i
        for i, (f, v, n, _) in sorted(features(idx).items())
        if n or not live_only
    }


def clusters(idx):
    """{cluster_id: set(feature_id)} through the public listing."""
    return {c: {f[0] for f in idx.cluster_features(c)} for c in idx.cluster_ids}


def pinned_features(idx):
    return {r[0] for r in idx.db.execute("select feature_id from feature_cluster where pinned")}


def model_state(idx):
    """Everything the model stores, comparable."""
    cl = {
        r[0]: (r[1], r[2], r[3], tuple(r[4]) if r[4] is not None else None, bool(r[5]))
        for r in idx.db.execute(
            "select cluster_id, feature_count, docs_count, weight, doc_ids, pinned from cluster"
        )
    }
    fc = {
        r[0]: (r[1], r[2], bool(r[3]))
        for r in idx.db.execute(
            "select feature_id, cluster_id, docs_count, pinned from feature_cluster"
        )
    }
    return cl, fc


def build(env, corpus_case, batch=1000, positions=False, sched=None, seed=None, name="index.db", d=None, pool_obj=None):
    """Index a generated corpus. Returns (idx, docs, ids, path)."""
    docs = gen.expand(corpus_case)
    d = d or env.fresh()
    path = os.path.join(d, name)
    idx = open_index(env, path, corpora.MemCorpus(docs), sched, seed, pool_obj)
    # without positions is the default
    kw = {} if not positions and batch % 2 else {"index_positions": positions}
    idx.index(doc_batch_size=batch, **kw)
    return idx, docs, doc_id_map(idx), path


def pick(xs, i):
    """Element of a list by an unbounded generated index."""
    return xs[i % len(xs)]


def check_summaries(idx, what=""):
    """Stored cluster summaries against the features in each cluster (P09)."""
    feats = features(idx)
    cl, fc = model_state(idx)
    groups = {}
    for f, (c, n, _) in fc.items():
        groups.setdefault(c, set()).add(f)
        expect(f in feats, f"{what}: clustered feature {f} is not in the index")
        expect_eq(n, len(feats[f][3]), f"{what}: document count of feature {f} in its cluster")
        expect_eq(feats[f][2], len(feats[f][3]), f"{what}: document count of feature {f}")
    expect_eq(set(cl), set(groups), f"{what}: listed clusters against clusters with features")
    for c, members in groups.items():
        union = set()
        for f in members:
            union |= feats[f][3]
        expect(cl[c][3] is not None, f"{what}: cluster {c} has no stored document set")
        expect_eq(set(cl[c][3]), union, f"{what}: stored documents of cluster {c}")
        expect_eq(cl[c][1], len(union), f"{what}: stored document count of cluster {c}")
        expect_eq(cl[c][0], len(members), f"{what}: stored feature count of cluster {c}")
