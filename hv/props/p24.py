"""P24: everything observable survives reopening, pickling and storage."""
import concurrent.futures as cf
import json
import os
import pickle
import random
import subprocess
import sys

from hv import pool

# An unpickled index makes its own pool of processes; here that is a schedule-controlled one.
cf.ProcessPoolExecutor = lambda *a, **k: pool.SchedPool(3, _choices)
_choices = [0]

from hypothesis import strategies as st

from hv import editing, gen
from hv.core import VERIF, Sub, expect, expect_eq
from hv.util import (
    BitMap, FrozenBitMap, Index, MemCorpus, check_summaries, db_utilities, features, open_index, raw,
)
from hyperreal.corpus import PlainTextSqliteCorpus

TECHNIQUE = "stateful and round-trip property-based testing (Hypothesis)"
RULE = (
    "Sub-check history: a generated history of 2-9 indexing runs, edits and refinements in which the index object is "
    "handed over by closing and reopening, by pickling or by opening a second object; everything the old object "
    "answered (lookups, features, documents, positional queries, model, pivots, graph) is compared with the new one. "
    "Sub-check sent unpickles the index in another interpreter, plain does the same with a plain text corpus file. "
    "Sub-check bitmaps stores generated sets of 32 bit ids (ranges, sparse, dense, boundary values; BitMap and "
    "FrozenBitMap, optimised or not, copy on write) and reads them back, with unions of generated groups. "
    "Non-trivial: at least one handover of an index with features, or a stored set of more than one id."
)
ASSUMPTIONS = ["The random state of an index object is not part of what it answers."]

NAMES = ["index.db", "in dex.db", "ïndex#1.db", "a?b=c.db", "100%25.db", ".idx", "file:x"]

HAND = st.sampled_from(["reopen", "pickle", "pickle", "second"])
OP = gen.mix(
    st.tuples(HAND, editing.XS),
    st.tuples(HAND, editing.XS),
    editing.op_st(["init", "delf", "delc", "merge", "create", "pinf", "pinc"]),
    editing.op_st(["init", "merge", "create", "pinf", "pinc"]),
    st.tuples(st.just("refine"), editing.XS),
    st.tuples(st.just("index"), editing.XS),
)


def case_st(corpus):
    return st.fixed_dictionaries(
        {
            "corpus": corpus,
            "batch": gen.batch_size(),
            "name": st.sampled_from(NAMES),
            "sched": gen.sched(),
            "positions": gen.mix(st.just(True), st.just(True), st.just(False)),
            "ops": gen.sized(OP, 2, 9),
        }
    )


def plain(x):
    if isinstance(x, (BitMap, FrozenBitMap)):
        return ["ids", list(x)]
    if isinstance(x, (set, frozenset)):
        return ["set", sorted((plain(v) for v in x), key=repr)]
    if isinstance(x, dict):
        return ["map", sorted(([plain(k), plain(v)] for k, v in x.items()), key=repr)]
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def observe(idx, positions):
    """Everything an index object answers, comparable and JSON serialisable."""
    out = {}
    feats = features(idx)
    keys = {(f, v) for f, v, _, _ in feats.values()}
    fields = sorted({f for f, _ in keys})
    query = BitMap([r[0] for r in idx.db.execute("select doc_id from doc_key")])
    out["features"] = sorted(([i, f, v, n, sorted(d)] for i, (f, v, n, d) in feats.items()), key=repr)
    out["lookup"] = sorted(([f, v, plain(idx[(f, v)])] for f, v in keys), key=repr)
    out["by_id"] = [[i, plain(idx.lookup_feature(i)), plain(idx[i])] for i in sorted(feats)]
    out["fields"] = plain(sorted((tuple(r) for r in idx.indexed_field_summary()), key=repr))
    out["iter"] = [[f, plain([list(r) for r in idx.iter_field_docs(f)])] for f in fields]
    out["keys"] = plain(idx.convert_query_to_keys(query))
    out["docs"] = plain(list(idx.docs(query)))
    out["html"] = plain([list(r) for r in idx.render_docs_html(query)])
    out["table"] = plain(list(idx.render_docs_table(query)))
    cids = idx.cluster_ids
    out["clusters"] = plain([cids, sorted(idx.pinned_cluster_ids)])
    out["top"] = plain(idx.top_cluster_features())
    out["cluster_features"] = [plain(list(idx.cluster_features(c))) for c in cids]
    out["cluster_docs"] = [plain(idx.cluster_docs(c)) for c in cids]
    out["next"] = idx.next_cluster_id()
    some = sorted(feats)[:3]
    for f in some:
        out[f"pivot {f}"] = sorted(plain(list(idx.pivot_clusters_by_query(idx[f]))), key=repr) if cids else []
    g = idx.create_cluster_cooccurrence_graph()
    out["graph"] = [
        sorted(([n, plain(dict(d))] for n, d in g.nodes(data=True)), key=repr),
        sorted(([sorted(map(str, (a, b))), plain(dict(d))] for a, b, d in g.edges(data=True)), key=repr),
    ]
    if positions:
        pf = sorted(idx.positional_fields)
        out["positional"] = pf
        for field in pf:
            fs = [i for i in sorted(feats) if feats[i][0] == field and feats[i][2]][:2]
            if fs:
                out[f"passages {field}"] = plain(idx.score_passages_dnf([fs], 3))
                out[f"colloc {field}"] = sorted(plain(list(idx.count_collocations(field, fs, 2))), key=repr)
    if some:
        out["windows"] = sorted(
            plain(list(idx.extract_matching_feature_windows(query, some, 2))), key=repr
        )
    return json.loads(json.dumps(out))


def same(got, want, what):
    expect_eq(sorted(got), sorted(want), f"{what}: answered questions")
    for k in want:
        expect_eq(got[k], want[k], f"{what}: {k}")


def change(idx, op, xs, corpus, case):
    feats = sorted(features(idx))
    cids = idx.cluster_ids
    if op == "refine":
        if cids:
            idx.refine_clusters(iterations=1 + xs[0] % 2, target_clusters=None if xs[-1] % 2 else 1 + xs[-1] % 5)
        return
    if op == "index":
        idx.index(doc_batch_size=1 + xs[0] % 7, index_positions=case["positions"])
        return
    r = editing.resolve(op, xs, feats, cids)
    if r:
        editing.call(idx, r)


def hand_over(idx, op, env, path, corpus, case, what):
    before = observe(idx, case["positions"])
    if op == "reopen":
        idx.close()
        new = open_index(env, path, corpus, case["sched"])
    elif op == "second":
        new = open_index(env, path, corpus, case["sched"])
    else:
        blob = pickle.dumps(idx, protocol=pickle.HIGHEST_PROTOCOL)
        new = pickle.loads(blob)
        env.cleanups.append(new.close)
        expect(new is not idx, "unpickling returned the same object")
        same(observe(idx, case["positions"]), before, f"{what}: the original after pickling it")
        if case["sched"]["workers"] % 2:
            idx.close()
    same(observe(new, case["positions"]), before, what)
    if hasattr(new, "random"):  # unpickled objects are not seeded; the case should replay
        new.random.seed(len(what))
    return new


def run(case, env):
    docs = gen.expand(case["corpus"])
    _choices[:] = case["sched"]["choices"]
    d = env.fresh()
    path = os.path.join(d, case["name"])
    corpus = MemCorpus(docs)
    idx = open_index(env, path, corpus, case["sched"])
    idx.index(doc_batch_size=case["batch"], index_positions=case["positions"])
    hands = 0
    labels = set()
    for n, (op, xs) in enumerate([*case["ops"], ("reopen", [0])]):
        what = f"after step {n + 1} ({op})"
        if op in ("reopen", "pickle", "second"):
            idx = hand_over(idx, op, env, path, corpus, case, what)
            hands += 1
        else:
            before = editing.RefModel.of(idx)
            feats, cids = sorted(features(idx)), idx.cluster_ids
            change(idx, op, xs, corpus, case)
            if op not in ("refine", "index", "init"):
                r = editing.resolve(op, xs, feats, cids)
                if r and r[0] != "create_cluster_from_features":
                    editing.apply_ref(before, r, None, editing.RefModel.of(idx))
                    editing.compare(idx, before, what)
        labels.add(op)
    check_summaries(idx, "at the end")
    return {
        "nontrivial": hands > 1 and bool(features(idx)),
        "labels": sorted(labels) + (["model"] if idx.cluster_ids else []),
    }


def run_sent(case, env):
    docs = gen.expand(case["corpus"])
    _choices[:] = case["sched"]["choices"]
    d = env.fresh()
    path = os.path.join(d, case["name"])
    corpus = MemCorpus(docs)
    idx = open_index(env, path, corpus, case["sched"])
    idx.index(doc_batch_size=case["batch"], index_positions=case["positions"])
    for op, xs in case["ops"]:
        if op not in ("reopen", "pickle", "second"):
            change(idx, op, xs, corpus, case)
    want = observe(idx, case["positions"])
    blob = os.path.join(d, "idx.pickle")
    with open(blob, "wb") as f:
        pickle.dump([idx, case["positions"]], f)
    out = subprocess.run(
        [sys.executable, "-W", "ignore", os.path.join(VERIF, "run.py"), "P24", "--child", blob],
        env={**os.environ, "VERIF_CHILD_HASHSEED": "3"},
        capture_output=True,
        text=True,
        timeout=120,
    )
    expect(out.returncode == 0, f"the unpickled index fails in another process: {out.stderr[-1500:]}")
    same(json.loads(out.stdout.splitlines()[-1]), want, "in another process")
    return {"nontrivial": bool(features(idx)), "labels": ["model"] if idx.cluster_ids else []}


def child(path, env):
    with open(path, "rb") as f:
        idx, positions = pickle.load(f)
    print(json.dumps(observe(idx, positions)))


TEXTS = gen.sized(
    st.lists(
        st.sampled_from(["a", "b", "Cat", "don't", "1.5", "é", "日本", "<i>", "&", "\n", "  ", "\U0001f600", "x"]),
        max_size=8,
    ).map(" ".join),
    0,
    8,
)


def run_plain(case, env):
    _choices[:] = case["sched"]["choices"]
    d = env.fresh()
    cpath, path = os.path.join(d, case["cname"]), os.path.join(d, "i-" + case["name"])
    corpus = PlainTextSqliteCorpus(cpath)
    corpus.replace_docs(case["texts"])
    env.cleanups.append(lambda: corpus.close())
    idx = open_index(env, path, corpus, case["sched"])
    idx.index(doc_batch_size=case["batch"], index_positions=True)
    feats = sorted(features(idx))
    if feats and case["model"]:
        idx.create_cluster_from_features([feats[x % len(feats)] for x in case["model"]])
    for n, how in enumerate(case["how"]):
        before = observe(idx, True)
        keys = list(idx.corpus.keys())
        if how == "reopen":
            idx.corpus.close()
            idx.close()
            new = open_index(env, path, PlainTextSqliteCorpus(cpath), case["sched"])
        else:
            new = pickle.loads(pickle.dumps(idx))
            env.cleanups.append(new.close)
        expect_eq(list(new.corpus.keys()), keys, f"handover {n} ({how}): keys of the corpus")
        same(observe(new, True), before, f"handover {n} ({how})")
        expect_eq(
            sorted(t["text"] for _, _, t in new.docs(BitMap([r[0] for r in new.db.execute("select doc_id from doc_key")]))),
            sorted(case["texts"]),
            f"handover {n} ({how}): documents",
        )
        if how != "reopen":
            new.index(doc_batch_size=case["batch"], index_positions=True)
            same(observe(idx, True), before, f"handover {n} ({how}): the original after reindexing through the copy")
        idx = new
    return {"nontrivial": bool(feats), "labels": list(case["how"])}


# ---------------------------------------------------------------- stored sets

TOP = 2**32
EDGE = [0, 1, 2, 4095, 4096, 65535, 65536, 65537, 131071, 2**31 - 1, 2**31, TOP - 2, TOP - 1]
PIECE = gen.mix(
    st.tuples(st.just("ids"), st.lists(gen.mix(st.sampled_from(EDGE), st.integers(0, TOP - 1), st.integers(0, 300)), max_size=8)),
    st.tuples(st.just("range"), st.tuples(gen.mix(st.sampled_from(EDGE), st.integers(0, TOP - 1), st.integers(0, 70000)),
                                          gen.mix(st.integers(0, 30), st.integers(0, 9000), st.integers(0, 200000)),
                                          st.sampled_from([1, 1, 2, 3, 7, 64])).map(list)),
    st.tuples(st.just("rand"), st.tuples(st.integers(0, 9999), st.sampled_from([10, 300, 4095, 4097, 20000]),
                                         st.sampled_from([65536, 70000, 2**20, TOP])).map(list)),
)
SET = st.fixed_dictionaries(
    {
        "pieces": st.lists(PIECE, max_size=3),
        # members taken out again, by position
        "holes": gen.mix(st.just([]), st.lists(st.integers(0, 300000), max_size=4)),
        "kind": st.sampled_from(["BitMap", "FrozenBitMap", "cow", "optimised", "frozencow"]),
        "group": st.integers(0, 3),
    }
)


def members(s):
    out = set()
    for kind, x in s["pieces"]:
        if kind == "ids":
            out.update(x)
        elif kind == "range":
            start, n, step = x
            out.update(range(start, min(TOP, start + n), step))
        else:
            rnd = random.Random(x[0])
            out.update(rnd.randrange(x[2]) for _ in range(x[1]))
    order = sorted(out) if s.get("holes") else []
    for h in s.get("holes", ()):
        out.discard(order[h % len(order)] if order else None)
    return out


def make(s, ids):
    k = s["kind"]
    if k == "BitMap":
        return BitMap(ids)
    if k == "FrozenBitMap":
        return FrozenBitMap(ids)
    if k == "cow":
        b = BitMap(ids, copy_on_write=True)
        return BitMap(b, copy_on_write=True)
    if k == "frozencow":
        return FrozenBitMap(BitMap(ids, copy_on_write=True))
    b = BitMap(ids)
    b.run_optimize()
    return b


def run_bitmaps(case, env):
    d = env.fresh()
    path = os.path.join(d, "x.db")
    db = db_utilities.connect_sqlite(path)
    env.cleanups.append(lambda: db.close())
    db.execute("create table t(i integer primary key, g, b roaring_bitmap)")
    db.execute("create table u(g, b roaring_bitmap)")
    want = [members(s) for s in case["sets"]]
    for n, (s, ids) in enumerate(zip(case["sets"], want)):
        b = make(s, ids)
        db.execute("insert into t values(?, ?, ?)", [n, s["group"], b])
        expect(isinstance(b, (FrozenBitMap if "rozen" in s["kind"] else BitMap)), "storing changed the type of the set")
        expect(len(b) == len(ids) and set(b) == ids, f"storing set {n} changed it")
    other = db_utilities.connect_sqlite(path)
    env.cleanups.append(lambda: other.close())
    for conn in (db, other):
        rows = list(conn.execute("select i, b from t order by i"))
        expect_eq(len(rows), len(want), "rows")
        for (n, b), ids in zip(rows, want):
            expect(isinstance(b, BitMap), f"set {n} comes back as {type(b).__name__}")
            expect(len(b) == len(ids) and set(b) == ids, f"set {n} ({case['sets'][n]['kind']}) comes back different: {len(b)} of {len(ids)} ids")
            expect(BitMap(ids) == b, f"set {n} does not compare equal to the original")
    db.execute("insert into u select g, roaring_union(b) from t group by g")
    groups = {}
    for s, ids in zip(case["sets"], want):
        groups.setdefault(s["group"], set()).update(ids)
    got = {g: b for g, b in other.execute("select g, b from u")}
    expect_eq(sorted(got), sorted(groups), "groups")
    for g, ids in groups.items():
        expect(set(got[g]) == ids, f"union of group {g}: {len(got[g])} ids, expected {len(ids)}")
    # a stored union takes part in further unions
    if got:
        db.execute("delete from t")
        db.execute("insert into t select null, 0, b from u")
        db.execute("insert into u select 'all', roaring_union(b) from t")
        (b,) = next(other.execute("select b from u where g = 'all'"))
        expect(set(b) == set().union(*groups.values()), "union of the stored unions")
    # one set in place of another
    if want:
        db.execute("update u set b = ? where g = 'all'", [make(case["sets"][0], want[0])])
        (b,) = next(other.execute("select b from u where g = 'all'"))
        expect(set(b) == want[0], "a set replacing another")
    return {
        "nontrivial": any(len(w) > 1 for w in want),
        "labels": sorted({s["kind"] for s in case["sets"]})
        + (["large"] if any(len(w) > 4096 for w in want) else [])
        + (["high"] if any(w and max(w) >= 2**31 for w in want) else []),
    }


SUBS = [
    Sub("history", lambda: case_st(gen.corpus(8, 40)), run, quick=500),
    Sub("sent", lambda: case_st(gen.corpus(8, 40)), run_sent, quick=24, thorough=500),
    Sub(
        "plain",
        lambda: st.fixed_dictionaries(
            {
                "texts": TEXTS,
                "name": st.sampled_from(NAMES),
                "cname": st.sampled_from(["corpus.db", "c o.db", "ü#?.db"]),
                "batch": gen.batch_size(),
                "sched": gen.sched(),
                "model": st.lists(st.integers(0, 50), max_size=4),
                "how": gen.sized(st.sampled_from(["reopen", "pickle"]), 1, 3),
            }
        ),
        run_plain,
        quick=150,
    ),
    Sub("bitmaps", lambda: st.fixed_dictionaries({"sets": gen.sized(SET, 1, 7)}), run_bitmaps, quick=500),
]
