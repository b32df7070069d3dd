"""P27: what needs the documents is refused without a corpus that has them, everything else works without one."""
import csv
import os

from hypothesis import strategies as st

from hv import editing, faults, gen
from hv.core import Sub, expect, expect_eq, short
from hv.util import AbstractBitMap, BitMap, MemCorpus, doc_id_map, features, open_index

import hyperreal.index
from hyperreal.corpus import BaseCorpus
from hyperreal.index import CorpusMissingError, UnsupportedCorpusOperation

TECHNIQUE = "metamorphic property-based testing (Hypothesis): the same history with a corpus of generated abilities and with a full one"
RULE = (
    "Generated corpus, model, and 2-8 operations out of all public queries, edits, renderings, exports and indexing. They are made "
    "on an index without a corpus, or with one that lacks generated abilities (documents, keys, indexing, pages, tables, "
    "the list of table columns; derived from BaseCorpus or not, with a length or without, attributes of the class or the object), and on a copy with all of them. An operation whose "
    "abilities are missing must raise CorpusMissingError or UnsupportedCorpusOperation and change neither index nor "
    "output file, any other must answer as on the copy. Non-trivial: one operation was refused and one that was "
    "not had an answer that is not empty."
)
ASSUMPTIONS = ["Whether an operation is refused when called or when its answer is read is not specified."]

BASE = ["CORPUS_TYPE", "docs", "keys", "index", "close", "__getitem__", "__iter__"]
WEB = ["render_docs_html"]
TABLE = ["render_docs_table", "table_fields"]


class Able:
    """Has the given attributes of a MemCorpus."""

    def __init__(self, docs, names):
        self._state = docs, names

    def __reduce__(self):
        return make, self._state


class AbleBase(BaseCorpus):
    """The same derived from the base class, which brings close, __getitem__ and __iter__."""

    CORPUS_TYPE = "Able"

    def __init__(self, docs, names):
        self.full = MemCorpus(docs)
        self._state = docs, names

    def __reduce__(self):
        return make_base, self._state

    def keys(self):
        return self.full.keys()

    def docs(self, doc_keys=None):
        return self.full.docs(doc_keys)

    def index(self, doc):
        return self.full.index(doc)


_classes = {}


def members(names):
    """The named attributes; len0 and len1 stand for a length of 0 or 1, own_x for x as attribute of the object."""
    body = {}
    for n in names:
        if n in ("CORPUS_TYPE", "table_fields"):
            body[n] = getattr(MemCorpus, n)
        elif n.startswith("own_"):
            pass
        elif n in ("len0", "len1"):
            body["__len__"] = lambda self, n=int(n[3:]): n
        else:
            body[n] = lambda self, *a, _n=n, **k: getattr(self.full, _n)(*a, **k)
    return body


def make(docs, names):
    full = MemCorpus(docs)
    key = tuple(sorted(names))
    if key not in _classes:
        _classes[key] = type("Able_", (Able,), members(names))
    c = _classes[key](docs, names)
    c.full = full
    return own(c, names)


def own(c, names):
    for n in names:
        if n.startswith("own_"):
            setattr(c, n[4:], getattr(MemCorpus, n[4:]))
    return c


def make_base(docs, names):
    key = "base", *sorted(names)
    if key not in _classes:
        _classes[key] = type("AbleBase_", (AbleBase,), members(names))
    return own(_classes[key](docs, names), names)


QUERIES = [
    "docs", "docs", "windows", "concordances", "passage_table", "passage_table", "html", "html", "table", "table", "export", "export",
    "lookup", "keys", "passages", "collocations", "pivot", "graph", "sample", "listing", "cluster", "field", "summary",
]
NEEDS = {
    "docs": "base", "windows": "base", "concordances": "base", "passage_table": "base", "index": "base",
    "html": "web", "table": "table", "export": "table",
}


def case_st():
    abilities = gen.mix(
        st.none(),
        st.fixed_dictionaries(
            {
                "base": st.booleans(),
                "web": st.booleans(),
                "table": st.sampled_from([0, 0, 1, 2, 2]),
                "lost": st.one_of(st.none(), st.none(), st.none(), st.sampled_from(BASE)),
                "len": st.sampled_from([None, None, 0, 1]),
                "own": st.booleans(),
            }
        ),
        st.fixed_dictionaries(
            {
                "base": st.booleans(),
                "web": st.booleans(),
                "table": st.sampled_from([0, 2]),
                "lost": st.none(),
                "len": st.sampled_from([None, None, 0, 1]),
                "own": st.booleans(),
            }
        ),
    )
    op = gen.mix(
        st.tuples(st.sampled_from(QUERIES), editing.XS),
        st.tuples(st.sampled_from(QUERIES), editing.XS),
        st.tuples(st.sampled_from(QUERIES), editing.XS),
        editing.op_st(editing.BASIC + ["refine", "index", "index"]),
    )
    return st.fixed_dictionaries(
        {
            "corpus": gen.small_corpus(7, mixed=False, min_docs=1),
            "n": st.integers(0, 4),
            "able": abilities,
            "ops": gen.sized(op, 2, 8),
            "sched": gen.sched(),
            "seed": gen.SEEDS,
        }
    )


def plain(x):
    if isinstance(x, AbstractBitMap):
        return tuple(x)
    if isinstance(x, dict):
        return sorted(((k, plain(v)) for k, v in x.items()), key=repr)
    if isinstance(x, (set, frozenset)):
        return sorted((plain(y) for y in x), key=repr)
    if isinstance(x, (list, tuple)) or hasattr(x, "__next__"):
        return [plain(y) for y in x]
    return x


def by_doc(rows):
    return sorted((plain(r) for r in rows), key=repr)


def operation(name, xs, feats, cids, ids):
    """A function of an index and a file name, or None."""
    fids = sorted(feats)
    pick = lambda seq: [seq[x % len(seq)] for x in xs] if seq else []
    q = BitMap(pick(ids))
    keys = [feats[f][:2] for f in pick(fids)]
    chosen = [f if x % 2 else feats[f][:2] for x, f in zip(xs, pick(fids))]
    size = xs[0] % 4 if xs[-1] % 3 == 0 else None
    w = 1 + xs[-1] % 3
    if name == "docs":
        return lambda idx, out: by_doc(idx.docs(q))
    if name == "windows":
        return lambda idx, out: by_doc(idx.extract_matching_feature_windows(q, chosen, w, random_sample_size=size))
    if name == "concordances":
        chosen = [k for k in chosen if isinstance((feats[k] if isinstance(k, int) else k)[1], str)]
        return lambda idx, out: by_doc(idx.concordances(q, chosen, w, random_sample_size=size))
    if name == "passage_table":
        if not keys or not isinstance(keys[0][1], str):
            return None

        def table(idx, out):
            scored = idx.score_passages_dnf([[keys[0]]], w)
            return by_doc(idx.render_passages_table({d: sorted(p) for d, p in sorted(scored.items())}, random_sample_size=size))

        return table
    if name == "html":
        return lambda idx, out: by_doc(idx.render_docs_html(q, random_sample_size=size))
    if name == "table":
        return lambda idx, out: by_doc(idx.render_docs_table(q, random_sample_size=size))
    if name == "export":

        def export(idx, out):
            sample, marks = idx.structured_doc_sample(docs_per_cluster=xs[0] % 3)
            idx.export_document_sample(sample, marks, out)
            with open(out, newline="", encoding="utf-8") as f:
                return list(csv.reader(f))

        return export
    if name == "lookup":
        return lambda idx, out: [[idx[k] for k in chosen], [idx.lookup_feature(f) for f in pick(fids)], [idx.lookup_feature_id(k) for k in keys]]
    if name == "keys":
        return lambda idx, out: idx.convert_query_to_keys(q)
    if name == "passages":
        return lambda idx, out: {d: sorted(p) for d, p in idx.score_passages_dnf([[k] for k in keys[:2]], w).items()} if keys else None
    if name == "collocations":
        return lambda idx, out: idx.count_collocations(keys[0][0], set(pick(fids)), w) if keys else None
    if name == "pivot":
        return lambda idx, out: sorted((plain(r) for r in idx.pivot_clusters_by_query(q, top_k=1 + xs[0] % 4)), key=repr)
    if name == "graph":

        def graph(idx, out):
            g = idx.create_cluster_cooccurrence_graph(top_k=xs[0] % 3)
            return [sorted(g.nodes), sorted((*sorted(e[:2]), e[2]["weight"]) for e in g.edges(data=True))]

        return graph
    if name == "sample":
        return lambda idx, out: list(idx.structured_doc_sample(docs_per_cluster=xs[0] % 3))
    if name == "listing":
        return lambda idx, out: [idx.top_cluster_features(top_k=xs[0] % 4), idx.cluster_ids, sorted(idx.pinned_cluster_ids)]
    if name == "cluster":
        c = (pick(cids) or [1])[0]
        return lambda idx, out: [list(idx.cluster_query(c)), idx.cluster_features(c)]
    if name == "field":
        field = feats[fids[xs[0] % len(fids)]][0] if fids else "text"
        return lambda idx, out: [list(idx.iter_field_docs(field)), list(idx.intersect_queries_with_field({"q": q}, field))]
    if name == "summary":
        return lambda idx, out: [sorted(idx.indexed_field_summary()), sorted(idx.positional_fields)]
    if name == "index":
        return lambda idx, out: idx.index(doc_batch_size=1 + xs[0] % 4, index_positions=xs[-1] % 3 > 0)
    if name == "refine":
        return lambda idx, out: idx.refine_clusters(iterations=1 + xs[0] % 2, target_clusters=1 + xs[-1] % 4) if cids else None
    r = editing.resolve(name, xs, fids, cids)
    return (lambda idx, out: editing.call(idx, r)) if r else None


def outcome(op, idx, out):
    try:
        return "answer", plain(op(idx, out))
    except Exception as e:
        return "error", e


def run(case, env):
    d = env.fresh()
    docs = gen.expand(case["corpus"])
    full_path, path = os.path.join(d, "full.db"), os.path.join(d, "i.db")
    full = open_index(env, full_path, MemCorpus(docs), case["sched"], seed=case["seed"])
    full.index(doc_batch_size=3, index_positions=True)
    if case["n"]:
        full.initialise_clusters(case["n"], min_docs=1)
    full.close()
    faults.copy_db(full_path, path)
    a, able = case["able"], {"base": False, "web": False, "table": False}
    corpus = None
    if a is not None:
        names = WEB * a["web"] + TABLE[: a["table"]] + ([] if a["len"] is None else [f"len{a['len']}"])
        if not a["base"]:
            names = [n for n in BASE if n != a["lost"]] + names
        if a["own"]:
            names = [f"own_{n}" if n in ("CORPUS_TYPE", "table_fields") else n for n in names]
        corpus = (make_base if a["base"] else make)(docs, names)
        able["base"] = a["base"] or a["lost"] is None
        able["web"] = able["base"] and a["web"]
        able["table"] = able["base"] and a["table"] == 2
    idx = open_index(env, path, corpus, case["sched"], seed=case["seed"])
    full = open_index(env, full_path, MemCorpus(docs), case["sched"], seed=case["seed"])
    refused, answered, labels, late = False, False, set(), []
    for n, (name, xs) in enumerate(case["ops"]):
        op = operation(name, xs, features(full), full.cluster_ids, sorted(doc_id_map(full).values()))
        if op is None:
            continue
        outs = [os.path.join(d, f"{k}{n}.csv") for k in ("part", "full")]
        need = NEEDS.get(name)
        what = f"{name} {xs}, corpus {a}"
        if need is None or able[need]:
            for i in (idx, full):
                i.random.seed(case["seed"] + n)
            kind, got = outcome(op, idx, outs[0])
            wkind, want = outcome(op, full, outs[1])
            expect_eq(kind, wkind, f"{what}: {short(got)}, with a full corpus {short(want)}")
            if kind == "error":
                expect_eq(type(got), type(want), f"{what}: error")
            else:
                expect_eq(got, want, f"{what}: answer compared with that with a full corpus")
                answered |= bool(got)
        else:
            with open(outs[0], "w") as f:
                f.write("before")
            before = faults.snapshot(path)
            kind, got = outcome(op, idx, outs[0])
            expect(kind == "error", f"{what}: not refused, but answered {short(got)}")
            want = CorpusMissingError if corpus is None else UnsupportedCorpusOperation
            expect(isinstance(got, want), f"{what}: raised {got!r}, expected {want.__name__}")
            expect_eq(faults.diff(before, faults.snapshot(path)), "equal", f"{what}: refused, but the index changed")
            with open(outs[0]) as f:
                expect_eq(f.read(), "before", f"{what}: refused, but the output file changed")
            expect(not idx.db.in_transaction, f"{what}: refused, and a transaction left open")
            refused = True
            labels.add(name)
            late.append((n, name, op))
    # The same object with a corpus at last.
    idx.corpus = MemCorpus(docs)
    for n, name, op in late[-2:]:
        for i in (idx, full):
            i.random.seed(case["seed"] + n)
        (kind, got), (wkind, want) = (outcome(op, i, os.path.join(d, f"{n}{i is idx}.csv")) for i in (idx, full))
        expect_eq((kind, got if kind == "answer" else type(got)), (wkind, want if wkind == "answer" else type(want)), f"{name}, now with a full corpus")
    expect_eq(faults.diff(faults.snapshot(path), faults.snapshot(full_path)), "equal", "index with a partial corpus and with a full one")
    return {"nontrivial": refused and answered, "labels": sorted(labels)}


SUBS = [Sub("abilities", case_st, run, quick=2400)]
