"""P26: a query is answered from a single state of the index, and the next one from the newest."""
import os

from hypothesis import strategies as st

from hv import editing, faults, gen
from hv.core import Sub, Violation, expect, expect_eq, short
from hv.util import AbstractBitMap, BitMap, Index, MemCorpus, doc_id_map, features, open_index, pool

TECHNIQUE = "schedule-controlled interleaving of generated edits at every statement of generated queries (Hypothesis)"
RULE = (
    "Generated corpus and model, one or two edits by another connection (all model edits, refinement, reindexing with "
    "another corpus) and 1-4 queries of several statements. Each query is repeated from a copy, with the edits running completely "
    "at each of its statements; the answer must be that of the index before the edits or after them, the edits must succeed, "
    "and the same query made afterwards on the same object must be answered from the new state. Queries with background "
    "tasks are made before and after the edits. Non-trivial: some "
    "query is answered differently after the edit and has at least 2 statements."
)
ASSUMPTIONS = [
    "Edits during a query with background processes are left out: these read on connections of their own.",
    "Lock waiting is switched off (busy_timeout 0).",
]

READS = ["listing", "listing", "cluster", "features", "sample", "sample", "keys", "field", "iterate", "feature", "windows"]
# with background processes: the edits are made between two queries only
POOLED = ["pivot", "graph", "passages", "collocations", "summary"]


def case_st():
    return st.fixed_dictionaries(
        {
            "corpus": gen.small_corpus(6, mixed=False, min_docs=1),
            "corpus2": gen.small_corpus(6, mixed=False),
            "n": st.integers(1, 5),
            "ops": editing.ops_st(0, 2),
            "edits": gen.sized(editing.op_st(editing.BASIC + ["refine", "index", "index"]), 1, 2),
            "reads": gen.sized(st.tuples(st.sampled_from(READS + READS + POOLED), editing.XS), 1, 4),
            "sched": gen.sched(),
            "seed": gen.SEEDS,
            "skip": st.integers(0, 1000),
        }
    )


def plain(x):
    if isinstance(x, AbstractBitMap):
        return tuple(x)
    if isinstance(x, dict):
        return sorted((k, plain(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    return x


def make_read(name, xs, fids, cids, keys, fields, all_docs):
    """A function of an index."""
    pick = lambda seq: [seq[x % len(seq)] for x in xs] if seq else []
    if name == "listing":
        return lambda idx: idx.top_cluster_features(top_k=xs[0] % 4 if xs[-1] % 2 else 2**62)
    if name == "cluster":
        c = (pick(cids) or [1])[0]
        return lambda idx: idx.cluster_query(c)
    if name == "features":
        chosen = [f if x % 2 else k for x, f, k in zip(xs, pick(fids), pick(keys))]
        return lambda idx: idx.union_bitslice(chosen)
    if name == "feature":
        k = (pick(keys) or [("text", "a")])[0]
        return lambda idx: idx[k]
    if name == "sample":
        per, seed = xs[0] % 3, xs[-1]
        some = sorted(set(pick(cids))) if xs[0] % 4 == 0 else None

        def sample(idx):
            idx.random.seed(seed)
            return idx.structured_doc_sample(docs_per_cluster=per, cluster_ids=some)

        return sample
    if name == "keys":
        docs = BitMap(pick(all_docs))
        return lambda idx: idx.convert_query_to_keys(docs)
    if name == "pivot":
        q = BitMap(pick(all_docs))
        return lambda idx: sorted(idx.pivot_clusters_by_query(q, top_k=1 + xs[0] % 5), key=lambda r: r[0])
    if name == "graph":

        def graph(idx):
            g = idx.create_cluster_cooccurrence_graph(top_k=xs[0] % 3)
            return [sorted((n, sorted(a.items())) for n, a in g.nodes(data=True)), sorted((*sorted(e[:2]), e[2]["weight"]) for e in g.edges(data=True))]

        return graph
    if name == "passages":
        clauses = [[k] for k in pick(keys)[:2]] or [[("text", "a")]]
        return lambda idx: {doc: sorted(ps) for doc, ps in idx.score_passages_dnf(clauses, 1 + xs[0] % 3).items()}
    if name == "summary":
        return lambda idx: [sorted(idx.indexed_field_summary()), sorted(idx.positional_fields), idx.cluster_ids, sorted(idx.pinned_cluster_ids), idx.next_cluster_id()]
    field = (pick(fields) or ["text"])[0]
    if name == "collocations":
        chosen = set(pick(fids))
        return lambda idx: idx.count_collocations(field, chosen, 1 + xs[-1] % 3)
    if name == "windows":
        q = BitMap(pick(all_docs))
        chosen = [f if x % 2 else k for x, f, k in zip(xs, pick(fids), pick(keys))]

        def windows(idx):
            found = idx.extract_matching_feature_windows(q, chosen, 1 + xs[0] % 2)
            return [(key, doc_id, {f: dict(w) for f, w in fs.items()}) for key, doc_id, fs in found]

        return windows
    if name == "iterate":
        return lambda idx: list(idx.iter_field_docs(field, min_docs=1 + xs[-1] % 2))
    queries = {"a": BitMap(pick(all_docs)), "b": BitMap(all_docs)}
    return lambda idx: idx.intersect_queries_with_field(queries, field)


def answer(read, idx):
    """What the user gets, which may be an error."""
    try:
        return plain(read(idx))
    except Exception as e:
        return type(e).__name__


def run(case, env):
    d = env.fresh()
    base, edited, path = (os.path.join(d, n) for n in ("base.db", "edited.db", "i.db"))
    docs, docs2 = gen.expand(case["corpus"]), gen.expand(case["corpus2"])
    idx = open_index(env, base, MemCorpus(docs), case["sched"], seed=1)
    idx.index(doc_batch_size=3, index_positions=True)
    feats = features(idx)
    fids = sorted(feats)
    idx.initialise_clusters(case["n"], min_docs=1)
    for op, xs in case["ops"]:
        r = editing.resolve(op, xs, fids, idx.cluster_ids)
        if r:
            editing.call(idx, r)
    cids = idx.cluster_ids
    keys = [(feats[f][0], feats[f][1]) for f in fids]
    fields = sorted({k[0] for k in keys})
    all_docs = sorted(doc_id_map(idx).values())
    idx.close()

    def edit(idx):
        for op, xs in case["edits"]:
            now = idx.cluster_ids
            if op == "index":
                idx.index(doc_batch_size=1 + xs[0] % 3, index_positions=xs[-1] % 4 > 0)
            elif op == "refine":
                if now:
                    idx.refine_clusters(iterations=1 + xs[0] % 2, target_clusters=1 + xs[-1] % 5)
            else:
                r = editing.resolve(op, xs, fids, now)
                if r:
                    editing.call(idx, r)

    def open_(p, corpus):
        s = case["sched"]
        i = Index(p, corpus=MemCorpus(corpus), pool=pool.SchedPool(s["workers"], s["choices"]), random_seed=case["seed"])
        i.db.execute("pragma busy_timeout=0")
        env.cleanups.append(i.close)
        return i

    faults.copy_db(base, edited)
    writer = open_(edited, docs2)
    edit(writer)
    writer.close()

    nontrivial, labels = False, {e[0] for e in case['edits']}
    for name, rxs in case["reads"]:
        read = make_read(name, rxs, fids, cids, keys, fields, all_docs)
        statements = []
        i = open_(base, docs)
        faults.install(i, lambda n, sql: statements.append(sql))
        before = answer(read, i)
        faults.uninstall(i)
        i.close()
        i = open_(edited, docs)
        after = answer(read, i)
        i.close()
        many = len([s for s in statements if not faults.is_control(s)]) >= 2
        nontrivial |= many and before != after
        if many and before != after:
            labels.add(name)
        if name in POOLED:
            faults.copy_db(base, path)
            reader, writer = open_(path, docs), open_(path, docs2)
            expect_eq(answer(read, reader), before, f"{name} {rxs}")
            edit(writer)
            expect_eq(answer(read, reader), after, f"{name} {rxs}, again after {case['edits']} of another connection")
            edit(reader)
            reader.close()
            writer.close()
            continue
        for k in faults.spread(list(range(len(statements))), 12 if env.tier == "quick" else 60, case["skip"]):
            faults.copy_db(base, path)
            reader, writer = open_(path, docs), open_(path, docs2)
            what = f"{name} {rxs} while {case['edits']} runs before statement {k} ({' '.join(statements[k].split())[:60]})"

            def hook(n, sql):
                if n == k:
                    try:
                        edit(writer)
                    except Exception as e:
                        raise Failed(f"{what}: the edit raised {type(e).__name__}: {e}")

            faults.install(reader, hook)
            try:
                got = plain(read(reader))
            except Failed as e:
                raise Violation(str(e))
            except Exception as e:
                got = type(e).__name__
            faults.uninstall(reader)
            expect(
                got in (before, after),
                f"{what}: got {short(got)}, before the edit {short(before)}, after the edit {short(after)}",
            )
            expect(not reader.db.in_transaction, f"{what}: a transaction was left open")
            expect_eq(answer(read, reader), after, f"{what}: and again, after the edit")
            reader.close()
            writer.close()
    return {"nontrivial": nontrivial, "labels": sorted(labels)}


class Failed(BaseException):
    pass


SUBS = [Sub("reads", case_st, run, quick=600, thorough=12000)]
